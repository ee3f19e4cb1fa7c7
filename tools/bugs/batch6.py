LC = "MyCapytain/resources/texts/local/capitains/cts.py"
XM = "MyCapytain/common/utils/xml.py"
exec(open("/verif/tools/bugs/batch4.py").read().split("BUGS = [")[0])
MEET = TEI + '''
import os, sys, threading
HOME = os.path.join(os.getcwd(), "MyCapytain")
def interrupted(first, second):
    """The answers of first() when second() is done, by another thread, at each of its lines in turn"""
    n, out = 0, set()
    while True:
        seen = [0]
        def line(frame, event, arg):
            if event == "line":
                if seen[0] == n:
                    t = threading.Thread(target=second)
                    t.start()
                    t.join()
                seen[0] += 1
            return line
        sys.settrace(lambda frame, event, arg: line if frame.f_code.co_filename.startswith(HOME) else None)
        try:
            got = first()
        except Exception as e:
            got = repr(e)
        finally:
            sys.settrace(None)
        out.add(str(got))
        if seen[0] <= n:
            return out
        n += 1
t = text("".join('<div n="%d">%s</div>' % (i, "".join('<l n="%d">w%d%d </l>' % (j, i, j) for j in (1, 2, 3))) for i in (1, 2, 3)), POEMS)
'''
BUGS = [
 dict(id="c28-loop", property="C28", file=XM,
  edits=[("    loop = False\n    if xpath.startswith(\".//\"):", "    global _LOOP\n    _LOOP = False\n    if xpath.startswith(\".//\"):"),
         ("            loop = True\n    else:", "            _LOOP = True\n    else:"), ("    return result[0], loop\n", "    return result[0], _LOOP\n")],
  needs="two threads reading passages below uncited elements and others", breaks="what one found out about a path is taken for another's",
  demo=MEET + """
u = text('<div n="1"><lg><l n="1">a</l><l n="2">b</l></lg></div><div n="2"><l n="1">c</l></div>', [("poem", B + "/tei:div[@n='$1']"), ("line", B + "/tei:div[@n='$1']//tei:l[@n='$2']")])
words = lambda r: u.getTextualNode(CtsReference(r)).export(Mimetypes.PLAINTEXT)
got = interrupted(lambda: words("1.1"), lambda: words("2.1")) | interrupted(lambda: words("2.1"), lambda: words("1.1"))
assert {x.strip() for x in got} == {"a", "c"}, got
"""),
 dict(id="c28-asked", property="C28", file=LC,
  edits=[("        if len(subreference.start) > self.citation.root.depth:\n            raise CitationDepthError(\"URN is deeper than citation scheme\")\n\n        if simple is True:\n",
          "        self._asked = subreference\n        if len(self._asked.start) > self.citation.root.depth:\n            raise CitationDepthError(\"URN is deeper than citation scheme\")\n\n        subreference = self._asked\n        if simple is True:\n")],
  needs="two threads reading different passages of one text", breaks="one reader is given the passage of the other",
  demo=MEET + """
words = lambda r: t.getTextualNode(CtsReference(r)).export(Mimetypes.PLAINTEXT).strip()
got = interrupted(lambda: words("1.2"), lambda: words("3.1"))
assert got == {"w12"}, got
"""),
 dict(id="c28-window", property="C28", file=LC,
  edits=[("        document_references = self._text.getReffs(level=self.depth)\n\n        range_length = 1\n", "        document_references = self._text._refs = self._text.getReffs(level=self.depth)\n\n        range_length = 1\n"),
         ("        start = document_references.index(self.reference.start)\n\n        if start == 0:", "        document_references = self._text._refs\n        start = document_references.index(self.reference.start)\n\n        if start == 0:")],
  needs="two threads asking for the neighbours of simple passages of different levels", breaks="neighbours are looked for among the references of another level",
  demo=MEET + """
sib = lambda r: [str(x) for x in t.getTextualNode(CtsReference(r), simple=True).siblingsId]
got = interrupted(lambda: sib("1.2"), lambda: sib("2"))
assert got == {"['1.1', '1.3']"}, got
"""),
]
