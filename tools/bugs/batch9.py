exec(open("/verif/tools/bugs/batch8.py").read().split("BUGS = [")[0])
RC = "MyCapytain/resolvers/cts/api.py"
TC = "MyCapytain/resources/texts/remote/cts.py"
BUGS = [
 dict(id="c06-inside-scheme", property="C06", file=LC,
  edits=[("            text=self,\n            citation=citation_start,\n            reference=subreference", "            text=self,\n            citation=citation_start if self is self.textObject else self.citation,\n            reference=subreference")],
  needs="a unit extracted from a passage of another level", breaks="it carries the level of that passage",
  demo=DOC + '''
p = t.getTextualNode(CtsReference("1")).getTextualNode(CtsReference("1.2"))
assert p.citation.name == "line", p.citation.name
'''),
 dict(id="c06-empty-attribute", property="C06", file=XM,
  edits=[("            attrib=node.attrib,\n            nsmap={None: \"http://www.tei-c.org/ns/1.0\"}\n        )\n    else:", "            attrib={name: value for name, value in node.attrib.items() if value},\n            nsmap={None: \"http://www.tei-c.org/ns/1.0\"}\n        )\n    else:")],
  needs="an ancestor, or the unit, with an attribute whose value is empty", breaks="the attribute is missing",
  demo=DOC.replace('<div n="1">', '<div n="1" rend="">') + '''
assert 'rend=""' in t.getTextualNode(CtsReference("1.2")).export(Mimetypes.XML.Std)
'''),
 dict(id="c06-list-pair", property="C06", file=LC,
  edits=[("subreference = CtsReference(\".\".join(subreference))", "subreference = CtsReference(\".\".join(map(str.strip, subreference))) if len(subreference) < 3 else CtsReference(\".\".join(subreference[-3:]))")],
  needs="a list of four levels", breaks="the first is dropped",
  demo='''
from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText
TEXT = """<TEI xmlns="http://www.tei-c.org/ns/1.0"><teiHeader><encodingDesc><refsDecl n="CTS">
%s</refsDecl></encodingDesc></teiHeader><text><body><div n="1"><div n="2"><div n="3"><l n="4">here</l></div></div></div></body></text></TEI>""" % "".join(
 "<cRefPattern n='l%d' matchPattern='%s' replacementPattern=\\"#xpath(/tei:TEI/tei:text/tei:body%s)\\"/>" % (n, ".".join(["(\\\\w+)"]*n), "".join("/tei:%s[@n='$%d']" % ("l" if i == 4 else "div", i) for i in range(1, n+1))) for n in (4,3,2,1))
t = CapitainsCtsText(resource=TEXT, urn="urn:cts:ns:a.b.c")
p = t.getTextualNode(["1","2","3","4"])
assert str(p.reference) == "1.2.3.4", p.reference
'''),
 dict(id="c08-siblings-shared", property="C08", file=LC,
  edits=[("        if self._prev_next:\n            return self._prev_next\n\n        document_references = self._text.getReffs(level=self.depth)\n\n        if self.reference.is_range():\n            start, end",
          "        if self._prev_next:\n            return self._prev_next\n\n        document_references = getattr(self._text, \"_at\", {}).get(self.reference.start.depth)\n        if document_references is None:\n            document_references = self._text.getReffs(level=self.depth)\n            self._text._at = {self.depth: document_references, len(document_references): document_references}\n\n        if self.reference.is_range():\n            start, end")],
  needs="neighbours asked at one level after they were asked at another that has as many units as the number of the level", breaks="they are looked up among the units of the other level",
  demo=DOC + '''
t.getTextualNode(CtsReference("1")).siblingsId
assert str(t.getTextualNode(CtsReference("1.2")).nextId) == "1.3"
'''),
 dict(id="c08-children-taken", property="C08", file=XM,
  edits=[("                elif central and following_siblings:\n                    new_tree.append(copy(sibling))", "                elif central and following_siblings:\n                    new_tree.append(copy(sibling) if sibling.getnext() is not None else sibling)")],
  needs="a range that begins inside a parent and ends in another", breaks="the last unit of the first parent is gone from the edition",
  demo=DOC + '''
a = [str(r) for r in t.getReffs(level=2)]
t.getTextualNode(CtsReference("1.1-2.1"))
assert [str(r) for r in t.getReffs(level=2)] == a
'''),
 dict(id="c10-deep-exclude", property="C10", file=TE,
  edits=[("not(./ancestor-or-self::{0})", "not(./parent::{0})")],
  needs="markup inside an element that is excluded", breaks="the text of the markup stays",
  demo=DOC.replace("<note>nota</note>", "<note>nota <hi>bene</hi></note>") + '''
assert "bene" not in t.export(Mimetypes.PLAINTEXT, exclude=["tei:note"])
'''),
 dict(id="c10-join-edge", property="C10", file=TE,
  edits=[("                        element\n                        for element\n", "                        element.strip(\"\\n\") if element.isspace() else element\n                        for element\n")],
  needs="text between elements that is only line breaks", breaks="it is lost",
  demo=DOC.replace("</div>\n<div n=\"2\">", "</div>\n\n<div n=\"2\">") + '''
import lxml.etree as E
t = CapitainsCtsText(resource=E.fromstring(TEXT), urn="urn:cts:ns:a.b.c")
assert "\\n" in t.export(Mimetypes.PLAINTEXT)
'''),
 dict(id="c24-metadata-plus", property="C24", file=RC,
  edits=[("            return text.getPassagePlus(reference=subreference)", "            return text.getPassagePlus(reference=str(subreference).split(\"-\")[0] if prevnext else subreference)")],
  needs="a range with its neighbours, through a CTS endpoint", breaks="only its first unit is given",
  demo='''
from MyCapytain.resolvers.cts.api import HttpCtsResolver
from MyCapytain.retrievers.cts5 import HttpCtsRetriever
class R(HttpCtsRetriever):
    def call(self, parameters, **k):
        raise LookupError(parameters["urn"])
try:
    HttpCtsResolver(R("http://localhost")).getTextualNode("urn:cts:ns:a.b.c", "1-2", prevnext=True)
except LookupError as e:
    assert str(e).endswith(":1-2"), e
'''),
 dict(id="c24-catalogue-id", property="C24", file=RC,
  edits=[("return [x for x in [ti] + ti.descendants if x.id == objectId][0]", "return [x for x in ti.descendants + [ti] if x.id.startswith(objectId)][0]")],
  needs="an identifier that is the beginning of another that is listed before it", breaks="the other is given",
  demo='''
from MyCapytain.resolvers.cts.api import HttpCtsResolver
from MyCapytain.retrievers.cts5 import HttpCtsRetriever
class R(HttpCtsRetriever):
    def getCapabilities(self, **k):
        return """<GetCapabilities xmlns="http://chs.harvard.edu/xmlns/cts"><reply><TextInventory tiid="x">
<textgroup urn="urn:cts:ns:a1"><groupname xml:lang="eng">A1</groupname></textgroup><textgroup urn="urn:cts:ns:a"><groupname xml:lang="eng">A</groupname></textgroup></TextInventory></reply></GetCapabilities>"""
assert HttpCtsResolver(R("http://localhost")).getMetadata("urn:cts:ns:a").id == "urn:cts:ns:a"
'''),
 dict(id="c24-passage-level", property="C24", file=TC,
  edits=[("        if level == -1:\n            level = len(self.citation)", "        if level < 0 or level > (len(self.citation) or level):\n            level = len(self.citation)")],
  needs="a level deeper than the scheme, asked of a remote text whose scheme is known", breaks="the deepest level is given",
  demo='''
from MyCapytain.resources.texts.remote.cts import CtsText
from MyCapytain.common.reference import Citation
from MyCapytain.retrievers.cts5 import HttpCtsRetriever
asked = []
class R(HttpCtsRetriever):
    def call(self, parameters, **k):
        asked.append(parameters["level"]); raise LookupError
t = CtsText("urn:cts:ns:a.b.c", R("http://localhost"), citation=Citation(name="line"))
try: t.getReffs(level=3)
except LookupError: pass
assert asked == [3], asked
'''),
]
