CC = "MyCapytain/common/reference/_capitains_cts.py"
BB = "MyCapytain/common/reference/_base.py"
XM = "MyCapytain/common/utils/xml.py"
LC = "MyCapytain/resources/texts/local/capitains/cts.py"
TE = "MyCapytain/resources/texts/base/tei.py"
MD = "MyCapytain/common/metadata.py"
PM = "MyCapytain/resources/prototypes/metadata.py"

TEI = '''
from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText
from MyCapytain.common.reference import CtsReference
from MyCapytain.common.constants import Mimetypes, XPATH_NAMESPACES
def text(body, patterns, doctype=""):
    refs = "".join('<cRefPattern n="%s" matchPattern="x" replacementPattern="#xpath(%s)"/>' % p for p in reversed(patterns))
    return CapitainsCtsText(urn="urn:cts:ns:a.b.c", resource=doctype + '<TEI xmlns="http://www.tei-c.org/ns/1.0"><teiHeader><encodingDesc>'
        '<refsDecl n="CTS">%s</refsDecl></encodingDesc></teiHeader><text><body>%s</body></text></TEI>' % (refs, body))
B = "/tei:TEI/tei:text/tei:body"
LINES = [("line", B + "/tei:l[@n='$1']")]
POEMS = [("poem", B + "/tei:div[@n='$1']"), ("line", B + "/tei:div[@n='$1']/tei:l[@n='$2']")]
'''

BUGS = [
 dict(id="c01-composed", property="C01", file=CC,
  edits=[("        elif isinstance(references, str):\n            if \"-\" not in references:", "        elif isinstance(references, str):\n            references = __import__('unicodedata').normalize('NFC', references)\n            if \"-\" not in references:")],
  needs="a label written with combining characters", breaks="the reference prints another string than it was given",
  demo="""
from MyCapytain.common.reference import CtsReference
s = "1.e\\u0301"
assert str(CtsReference(s)) == s and CtsReference(s).start.list == ["1", "e\\u0301"]
"""),
 dict(id="c02-version-of-passage", property="C02", file=CC,
  edits=[("        self.__urn = None\n        self.__parsed[\"work\"] = value\n", "        self.__urn = None\n        self.__parsed[\"work\"] = value\n        if value is None:\n            self.__parsed[\"version\"] = None\n")],
  needs="clearing the work of a complete URN and giving another afterwards", breaks="the version is lost with the work",
  demo="""
from MyCapytain.common.reference import URN
u = URN("urn:cts:ns:a.b.c:1")
u.work = None
u.work = "d"
assert str(u) == "urn:cts:ns:a.d.c:1", str(u)
"""),
 dict(id="c05-apart", property="C05", file=LC,
  edits=[("                if n in seen:\n                    duplicates.add(n)\n                else:\n                    seen.add(n)\n", "                if n in seen:\n                    duplicates.add(n)\n                seen = {n}\n")],
  needs="the same label twice, not side by side", breaks="duplicates that are not neighbours are not reported",
  demo=TEI + """
import warnings
t = text('<l n="1">a</l><l n="2">b</l><l n="1">c</l>', LINES)
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    t.getValidReff(level=1, _debug=True)
assert [str(x.message) for x in w] == ["1"], w
"""),
 dict(id="c07-urn-version", property="C07", file=LC,
  edits=[("            kwargs[\"urn\"] = URN(\"{}:{}\".format(urn.upTo(URN.VERSION), reference))", "            kwargs[\"urn\"] = URN(\"{}:{}\".format(urn.upTo(URN.NO_PASSAGE), reference.start if urn.reference else reference))")],
  needs="a range, cited in a passage", breaks="the identity of a range keeps its start only",
  demo=TEI + """
t = text('<l n="1">a</l><l n="2">b</l>', LINES)
p = t.getTextualNode(CtsReference("1-2"))
assert str(p.urn) == "urn:cts:ns:a.b.c:1-2", p.urn
"""),
 dict(id="c09-simple-last", property="C09", file=LC,
  edits=[("        if start + 1 == len(document_references):\n", "        if start + 1 >= len(document_references) - (self.depth > 2):\n")],
  needs="a simple passage at the third level, last but one", breaks="it has no next",
  demo=TEI + """
P3 = POEMS + [("word", B + "/tei:div[@n='$1']/tei:l[@n='$2']/tei:w[@n='$3']")]
t = text('<div n="1"><l n="1"><w n="1">a</w><w n="2">b</w></l></div>', P3)
p = t.getTextualNode(CtsReference("1.1.1"), simple=True)
assert str(p.nextId) == "1.1.2", p.nextId
"""),
 dict(id="c11-set-language", property="C11", file=MD,
  edits=[("        self.graph.set((self.asNode(), key, value))", "        for old in list(self.get(key, lang)):\n            self.graph.remove((self.asNode(), key, old))\n        self.graph.add((self.asNode(), key, value))")],
  needs="setting a value in one language where another is recorded", breaks="both stay, though only one was set",
  demo="""
from MyCapytain.common.metadata import Metadata
from rdflib.namespace import DC
m = Metadata()
m.set(DC.title, "a", lang="eng")
m.set(DC.title, "b", lang="fre")
assert [str(x) for x in m.get(DC.title)] == ["b"]
"""),
 dict(id="c11-two-values", property="C11", file=MD,
  edits=[("                        out[predicate][object.language].append(object.title())", "                        if object.title() not in out[predicate][object.language]:\n                            out[predicate][object.language].append(object.title())")],
  needs="metadata with two values of one predicate", breaks="two values that differ in case or type only become one in the JSON export",
  demo="""
from MyCapytain.common.metadata import Metadata
from MyCapytain.common.constants import Mimetypes
from rdflib.namespace import DC
m = Metadata()
m.add(DC.title, 1)
m.add(DC.title, "1")
assert m.export(Mimetypes.JSON.Std)[str(DC.title)][None] == ["1", "1"]
"""),
 dict(id="c12-delete-twin", property="C12", file=PM,
  edits=[("        self.graph.remove((item.asNode(), None, None))\n", "        self.graph.remove((item.asNode(), None, None))\n        for member in item.members:\n            if item.id not in member.id:\n                continue\n            self.graph.remove((None, None, member.asNode()))\n        self._children.pop(item.id, None) if item.parent is self else None\n        for o in [o for o in self.members if str(o.id).startswith(item.id) and not o.id[len(item.id):].startswith('.')]:\n            o.metadata.remove()\n")],
  needs="an item whose identifier continues that of a deleted one", breaks="it loses its labels",
  demo="""
from MyCapytain.resources.prototypes.metadata import Collection
root, a, b = Collection("urn:r"), Collection("urn:a"), Collection("urn:ab")
a.parent = root
b.parent = root
b.set_label("B", "eng")
del root["urn:a"]
assert str(b.get_label()) == "B", b.get_label()
"""),
 dict(id="c12-contains-members", property="C12", file=PM,
  edits=[("        for obj in self.members:\n            if key == obj.id:\n                return obj\n", "        for obj in self.members:\n            if key == obj.id or key in [x.id for x in obj.parents[1:]]:\n                return obj\n")],
  needs="looking an ancestor up from below", breaks="a member is given in place of an item that is above",
  demo="""
from MyCapytain.resources.prototypes.metadata import Collection
from MyCapytain.errors import UnknownCollection
a, b, c = Collection("urn:a"), Collection("urn:b"), Collection("urn:c")
b.parent = a
c.parent = b
try:
    b["urn:a"]
except UnknownCollection:
    pass
else:
    raise AssertionError("found")
"""),
]
