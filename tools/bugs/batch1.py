CC = "MyCapytain/common/reference/_capitains_cts.py"
BB = "MyCapytain/common/reference/_base.py"
XM = "MyCapytain/common/utils/xml.py"
LC = "MyCapytain/resources/texts/local/capitains/cts.py"
TE = "MyCapytain/resources/texts/base/tei.py"
MD = "MyCapytain/common/metadata.py"
CO = "MyCapytain/resources/prototypes/metadata.py"
IN = "MyCapytain/resources/prototypes/cts/inventory.py"
XC = "MyCapytain/resources/collections/cts.py"
LR = "MyCapytain/resolvers/cts/local.py"
UT = "MyCapytain/resolvers/utils.py"
DB = "MyCapytain/resources/collections/dts/_base.py"
R5 = "MyCapytain/retrievers/cts5.py"
RT = "MyCapytain/resources/texts/remote/cts.py"
D1 = "MyCapytain/common/reference/_dts_1.py"

TEI = '''
from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText
from MyCapytain.common.reference import CtsReference
def text(body, patterns):
    refs = "".join('<cRefPattern n="%s" matchPattern="x" replacementPattern="#xpath(%s)"/>' % p for p in reversed(patterns))
    return CapitainsCtsText(urn="urn:cts:ns:a.b.c", resource='<TEI xmlns="http://www.tei-c.org/ns/1.0"><teiHeader><encodingDesc>'
        '<refsDecl n="CTS">%s</refsDecl></encodingDesc></teiHeader><text><body>%s</body></text></TEI>' % (refs, body))
B = "/tei:TEI/tei:text/tei:body"
'''

BUGS = [
 dict(id="c01-word-counter", property="C01", file=CC,
  edits=[(r'''SUBREFERENCE = re.compile(r"(\w*)\[?([0-9]*)\]?", re.UNICODE)''', r'''SUBREFERENCE = re.compile(r"(\w*)\[?([0-9]?)\]?", re.UNICODE)''')],
  needs="a word sub-reference whose counter has two digits or more", breaks="the counter of foo[12] is read as 1",
  demo='''
from MyCapytain.common.reference import CtsReference
assert CtsReference("1.1@foo[2]").start.subreference.counter == 2
assert CtsReference("1.1@foo[12]").start.subreference.counter == 12
'''),
 dict(id="c01-parent-range-word", property="C01", file=CC,
  edits=[('''                if _start == _end and \\
                        self.start.subreference is None and \\
                        self.end.subreference is None:''', '''                if _start == _end and \\
                        self.start.subreference is None:''')],
  needs="a range inside one parent of which only the end has a word sub-reference", breaks="the parent of 1.1-1.2@foo loses its end",
  demo='''
from MyCapytain.common.reference import CtsReference
assert str(CtsReference("1.1-1.2").parent) == "1"
assert str(CtsReference("1.1-1.2@foo").parent) == "1-1@foo"
'''),
 dict(id="c02-lower-equal", property="C02", file=CC,
  edits=[("        return len(self) < len(other)", "        return len(self) <= len(other)")],
  needs="comparing URNs with the same number of components", breaks="each of two URNs of the same size is lower than the other",
  demo='''
from MyCapytain.common.reference import URN
a, b = URN("urn:cts:ns:a.b"), URN("urn:cts:ns:a.c")
assert not a < b and not a > b
'''),
 dict(id="c02-stale-reference", property="C02", file=CC,
  edits=[('''        self.__urn = None
        if isinstance(value, CtsReference):
            self.__parsed["reference"] = value
        else:
            self.__parsed["reference"] = CtsReference(value)''', '''        if not isinstance(value, CtsReference):
            self.__urn = None
            value = CtsReference(value)
        self.__parsed["reference"] = value''')],
  needs="assigning a CtsReference object (not text) as the passage", breaks="the printed URN keeps the former passage",
  demo='''
from MyCapytain.common.reference import URN, CtsReference
a = URN("urn:cts:ns:a.b.c:1.1")
a.reference = CtsReference("1.2")
assert str(a) == "urn:cts:ns:a.b.c:1.2"
'''),
 dict(id="c03-dts-set-equality", property="C03", file=D1,
  edits=[('''            isinstance(other, DtsReferenceSet) and \\
            self.citation == other.citation''', '''            isinstance(other, DtsReferenceSet) and \\
            (self.citation is None or self.citation == other.citation)''')],
  needs="comparing a set without citation with one that has a citation", breaks="the two are equal one way round",
  demo='''
from MyCapytain.common.reference import DtsReferenceSet, DtsReference, DtsCitation
r = DtsReference("1")
assert not DtsReferenceSet(r) == DtsReferenceSet(r, citation=DtsCitation(name="book"))
'''),
 dict(id="c04-ten-levels", property="C04", file=CC,
  edits=[(r'''REFSDECL_REPLACER = re.compile(r"\$[0-9]+")''', r'''REFSDECL_REPLACER = re.compile(r"\$[0-9]")''')],
  needs="a citation scheme of ten levels", breaks="the XPath and scope of levels ten and deeper keep a stray digit",
  demo='''
from MyCapytain.common.reference import Citation
s = "/tei:TEI" + "".join("/tei:div[@n='$%s']" % i for i in range(1, 10))
c = Citation(name="l", refsDecl=s + "/tei:l[@n='$10']")
assert c.xpath == "/tei:l[@n='?']", c.xpath
'''),
 dict(id="c04-child-root", property="C04", file=CC,
  edits=[('''            if self.is_root():
                val.root = self
            else:
                val.root = self.root''', '''            val.root = self''')],
  needs="a scheme of three levels built by assigning children top down", breaks="the root of the third level is the second",
  demo='''
from MyCapytain.common.reference import Citation
B = "/tei:TEI"
a = Citation(name="a", refsDecl=B + "/tei:div[@n='$1']")
b = Citation(name="b", refsDecl=B + "/tei:div[@n='$1']/tei:div[@n='$2']")
c = Citation(name="c", refsDecl=B + "/tei:div[@n='$1']/tei:div[@n='$2']/tei:l[@n='$3']")
a.child = b
b.child = c
assert c.root is a and c.match("1").name == "a"
'''),
 dict(id="c05-common-prefix", property="C05", file=LC,
  edits=[('''                            if part == reference.end.list[index]:
                                common.append(part)
                            else:
                                break
                        else:
                            break
''', '''                            if part == reference.end.list[index]:
                                common.append(part)
''')],
  needs="listing below a range whose ends lie in different parents but end in the same label", breaks="units of the wrong parent are listed, or none",
  demo=TEI + '''
t = text('<div n="1"><div n="1"><l n="1">a</l><l n="2">b</l></div></div><div n="2"><div n="1"><l n="1">c</l></div></div>',
  [("a", B + "/tei:div[@n='$1']"), ("b", B + "/tei:div[@n='$1']/tei:div[@n='$2']"), ("c", B + "/tei:div[@n='$1']/tei:div[@n='$2']/tei:l[@n='$3']")])
r = t.getReffs(level=3, subreference=CtsReference("1.1-2.1"))
assert [str(x) for x in r] == ["1.1.1", "1.1.2", "2.1.1"], list(map(str, r))
'''),
 dict(id="c07-uncited-between", property="C07", file=XM,
  edits=[('''                elif central and following_siblings:
''', '''                elif central and following_siblings and sibling.tag == result_1.tag:
''')],
  needs="a range over several parents, with an element of another name after the first unit in its parent",
  breaks="what is not of the name of the unit is dropped between the first unit and the end of its parent",
  demo=TEI + '''
t = text('<div n="1"><l n="1">a</l><note>x</note><l n="2">b</l></div><div n="2"><l n="1">c</l></div>',
  [("a", B + "/tei:div[@n='$1']"), ("c", B + "/tei:div[@n='$1']/tei:l[@n='$2']")])
assert t.getTextualNode(CtsReference("1.1-2.1")).export("text/plain").split() == ["a", "x", "b", "c"]
'''),
 dict(id="c08-reffs-cache", property="C08", file=LC,
  edits=[('''        if not subreference and hasattr(self, "reference"):
            subreference = self.reference
        elif subreference and not isinstance(subreference, CtsReference):
            subreference = CtsReference(subreference)

        return self.getValidReff(level=level, reference=subreference)''', '''        if not subreference and hasattr(self, "reference"):
            subreference = self.reference
        elif subreference and not isinstance(subreference, CtsReference):
            subreference = CtsReference(subreference)

        known = self.__dict__.setdefault("_known_reffs", {})
        key = (level, str(subreference.start) if subreference else None)
        if key not in known:
            known[key] = self.getValidReff(level=level, reference=subreference)
        return known[key]''')],
  needs="listing a range after a unit (or another range) with the same start was listed at the same level", breaks="the answer of the former request is given",
  demo=TEI + '''
t = text('<div n="1"><l n="1">a</l></div><div n="2"><l n="1">c</l></div>',
  [("a", B + "/tei:div[@n='$1']"), ("c", B + "/tei:div[@n='$1']/tei:l[@n='$2']")])
assert [str(x) for x in t.getReffs(level=2, subreference=CtsReference("1"))] == ["1.1"]
assert [str(x) for x in t.getReffs(level=2, subreference=CtsReference("1-2"))] == ["1.1", "2.1"]
'''),
 dict(id="c09-next-window", property="C09", file=LC,
  edits=[("        elif end + range_length >= len(document_references):", "        elif end + range_length > len(document_references):")],
  needs="a range after which exactly one unit less than its width remains", breaks="asking for the next reference fails",
  demo=TEI + '''
t = text('<l n="1">a</l><l n="2">b</l><l n="3">c</l>', [("l", B + "/tei:l[@n='$1']")])
assert str(t.getTextualNode(CtsReference("1-2")).nextId) == "3-3"
'''),
 dict(id="c10-exclude-two", property="C10", file=TE,
  edits=[('''                " and ".join(''', '''                " or ".join(''')],
  needs="excluding two kinds of elements at once", breaks="nothing is excluded unless it lies in both",
  demo=TEI + '''
t = text('<l n="1">a<note>x</note><gap>y</gap></l>', [("l", B + "/tei:l[@n='$1']")])
assert t.getTextualNode(CtsReference("1")).export("text/plain", exclude=["tei:note", "tei:gap"]).strip() == "a"
'''),
 dict(id="c11-json-three", property="C11", file=MD,
  edits=[('''                        if isinstance(out[predicate][object.language], str):
                            out[predicate][object.language] = [out[predicate][object.language]]
                        out[predicate][object.language].append(object.title())''', '''                        out[predicate][object.language] = [out[predicate][object.language], object.title()]''')],
  needs="three values of one predicate in one language", breaks="the JSON export nests lists",
  demo='''
from MyCapytain.common.metadata import Metadata
from rdflib.namespace import DC
m = Metadata()
for x in "ABC":
    m.add(DC.subject, x, "eng")
assert sorted(m.export()[str(DC.subject)]["eng"]) == ["A", "B", "C"]
'''),
 dict(id="c12-contains-readable", property="C12", file=CO,
  edits=[("        for obj in self.descendants + [self]:", "        for obj in [self] + self.members + self.readableDescendants:")],
  needs="membership of an item that is neither readable nor directly below", breaks="lookup finds it, membership does not",
  demo='''
from MyCapytain.resources.prototypes.metadata import Collection
a, b, c = Collection("urn:a"), Collection("urn:b"), Collection("urn:c")
b.parent = a
c.parent = b
assert a["urn:c"] is c and "urn:c" in a
'''),
 dict(id="c13-https-literal", property="C13", file=XC,
  edits=[(''' or s_m.startswith("https:") or ''', ''' or ''')],
  needs="structured metadata whose value is an https: URI", breaks="the URI is read as text",
  demo='''
from MyCapytain.resources.collections.cts import XmlCtsTextgroupMetadata
from rdflib import URIRef
g = XmlCtsTextgroupMetadata.parse('<ti:textgroup xmlns:ti="http://chs.harvard.edu/xmlns/cts" xmlns:cpt="http://purl.org/capitains/ns/1.0#" '
  'xmlns:dc="http://purl.org/dc/elements/1.1/" urn="urn:cts:ns:a"><cpt:structured-metadata><dc:source>https://foo.bar/1</dc:source>'
  '</cpt:structured-metadata></ti:textgroup>')
from rdflib.namespace import DC
assert isinstance(g.metadata.get_single(DC.source), URIRef)
'''),
 dict(id="c14-other-namespace", property="C14", file=IN,
  edits=[("        elif str(self.urn) != str(other.urn):", "        elif self.urn.textgroup != other.urn.textgroup:")],
  needs="merging text groups of the same name in different namespaces", breaks="they are merged rather than refused",
  demo='''
from MyCapytain.resources.collections.cts import XmlCtsTextgroupMetadata as G
try:
    G(urn="urn:cts:greek:a").update(G(urn="urn:cts:latin:a"))
except Exception:
    sys.exit(0)
sys.exit(1)
'''),
 dict(id="c15-first-rule", property="C15", file=UT,
  edits=[("        for inventory, method in self.methods[::-1]:", "        for inventory, method in self.methods[1:] + self.methods[:1]:")],
  needs="two dispatching rules that accept the same group", breaks="the first added rule wins rather than the last added",
  demo='''
from MyCapytain.resolvers.utils import CollectionDispatcher
from MyCapytain.resources.prototypes.metadata import Collection
r, a, b, c = [Collection("urn:" + x) for x in "rabc"]
a.parent = r
b.parent = r
d = CollectionDispatcher(r)
d.add(lambda x, **kw: True, "urn:a")
d.add(lambda x, **kw: True, "urn:b")
d.dispatch(c)
assert c.parent is b
'''),
 dict(id="c17-two-steps", property="C17", file=CO,
  edits=[("store.graphiter(self.graph, self.asNode(), ascendants=0, descendants=1)", "store.graphiter(self.graph, self.asNode(), ascendants=0, descendants=2)")],
  needs="a collection with a statement whose object is itself described", breaks="the statements of the other item are exported as its own",
  demo='''
from MyCapytain.resources.prototypes.metadata import Collection
from rdflib.namespace import DCTERMS
a, b = Collection("urn:a"), Collection("urn:b")
a.set_label("A", "eng")
b.set_label("B", "eng")
a.metadata.add(DCTERMS.isPartOf, b.asNode())
a.metadata.add(DCTERMS.subject, "sa", "eng")
b.metadata.add(DCTERMS.subject, "sb", "eng")
o = a.export("application/ld+json:DTS")
assert o["dts:dublincore"]["dct:subject"] == [{"@value": "sa", "@language": "eng"}], o
'''),
 dict(id="c19-level-zero", property="C19", file=R5,
  edits=[("key: str(parameters[key]) for key in parameters if parameters[key] is not None", "key: str(parameters[key]) for key in parameters if parameters[key]")],
  needs="asking for context 0 or level 0", breaks="the parameter is not sent",
  demo='''
from unittest import mock
from MyCapytain.retrievers.cts5 import HttpCtsRetriever
with mock.patch("requests.get") as g:
    g.return_value.encoding = "utf-8"
    HttpCtsRetriever("http://localhost/").getPassage("urn:cts:a:b.c.d:1", context=0)
    assert g.call_args[1]["params"]["context"] == "0", g.call_args
'''),
 dict(id="c20-prev-is-next", property="C20", file=RT,
  edits=[('''prevnext.xpath("ti:prev/ti:urn/text()", namespaces=XPATH_NAMESPACES, smart_strings=False)''',
          '''prevnext.xpath(".//ti:urn[not(parent::ti:next) or not(../preceding-sibling::ti:prev/*)]/text()", namespaces=XPATH_NAMESPACES, smart_strings=False)''')],
  needs="the first passage of a text (no previous one)", breaks="its previous passage is the next one",
  demo='''
from MyCapytain.resources.texts.remote.cts import CtsText
X = '<GetPrevNextUrn xmlns="http://chs.harvard.edu/xmlns/cts"><reply><prevnext><prev>%s</prev><next>%s</next></prevnext></reply></GetPrevNextUrn>'
U = "<urn>urn:cts:a:b.c.d:%s</urn>"
assert CtsText.prevnext(X % (U % 1, U % 3)) == ("1", "3")
assert CtsText.prevnext(X % (U % 1, "")) == ("1", None)
assert CtsText.prevnext(X % ("", U % 2)) == (None, "2")
'''),
]
