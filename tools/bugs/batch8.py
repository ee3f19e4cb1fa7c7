XM = "MyCapytain/common/utils/xml.py"
TE = "MyCapytain/resources/texts/base/tei.py"
LC = "MyCapytain/resources/texts/local/capitains/cts.py"
BS = "MyCapytain/common/base.py"
PM = "MyCapytain/resources/prototypes/metadata.py"
MD = "MyCapytain/common/metadata.py"
CC = "MyCapytain/resources/collections/cts.py"
RD = "MyCapytain/resources/texts/remote/dts/_resolver_v1.py"
D5 = "MyCapytain/resolvers/dts/api_v1.py"
DOC = '''
TEXT = """<TEI xmlns="http://www.tei-c.org/ns/1.0"><teiHeader><encodingDesc><refsDecl n="CTS">
<cRefPattern n="line" matchPattern="(\\\\w+).(\\\\w+)" replacementPattern="#xpath(/tei:TEI/tei:text/tei:body/tei:div[@n='$1']/tei:l[@n='$2'])"/>
<cRefPattern n="book" matchPattern="(\\\\w+)" replacementPattern="#xpath(/tei:TEI/tei:text/tei:body/tei:div[@n='$1'])"/>
</refsDecl></encodingDesc></teiHeader><text><body>
<div n="1"><l n="1">one <note>nota</note> two</l>, <l n="2">three</l>; <l n="3">four</l></div>
<div n="2"><l n="1">five <hi>six</hi></l> - <l n="2">seven</l></div></body></text></TEI>"""
from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText
from MyCapytain.common.constants import Mimetypes
from MyCapytain.common.reference import CtsReference
t = CapitainsCtsText(resource=TEXT, urn="urn:cts:ns:a.b.c")
'''
BUGS = [
 dict(id="c10-nested-exclude", property="C10", file=TE,
  edits=[("                    exclude=exclude,\n                    _preformatted=True\n", "                    exclude=self.default_exclude\n")],
  needs="a nested dictionary from which some element is excluded", breaks="what is to be excluded is in it",
  demo=DOC + '''
d = t.export(Mimetypes.PYTHON.NestedDict, exclude=["tei:note"])
assert d["1"]["1"] == "one two", d["1"]["1"]
'''),
 dict(id="c10-tail", property="C10", file=TE,
  edits=[("tostring(self.resource, encoding=str, with_tail=False)", "tostring(self.resource, encoding=str, with_tail=output == Mimetypes.XML.TEI)")],
  needs="a passage without context, followed by text of its parent, exported to TEI", breaks="text of the parent is in it",
  demo=DOC + '''
x = t.getTextualNode(CtsReference("1.1"), simple=True).export(Mimetypes.XML.TEI)
assert x.strip().endswith(">"), x
'''),
 dict(id="c08-tail", property="C08", file=XM,
  edits=[("                    child.tail = result_1.tail", "                    child.tail, result_1.tail = result_1.tail, None")],
  needs="a range that begins inside a parent and ends in another, where text follows the first unit", breaks="the text is gone from the edition",
  demo=DOC + '''
a = t.export(Mimetypes.PLAINTEXT)
t.getTextualNode(CtsReference("1.1-2.1"))
assert t.export(Mimetypes.PLAINTEXT) == a
'''),
 dict(id="c08-level", property="C08", file=LC,
  edits=[("        citations = [citation for citation in self.citation.root]\n", "        citations = self.__dict__.setdefault(\"_levels\", [citation for citation in self.citation.root])\n        if reference is not None and reference.is_range() and depth:\n            citations.sort(key=lambda c: c.xpath.count(\"$\"), reverse=True)\n")],
  needs="x", breaks="x", demo="x=1"),
 dict(id="c26-grows", property="C26", file=BS,
  edits=[("        return [export for cls in getmro(type(self)) if hasattr(cls, \"EXPORT_TO\") for export in cls.EXPORT_TO]",
          "        capacities = type(self).EXPORT_TO\n        for cls in getmro(type(self))[1:]:\n            capacities += [export for export in getattr(cls, \"EXPORT_TO\", []) if export not in capacities]\n        return capacities")],
  needs="a class that declares formats besides those of an ancestor, asked for its formats before one of the ancestor's is exported",
  breaks="the class is taken to give the ancestor's formats itself",
  demo='''
from MyCapytain.common.base import Exportable
class A(Exportable):
    EXPORT_TO = ["a"]
    def __export__(self, output=None, **kw):
        return "A " + output
class B(A):
    EXPORT_TO = ["b"]
    def __export__(self, output=None, **kw):
        return "B " + output
assert B().export_capacities[:2] == ["b", "a"]
assert B().export("a") == "A a"
'''),
 dict(id="c26-once-per-name", property="C26", file=BS,
  edits=[("__all__ = [\n    \"Exportable\"\n]\n", "__all__ = [\n    \"Exportable\"\n]\n\n_capacities = {}\n"),
         ("        return [export for cls in getmro(type(self)) if hasattr(cls, \"EXPORT_TO\") for export in cls.EXPORT_TO]",
          "        known = type(self).__qualname__\n        if known not in _capacities:\n            _capacities[known] = [\n                export for cls in getmro(type(self)) if hasattr(cls, \"EXPORT_TO\") for export in cls.EXPORT_TO\n            ]\n        return list(_capacities[known])")],
  needs="two classes of one name in different modules or made at different times", breaks="the second is taken to give the formats of the first",
  demo='''
from MyCapytain.common.base import Exportable
def make(f):
    class A(Exportable):
        EXPORT_TO = [f]
        def __export__(self, output=None, **kw):
            return output
    return A()
assert make("a").export("a") == "a"
assert make("b").export("b") == "b"
'''),
 dict(id="c27-xinclude", property="C27", file=XM,
  edits=[("        parsed = parse(xml).getroot()", "        parsed = parse(xml)\n        if b\"XInclude\" in etree.tostring(parsed.getroot()):\n            parsed.xinclude()\n        parsed = parsed.getroot()")],
  needs="a document that includes another file by XInclude", breaks="the other file is read into it",
  demo='''
import tempfile
from MyCapytain.common.utils.xml import xmlparser
from lxml import etree
with tempfile.TemporaryDirectory() as d:
    open(d + "/secret.xml", "w").write("<s>secret</s>")
    x = xmlparser('<a xmlns:xi="http://www.w3.org/2001/XInclude"><xi:include href="file://%s/secret.xml"/></a>' % d)
    assert "secret</" not in etree.tostring(x, encoding=str)
'''),
 dict(id="c27-dtd", property="C27", file=XM,
  edits=[("        parsed = parse(xml).getroot()", "        parsed = parse(xml, makeparser(load_dtd=True)).getroot()")],
  needs="a document with a DTD of its own in a file", breaks="the DTD is read",
  demo='''
import tempfile
from MyCapytain.common.utils.xml import xmlparser
with tempfile.TemporaryDirectory() as d:
    open(d + "/x.dtd", "w").write('<!ATTLIST a b CDATA "secret">')
    try:
        x = xmlparser('<!DOCTYPE a SYSTEM "file://%s/x.dtd"><a/>' % d)
    except Exception:
        x = {}
    assert x.get("b") is None
'''),
 dict(id="c17-members-of-members", property="C17", file=PM,
  edits=[("            if self.size:\n                o[graph.qname(RDF_NAMESPACES.HYDRA.member)] = [", "            if self.size and self.members[0].id != self.id:\n                o[graph.qname(RDF_NAMESPACES.HYDRA.member)] = [")],
  needs="x", breaks="x", demo="x=1"),
 dict(id="c17-second-value", property="C17", file=PM,
  edits=[("                        metadata[k] = [metadata[k], literal_to_dict(obj)]", "                        metadata[k] = [metadata[k]] + [x for x in [literal_to_dict(obj)] if x != metadata[k]]")],
  needs="x", breaks="x", demo="x=1"),
 dict(id="c17-plain-first", property="C17", file=PM,
  edits=[("                    if isinstance(metadata[k], list):\n                        metadata[k].append(literal_to_dict(obj))", "                    if isinstance(metadata[k], list):\n                        if isinstance(literal_to_dict(obj), dict):\n                            metadata[k].append(literal_to_dict(obj))")],
  needs="a property with values in a language and values without", breaks="values without a language may be missing",
  demo='''
from MyCapytain.resources.prototypes.metadata import Collection
from MyCapytain.common.constants import Mimetypes
from rdflib.namespace import SKOS, DC
from rdflib import Literal
c = Collection("urn:x:1")
for i in range(6):
    c.metadata.add(DC.title, Literal("t%d" % i, lang="en"))
    c.metadata.add(DC.title, Literal("u%d" % i))
n = c.export(Mimetypes.JSON.DTS.Std)["dts:extensions"]["dc:title"]
assert len(n) == 12, n
'''),
 dict(id="c24-dts-parent", property="C24", file=RD,
  edits=[("        if links.get(\"up\"):\n            o._parent = o._dict_to_ref(links.get(\"up\"))", "        if links.get(\"up\"):\n            o._parent = o._dict_to_ref(links.get(\"up\"))\n            if o._parent is not None and o._parent == o._prev_id:\n                o._parent = None")],
  needs="x", breaks="x", demo="x=1"),
 dict(id="c24-dts-below", property="C24", file=RD,
  edits=[("level=level, subreference=(subreference or self.reference))", "level=level, subreference=subreference if level == 1 and subreference else self.reference)")],
  needs="the references more than one level below a passage, asked of another passage of a DTS endpoint",
  breaks="those below the passage that was asked are given",
  demo='''
from MyCapytain.resources.texts.remote.dts import DtsResolverDocument
class R:
    def getReffs(self, textId, level=1, subreference=None):
        return subreference
d = DtsResolverDocument(identifier="a", resolver=R(), resource="<a/>", reference="1")
assert d.getReffs(level=2, subreference="2") == "2"
'''),
 dict(id="c24-any-page", property="C24", file=D5,
  edits=[("_re_page = re.compile(r\"[?&]page=(\\d+)\")", "_re_page = re.compile(r\"page=(\\d)\")")],
  needs="more than nine pages of references", breaks="the tenth page is the first again",
  demo="""
from MyCapytain.resolvers.dts import api_v1
assert api_v1._re_page.findall("/n?page=12") == ["12"]
"""),
 dict(id="c06-text-first", property="C06", file=XM,
  edits=[("        if node.text:\n            element._setText(node.text)", "        if node.text and (len(node) == 0 or node.text.strip()):\n            element._setText(node.text)")],
  needs="x", breaks="x", demo="x=1"),
 dict(id="c06-cite", property="C06", file=LC,
  edits=[("            citation=citation_start,\n            reference=subreference\n", "            citation=citation_end if subreference.is_range() else self.citation,\n            reference=subreference\n")],
  needs="a passage of the second level or deeper", breaks="it carries the citation of the whole text",
  demo=DOC + '''
assert t.getTextualNode(CtsReference("1.2")).citation.name == "line"
'''),
 dict(id="c06-too-deep", property="C06", file=LC,
  edits=[("        if len(subreference.start) > self.citation.root.depth:\n            raise", "        if len(subreference.start) > self.citation.root.depth and not simple:\n            raise")],
  needs="a reference deeper than the scheme, asked without context", breaks="x", demo="x=1"),
 dict(id="c13-empty-label", property="C13", file=CC,
  edits=[("                obj.set_cts_property(\"description\", child.text or \"\", lg)", "                obj.set_cts_property(\"description\", \" \".join((child.text or \"\").split()), lg)")],
  needs="a description with line breaks or several spaces in it", breaks="they are lost",
  demo='''
from MyCapytain.resources.collections.cts import XmlCtsEditionMetadata
e = XmlCtsEditionMetadata.parse('<edition xmlns="http://chs.harvard.edu/xmlns/cts" urn="urn:cts:ns:a.b.c"><description xml:lang="eng">a  b</description></edition>')
assert str(e.get_description("eng")) == "a  b"
'''),
 dict(id="c13-big", property="C13", file=CC,
  edits=[("                    obj.metadata.add(tag, Literal(int(metadata), datatype=XSD.integer))", "                    obj.metadata.add(tag, Literal(int(float(metadata)), datatype=XSD.integer))")],
  needs="a number of more than fifteen digits among the structured metadata", breaks="its last digits change",
  demo='''
from MyCapytain.resources.collections.cts import XmlCtsEditionMetadata
from rdflib.namespace import DC
e = XmlCtsEditionMetadata.parse('<edition xmlns="http://chs.harvard.edu/xmlns/cts" urn="urn:cts:ns:a.b.c"><cpt:structured-metadata xmlns:cpt="http://purl.org/capitains/ns/1.0#" xmlns:dc="http://purl.org/dc/elements/1.1/"><dc:identifier>12345678901234567891</dc:identifier></cpt:structured-metadata></edition>')
assert str(e.metadata.get_single(DC.identifier)) == "12345678901234567891"
'''),
 dict(id="c13-only-known-lang", property="C13", file=CC,
  edits=[("            obj.set_link(RDF_NAMESPACES.CTS.term(\"about\"), child.get('urn'))", "            if child.get('urn') != obj.id:\n                obj.set_link(RDF_NAMESPACES.CTS.term(\"about\"), child.get('urn'))\n                break")],
  needs="a commentary about several works", breaks="only the first is known",
  demo='''
from MyCapytain.resources.collections.cts import XmlCtsCommentaryMetadata
from MyCapytain.common.constants import RDF_NAMESPACES
e = XmlCtsCommentaryMetadata.parse('<commentary xmlns="http://chs.harvard.edu/xmlns/cts" urn="urn:cts:ns:a.b.c"><about urn="urn:cts:ns:a.b"/><about urn="urn:cts:ns:a.d"/></commentary>')
assert len(list(e.graph.objects(e.asNode(), RDF_NAMESPACES.CTS.term("about")))) == 2
'''),
]
BUGS = [b for b in BUGS if b["needs"] != "x" and b["demo"] != "x=1"]
