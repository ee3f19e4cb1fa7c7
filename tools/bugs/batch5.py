MD = "MyCapytain/common/metadata.py"
PM = "MyCapytain/resources/prototypes/metadata.py"
XM = "MyCapytain/common/utils/xml.py"
GR = "MyCapytain/common/utils/_graph.py"
LC = "MyCapytain/resources/texts/local/capitains/cts.py"
CO = "MyCapytain/common/constants.py"
R5 = "MyCapytain/retrievers/cts5.py"
API = "MyCapytain/resolvers/cts/api.py"
DT = "MyCapytain/retrievers/dts/__init__.py"
DA = "MyCapytain/resolvers/dts/api_v1.py"
IN = "MyCapytain/resources/prototypes/cts/inventory.py"
exec(compile(open("/verif/tools/bugs/batch4.py").read().split("BUGS = [")[0], "b4", "exec"), globals())

STORES = '''
from rdflib import Graph, Literal, URIRef
from MyCapytain.common.constants import bind_graph, get_graph, set_graph, RDF_NAMESPACES, Mimetypes
from MyCapytain.resources.prototypes.metadata import Collection
from MyCapytain.resources.prototypes.cts.inventory import CtsTextgroupMetadata, CtsWorkMetadata
def store():
    g = bind_graph()
    set_graph(g)
    return g
a = store()
'''

BUGS = [
 dict(id="c29-label", property="C29", file=PM,
  edits=[("            (self.asNode(), RDFS.label, Literal(label, lang=lang), self.graph),\n        ])", "            (self.asNode(), RDFS.label, Literal(label, lang=lang), get_graph()),\n        ])\n        get_graph().add((self.asNode(), RDFS.label, Literal(label, lang=lang)))")],
  needs="a label set on a collection after another store was put in use", breaks="the label is also written in the store in use",
  demo=STORES + """
c = Collection("urn:x:1")
b = store()
c.set_label("one", "eng")
assert len(b) == 0, list(b)
"""),
 dict(id="c29-delete", property="C29", file=PM,
  edits=[("        self.graph.remove((item.asNode(), None, None))", "        get_graph().remove((item.asNode(), None, None))")],
  needs="an item deleted while another store that speaks of the same identifier is in use", breaks="the statements of the other store are deleted",
  demo=STORES + """
g1 = CtsTextgroupMetadata("urn:cts:ns:a")
w1 = CtsWorkMetadata("urn:cts:ns:a.b", parent=g1)
b = store()
g2 = CtsTextgroupMetadata("urn:cts:ns:a")
w2 = CtsWorkMetadata("urn:cts:ns:a.b", parent=g2)
w2.set_label("kept", "eng")
before = set(b)
del g1["urn:cts:ns:a.b"]
assert set(b) == before
"""),
 dict(id="c29-ask-label", property="C29", file=PM,
  edits=[("        for obj in self.graph.objects(self.asNode(), RDFS.label):\n            x = obj", "        for obj in get_graph().objects(self.asNode(), RDFS.label):\n            x = obj")],
  needs="a collection asked for its label after another store was put in use", breaks="the label given is that of the store in use",
  demo=STORES + """
c = Collection("urn:x:1")
c.set_label("one", "eng")
store()
assert str(c.get_label("eng")) == "one", c.get_label("eng")
"""),
 dict(id="c29-property-language", property="C29", file=MD,
  edits=[("        self.graph.set((self.asNode(), key, value))", "        (get_graph() if lang else self.graph).set((self.asNode(), key, value))")],
  needs="a value with a language set on metadata while another store is in use", breaks="the statement lands in the store in use",
  demo=STORES + """
from MyCapytain.common.metadata import Metadata
m = Metadata(node=URIRef("urn:x:1"))
store()
m.set(URIRef("http://x/p"), "v", lang="en")
assert len(list(m.get(URIRef("http://x/p")))) == 1
"""),
 dict(id="c29-empty-store", property="C29", file=CO,
  edits=[("    if graph is None:\n        graph = Graph()", "    if not graph:\n        graph = Graph()")],
  needs="binding a graph of the caller that holds nothing yet", breaks="another graph is used than the one given",
  demo="""
from rdflib import Graph
from MyCapytain.common.constants import bind_graph, set_graph
from MyCapytain.resources.prototypes.metadata import Collection
mine = Graph()
set_graph(bind_graph(mine))
Collection("urn:x:1").set_label("one", "eng")
assert len(mine) > 0
"""),
 dict(id="c12-type-twice", property="C12", file=PM,
  edits=[("        self.graph.set((self.asNode(), RDF.type, value))", "        self.graph.add((self.asNode(), RDF.type, value))\n        self.graph.remove((self.asNode(), RDF.type, self.TYPE_URI))")],
  needs="the type of a collection set more than once", breaks="the earlier type stays",
  demo="""
from rdflib import URIRef
from rdflib.namespace import RDF
from MyCapytain.resources.prototypes.metadata import Collection
c = Collection("urn:x:type")
c.type = URIRef("http://x/T")
c.type = URIRef("http://x/U")
assert list(c.graph.objects(c.asNode(), RDF.type)) == [URIRef("http://x/U")]
"""),
 dict(id="c09-last-range", property="C09", file=LC,
  edits=[("_next = \"{}-{}\".format(document_references[end+1], document_references[-1])", "_next = \"{}-{}\".format(document_references[end+1], document_references[-1]) if end + 2 < len(document_references) else str(document_references[-1])")],
  needs="a range with exactly one unit after it", breaks="the next range is no longer a range",
  demo=TEI + """
t = text('<l n="1">a</l><l n="2">b</l><l n="3">c</l>', LINES)
p = t.getTextualNode(CtsReference("1-2"))
assert str(p.nextId) == "3-3", p.nextId
"""),
 dict(id="c20-begins", property="C20", file=API,
  edits=[("if x.id == objectId][0]", "if x.id.startswith(objectId)][0]")],
  needs="a catalogue that lists a text whose name continues that of the text asked for, first", breaks="the metadata of another text",
  demo="""
from MyCapytain.resolvers.cts.api import HttpCtsResolver
from MyCapytain.retrievers.cts5 import HttpCtsRetriever
class Remote(HttpCtsRetriever):
    def __init__(self): pass
    def getCapabilities(self, **kw):
        ed = '<edition urn="urn:cts:ns:a.b.%s"><label xml:lang="eng">%s</label></edition>'
        return ('<GetCapabilities xmlns="http://chs.harvard.edu/xmlns/cts"><reply><TextInventory><textgroup urn="urn:cts:ns:a">'
                '<groupname xml:lang="eng">g</groupname><work urn="urn:cts:ns:a.b" xml:lang="eng"><title xml:lang="eng">w</title>'
                + ed % ("c10", "ten") + ed % ("c1", "one") + '</work></textgroup></TextInventory></reply></GetCapabilities>')
got = HttpCtsResolver(Remote()).getMetadata("urn:cts:ns:a.b.c1")
assert got.id == "urn:cts:ns:a.b.c1", got.id
"""),
 dict(id="c21-same-ends", property="C21", file=DT,
  edits=[("    elif isinstance(ref, tuple):\n        parameters[\"start\"], parameters[\"end\"] = ref", "    elif isinstance(ref, tuple):\n        parameters[\"start\"], parameters[\"end\"] = ref\n        if parameters[\"start\"] == parameters[\"end\"]:\n            parameters[\"ref\"] = parameters.pop(\"start\")\n            parameters.pop(\"end\")")],
  needs="a pair of twice the same reference", breaks="another question is asked",
  demo="""
from MyCapytain.retrievers.dts import _parse_ref_parameters as f
d = {}
f(d, ("1", "1"))
assert d == {"start": "1", "end": "1"}, d
"""),
 dict(id="c25-all-below", property="C25", file=GR,
  edits=[("                if desc == 0 and isinstance(obj, BNode):\n                    continue", "                if desc <= 0 and isinstance(obj, BNode):\n                    continue")],
  needs="everything below a node asked for (no limit), with a node that has no name", breaks="what hangs on the unnamed node is lost",
  demo="""
from rdflib import BNode, Graph, Literal, URIRef
from MyCapytain.common.utils._graph import Subgraph
from MyCapytain.common.constants import get_graph
g, b, n, p = Graph(), BNode(), URIRef("urn:x:n"), URIRef("http://x/p")
g.add((n, p, b))
g.add((b, p, Literal("v")))
s = Subgraph({})
s.graphiter(g, n, ascendants=0, descendants=-1)
assert len(s.graph) == 2, list(s.graph)
"""),
 dict(id="c14-sorted", property="C14", file=IN,
  edits=[("        for urn, work in other.works.items():", "        for urn, work in sorted(other.works.items()):")],
  needs="merging a group whose works are not listed in alphabetical order", breaks="the order of the works is lost",
  demo="""
from MyCapytain.resources.prototypes.cts.inventory import *
g1 = CtsTextgroupMetadata("urn:cts:ns:srt")
g2 = CtsTextgroupMetadata("urn:cts:ns:srt")
for x in "dbca":
    CtsWorkMetadata("urn:cts:ns:srt." + x, parent=g2)
g1.update(g2)
assert [str(x)[-1] for x in g1.works] == list("dbca"), list(g1.works)
"""),
]
