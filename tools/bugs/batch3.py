CC = "MyCapytain/common/reference/_capitains_cts.py"
BB = "MyCapytain/common/reference/_base.py"
XM = "MyCapytain/common/utils/xml.py"
LC = "MyCapytain/resources/texts/local/capitains/cts.py"
TE = "MyCapytain/resources/texts/base/tei.py"
IN = "MyCapytain/resources/prototypes/cts/inventory.py"
XC = "MyCapytain/resources/collections/cts.py"
LR = "MyCapytain/resolvers/cts/local.py"
DB = "MyCapytain/resources/collections/dts/_base.py"
DR = "MyCapytain/resources/collections/dts/_resolver.py"
D1 = "MyCapytain/common/reference/_dts_1.py"
RT = "MyCapytain/resources/texts/remote/cts.py"
RR = "MyCapytain/resolvers/dts/api_v1.py"
RD = "MyCapytain/retrievers/dts/__init__.py"
PT = "MyCapytain/resources/prototypes/text.py"
GR = "MyCapytain/common/utils/_graph.py"
BA = "MyCapytain/common/base.py"
HC = "MyCapytain/resolvers/cts/api.py"

TEI = '''
from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText
from MyCapytain.common.reference import CtsReference
from MyCapytain.common.constants import Mimetypes, XPATH_NAMESPACES
def text(body, patterns, doctype=""):
    refs = "".join('<cRefPattern n="%s" matchPattern="x" replacementPattern="#xpath(%s)"/>' % p for p in reversed(patterns))
    return CapitainsCtsText(urn="urn:cts:ns:a.b.c", resource=doctype + '<TEI xmlns="http://www.tei-c.org/ns/1.0"><teiHeader><encodingDesc>'
        '<refsDecl n="CTS">%s</refsDecl></encodingDesc></teiHeader><text><body>%s</body></text></TEI>' % (refs, body))
B = "/tei:TEI/tei:text/tei:body"
'''

CTS = '''
from MyCapytain.retrievers.cts5 import HttpCtsRetriever
from MyCapytain.resolvers.cts.api import HttpCtsResolver
class Fake(HttpCtsRetriever):
    def __init__(self, answers):
        super().__init__("http://localhost/cts")
        self.answers, self.asked = answers, []
    def call(self, parameters):
        self.asked.append({k: v for k, v in parameters.items() if v is not None})
        return self.answers[parameters["request"]]
def reply(request, inner):
    return ('<%s xmlns="http://chs.harvard.edu/xmlns/cts"><request><requestName>%s</requestName></request><reply>%s</reply></%s>'
            % (request, request, inner, request))
PASSAGE = ('<urn>urn:cts:ns:a.b.c:%s</urn><passage><TEI xmlns="http://www.tei-c.org/ns/1.0"><text><body><l n="1">x</l></body></text></TEI>'
           '</passage>')
'''

DTS = '''
import json
import requests
from MyCapytain.resolvers.dts.api_v1 import HttpDtsResolver
asked = []
class Answer:
    def __init__(self, data, status=200):
        self.data, self.status_code, self.headers, self.encoding = data, status, {}, "utf-8"
        self.text = data if isinstance(data, str) else json.dumps(data)
    def json(self):
        return json.loads(self.text)
    def raise_for_status(self):
        if self.status_code >= 400:
            raise requests.HTTPError(str(self.status_code))
def serve(handler):
    def get(url, params=None, headers=None, **kw):
        if url == "http://localhost/dts":
            return Answer({"collections": "/c", "documents": "/d", "navigation": "/n"})
        asked.append((url.rsplit("/", 1)[1], dict(params or {})))
        return handler(*asked[-1])
    requests.get = get
    return HttpDtsResolver("http://localhost/dts")
CONTEXT = {"@vocab": "https://www.w3.org/ns/hydra/core#", "dc": "http://purl.org/dc/terms/", "dts": "https://w3id.org/dts/api#"}
'''


ME = "MyCapytain/common/metadata.py"
GE = "MyCapytain/common/utils/_generic.py"
PM = "MyCapytain/resources/prototypes/metadata.py"
JL = "MyCapytain/common/utils/_json_ld.py"
UD = "MyCapytain/common/utils/dts.py"
HT = "MyCapytain/common/utils/_http.py"
R5 = "MyCapytain/retrievers/cts5.py"
RU = "MyCapytain/resolvers/utils.py"
CT = "MyCapytain/resources/prototypes/cts/text.py"
N = 'xmlns="http://chs.harvard.edu/xmlns/cts"'

FOLDER = """
import tempfile, shutil
from MyCapytain.resolvers.cts.local import CtsCapitainsLocalResolver
from MyCapytain.common.constants import Mimetypes
N = 'xmlns="http://chs.harvard.edu/xmlns/cts"'
def library(d, group, work, texts, levels=1, titles=""):
    w = os.path.join(d, "data", group, work)
    os.makedirs(w)
    open(os.path.join(d, "data", group, "__cts__.xml"), "w").write('<textgroup %s urn="urn:cts:ns:%s"><groupname xml:lang="eng">%s</groupname></textgroup>' % (N, group, group))
    inner = "".join('<%s urn="urn:cts:ns:%s.%s.%s" xml:lang="%s" workUrn="urn:cts:ns:%s.%s"><label xml:lang="eng">%s</label></%s>' % (k, group, work, t, l, group, work, t, k) for t, k, l in texts)
    open(os.path.join(w, "__cts__.xml"), "w").write('<work %s urn="urn:cts:ns:%s.%s" groupUrn="urn:cts:ns:%s" xml:lang="lat"><title xml:lang="eng">%s</title>%s</work>' % (N, group, work, group, work, inner))
    step = ["/tei:div[@n='$%d']" % (i + 1) for i in range(levels)]
    refs = "".join('<cRefPattern n="l%d" matchPattern="x" replacementPattern="#xpath(/tei:TEI/tei:text/tei:body%s)"/>' % (i, "".join(step[:i])) for i in range(levels, 0, -1))
    body = '<div n="1">' * levels + "x" + "</div>" * levels
    for t, _, _ in texts:
        open(os.path.join(w, "%s.%s.%s.xml" % (group, work, t)), "w").write('<TEI xmlns="http://www.tei-c.org/ns/1.0"><teiHeader><encodingDesc><refsDecl n="CTS">%s</refsDecl></encodingDesc></teiHeader><text><body>%s</body></text></TEI>' % (refs, body))
d = tempfile.mkdtemp()
import atexit
atexit.register(shutil.rmtree, d, True)
"""

BUGS = [
 dict(id="c01-word-digits", property="C01", file=CC,
  edits=[("""SUBREFERENCE = re.compile(r"(\\w*)""", """SUBREFERENCE = re.compile(r"([^\\W\\d_]*)""")],
  needs="a word sub-reference whose word holds a digit or an underscore", breaks="the word is cut before it and its counter lost",
  demo="""
from MyCapytain.common.reference import CtsReference
r = CtsReference("1.1@arma2[3]")
assert r.subreference.tuple() == ("arma2", 3), r.subreference.tuple()
"""),
 dict(id="c02-set-same-depth", property="C02", file=CC,
  edits=[("""    @reference.setter
    def reference(self, value):
        self.__urn = None
        if isinstance""", """    @reference.setter
    def reference(self, value):
        if self.reference is None or str(self.reference) not in str(value):
            self.__urn = None
        if isinstance""")],
  needs="assigning a passage whose text holds the text of the one it replaces (1.1 -> 1.10, or 1 -> 1-2)",
  breaks="the printed URN keeps the old passage",
  demo="""
from MyCapytain.common.reference import URN
u = URN("urn:cts:ns:a.b.c:1.1")
u.reference = "1.10"
assert str(u) == "urn:cts:ns:a.b.c:1.10", str(u)
"""),
 dict(id="c03-range-membership", property="C03", file=CC,
  edits=[("""        return BaseReferenceSet.__contains__(self, item) or \\
               BaseReferenceSet.__contains__(self, CtsReference(item))""",
          """        return BaseReferenceSet.__contains__(self, item) or \\
               BaseReferenceSet.__contains__(self, CtsReference((item, None)))""")],
  needs="asking with text whether a set holds a range", breaks="it says no",
  demo="""
from MyCapytain.common.reference import CtsReferenceSet, CtsReference
s = CtsReferenceSet(CtsReference("1"), CtsReference("2-3"))
assert "1" in s and "2-3" in s
"""),
 dict(id="c03-level-zero", property="C03", file=BB,
  edits=[("        return self._level\n", "        return self._level or 1\n")],
  needs="a set of level 0 (the whole text)", breaks="it says level 1",
  demo="""
from MyCapytain.common.reference import CtsReferenceSet, CtsReference
assert CtsReferenceSet(CtsReference("1"), level=0).level == 0
"""),
 dict(id="c05-common-later", property="C05", file=LC,
  edits=[("""                                common.append(part)
                            else:
                                break
                        else:""", """                                common.append(part)
                        else:""")],
  needs="listing under a range across parents whose ends have the same last number (1.2-3.2)",
  breaks="only the units with that number are listed",
  demo=TEI + """
body = "".join('<div n="%d">%s</div>' % (i, "".join('<div n="%d">%s</div>' % (j, "".join('<l n="%d">x</l>' % k for k in (1, 2))) for j in (1, 2))) for i in (1, 2, 3))
t = text(body, [("a", B + "/tei:div[@n='$1']"), ("b", B + "/tei:div[@n='$1']/tei:div[@n='$2']"), ("c", B + "/tei:div[@n='$1']/tei:div[@n='$2']/tei:l[@n='$3']")])
assert len(t.getReffs(level=3, subreference="1.2-3.2")) == 10, list(map(str, t.getReffs(level=3, subreference="1.2-3.2")))
"""),
 dict(id="c11-remove-falsy", property="C11", file=ME,
  edits=[("        self.graph.remove((self.asNode(), predicate, obj))", "        self.graph.remove((self.asNode(), predicate or None, obj or None))")],
  needs="removing one value that is empty, zero or false", breaks="all values of the predicate are removed",
  demo="""
from MyCapytain.common.metadata import Metadata
from rdflib import Literal
from rdflib.namespace import DC
m = Metadata()
m.add(DC.title, "a")
m.add(DC.title, 0)
m.remove(DC.title, Literal(0))
assert [str(x) for x in m.get(DC.title)] == ["a"]
"""),
 dict(id="c11-exclude-prefix", property="C11", file=ME,
  edits=[("not str(namespace) in exclude", "not str(predicate).startswith(tuple(exclude))")],
  needs="excluding a predicate that is the beginning of another one's name", breaks="the other is excluded too",
  demo="""
from MyCapytain.common.metadata import Metadata
from MyCapytain.common.constants import Mimetypes
from rdflib import URIRef
m = Metadata()
m.add(URIRef("http://example.org/ns#title"), "a")
m.add(URIRef("http://example.org/ns#titleLong"), "b")
o = m.export(Mimetypes.JSON.Std, exclude=[URIRef("http://example.org/ns#title")])
assert "http://example.org/ns#titleLong" in o, o
"""),
 dict(id="c12-delete-deep", property="C12", file=PM,
  edits=[("            del item.parents[0].children[item.id]", "            self.children.pop(item.id, None)")],
  needs="deleting an item through an ancestor that is not its parent", breaks="it stays in the tree",
  demo="""
from MyCapytain.resources.prototypes.metadata import Collection
a, b, c = Collection("a"), Collection("b"), Collection("c")
b.parent = a
c.parent = b
del a["c"]
assert "c" not in a
"""),
 dict(id="c13-edition-label-lang", property="C13", file=IN,
  edits=[("""            if lang in x:
                return x[lang]
""", """            for known in x:
                if lang.startswith(known or ""):
                    return x[known]
""")],
  needs="names in a language and in a variant of it (en, en-GB)", breaks="asking for the variant may give the other",
  demo="""
from MyCapytain.resources.collections.cts import XmlCtsWorkMetadata
for a, b in (("en", "en-GB"), ("en-GB", "en")):
    w = XmlCtsWorkMetadata.parse('<work xmlns="http://chs.harvard.edu/xmlns/cts" urn="urn:cts:ns:a.b"><title xml:lang="%s">1%s</title><title xml:lang="%s">1%s</title></work>' % (a, a, b, b))
    for l in (a, b):
        assert str(w.get_cts_property("title", l)) == "1" + l, (l, w.get_cts_property("title", l))
"""),
 dict(id="c15-three-levels", property="C15", file=LR,
  edits=[("""                            child=cites[-1]""", """                            child=cites[0]""")],
  needs="a text with three levels", breaks="the catalogue knows two of them",
  demo=FOLDER + """
library(d, "a", "b", [("c", "edition", "lat")], levels=3)
r = CtsCapitainsLocalResolver([d])
assert len(r.getMetadata("urn:cts:ns:a.b.c").citation) == 3
"""),
 dict(id="c16-inventory-name", property="C16", file=LR,
  edits=[("        if len(set(inv_names)) == 1:", "        if len(inv_names) == 1:")],
  needs="metadata asked for a group or work with several texts", breaks="the inventory among its ancestors has another name",
  demo=FOLDER + """
library(d, "a", "b", [("c", "edition", "lat"), ("d", "edition", "lat")])
r = CtsCapitainsLocalResolver([d])
assert r.getMetadata("urn:cts:ns:a.b").parents[-1].id == r.getMetadata("urn:cts:ns:a.b.c").parents[-1].id == "default", r.getMetadata("urn:cts:ns:a.b").parents
"""),
 dict(id="c18-second-structure", property="C18", file=BB,
  edits=[("""            return max([child.depth for child in self.children])""", """            return max(len(child) for child in self.children) + 1""")],
  needs="a citation structure with several types side by side below another", breaks="its depth counts them all",
  demo="""
from MyCapytain.common.reference import DtsCitation, DtsCitationSet
s = DtsCitationSet(children=[DtsCitation("a", children=[DtsCitation("b"), DtsCitation("c")])])
assert s.depth == 2, s.depth
"""),
 dict(id="c19-context-zero", property="C19", file=R5,
  edits=[("""            "urn": urn,
            "context": context,
            "request": "GetPassagePlus\"""", """            "urn": urn,
            "context": context or None,
            "request": "GetPassagePlus\"""")],
  needs="a passage with information asked with a context of 0", breaks="the context is not sent",
  demo="""
from MyCapytain.retrievers.cts5 import HttpCtsRetriever
import requests
seen = []
class A:
    text, encoding, headers = "", "utf-8", {}
    def raise_for_status(self): pass
requests.get = lambda url, params=None, **k: seen.append(params) or A()
HttpCtsRetriever("http://x").getPassagePlus("urn:cts:a:b.c.d:1", context=0)
assert seen[0].get("context") == "0", seen
"""),
 dict(id="c20-range-siblings", property="C20", file=RT,
  edits=[("""        if self._next_id is False or self._prev_id is False:
            self._prev_id, self._next_id = self.getPrevNextUrn(reference=self.urn.reference)
        return self._prev_id, self._next_id""", """        if self._next_id is False or self._prev_id is False:
            self._prev_id, self._next_id = self.getPrevNextUrn(reference=self.urn.reference.start)
        return self._prev_id, self._next_id""")],
  needs="the siblings of a range (asked together)", breaks="those of its first unit are given",
  demo=CTS + """
f = Fake({"GetPassage": reply("GetPassage", PASSAGE % "1-2"), "GetPrevNextUrn": reply("GetPrevNextUrn", "<prevnext><prev/><next><urn>urn:cts:ns:a.b.c:3-4</urn></next></prevnext>")})
p = HttpCtsResolver(f).getTextualNode("urn:cts:ns:a.b.c", "1-2")
p.siblingsId
assert f.asked[-1]["urn"] == "urn:cts:ns:a.b.c:1-2", f.asked[-1]
"""),
 dict(id="c21-route-wins", property="C21", file=RD,
  edits=[("""        parameters.update(self.routes[route].query_dict)""", """        parameters.update({k: v[0] for k, v in self.routes[route].query_dict.items()})""")],
  needs="a route announced with a parameter given twice", breaks="only the first value is sent",
  demo=DTS + """
from MyCapytain.retrievers.dts import HttpDtsRetriever
def get(url, params=None, headers=None, **kw):
    if url == "http://localhost/dts":
        return Answer({"collections": "/c?k=1&k=2", "documents": "/d", "navigation": "/n"})
    asked.append(params)
    return Answer({})
requests.get = get
HttpDtsRetriever("http://localhost/dts").get_collection("x")
assert asked[0]["k"] == ["1", "2"], asked
"""),
 dict(id="c22-default-type-page", property="C22", file=RR,
  edits=[("""            default_type = data.get("https://w3id.org/dts/api#citeType", _empty)[0]["@value"]""",
          """            default_type = default_type or data.get("https://w3id.org/dts/api#citeType", _empty)[0]["@value"]""")],
  needs="pages of references that announce different kinds", breaks="those of later pages get the kind of the first page",
  demo=DTS + """
def handler(route, params):
    page = int(params.get("page", 1))
    out = {"@context": CONTEXT, "@id": "/n", "dts:level": 1, "dts:citeType": "k%d" % page, "member": [{"dts:ref": str(page)}]}
    if page == 1:
        out["view"] = {"@type": "PartialCollectionView", "next": "/n?page=2"}
    return Answer(out)
r = serve(handler)
assert [str(x.type) for x in r.getReffs("a")] == ["k1", "k2"]
"""),
 dict(id="c23-descendant-later", property="C23", file=DR,
  edits=[("""            if item in self._proxied:
                return self._proxied[item]""", """            if self._proxied:
                return self._proxied[item]""")],
  needs="looking up a member of a later page when the first page is known", breaks="it is refused",
  demo=DTS + """
def handler(route, params):
    page = int(params.get("page", 1))
    out = {"@context": CONTEXT, "@id": "root", "@type": "Collection", "title": "x", "totalItems": 2, "member": [{"@id": "http://e.org/%d" % page, "@type": "Collection", "title": "y", "totalItems": 0}]}
    if page == 1:
        out["view"] = {"@type": "PartialCollectionView", "next": "/c?page=2"}
    return Answer(out)
r = serve(handler)
assert r.getMetadata("root").children["http://e.org/2"].id == "http://e.org/2"
"""),
 dict(id="c25-unnamed-above", property="C25", file=GR,
  edits=[("                if desc == 0 and isinstance(s, BNode):", "                if isinstance(s, BNode):")],
  needs="an unnamed node that points at the collection", breaks="its statement is left out",
  demo="""
from MyCapytain.resources.prototypes.metadata import Collection
from MyCapytain.common.constants import Mimetypes, get_graph
from rdflib import BNode, Graph
from rdflib.namespace import DC
c = Collection("urn:a")
get_graph().add((BNode(), DC.relation, c.asNode()))
g = Graph().parse(data=c.export(Mimetypes.XML.RDF), format="xml")
assert (None, DC.relation, c.asNode()) in g
"""),
 dict(id="c25-ten-steps", property="C25", file=GR,
  edits=[("        desc = 0 + descendants\n        if desc != 0:\n            desc -= 1", "        desc = 0 + descendants\n        if desc != 0 and desc > -10:\n            desc -= 1\n        elif desc == -10:\n            desc = 0")],
  needs="a statement more than nine steps away", breaks="it is left out",
  demo="""
from MyCapytain.resources.prototypes.metadata import Collection
from MyCapytain.common.constants import Mimetypes, get_graph
from rdflib import URIRef, Graph, Literal
from rdflib.namespace import DC
c = Collection("urn:a:0")
for i in range(14):
    get_graph().add((URIRef("urn:a:%d" % i), DC.relation, URIRef("urn:a:%d" % (i + 1))))
g = Graph().parse(data=c.export(Mimetypes.XML.RDF), format="xml")
assert (URIRef("urn:a:13"), DC.relation, URIRef("urn:a:14")) in g
"""),
]
