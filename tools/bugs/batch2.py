CC = "MyCapytain/common/reference/_capitains_cts.py"
BB = "MyCapytain/common/reference/_base.py"
XM = "MyCapytain/common/utils/xml.py"
LC = "MyCapytain/resources/texts/local/capitains/cts.py"
TE = "MyCapytain/resources/texts/base/tei.py"
IN = "MyCapytain/resources/prototypes/cts/inventory.py"
XC = "MyCapytain/resources/collections/cts.py"
LR = "MyCapytain/resolvers/cts/local.py"
DB = "MyCapytain/resources/collections/dts/_base.py"
DR = "MyCapytain/resources/collections/dts/_resolver.py"
D1 = "MyCapytain/common/reference/_dts_1.py"
RT = "MyCapytain/resources/texts/remote/cts.py"
RR = "MyCapytain/resolvers/dts/api_v1.py"
RD = "MyCapytain/retrievers/dts/__init__.py"
PT = "MyCapytain/resources/prototypes/text.py"
GR = "MyCapytain/common/utils/_graph.py"
BA = "MyCapytain/common/base.py"
HC = "MyCapytain/resolvers/cts/api.py"

TEI = '''
from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText
from MyCapytain.common.reference import CtsReference
from MyCapytain.common.constants import Mimetypes, XPATH_NAMESPACES
def text(body, patterns, doctype=""):
    refs = "".join('<cRefPattern n="%s" matchPattern="x" replacementPattern="#xpath(%s)"/>' % p for p in reversed(patterns))
    return CapitainsCtsText(urn="urn:cts:ns:a.b.c", resource=doctype + '<TEI xmlns="http://www.tei-c.org/ns/1.0"><teiHeader><encodingDesc>'
        '<refsDecl n="CTS">%s</refsDecl></encodingDesc></teiHeader><text><body>%s</body></text></TEI>' % (refs, body))
B = "/tei:TEI/tei:text/tei:body"
'''

CTS = '''
from MyCapytain.retrievers.cts5 import HttpCtsRetriever
from MyCapytain.resolvers.cts.api import HttpCtsResolver
class Fake(HttpCtsRetriever):
    def __init__(self, answers):
        super().__init__("http://localhost/cts")
        self.answers, self.asked = answers, []
    def call(self, parameters):
        self.asked.append({k: v for k, v in parameters.items() if v is not None})
        return self.answers[parameters["request"]]
def reply(request, inner):
    return ('<%s xmlns="http://chs.harvard.edu/xmlns/cts"><request><requestName>%s</requestName></request><reply>%s</reply></%s>'
            % (request, request, inner, request))
PASSAGE = ('<urn>urn:cts:ns:a.b.c:%s</urn><passage><TEI xmlns="http://www.tei-c.org/ns/1.0"><text><body><l n="1">x</l></body></text></TEI>'
           '</passage>')
'''

DTS = '''
import json
import requests
from MyCapytain.resolvers.dts.api_v1 import HttpDtsResolver
asked = []
class Answer:
    def __init__(self, data, status=200):
        self.data, self.status_code, self.headers, self.encoding = data, status, {}, "utf-8"
        self.text = data if isinstance(data, str) else json.dumps(data)
    def json(self):
        return json.loads(self.text)
    def raise_for_status(self):
        if self.status_code >= 400:
            raise requests.HTTPError(str(self.status_code))
def serve(handler):
    def get(url, params=None, headers=None, **kw):
        if url == "http://localhost/dts":
            return Answer({"collections": "/c", "documents": "/d", "navigation": "/n"})
        asked.append((url.rsplit("/", 1)[1], dict(params or {})))
        return handler(*asked[-1])
    requests.get = get
    return HttpDtsResolver("http://localhost/dts")
CONTEXT = {"@vocab": "https://www.w3.org/ns/hydra/core#", "dc": "http://purl.org/dc/terms/", "dts": "https://w3id.org/dts/api#"}
'''

BUGS = [
 dict(id="c09-prev-window", property="C09", file=LC,
  edits=[('''        elif start - range_length < 0:
            if start == end:
                _prev = document_references[0]''', '''        elif start - range_length < -1:
            if start == end:
                _prev = document_references[0]''')],
  needs="a range whose previous window would begin exactly one unit before the beginning of the text",
  breaks="its previous reference starts with the last unit of the text",
  demo=TEI + '''
t = text("".join('<l n="%d">x</l>' % i for i in range(1, 9)), [("l", B + "/tei:l[@n='$1']")])
assert str(t.getTextualNode("4-6").prevId) == "1-3"
assert str(t.getTextualNode("2-4").prevId) in ("1", "1-1")
assert str(t.getTextualNode("3-5").prevId) == "1-2"
'''),
 dict(id="c09-last-of-first", property="C09", file=PT,
  edits=[('''        if self.lastId is not None:
            return self.getTextualNode(self.lastId)''', '''        if self.lastId is not None and self.lastId != self.firstId:
            return self.getTextualNode(self.lastId)''')],
  needs="a passage with a single child", breaks="its last child is None",
  demo=TEI + '''
t = text('<div n="1"><l n="1">x</l></div><div n="2"><l n="1">y</l><l n="2">z</l></div>', [("a", B + "/tei:div[@n='$1']"), ("b", B + "/tei:div[@n='$1']/tei:l[@n='$2']")])
assert t.getTextualNode("2").last.export(Mimetypes.PLAINTEXT).strip() == "z"
assert t.getTextualNode("1").last is not None
'''),
 dict(id="c16-commentary-lang", property="C16", file=LR,
  edits=[('''                x = self.classes["commentary"](urn=txt_urn, parent=inventory.textgroups[tg_urn].works[wk_urn], lang=text.lang)''',
          '''                x = self.classes["commentary"](urn=txt_urn, parent=inventory.textgroups[tg_urn].works[wk_urn])''')],
  needs="metadata asked for a work that has a commentary in another language than the work",
  breaks="the language of the commentary is lost",
  demo='''
import tempfile, shutil
from MyCapytain.resolvers.cts.local import CtsCapitainsLocalResolver
d = tempfile.mkdtemp()
try:
    w = os.path.join(d, "data", "a", "b")
    os.makedirs(w)
    N = 'xmlns="http://chs.harvard.edu/xmlns/cts"'
    open(os.path.join(d, "data", "a", "__cts__.xml"), "w").write('<textgroup %s urn="urn:cts:ns:a"><groupname xml:lang="eng">a</groupname></textgroup>' % N)
    open(os.path.join(w, "__cts__.xml"), "w").write('<work %s urn="urn:cts:ns:a.b" groupUrn="urn:cts:ns:a" xml:lang="lat"><title xml:lang="eng">b</title>'
        '<edition urn="urn:cts:ns:a.b.c" workUrn="urn:cts:ns:a.b"><label xml:lang="eng">c</label></edition>'
        '<commentary urn="urn:cts:ns:a.b.d" workUrn="urn:cts:ns:a.b" xml:lang="eng"><label xml:lang="eng">d</label><about urn="urn:cts:ns:a.b.c"/></commentary></work>' % N)
    for n in "cd":
        open(os.path.join(w, "a.b.%s.xml" % n), "w").write('<TEI xmlns="http://www.tei-c.org/ns/1.0"><teiHeader><encodingDesc><refsDecl n="CTS">'
            '<cRefPattern n="l" matchPattern="(.+)" replacementPattern="#xpath(/tei:TEI/tei:text/tei:body/tei:l[@n=\\'$1\\'])"/></refsDecl></encodingDesc></teiHeader>'
            '<text><body><l n="1">x</l></body></text></TEI>')
    r = CtsCapitainsLocalResolver([d])
    assert r.getMetadata("urn:cts:ns:a.b.d").lang == "eng"
    m = {x.id: x.lang for x in r.getMetadata("urn:cts:ns:a.b").readableDescendants}
    assert m["urn:cts:ns:a.b.d"] == "eng", m
finally:
    shutil.rmtree(d)
'''),
 dict(id="c18-branch-depth", property="C18", file=D1,
  edits=[('''        for subCite in resource.get(_cite_structure_term, []):
            cite.add_child(cls.ingest(subCite, root=root))''', '''        for subCite in resource.get(_cite_structure_term, [])[:2]:
            cite.add_child(cls.ingest(subCite, root=root))''')],
  needs="a level of a citation structure with three kinds of units below", breaks="the third and further kinds are lost",
  demo='''
from MyCapytain.common.reference import DtsCitationSet
T, S = "https://w3id.org/dts/api#citeType", "https://w3id.org/dts/api#citeStructure"
c = DtsCitationSet.ingest([{T: [{"@value": "book"}], S: [{T: [{"@value": n}]} for n in ("preface", "poem", "epilogue")]}])
assert [x.name for x in c] == ["book", "preface", "poem", "epilogue"], [x.name for x in c]
'''),
 dict(id="c18-description-once", property="C18", file=DB,
  edits=[('''        for val_dict in data.get(str(_hyd.description), []):''', '''        for val_dict in data.get(str(_hyd.description), [])[:1]:''')],
  needs="a document with two descriptions", breaks="only the first description is read",
  demo='''
from MyCapytain.resources.collections.dts import DtsCollection
from MyCapytain.common.constants import RDF_NAMESPACES
c = DtsCollection.parse({"@context": {"@vocab": "https://www.w3.org/ns/hydra/core#"}, "@id": "http://x/a", "@type": "Collection", "totalItems": 0,
    "title": "t", "description": ["one", "two"]})
assert {str(x) for x in c.metadata.get(RDF_NAMESPACES.HYDRA.description)} == {"one", "two"}
'''),
 dict(id="c20-ask-again", property="C20", file=RT,
  edits=[('''        if self._next_id is False or self._prev_id is False:
            self._prev_id, self._next_id = self.getPrevNextUrn(reference=self.urn.reference)
        return self._prev_id, self._next_id''', '''        if not self._next_id or not self._prev_id:
            self._prev_id, self._next_id = self.getPrevNextUrn(reference=self.urn.reference)
        return self._prev_id, self._next_id''')],
  needs="the siblings of the first or last passage, which the endpoint gave with it", breaks="the endpoint is asked again for what is known",
  demo=CTS + '''
f = Fake({"GetPassagePlus": reply("GetPassagePlus", PASSAGE % "1" + "<prevnext><prev/><next><urn>urn:cts:ns:a.b.c:2</urn></next></prevnext><label/>"),
          "GetPrevNextUrn": reply("GetPrevNextUrn", "<prevnext><prev/><next><urn>urn:cts:ns:a.b.c:2</urn></next></prevnext>")})
p = HttpCtsResolver(f).getTextualNode("urn:cts:ns:a.b.c", "1", prevnext=True)
assert p.siblingsId == (None, "2") and len(f.asked) == 1, f.asked
'''),
 dict(id="c21-level-zero", property="C21", file=RD,
  edits=[('''            if parameters[key] is not None and
               parameters[key] != defaults.get(key, None)''', '''            if parameters[key] and
               parameters[key] != defaults.get(key, None)''')],
  needs="level 0", breaks="level=0 is not sent",
  demo=DTS + '''
r = serve(lambda route, q: Answer({}))
r.endpoint.get_navigation("x", level=0, ref=("1", "3"))
assert asked[-1] == ("n", {"id": "x", "level": "0", "start": "1", "end": "3"}), asked
'''),
 dict(id="c23-failed-retrieve", property="C23", file=DR,
  edits=[('''        if not self._parsed["metadata"]:
            query = self._resolver.endpoint.get_collection(self.id)
            data = query.json()''', '''        if not self._parsed["metadata"]:
            self._parsed["metadata"] = True
            query = self._resolver.endpoint.get_collection(self.id)
            data = query.json()''')],
  needs="a request for the metadata of a member that fails once and is asked again", breaks="the collection stays without its metadata",
  demo=DTS + '''
from MyCapytain.common.constants import RDF_NAMESPACES
fail = [True]
def coll(route, q):
    if q.get("id") == "http://x/m":
        if fail:
            fail.pop()
            return Answer({}, 503)
        return Answer({"@context": CONTEXT, "@id": "http://x/m", "@type": "Collection", "title": "m", "totalItems": 0, "description": "d"})
    return Answer({"@context": CONTEXT, "@id": "http://x/r", "@type": "Collection", "title": "r", "totalItems": 1,
                   "member": [{"@id": "http://x/m", "@type": "Collection", "title": "m", "totalItems": 0}]})
r = serve(coll)
m = r.getMetadata().children["http://x/m"]
real = r.endpoint.get_collection
def get_collection(*a, **k):
    q = real(*a, **k)
    q.raise_for_status()
    return q
r.endpoint.get_collection = get_collection
try:
    m.retrieve()
except Exception:
    pass
m.retrieve()
assert [str(x) for x in m.metadata.get(RDF_NAMESPACES.HYDRA.description)] == ["d"]
'''),
 dict(id="c24-any-reffs", property="C24", file=HC,
  edits=[('''        return text.getReffs(level, subreference)''', '''        return text.getReffs(level, str(subreference).split("-")[0] if subreference else None)''')],
  needs="the references inside a range, through a CTS endpoint", breaks="only those under the first end are listed",
  demo=CTS + '''
f = Fake({"GetValidReff": reply("GetValidReff", "<reff><urn>urn:cts:ns:a.b.c:1.1</urn></reff>")})
HttpCtsResolver(f).getReffs("urn:cts:ns:a.b.c", 2, "1-2")
assert f.asked[-1]["urn"] == "urn:cts:ns:a.b.c:1-2", f.asked
'''),
 dict(id="c26-empty-format", property="C26", file=BA,
  edits=[('''        if output is None:
            output = self.DEFAULT_EXPORT''', '''        if not output:
            output = self.DEFAULT_EXPORT''')],
  needs="an empty string as format", breaks="the default format is given instead of a refusal",
  demo='''
from MyCapytain.common.base import Exportable
class E(Exportable):
    EXPORT_TO = ["a"]
    DEFAULT_EXPORT = "a"
    def __export__(self, output=None, **kwargs):
        return output
assert E().export() == "a"
try:
    E().export("")
except NotImplementedError:
    pass
else:
    raise SystemExit("the empty format was exported")
'''),
 dict(id="c27-entities", property="C27", file=XM,
  edits=[("        parsed = parse(xml).getroot()", "        parsed = parse(xml, makeparser(resolve_entities=True, remove_blank_text=False)).getroot()")],
  needs="a document that declares an external entity", breaks="the file that the entity names is read into the text",
  demo=TEI + '''
import tempfile, shutil
d = tempfile.mkdtemp()
try:
    open(os.path.join(d, "secret.txt"), "w").write("canary")
    try:
        t = text('<l n="1">x &e;</l>', [("l", B + "/tei:l[@n='$1']")], doctype='<!DOCTYPE TEI [<!ENTITY e SYSTEM "file://%s/secret.txt">]>' % d)
        out = t.export(Mimetypes.PLAINTEXT)
    except Exception:
        out = ""
    assert "canary" not in out, out
finally:
    shutil.rmtree(d)
'''),
 dict(id="c28-last-request", property="C28", file=LC,
  edits=[("        return self.getValidReff(level=level, reference=subreference)", """        self._last_request = {"level": level, "reference": subreference}
        return self.getValidReff(**self._last_request)""")],
  needs="two threads listing references of one text at the same time", breaks="one gets the references the other asked for",
  demo=TEI + '''
import threading
t = text("".join('<div n="%d"><l n="1">x</l></div>' % i for i in range(3)), [("a", B + "/tei:div[@n='$1']"), ("b", B + "/tei:div[@n='$1']/tei:l[@n='$2']")])
wrong = []
def read(level):
    # a slow reader: lets the other run before every line of the library
    gate = threading.Event()
    def trace(frame, event, arg):
        if "capitains" in frame.f_code.co_filename and frame.f_code.co_name == "getReffs":
            gate.wait(0.002)
        return trace
    sys.settrace(trace)
    for _ in range(60):
        if {len(r.start.list) for r in t.getReffs(level=level)} != {level}:
            wrong.append(level)
threads = [threading.Thread(target=read, args=(l,)) for l in (1, 2, 1, 2)]
for x in threads: x.start()
for x in threads: x.join()
assert not wrong, wrong[:3]
'''),

 dict(id="c06-first-branch", property="C06", file=XM,
  edits=[('''        current = "./{}[./{}]".format(
            current,
            "/".join(queue)
        )''', '''        current = "./{}".format(current)''')],
  needs="a path through uncited elements of which several stand side by side, and a unit that is not in the first",
  breaks="the unit is not found", demo=TEI + '''
t = text('<div><l n="1">x</l></div><div><l n="2">y</l></div>', [("l", B + "/tei:div/tei:l[@n='$1']")])
assert [str(r) for r in t.getReffs()] == ["1", "2"]
assert t.getTextualNode("2").export(Mimetypes.PLAINTEXT).strip() == "y"
'''),
 dict(id="c13-lang-prefix", property="C13", file=IN,
  edits=[('''                if isinstance(item, CtsTranslationMetadata) and item.lang == key''',
          '''                if isinstance(item, CtsTranslationMetadata) and (item.lang or "").startswith(key)''')],
  needs="a work with translations in two languages of which one code begins with the other, such as en and en-GB",
  breaks="translations in another language are given", demo='''
from MyCapytain.resources.prototypes.cts.inventory import *
tg = CtsTextgroupMetadata("urn:cts:ns:a", parent=CtsTextInventoryMetadata("x"))
w = CtsWorkMetadata("urn:cts:ns:a.b", parent=tg)
a = CtsTranslationMetadata("urn:cts:ns:a.b.c", parent=w, lang="en")
b = CtsTranslationMetadata("urn:cts:ns:a.b.d", parent=w, lang="en-GB")
assert [x.id for x in w.get_translation_in("en-GB")] == [b.id]
assert [x.id for x in w.get_translation_in("en")] == [a.id]
'''),
 dict(id="c22-exclude-once", property="C22", file=RR,
  edits=[('''                kwargs["page"] = page
''', '''                kwargs["page"] = page
                kwargs["group_by"] = 1
''')],
  needs="references listed in groups over several pages", breaks="the pages after the first are asked without the grouping",
  demo=DTS + '''
def nav(route, q):
    page = int(q.get("page", 1))
    d = {"@context": CONTEXT, "@id": "x", "dts:level": 1, "member": [{"dts:start": "1", "dts:end": "2"}]}
    if page == 1:
        d["view"] = {"@id": "v", "next": "/n?id=x&page=2"}
    return Answer(d)
r = serve(nav)
r.getReffs("x", additional_parameters={"groupBy": 2})
assert [q["groupBy"] for _, q in asked] == ["2", "2"], asked
'''),
]
