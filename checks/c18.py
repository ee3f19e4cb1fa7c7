"""C18: reading DTS collections and their citation structures."""
import glob
import json
import os

from rdflib import Literal, URIRef
from rdflib.namespace import SKOS, XSD

from vlib.core import declare, scenario
from vlib.gen import text, word, lang
from checks.c17 import DTS, HYDRA, DUBLIN, OTHER, HIDDEN, vkey, tdepth
from MyCapytain.common.constants import RDF_NAMESPACES, get_graph
from MyCapytain.common.reference import DtsCitation, DtsCitationSet
from MyCapytain.errors import CitationDepthError, JsonLdCollectionMissing
from MyCapytain.resources.collections.dts import DtsCollection

declare(
    "C18",
    rule="A case is a generated DTS collection document: one of several JSON-LD spellings of the same content (vocabulary, "
         "prefixes, full names, single values or lists), members nested up to three levels, children or parents, branching "
         "citation structures of mixed depth, every value type. Non-trivial: a member or a citation structure. Distinct: by "
         "document.",
    require={"base": 2000, "metadata": 1500, "members": 1500, "parents": 300, "citation": 1500, "levels": 1000,
             "refused": 300, "reread": 300},
)


class Doc:
    def __init__(self, ident):
        self.id = ident
        self.type, self.title, self.total, self.description = HYDRA + "Collection", "", 0, []
        self.stmts, self.members, self.cite, self.depth = [], [], [], None


def ident(rng, used):
    while True:
        s = rng.choice(["urn:cts:ns:", "http://example.org/", "urn:x:", "https://ex.org/a?b=", "http://example.org/c/"]) + word(rng)
        if used and rng.random() < 0.2:
            s = rng.choice(sorted(used)) + rng.choice(["1", "/a", ".x"])
        if s not in used:
            used.add(s)
            return s


def trees(rng, depth):
    if depth == 0:
        return []
    return [(rng.choice(["book", "chapter", "poem", "line", "l & m", "été", "act"]), trees(rng, rng.randrange(depth)))
            for _ in range(rng.choice([1, 1, 2, 3]))]


def typed(rng):
    v, t = rng.choice([("1984-01-31", XSD.date), ("2001", XSD.gYear), ("2001-01-01T10:00:00", XSD.dateTime), ("P1D", XSD.duration),
                       ("1.50", XSD.decimal), ("a b", URIRef("http://example.org/t"))])
    return Literal(v, datatype=t)


def gen(rng, used, depth=2):
    d = Doc(ident(rng, used))
    d.type = HYDRA + rng.choice(["Collection", "Collection", "Resource"])
    d.title = text(rng)
    d.total = rng.choice([0, 1, 3, 10000])
    if rng.random() < 0.5:
        d.description = list(dict.fromkeys(text(rng) for _ in range(rng.choice([1, 1, 2, 3]))))
    lot = rng.random() < 0.04           # much of the same
    terms = rng.sample(DUBLIN + OTHER, 2) if lot else DUBLIN + OTHER
    for _ in range(rng.randrange(8, 24) if lot else rng.randrange(6)):
        p = rng.choice(terms)
        k = rng.randrange(8)
        o = typed(rng) if k == 7 else Literal(text(rng), lang=lang(rng)) if k < 3 else Literal(text(rng)) if k == 3 else \
            Literal(rng.choice([0, 1879, -5, True, False])) if k == 4 else Literal(1.5) if k == 5 else \
            URIRef("http://example.org/" + word(rng))
        d.stmts.append((p, o))
    d.stmts = list(dict.fromkeys(d.stmts))
    if rng.random() < 0.6:
        d.cite = trees(rng, rng.randrange(1, 5))
    if rng.random() < 0.4:
        d.depth = rng.randrange(1, 9)
    if depth:
        d.members = [gen(rng, used, depth - 1) for _ in range(rng.choice([0, 1, 1, 2, 4] if rng.random() < 0.985 else [11, 30, 60]))]
    return d


class Style:
    """One way to spell the same JSON-LD."""
    def __init__(self, rng):
        self.rng = rng
        self.ctx = {}
        self.hydra = rng.choice(["vocab", "prefix", "full"])
        self.dts = rng.choice(["dts", "d", "full"])
        self.dct = rng.choice(["dct", "dc", "full"])
        if self.hydra == "vocab":
            self.ctx["@vocab"] = HYDRA
        elif self.hydra == "prefix":
            self.ctx["hydra"] = HYDRA
        if self.dts != "full":
            self.ctx[self.dts] = DTS
        if self.dct != "full":
            self.ctx[self.dct] = "http://purl.org/dc/terms/"
        self.ctx["ex"] = "http://example.org/ns#"

    def h(self, name):
        return name if self.hydra == "vocab" else "hydra:" + name if self.hydra == "prefix" else HYDRA + name

    def d(self, name):
        return DTS + name if self.dts == "full" else self.dts + ":" + name

    def p(self, pred):
        pred = str(pred)
        if pred.startswith("http://purl.org/dc/terms/") and self.dct != "full":
            return self.dct + ":" + pred[len("http://purl.org/dc/terms/"):]
        if pred.startswith("http://example.org/ns#"):
            return "ex:" + pred[len("http://example.org/ns#"):]
        return pred

    def value(self, o):
        if isinstance(o, URIRef):
            return {"@id": str(o)}
        if o.language:
            return {"@value": str(o), "@language": o.language}
        if o.datatype is not None and vkey(o)[0] == "typed":
            t = str(o.datatype)
            if t.startswith(str(XSD)) and self.rng.random() < 0.5:
                self.ctx["xsd"] = str(XSD)
                t = "xsd:" + t[len(str(XSD)):]
            return {"@value": str(o), "@type": t}
        v = o.toPython()
        v = v if isinstance(v, (int, float)) else str(o)
        return self.rng.choice([v, {"@value": v}])

    def many(self, vs):
        return vs[0] if len(vs) == 1 and self.rng.random() < 0.5 else vs

    def statements(self, stmts):
        out = {}
        for p, o in stmts:
            out.setdefault(self.p(p), []).append(self.value(o))
        return {p: self.many(vs) for p, vs in out.items()}

    def cite(self, ts):
        out = []
        for n, ks in ts:
            c = {self.d("citeType"): n}
            if ks:
                c[self.d("citeStructure")] = self.cite(ks)
            out.append(c)
        return self.many(out)

    def doc(self, d, top=True):
        o = {"@context": self.ctx} if top else {}
        o["@id"] = d.id
        o["@type"] = d.type if self.hydra == "full" else self.h(d.type[len(HYDRA):])
        o[self.h("title")] = d.title
        o[self.h("totalItems")] = d.total
        if d.description:
            o[self.h("description")] = self.many([self.rng.choice([x, {"@value": x}]) for x in d.description])
        dub = [(p, v) for p, v in d.stmts if str(p).startswith("http://purl.org/dc/terms/")]
        dub = [x for x in dub if self.rng.random() < 0.8]         # any term may be said in an extension, too
        ext = [(p, v) for p, v in d.stmts if (p, v) not in dub]
        if dub:
            o[self.d("dublincore")] = self.statements(dub)
        if ext:
            o[self.d("extensions")] = self.statements(ext)
        if d.cite:
            o[self.d("citeStructure")] = self.cite(d.cite)
        if d.depth:
            o[self.d("citeDepth")] = d.depth
        if d.members:
            o[self.h("member")] = self.many([self.doc(m, False) for m in d.members])
        elif self.rng.random() < 0.2:
            o[self.h("member")] = []
        items = list(o.items())
        self.rng.shuffle(items)
        return dict(items)


def shape(cites):
    return [(c.name, shape(c.children)) for c in cites]


def flat(ts):
    for n, ks in ts:
        yield n, ks
        yield from flat(ks)


def level(ts, n):
    return [t for t, _ in ts] if n == 0 else [x for _, ks in ts for x in level(ks, n - 1)]


def citation(rec, cs, ts, depth=None):
    rec.expect(isinstance(cs, DtsCitationSet), "citation", got=type(cs))
    rec.eq(shape(cs.children), ts, "citation")
    rec.eq(cs.is_empty(), not ts, "citation", kind="empty")
    rec.expect(cs.is_root(), "citation", kind="set-root")
    rec.eq([c.name for c in cs], [n for n, _ in flat(ts)], "citation", kind="iteration")
    rec.eq(len(cs), len(list(flat(ts))), "citation", kind="len")
    rec.eq(cs.depth, depth or tdepth(ts), "citation", kind="depth")
    for c, (n, ks) in zip(cs, flat(ts)):
        rec.expect(isinstance(c, DtsCitation) and c.root is cs and not c.is_root(), "citation", kind="root", of=n)
        rec.eq(c.depth, 1 + tdepth(ks), "citation", kind="unit-depth", of=n)
        rec.eq(c.is_empty(), not ks, "citation", kind="unit-empty")
        rec.eq(c.is_set(), n is not None, "citation", kind="unit-set")
        rec.raises(NotImplementedError, lambda: c.match("1"), "citation")
    rec.raises(NotImplementedError, lambda: cs.match("1"), "citation")
    real = tdepth(ts)
    for n in range(real + 1):
        rec.eq([c.name for c in cs[n]], level(ts, n), "levels", level=n)
    if depth is None:
        for n in range(1, real + 1):
            rec.eq([c.name for c in cs[-n]], level(ts, real - n), "levels", kind="negative-levels", level=-n)
        rec.raises(CitationDepthError, lambda: list(cs[-real - 1]), "levels")


def described(rec, o, d):
    """o says of itself what d states"""
    rec.expect(isinstance(o, DtsCollection), "base")
    rec.eq(o.id, d.id, "base", kind="id")
    rec.eq(str(o.type), d.type, "base", kind="type")
    rec.eq(o.readable, d.type.endswith("Resource"), "base", kind="readable")
    rec.eq(o.size, d.total, "base", kind="size", of=d.id)
    rec.eq(str(o.get_label()), d.title, "base", kind="title")
    rec.eq(sorted(str(x) for x in o.metadata.get(RDF_NAMESPACES.HYDRA.description)), sorted(d.description), "base",
           kind="description")
    want = {}
    for p, v in d.stmts + [(SKOS.prefLabel, Literal(d.title))]:
        want.setdefault(p, set()).add(vkey(v))
    for p in DUBLIN + OTHER + [SKOS.prefLabel]:
        rec.eq({vkey(x) for x in o.metadata.get(p)}, want.get(p, set()), "metadata", predicate=p, of=d.id)
    got = {p for p in get_graph().predicates(o.asNode()) if not str(p).startswith(HIDDEN)}
    rec.eq(got, set(want), "metadata", kind="predicates")
    citation(rec, o.citation, d.cite, d.depth)


def check(rec, o, d, parents=None):
    described(rec, o, d)
    rec.eq(sorted(o.children), sorted(m.id for m in d.members), "members", of=d.id)
    rec.eq(sorted(m.id for m in o.members), sorted(m.id for m in d.members), "members", kind="list")
    if parents is not None:
        rec.eq({id(p) for p in o.parents}, {id(p) for p in parents}, "parents", of=d.id)
    for m in d.members:
        check(rec, o.children[m.id], m, [o])
        rec.expect(o[m.id] is o.children[m.id], "members", kind="lookup")
    rec.eq(sorted(x.id for x in o.readableDescendants), sorted(x.id for x in below(d) if x.type.endswith("Resource")),
           "members", kind="readable")


def below(d):
    for m in d.members:
        yield m
        yield from below(m)


@scenario(quick=1500, thorough=60000)
def documents(rng, rec):
    d = gen(rng, set())
    doc = Style(rng).doc(d)
    rec.op("document", json.dumps(doc, ensure_ascii=False))
    if d.members or d.cite:
        rec.distinct(doc)
        rec.sample(doc)
    frozen = json.dumps(doc)
    o = DtsCollection.parse(doc)
    rec.eq(json.dumps(doc), frozen, "base", kind="document-intact")
    check(rec, o, d, [])
    for f in (lambda: o.parent, lambda: setattr(o, "parent", o)):
        rec.raises(NotImplementedError, f, "parents", what="a single parent")
    rec.expect(o.retrieve() is True, "base", kind="retrieve")
    # the same document in another spelling, read over the first, says the same
    again = DtsCollection.parse(Style(rng).doc(d))
    check(rec, again, d, [])
    rec.count("reread")
    # the size follows the last document
    d.total += 1
    rec.eq(DtsCollection.parse(Style(rng).doc(d)).size, d.total, "reread", kind="new-size")


@scenario(quick=400, thorough=15000)
def upwards(rng, rec):
    d = gen(rng, set(), depth=1)
    doc = Style(rng).doc(d)
    rec.op("document", json.dumps(doc, ensure_ascii=False))
    rec.distinct(doc)
    o = DtsCollection.parse(doc, direction="parents")
    rec.eq(sorted(p.id for p in o.parents), sorted(m.id for m in d.members), "parents")
    rec.eq(dict(o.children), {}, "parents", kind="no-children")
    for p in o.parents:
        check(rec, p, next(m for m in d.members if m.id == p.id), [])


@scenario(quick=400, thorough=10000)
def refused(rng, rec):
    rec.raises(JsonLdCollectionMissing, lambda: DtsCollection.parse(rng.choice([{}, [], {"@context": {"x": "http://x/"}},
                                                                             {"@context": {"@vocab": HYDRA}}])), "refused")
    d = gen(rng, set(), depth=0)
    st = Style(rng)
    doc = st.doc(d)
    gone = rng.choice(["@id", "@type", st.h("title"), st.h("totalItems")])
    del doc[gone]
    rec.distinct(doc)
    rec.raises(Exception, lambda: DtsCollection.parse(doc), "refused", what="incomplete document", missing=gone)


@scenario(quick=1, thorough=1)
def samples(rng, rec):
    """The documents the project ships."""
    from MyCapytain.common.constants import set_graph, bind_graph
    for f in sorted(glob.glob(os.path.join(os.environ.get("VERIF_REPO", "/repo"), "tests/testing_data/dts/collection_*.json"))):
        set_graph(bind_graph())
        doc = json.load(open(f))
        o = DtsCollection.parse(doc)
        rec.eq((o.id, str(o.get_label()), o.size), (doc["@id"], doc["title"], int(doc["totalItems"])), "base", kind="sample")
        ts = []

        def tree(cs):
            return [(c["dts:citeType"], tree(c.get("dts:citeStructure", []))) for c in cs]
        ts = tree(doc.get("dts:citeStructure", []))
        citation(rec, o.citation, ts, doc.get("dts:citeDepth"))


@scenario(quick=60, thorough=600)
def relative(rng, rec):
    """A member named relatively should keep the name the endpoint knows it by."""
    st = Style(rng)
    d = gen(rng, set(), depth=1)
    d.id = word(rng)
    for i, m in enumerate(d.members):
        m.id = "m%d" % i
    o = DtsCollection.parse(st.doc(d))
    rec.eq(o.id, d.id, "base", kind="relative-id")
    got, want = sorted(m.id for m in o.members), sorted(m.id for m in d.members)
    if want and got == ["/" + x for x in want]:
        rec.finding("C18-relative-member-ids", "the member %r is known as %r" % (want[0], got[0]))
        return
    rec.eq(got, want, "members", kind="relative")
