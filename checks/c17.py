"""C17: collections as DTS JSON-LD."""
import json
from math import isfinite

from pyld import jsonld
from rdflib import BNode, Literal, URIRef
from rdflib.namespace import DC, DCTERMS, FOAF, OWL, RDFS, SKOS, XSD

from vlib.core import declare, scenario
from vlib import inv as I
from vlib.gen import text, word, lang, LANGS
from checks.c13 import XML, CLS
from MyCapytain.common.constants import Mimetypes, RDF_NAMESPACES, get_graph, set_graph, bind_graph
from MyCapytain.common.reference import Citation, DtsCitation, DtsCitationSet
from MyCapytain.resources.collections.dts import DtsCollection
from MyCapytain.resources.prototypes.cts.inventory import CtsTextInventoryCollection, CtsTextInventoryMetadata
from MyCapytain.resources.prototypes.metadata import Collection, ResourceCollection

declare(
    "C17",
    rule="A case is a generated collection (plain, readable, DTS with branching citation structure, or any node of a CTS "
         "inventory) with statements in Dublin Core, known and unknown namespaces and every value type; its DTS JSON-LD is "
         "serialised, expanded by an independent JSON-LD processor and compared with the model, then read back. "
         "Non-trivial: at least two statements. Distinct: by statements and structure.",
    require={"base": 1500, "statements": 1500, "members": 800, "citation": 400, "json": 1500, "intact": 300, "readback": 600,
             "cts": 500, "inventories": 60},
)

STD = Mimetypes.JSON.DTS.Std
DTS, HYDRA = str(RDF_NAMESPACES.DTS), str(RDF_NAMESPACES.HYDRA)
DUBLIN = [DCTERMS.title, DCTERMS.creator, DCTERMS.created, DCTERMS.publisher, DCTERMS.language]
OTHER = [DC.title, DC.creator, SKOS.altLabel, FOAF.name, OWL.sameAs, RDF_NAMESPACES.CTS.term("label"),
         RDF_NAMESPACES.CTS.term("about"), RDF_NAMESPACES.TEI.term("author"), URIRef("http://example.org/ns#p1"),
         URIRef("http://example.org/ns#p2"), URIRef("http://example.org/other/p1"), URIRef("http://schema.org/birthDate"),
         URIRef("urn:example:x:y"), URIRef("http://example.org/été#ñ")]
# kept out of the statements part: what DTS says elsewhere, and inner bookkeeping
HIDDEN = (DTS, HYDRA, str(RDF_NAMESPACES.CAPITAINS), str(RDFS), "http://www.w3.org/1999/02/22-rdf-syntax-ns#")


def value(rng):
    k = rng.randrange(12)
    if k < 4:
        return Literal(text(rng), lang=lang(rng))
    if k < 6:
        return Literal(text(rng))
    if k == 6:
        return Literal(rng.choice([0, 1, -7, 10 ** 12, rng.randrange(10 ** 6)]))
    if k == 7:
        return Literal(rng.choice([True, False]))
    if k == 8:
        return URIRef(rng.choice(["http://example.org/", "urn:cts:x:"]) + word(rng))
    if k == 9:
        return Literal("")
    v, t = rng.choice([("1984-01-31", XSD.date), ("2001", XSD.gYear), ("1.50", XSD.decimal), ("0384", XSD.string),
                       ("2001-01-01T10:00:00", XSD.dateTime), ("P1D", XSD.duration), ("1.5", XSD.double),
                       ("NaN", XSD.double), ("INF", XSD.float), ("-INF", XSD.double), ("1e400", XSD.double), ("a", URIRef("http://example.org/t"))])
    return Literal(v, datatype=t)


def twins(o):
    s = str(o)
    out = [URIRef("urn:x:y"), Literal(s, lang="eng"), Literal(s, lang="fre"), Literal(s, datatype=URIRef("http://example.org/t")),
           Literal(s.upper() + "x")]
    if isinstance(o, Literal) and o.datatype in (XSD.integer, XSD.boolean):
        out = [Literal(True), Literal(False), Literal(1), Literal(0), Literal("1"), Literal("true")]
    return [x for x in out if x != o]


def vkey(o):
    """What a value says: its text (numbers and booleans as JSON has them), its language and its type when it is not plain text."""
    if isinstance(o, URIRef):
        return "uri", str(o), ""
    if o.language:
        return "text", str(o), o.language.lower()
    if o.datatype in (XSD.integer, XSD.boolean) or o.datatype in (XSD.double, XSD.float) and isfinite(o.toPython()):
        return "json", repr(o.toPython()), ""
    if o.datatype not in (None, XSD.string):
        return "typed", str(o), str(o.datatype)
    return "text", str(o), ""


def xkey(v):
    """The same for an expanded JSON-LD value."""
    if "@id" in v:
        return "uri", v["@id"], ""
    if isinstance(v["@value"], (int, float, bool)):
        return "json", repr(v["@value"]), ""
    if "@type" in v:
        return "typed", v["@value"], v["@type"]
    return "text", v["@value"], v.get("@language", "").lower()


def statements(x, part):
    found = x.get(DTS + part, [])
    assert len(found) <= 1, found
    return sorted((k,) + xkey(v) for d in found for k, vs in d.items() if not k.startswith("@") for v in vs)


def expand(rec, obj):
    out = obj.export(STD)
    s = json.dumps(out, allow_nan=False)
    rec.eq(json.loads(s), out, "json", kind="json-native")
    x = jsonld.expand(json.loads(s))
    rec.eq(len(x), 1, "json", kind="one-node")
    return x[0]


class Want:
    """What one collection should say."""
    def __init__(self, ident, type_, title, total, description=None):
        self.id, self.type, self.title, self.total, self.description = ident, type_, title, total, description
        self.stmts = []          # (predicate, object)
        self.members = []
        self.cite = None         # list of trees: (name, [trees])
        self.depth = None


def base(rec, x, w, mon="base"):
    # the JSON-LD processor resolves a relative IRI
    rec.eq(x.get("@id").lstrip("/"), w.id, mon, kind="id")
    rec.eq(x.get("@type"), [w.type], mon, kind="type", of=w.id)
    if isinstance(w.title, (set, frozenset)):
        got = x.get(HYDRA + "title")
        rec.expect(got is not None and len(got) == 1 and got[0]["@value"] in w.title, mon, kind="title-any", got=got, want=w.title)
    else:
        rec.eq(x.get(HYDRA + "title"), [{"@value": w.title}], mon, kind="title", of=w.id)
    rec.eq(x.get(HYDRA + "totalItems"), [{"@value": w.total}], mon, kind="total", of=w.id)
    rec.eq(x.get(HYDRA + "description"), None if w.description is None else [{"@value": w.description}], mon,
           kind="description", of=w.id)


def ctree(x):
    return [(c.get(DTS + "citeType", [{"@value": None}])[0]["@value"], ctree(c)) for c in x.get(DTS + "citeStructure", [])]


def tdepth(trees):
    return max((1 + tdepth(k) for _, k in trees), default=0)


def check(rec, x, w):
    base(rec, x, w)
    dub = sorted((str(p),) + vkey(o) for p, o in w.stmts if str(p).startswith(str(DCTERMS)))
    ext = sorted((str(p),) + vkey(o) for p, o in w.stmts
                 if not str(p).startswith(str(DCTERMS)) and not str(p).startswith(HIDDEN))
    rec.eq(statements(x, "dublincore"), dub, "statements", kind="dublincore", of=w.id)
    rec.eq(statements(x, "extensions"), ext, "statements", kind="extensions", of=w.id)
    got = x.get(HYDRA + "member", [])
    rec.eq(sorted(m["@id"] for m in got), sorted(m.id for m in w.members), "members", of=w.id)
    by = {m.id: m for m in w.members}
    for m in got:
        base(rec, m, by[m["@id"]], "members")
        rec.eq([k for k in m if k not in ("@id", "@type", HYDRA + "title", HYDRA + "totalItems", HYDRA + "description")], [],
               "members", kind="member-extra")
    rec.eq(ctree(x), w.cite or [], "citation", of=w.id)
    d = w.depth or tdepth(w.cite or [])
    rec.eq(x.get(DTS + "citeDepth"), [{"@value": d}] if d else None, "citation", kind="cite-depth", of=w.id)
    known = {"@id", "@type"} | {HYDRA + k for k in ("title", "totalItems", "description", "member")} | \
        {DTS + k for k in ("dublincore", "extensions", "citeStructure", "citeDepth")}
    rec.eq(sorted(set(x) - known), [], "base", kind="unknown-keys")


def read_back(rec, obj, w):
    """Another reader, with an empty store, learns the same from it."""
    doc = json.loads(json.dumps(obj.export(STD)))
    saved = get_graph()
    set_graph(bind_graph())
    try:
        c = DtsCollection.parse(doc)
        rec.eq((c.id, str(c.type), c.size), (w.id, w.type, w.total), "readback", kind="base")
        title = w.title if isinstance(w.title, (set, frozenset)) else {w.title}
        rec.expect(str(c.get_label()) in title, "readback", kind="label", got=c.get_label(), want=title)
        want = {}
        for p, o in w.stmts:
            if not str(p).startswith(HIDDEN):
                want.setdefault(p, set()).add(vkey(o))
        for p, vs in want.items():
            got = {vkey(o) for o in c.metadata.get(p)}
            if p == SKOS.prefLabel:
                rec.expect(vs <= got and len(got - vs) <= 1, "readback", kind="label-statements", got=got, want=vs)
            else:
                rec.eq(got, vs, "readback", kind="statement", predicate=p)
        rec.eq(sorted(m.id for m in c.members), sorted(m.id for m in w.members), "readback", kind="members")
        for m in w.members:
            k = c.children[m.id]
            rec.eq((str(k.type), k.size), (m.type, m.total), "readback", kind="member")
            rec.eq({p.id for p in k.parents}, {w.id}, "readback", kind="member-parent")

        def shape(cites):
            return [(y.name, shape(y.children)) for y in cites]
        rec.eq(shape(c.citation.children), w.cite or [], "readback", kind="citation")
        rec.eq(c.citation.depth, w.depth or tdepth(w.cite or []), "readback", kind="depth")
        again = expand(rec, c)
        rec.eq(ctree(again), w.cite or [], "readback", kind="twice")
        rec.eq(again.get(HYDRA + "totalItems"), [{"@value": w.total}], "readback", kind="twice-total")
    finally:
        set_graph(saved)


def intact(rec, f):
    before = set(get_graph())
    out = f()
    rec.eq(set(get_graph()) ^ before, set(), "intact")
    return out


TYPES = [HYDRA + "Collection", HYDRA + "Resource", DTS + "collection", "http://example.org/ns#Thing"]


def ident(rng, used):
    while True:
        s = rng.choice(["urn:cts:ns:", "http://example.org/", "urn:x:", "https://ex.org/a?b="]) + word(rng)
        if s not in used:
            used.add(s)
            return s


def cites(rng, depth, names=("book", "chapter", "poem", "line", "l & m", "été", "")):
    if depth == 0:
        return []
    return [(rng.choice(names), cites(rng, rng.randrange(depth))) for _ in range(rng.choice([1, 1, 2, 3]))]


def build_set(trees):
    def one(t):
        return DtsCitation(name=t[0], children=[one(k) for k in t[1]])
    return DtsCitationSet(children=[one(t) for t in trees])


class Cited(ResourceCollection):
    citation = None

    @property
    def readable(self):
        return True


def build_chain(trees, cls=Citation):
    """CTS schemes are chains."""
    if not trees:
        return None
    return cls(name=trees[0][0], child=build_chain(trees[0][1], cls), refsDecl="/tei:x[@n='$1']")


@scenario(quick=1500, thorough=60000)
def generic(rng, rec):
    used = set()

    def make(parent=None):
        cls = rng.choice([Collection, Collection, ResourceCollection, Cited])
        ident_ = ident(rng, used)
        c = cls(ident_)
        type_ = str(cls.TYPE_URI)
        if rng.random() < 0.6:
            type_ = rng.choice(TYPES)
            c.type = type_
        if parent is not None:
            c.parent = parent
        w = Want(ident_, type_, "", 0)
        labels = set()
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            t, l = text(rng), rng.choice([None, lang(rng)])
            c.set_label(t, l)
            labels.add(t)
            w.stmts.append((SKOS.prefLabel, Literal(t, lang=l)))
        if labels:
            w.title = labels
        if rng.random() < 0.4:
            w.description = text(rng)
            c.metadata.add(RDF_NAMESPACES.HYDRA.description, Literal(w.description))
        for _ in range(rng.randrange(8)):
            p, o = rng.choice(DUBLIN + OTHER), value(rng)
            c.metadata.add(p, o)
            w.stmts.append((p, o))
            if rng.random() < 0.15:                # another value that looks like it
                o = rng.choice(twins(o))
                c.metadata.add(p, o)
                w.stmts.append((p, o))
        if rng.random() < 0.2:
            c.metadata.add(RDFS.comment, "hidden")
        if rng.random() < 0.2:
            c.metadata.add(DC.relation, BNode())
        w.stmts = list(dict.fromkeys(w.stmts))
        if cls is Cited and rng.random() < 0.8:
            if rng.random() < 0.5:
                w.cite = cites(rng, rng.randrange(4))
                c.citation = build_set(w.cite)
                if rng.random() < 0.3:
                    w.depth = rng.randrange(1, 9)
                    c.citation.depth = w.depth
            else:
                for n in range(rng.randrange(4)):
                    w.cite = [("l%d" % n, w.cite or [])]
                c.citation = build_chain(w.cite)
        return c, w
    top, w = make()
    for _ in range(rng.choice([0, 0, 1, 2, 5] if rng.random() < 0.985 else [11, 30, 60, 120])):
        k, kw = make(top)
        for _ in range(rng.choice([0, 1, 2])):
            make(k)
            kw.total += 1
        w.members.append(kw)
        w.total += 1
    rec.op("collection", w.id, w.type, w.stmts, w.cite, [(m.id, m.total) for m in w.members])
    if len(w.stmts) > 1:
        rec.distinct(w.id, w.stmts, w.cite, [m.id for m in w.members])
        rec.sample({"id": w.id, "statements": [(str(p), vkey(o)) for p, o in w.stmts], "members": len(w.members)})
    x = intact(rec, lambda: expand(rec, top))
    check(rec, x, w)
    for m in w.members:
        check_member = top.children[m.id]
        y = expand(rec, check_member)
        base(rec, y, m)
    read_back(rec, top, w)


def chain(c):
    return [(c[0][0], chain(c[1:]))] if c else []


def want_cts(m, tid=None):
    w = Want(m.urn, "http://chs.harvard.edu/xmlns/cts/" + {"inventory": "TextInventory"}.get(m.kind, m.kind),
             {t for t in m.names.values()} or "", len(m.kids))
    if m.kind in I.TEXTS:
        w.cite = chain(m.cite)
        if m.effective_lang():
            w.stmts.append((DC.language, Literal(m.effective_lang())))
    elif m.kind == "work" and m.lang:
        w.stmts.append((DC.language, Literal(m.lang)))
    for l, t in m.names.items():
        w.stmts.append((SKOS.prefLabel, Literal(t, lang=l)))
        prop = {"textgroup": "groupname", "work": "title"}.get(m.kind, "label")
        w.stmts.append((RDF_NAMESPACES.CTS.term(prop), Literal(t, lang=l)))
    for l, t in m.descs.items():
        w.stmts.append((RDF_NAMESPACES.CTS.term("description"), Literal(t, lang=l)))
    for a in m.abouts:
        w.stmts.append((RDF_NAMESPACES.CTS.term("about"), URIRef(a)))
    for p, v, _ in m.sm:
        if v[0] == "URIRef":
            w.stmts.append((URIRef(p), URIRef(v[1])))
        else:
            w.stmts.append((URIRef(p), Literal(v[1], lang=v[2] or None, datatype=v[3] or None)))
    return w


@scenario(quick=300, thorough=12000)
def inventories(rng, rec):
    m = I.bare(rng, I.gen(rng))
    o = XML["inventory"].parse(I.to_xml(m, rng))
    rec.op("inventory", [x.urn for x in m.walk()])
    rec.distinct([(x.urn, x.names, x.cite) for x in m.walk()])
    nodes = list(m.walk())
    for x in [m] + rng.sample(nodes, min(4, len(nodes))):
        rec.count("cts")
        w = want_cts(x)
        w.members = [want_cts(k) for k in x.kids]
        obj = o if x is m else o[x.urn]
        check(rec, intact(rec, lambda: expand(rec, obj)), w)
        read_back(rec, obj, w)
    # a collection of inventories: with a single one, that one speaks for it
    tic = CtsTextInventoryCollection("tic:" + word(rng))
    n = rng.choice([0, 1, 1, 2, 3])
    w = Want(tic.id, "http://chs.harvard.edu/xmlns/cts/CtsTextInventoryCollection", "", n)
    for i in range(n):
        ti = CtsTextInventoryMetadata("ti:%d" % i, parent=tic)
        k = Want(ti.id, "http://chs.harvard.edu/xmlns/cts/TextInventory", "", 0)
        if rng.random() < 0.8:
            k.title = text(rng)
            ti.set_label(k.title, "eng")
            k.stmts.append((SKOS.prefLabel, Literal(k.title, lang="eng")))
        w.members.append(k)
    rec.count("inventories")
    check(rec, expand(rec, tic), w.members[0] if n == 1 else w)
