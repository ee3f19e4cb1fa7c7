"""C25: collections as RDF."""
import json

from pyld import jsonld
from rdflib import BNode, Graph, Literal, URIRef
from rdflib.compare import to_isomorphic
from rdflib.namespace import DC, DCTERMS, FOAF, OWL, SKOS, XSD

from vlib.core import declare, scenario
from vlib import inv as I
from vlib.gen import text, word, lang
from checks.c12 import Readable
from checks.c13 import XML
from checks.c17 import ident
from MyCapytain.common.constants import Mimetypes, RDF_NAMESPACES, get_graph
from MyCapytain.resources.collections.dts import DtsCollection
from MyCapytain.resources.prototypes.metadata import Collection

declare(
    "C25",
    rule="A case is a store of 2-14 collections (plain, readable, DTS, or a whole CTS inventory) that point at each other, at outside "
         "resources and at unnamed nodes, in circles too, with literals of every kind; each is exported to RDF/XML and JSON-LD, "
         "and what a parser reads there is compared with what can be reached in the store. Non-trivial: at least "
         "10 statements are reached. Distinct: by the set of them.",
    require={"jsonld": 1500, "rdf": 1500, "recorded": 3000, "intact": 1500, "independent": 300},
)

PREDS = [DC.title, DC.relation, DCTERMS.creator, DCTERMS.isPartOf, FOAF.knows, OWL.sameAs, SKOS.related, SKOS.altLabel,
         RDF_NAMESPACES.CTS.term("label"), RDF_NAMESPACES.TEI.term("author"), RDF_NAMESPACES.DTS.term("note"),
         URIRef("http://example.org/ns#p1"), URIRef("http://example.org/other/p2"), URIRef("http://schema.org/about")]


def literal(rng, idents):
    k = rng.randrange(9)
    if k < 3:
        return Literal(text(rng), lang=lang(rng))
    if k == 3:
        return Literal(rng.choice([0, 7, -12, True, False, 10 ** 10]))
    if k == 4:
        return Literal(rng.choice(["", " ", "a\nb", "<&>\"'", "{}[]@:", "_:b0", "http://example.org/"]))
    if k == 5:
        v, t = rng.choice([("1984-01-31", XSD.date), ("2001", XSD.gYear), ("1.50", XSD.decimal), ("x", URIRef("http://example.org/t"))])
        return Literal(v, datatype=t)
    if k == 6:
        return Literal(rng.choice(idents))              # text that reads like an identifier
    return Literal(text(rng))


def reach(g, start):
    """Everything said of start, of what it points at and so on; and what points at start."""
    out = set(g.triples((None, None, start)))
    seen, todo = {start}, [start]
    while todo:
        for s, p, o in g.triples((todo.pop(), None, None)):
            out.add((s, p, o))
            if not isinstance(o, Literal) and o not in seen:
                seen.add(o)
                todo.append(o)
    return out


def lower(ts):
    """Language tags compare whatever their case."""
    g = Graph()
    for s, p, o in ts:
        if isinstance(o, Literal) and o.language:
            o = Literal(str(o), lang=o.language.lower())
        elif isinstance(o, Literal) and o.datatype == XSD.string:
            o = Literal(str(o))
        g.add((s, p, o))
    return g


def agree(rec, got, want, monitor, **kw):
    a, b = lower(got), lower(want)
    if monitor != "rdf":
        # rdflib loses plain values that are empty, false or zero when there are others: not judged
        for g in (a, b):
            for t in [t for t in g if isinstance(t[2], Literal) and t[2].language is None and str(t[2]) in ("", "0", "false")]:
                g.remove(t)

    def plain(g):
        return {t for t in g if not any(isinstance(x, BNode) for x in t)}
    rec.eq(plain(a) - plain(b), set(), monitor, kind=monitor + "-extra", **kw)
    rec.eq(plain(b) - plain(a), set(), monitor, kind=monitor + "-lost", **kw)
    rec.eq(len(a), len(b), monitor, kind=monitor + "-size", **kw)
    rec.expect(to_isomorphic(a) == to_isomorphic(b), monitor, kind=monitor + "-unnamed", **kw)


def same_text(s):
    return s if isinstance(s, str) else s.decode("utf-8")


def exports(rng, rec, obj, extra=()):
    before = set(get_graph())
    want = reach(get_graph(), obj.asNode())
    for t in extra:
        rec.expect(t in want, "recorded", statement=t)
    js = same_text(obj.export(Mimetypes.JSON.LD))
    agree(rec, Graph().parse(data=js, format="json-ld"), want, "jsonld", of=obj.id)
    agree(rec, Graph().parse(data=same_text(obj.export(Mimetypes.XML.RDF)), format="xml"), want, "rdf", of=obj.id)
    if rng.random() < 0.25:
        nq = jsonld.to_rdf(json.loads(js), {"format": "application/n-quads"})
        agree(rec, Graph().parse(data=nq, format="nt"), want, "independent", of=obj.id)
    rec.eq(set(get_graph()) ^ before, set(), "intact")
    return want


@scenario(quick=600, thorough=20000)
def stores(rng, rec):
    used = set()
    n = rng.choice([2, 3, 5, 9, 14])
    idents = [ident(rng, used) for _ in range(n)]
    objs, said = [], {}
    for i in idents:
        cls = rng.choice([Collection, Collection, Readable, DtsCollection])
        o = cls(i)
        if objs and rng.random() < 0.5 and not isinstance(o, DtsCollection):
            o.parent = rng.choice([x for x in objs])
        objs.append(o)
        said[i] = []
    g = get_graph()
    blanks = [BNode() for _ in range(rng.choice([0, 0, 1, 3]))]
    things = [URIRef("http://example.org/thing/" + word(rng)) for _ in range(2)]
    for o in objs:
        for _ in range(rng.choice([0, 1, 2, 4])):
            p = rng.choice(PREDS)
            v = literal(rng, idents) if rng.random() < 0.5 else rng.choice([x.asNode() for x in objs] + blanks + things)
            o.metadata.add(p, v)
            said[o.id].append((o.asNode(), p, v))
        if rng.random() < 0.5:
            l = (text(rng), lang(rng))
            o.set_label(*l)
            said[o.id].append((o.asNode(), SKOS.prefLabel, Literal(l[0], lang=l[1])))
    for x in blanks + things:
        for _ in range(rng.choice([0, 1, 2])):
            v = literal(rng, idents) if rng.random() < 0.5 else rng.choice([y.asNode() for y in objs] + blanks)
            g.add((x, rng.choice(PREDS), v))
    rec.op("store", sorted(map(str, g)))
    for o in rng.sample(objs, min(len(objs), 4)):
        want = exports(rng, rec, o, said[o.id])
        if len(want) >= 10:
            rec.distinct(*sorted(map(str, want)))
            rec.sample([o.id, len(want), len(g)])


@scenario(quick=60, thorough=2000)
def inventories(rng, rec):
    m = I.bare(rng, I.gen(rng, groups=(1, 2), works=(1, 2), texts=(1, 2), tiid="urn:x:inv"))
    o = XML[m.kind].parse(I.to_xml(m, rng))
    for x in [o] + list(o.descendants):
        want = exports(rng, rec, x)
        rec.distinct(*sorted(map(str, want)))


@scenario(quick=80, thorough=2500)
def chains(rng, rec):
    """What hangs on a long chain, some links of which have no name."""
    g, n = get_graph(), rng.choice([3, 6, 9, 10, 11, 12, 16, 20, 33, 50, 70])
    o, used = rng.choice([Collection, Readable, DtsCollection])("urn:x:head"), set()
    at, said = o.asNode(), []
    for k in range(n):
        to = rng.choice([URIRef("http://example.org/link/%d" % k), BNode(), URIRef("urn:x:link:%d" % k)])
        said.append((at, rng.choice(PREDS), to))
        if rng.random() < 0.3:
            said.append((to, rng.choice(PREDS), literal(rng, ["urn:x:head"])))
        if rng.random() < 0.1:
            said.append((to, rng.choice(PREDS), o.asNode()))
        at = to
    said.append((at, rng.choice(PREDS), Literal("the end")))
    for t in said:
        g.add(t)
    for k in range(rng.randrange(3)):        # and nothing of what stands apart
        g.add((BNode(), rng.choice(PREDS), Literal("apart")))
        g.add((URIRef("urn:x:apart"), rng.choice(PREDS), URIRef("urn:x:apart:%d" % k)))
    want = exports(rng, rec, o, said)
    rec.distinct(n, len(want))
    rec.count("chain")
