"""C11: metadata stores."""
import json

from rdflib import BNode, Graph, Literal, URIRef
from rdflib.namespace import DC, DCTERMS, SKOS, XSD, RDFS

from vlib.core import declare, scenario
from vlib.gen import text, lang, word
from MyCapytain.common.constants import Mimetypes, RDF_NAMESPACES, get_graph, set_graph, bind_graph
from MyCapytain.common.metadata import Metadata
from MyCapytain.resources.texts.base.tei import TeiResource

declare(
    "C11",
    rule="A case is a random history of 5-40 assignments, additions, removals and queries over 1-4 metadata holders that "
         "share one triple graph (strings with and without language, integers, floats, URIs, blank nodes), followed by "
         "every export under inclusion/exclusion filters. Non-trivial: at least 4 changes. Distinct: by history.",
    require={"get": 1000, "single": 1000, "isolation": 500, "json": 200, "jsonld": 150, "rdf": 150, "filter": 300,
             "descriptive": 200, "getor": 100},
)

PREDS = [DC.title, DC.creator, DCTERMS.title, DCTERMS.created, SKOS.prefLabel, RDF_NAMESPACES.CTS.term("label"),
         RDF_NAMESPACES.CTS.term("title"), RDF_NAMESPACES.DTS.term("note"), RDF_NAMESPACES.TEI.term("x"),
         URIRef("http://example.org/ns#p1"), URIRef("http://example.org/ns#p2"), URIRef("http://example.org/other/p1"),
         URIRef("http://example.org/ns#p1x"), URIRef("http://example.org/ns#p")]
NAMESPACES = [str(DC), str(DCTERMS), str(RDF_NAMESPACES.CTS), "http://example.org/ns#", str(SKOS)]


def value(rng):
    """-> (argument, language argument, stored object)"""
    k = rng.randrange(10)
    if k < 3:
        v, l = text(rng), lang(rng)
        return v, l, Literal(v, lang=l)
    if k == 3:
        v = text(rng)
        return v, None, Literal(v)
    if k == 4:
        v = rng.randrange(-5, 10 ** 6)
        return v, None, Literal(v)
    if k == 5:
        v = URIRef("http://example.org/" + word(rng))
        return v, None, v
    if k == 6:
        v = BNode()
        return v, None, v
    if k == 7:
        v = Literal(text(rng), lang=rng.choice(["en-GB", "fr"])) if rng.random() < 0.5 else Literal("2001", datatype=XSD.gYear)
        return v, None, v
    if k == 8:                       # values that count as false are values
        v = rng.choice([0, 0.0, False, "", Literal("", lang="eng")])
        return v, None, v if isinstance(v, Literal) else Literal(v)
    v = Literal(text(rng), lang="eng")
    return v, rng.choice([None, "fre"]), v


def okey(o):
    return (type(o).__name__, str(o), getattr(o, "language", None) or "", str(getattr(o, "datatype", None) or ""))


def bag(objs):
    return sorted(okey(o) for o in objs)


def check_store(rec, m, model, monitor="get"):
    for p in PREDS:
        have = model.get(p, set())
        rec.eq(bag(m.get(p)), bag(have), monitor, predicate=p)
        rec.eq(bag(m[p]), bag(have), monitor, predicate=p)


def check_single(rng, rec, m, model):
    p = rng.choice(PREDS)
    have = model.get(p, set())
    l = rng.choice([None, lang(rng), "eng", "fre", "en-GB"])
    key = p if rng.random() < 0.7 else str(p)
    got = m.get_single(key, lang=l)
    exact = [o for o in have if isinstance(o, Literal) and o.language == l]
    if not have:
        rec.expect(got is None, "single", got=got)
    elif l is not None and exact:
        rec.expect(okey(got) in bag(exact), "single", kind="single-language", lang=l, got=got, want=exact)
    else:
        rec.expect(got is not None and okey(got) in bag(have), "single", kind="single-default", got=got, want=have)
    if l is not None:
        rec.eq(bag(m.get(p, lang=l)), bag(exact), "get", kind="get-language", lang=l)
        got = m[p, l]
        rec.expect((got is None and not have) or okey(got) in bag(exact or have), "single", kind="getitem-language")


def triples(model):
    return sorted((str(p), okey(o)) for p, objs in model.items() for o in objs)


def without_bnode_names(ts):
    return sorted((p, (o[0], "" if o[0] == "BNode" else o[1], o[2], o[3])) for p, o in ts)


def check_json(rec, out, model, what):
    """Literals by predicate and language."""
    want = {}
    for p, objs in model.items():
        for o in objs:
            want.setdefault(str(p), {})
            if isinstance(o, Literal):
                want[str(p)].setdefault(o.language, []).append(str(o))
    rec.eq(sorted(out), sorted(want), "json", kind="json-keys", what=what)
    for p in want:
        rec.eq(sorted(out[p], key=str), sorted(want[p], key=str), "json", kind="json-languages", what=what)
        for l, vals in want[p].items():
            got = out[p][l]
            got = sorted([got] if isinstance(got, str) else list(got))
            if len(vals) == 1:
                rec.expect(isinstance(out[p][l], str), "json", kind="json-single-value")
            if got != sorted(vals) and got == sorted(v.title() for v in vals):
                rec.finding("C11-json-title-case", "%r exported as %r" % (sorted(vals), got))
            else:
                rec.eq(got, sorted(vals), "json", kind="json-values", predicate=p)


def selected(model, only=None, exclude=None):
    def ns(p):
        return str(p)[:max(str(p).rfind("#"), str(p).rfind("/")) + 1]
    if only is not None:
        f = [str(x) for x in only]
        return {p: o for p, o in model.items() if str(p) in f or ns(p) in f}
    f = [str(x) for x in exclude or []]
    return {p: o for p, o in model.items() if str(p) not in f and ns(p) not in f}


def check_exports(rng, rec, m, model, node):
    check_json(rec, m.export(Mimetypes.JSON.Std), model, "all")
    check_json(rec, m.export(), model, "default")
    g = Graph().parse(data=m.export(Mimetypes.JSON.LD), format="json-ld")
    named = not isinstance(node, BNode)
    rec.eq(without_bnode_names((str(p), okey(o)) for _, p, o in g), without_bnode_names(triples(model)), "jsonld")
    if named:
        rec.eq({str(s) for s, _, _ in g}, {str(node)} if triples(model) else set(), "jsonld", kind="jsonld-subject")
    g = Graph().parse(data=m.export(Mimetypes.XML.RDF), format="xml")
    rec.eq(without_bnode_names((str(p), okey(o)) for _, p, o in g), without_bnode_names(triples(model)), "rdf")
    # filters name predicates or whole namespaces, as URIs or plain strings
    for _ in range(2):
        flt = rng.sample(PREDS, rng.randrange(0, 3)) + rng.sample(NAMESPACES, rng.randrange(0, 3))
        flt = [URIRef(x) if rng.random() < 0.5 else str(x) for x in flt]
        kept = list(flt)
        how = rng.choice(["only", "exclude"])
        out = m.export(Mimetypes.JSON.Std, **{how: flt})
        check_json(rec, out, selected(model, **{how: kept}), how)
        rec.eq(flt, kept, "filter", kind="filter-argument-changed", how=how)
        g = Graph().parse(data=m.export(Mimetypes.JSON.LD, **{how: flt}), format="json-ld")
        rec.eq(without_bnode_names((str(p), okey(o)) for _, p, o in g),
               without_bnode_names(triples(selected(model, **{how: kept}))), "filter", how=how, names=kept)


@scenario(quick=1500, thorough=60000)
def stores(rng, rec):
    n = rng.randrange(1, 5)
    nodes = [rng.choice([None, URIRef("urn:x:%d" % i)]) for i in range(n)]
    holders = [Metadata(node=x) if x is not None else Metadata() for x in nodes]
    models = [{} for _ in range(n)]
    outside = BNode()
    links = [set() for _ in range(n)]
    history = []
    burst = rng.choice(PREDS) if rng.random() < 0.03 else None      # many values of one
    for _ in range(rng.randrange(5, 41) if burst is None else rng.randrange(30, 70)):
        i = rng.randrange(n) if burst is None else 0
        m, model = holders[i], models[i]
        if rng.random() < 0.15 and nodes[i] is not None:
            m = Metadata(node=nodes[i])          # another view of the same node
        p = rng.choice(PREDS) if burst is None else burst
        k = "add" if burst is not None and rng.random() < 0.95 else rng.choice(["add", "add", "add", "set", "remove", "remove-value", "link", "unlink", "clear"] + ["add"] * 3)
        history.append((i, k, str(p)))
        if k in ("add", "set"):
            v, l, stored = value(rng)
            if model.get(p) and rng.random() < 0.25:      # as an earlier one, but for type, language or case
                o = rng.choice(sorted(model[p], key=okey))
                if not isinstance(o, BNode):
                    v = stored = rng.choice([Literal(str(o)), Literal(str(o), lang="fre"), Literal(str(o).upper()),
                                             Literal(str(o), datatype=XSD.string)])
                    l = None
            getattr(m, k)(p, v, lang=l) if l is not None or rng.random() < 0.5 else getattr(m, k)(p, v)
            if k == "set":
                model[p] = set()
            model.setdefault(p, set()).add(stored)
            history[-1] += (okey(stored)[:3] if not isinstance(stored, BNode) else "_",)
        elif k == "remove":
            m.remove(p)
            model.pop(p, None)
        elif k == "remove-value":
            objs = sorted(model.get(p, ()), key=okey)
            if objs:
                o = rng.choice(objs)
                m.remove(p, o)
                model[p].discard(o)
        elif k == "clear" and rng.random() < 0.3:
            m.remove()
            model.clear()
        elif k == "link":
            get_graph().add((outside, p, m.asNode()))
            links[i].add(p)
        elif k == "unlink":
            m.unlink()
            links[i].clear()
        for q in [q for q in model if not model[q]]:
            del model[q]
        rec.op(*history[-1])
        check_single(rng, rec, holders[i], model)
        j = rng.randrange(n)
        check_store(rec, holders[j], models[j], "isolation" if j != i else "get")
        rec.eq(sorted(get_graph().predicates(outside, holders[j].asNode())), sorted(links[j]), "isolation", kind="links")
    if len(history) > 4:
        rec.distinct(history)
        rec.sample({"history": history[:8]})
    for m, model, node in zip(holders, models, nodes):
        check_store(rec, m, model)
        check_exports(rng, rec, m, model, m.asNode())
        check_store(rec, m, model)
    # a holder keeps its graph when the library moves to another one
    old = get_graph()
    set_graph(bind_graph())
    fresh = Metadata(node=URIRef("urn:x:0"))
    rec.eq([x for p in PREDS for x in fresh.get(p)], [], "isolation", kind="new-graph")
    fresh.add(DC.title, "new")
    for m, model in zip(holders, models):
        check_store(rec, m, model, "isolation")
        rec.expect(m.graph is old and fresh.graph is get_graph(), "isolation", kind="graph-kept")


@scenario(quick=400, thorough=10000)
def linked(rng, rec):
    """Metadata.getOr returns the holder a subject is linked to, or a new one."""
    g = get_graph()
    subj, pred = URIRef("urn:s"), RDF_NAMESPACES.DTS.term("metadata")
    node = URIRef("urn:x:node")
    new = Metadata.getOr(subj, pred, node=node)
    rec.eq(new.asNode(), node, "getor")
    g.add((subj, pred, node))
    v, l, stored = value(rng)
    new.add(DC.title, v, l)
    again = Metadata.getOr(subj, pred)
    rec.eq((again.asNode(), bag(again.get(DC.title))), (node, bag([stored])), "getor")
    rec.expect(Metadata.getOr(URIRef("urn:none"), pred).asNode() != node, "getor")
    rec.distinct(okey(stored)[:3])


@scenario(quick=500, thorough=15000)
def descriptive(rng, rec):
    """Title, creator, description and subject of a text, by language."""
    t = TeiResource(identifier="urn:t", resource="<l xmlns='http://www.tei-c.org/ns/1.0'>x</l>")
    other = TeiResource(identifier="urn:t", resource="<l xmlns='http://www.tei-c.org/ns/1.0'>x</l>")
    model = {k: {} for k in ("title", "creator", "description", "subject")}
    for k in model:
        for l in rng.sample(["eng", "lat", "fre", "ger"], rng.randrange(0, 4)):
            v = text(rng)
            getattr(t, "set_" + k)(v, l)
            model[k][l] = v
    rec.distinct(sorted((k, sorted(v.items())) for k, v in model.items()))
    for k in model:
        for l in ["eng", "lat", "ita"]:
            got = getattr(t, "get_" + k)(l)
            if l in model[k]:
                rec.eq((str(got), got.language), (model[k][l], l), "descriptive", which=k)
            elif model[k]:
                rec.expect(str(got) in model[k].values() and model[k][got.language] == str(got), "descriptive",
                           kind="descriptive-default", which=k)
            else:
                rec.expect(got is None, "descriptive", kind="descriptive-none", which=k, got=got)
        got = getattr(t, "get_" + k)()
        rec.expect((got is None) == (not model[k]), "descriptive")
        rec.expect(getattr(other, "get_" + k)() is None, "isolation", kind="two-texts")
