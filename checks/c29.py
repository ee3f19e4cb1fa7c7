"""C29: triple stores are separate."""
import copy
import json

from lxml import etree
from rdflib import BNode, Graph, Literal, URIRef
from rdflib.namespace import DC, DCTERMS, RDF, SKOS

from vlib.core import declare, scenario
from vlib import inv as I, repo as R, tei
from vlib.gen import text, lang, word
from checks.c13 import XML, PROP
from checks.c17 import vkey
from MyCapytain.common.constants import Mimetypes, RDF_NAMESPACES, bind_graph, get_graph, set_graph
from MyCapytain.common.metadata import Metadata
from MyCapytain.errors import UnknownCollection
from MyCapytain.resolvers.cts.local import CtsCapitainsLocalResolver
from MyCapytain.resources.collections.dts import DtsCollection
from MyCapytain.resources.prototypes.metadata import Collection, ResourceCollection
from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText

declare(
    "C29",
    rule="A case is a history of 20-60 steps over 2-4 triple stores: inventories, DTS collections, metadata holders, texts and "
         "folder resolvers are made in the store in use, and described, questioned, merged, deleted and exported while any store "
         "is in use; the stores speak of the same identifiers in different words. Every answer is compared with that of "
         "the same history played with that store alone. Non-trivial: two stores with contents, and a step taken under "
         "a foreign store. Distinct: by history.",
    require={"alone": 10000, "foreign": 4000, "untouched": 8000, "new": 2000, "final": 1000},
)

PREDS = [DC.title, DC.creator, DCTERMS.created, SKOS.prefLabel, RDF_NAMESPACES.CTS.term("label"), URIRef("http://example.org/ns#p1"),
         RDF_NAMESPACES.DTS.term("note")]
IDS = ["urn:x:%d" % i for i in range(4)] + ["http://example.org/c/%d" % i for i in range(4)]


# ------------------------------------------------------------------ what comes back, in a comparable form

def flat(x):
    if isinstance(x, dict):
        return sorted(((str(k), flat(v)) for k, v in x.items()), key=repr)
    if isinstance(x, (list, set, tuple)):
        return sorted((flat(y) for y in x), key=repr)
    if isinstance(x, BNode):
        return "_"
    if isinstance(x, (Literal, URIRef)):
        return vkey(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return "_" if isinstance(x, str) and x.startswith("_:") else x
    return type(x).__name__


def statements(g):
    return sorted(((flat(a), flat(b), flat(c)) for a, b, c in g), key=repr)


def xml(s):
    if isinstance(s, etree._Element):
        return tei.canon(s)
    root = etree.fromstring(s)

    def c(e):
        return (e.tag, sorted(e.attrib.items()), (e.text or "").strip(), sorted((c(k) for k in e), key=str))
    return c(root)


def written(o, fmt):
    out = o.export(fmt)
    if fmt in (Mimetypes.XML.CTS, Mimetypes.XML.CapiTainS.CTS):
        return xml(out)
    if fmt in (Mimetypes.JSON.LD, Mimetypes.XML.RDF):
        g = Graph()
        g.parse(data=out, format="json-ld" if fmt == Mimetypes.JSON.LD else "xml")
        return statements(g)
    # a number keeps its prefix only where the namespace has one in its store
    return flat(json.loads(json.dumps(out)))


# ------------------------------------------------------------------ one store's history

class Store:
    """What was made in one store. Steps are functions of it, and of nothing else."""
    def __init__(self, graph):
        self.graph = graph
        self.objs = {}


def make(kind, name, arg, arg2=None):
    def inventory(st):
        st.objs[name] = XML["inventory"].parse(arg)
        return sorted(x.id for x in st.objs[name].descendants)

    def part(st):
        st.objs[name] = XML[arg2].parse(arg)
        return st.objs[name].id

    def holder(st):
        st.objs[name] = Metadata(node=URIRef(arg) if arg else None)
        return None

    def collection(st):
        st.objs[name] = {"c": Collection, "r": ResourceCollection, "d": DtsCollection}[arg2](arg)
        return st.objs[name].id

    def dts(st):
        st.objs[name] = DtsCollection.parse(arg)
        return sorted(x.id for x in st.objs[name].descendants)

    def txt(st):
        st.objs[name] = CapitainsCtsText(urn=arg2, resource=arg)
        return st.objs[name].export(Mimetypes.PLAINTEXT) if "text" in name else None

    def resolver(st):
        st.objs[name] = CtsCapitainsLocalResolver(list(arg))
        o = st.objs[name].getMetadata()
        return sorted(x.id for x in o.descendants), sorted(str(x.get_label()) for x in o.descendants)

    def getor(st):
        m = Metadata.getOr(URIRef(arg), arg2)
        st.objs[name] = m
        return flat(list(m.graph.predicate_objects(m.asNode())))
    return locals()[kind]


def describe(name, verb, p, v, l, pick=None):
    def f(st):
        o = st.objs.get(name)
        if o is None:
            return "nothing"
        if pick is not None and hasattr(o, "descendants"):
            all_ = sorted(o.descendants + [o], key=lambda x: x.id)
            o = all_[pick % len(all_)]
        m = o if isinstance(o, Metadata) else o.metadata
        if verb == "add":
            m.add(p, v, lang=l)
        elif verb == "set":
            m.set(p, v, lang=l)
        elif verb == "remove":
            m.remove(p)
        elif verb == "label" and hasattr(o, "set_label"):
            o.set_label(text_of(v), l or "eng")
        elif verb == "property" and hasattr(o, "set_cts_property"):
            o.set_cts_property("note", text_of(v), l)
        elif verb == "link" and hasattr(o, "set_link"):
            o.set_link(RDF_NAMESPACES.CTS.term("about"), "urn:cts:a:b." + word_of(v))
        elif verb == "version" and isinstance(o, Collection):
            o.version = text_of(v)
        elif verb == "title" and hasattr(o, "set_title"):
            o.set_title(text_of(v), l or "eng")
            o.set_creator(text_of(v) + "c", l or "eng")
        else:
            m.add(p, v, lang=l)
        return "done"
    return f


def text_of(v):
    return str(v) or "x"


def word_of(v):
    return "w%d" % len(str(v))


def join(name, child, ident):
    """A new child, made in the store in use."""
    def f(st):
        o = st.objs.get(name)
        if not isinstance(o, Collection) or isinstance(o, XML["inventory"]) or hasattr(o, "urn") or ident in [x.id for x in o.descendants + [o] + list(o.parents)]:
            return "no"
        c = st.objs[child] = Collection(ident)
        c.parent = o
        return sorted(x.id for x in o.members)
    return f


def delete(name, pick):
    def f(st):
        o = st.objs.get(name)
        if not isinstance(o, Collection):
            return "no"
        all_ = sorted(x.id for x in o.descendants)
        if not all_:
            return "none"
        i = all_[pick % len(all_)]
        gone = o[i]
        if any(x is gone or any(y is gone for y in x.parents) for x in st.objs.values() if isinstance(x, Collection)):
            return "kept"
        below = gone.descendants
        del o[i]
        return i, sorted(x.id for x in o.descendants), len(below)
    return f


def merge(name, other):
    def f(st):
        a, b = st.objs.get(name), st.objs.get(other)
        if a is None or b is None or a is b:
            return "no"
        return a.update(b) is a and sorted(x.id for x in a.descendants)
    return f


def ask(name, what, pick, p, l):
    def f(st):
        o = st.objs.get(name)
        if o is None:
            return "nothing"
        if isinstance(o, Metadata):
            m, o = o, None
        elif isinstance(o, CapitainsCtsText):
            m = o.metadata
        elif isinstance(o, CtsCapitainsLocalResolver):
            return [(x.id, flat(list(x.metadata.graph.predicate_objects(x.asNode()))))
                    for x in sorted(o.inventory.descendants, key=lambda x: x.id)]
        else:
            all_ = sorted(o.descendants + [o], key=lambda x: x.id)
            o = all_[pick % len(all_)]
            m = o.metadata
        out = [flat(list(m.get(p))), flat(m[p]), flat(list(m.get(p, lang=l)))]
        one = m.get_single(p, l)
        out.append(flat(one) if len(list(m.get(p))) < 2 else one is None)
        if what == "json":
            out.append(flat(m.export(Mimetypes.JSON.Std)))
        elif what == "graph":
            g = Graph()
            g.parse(data=m.export(Mimetypes.JSON.LD), format="json-ld")
            out.append(statements(g))
        elif what == "filter":
            out.append(flat(m.export(Mimetypes.JSON.Std, only=[DC])))
            out.append(flat(m.export(Mimetypes.JSON.Std, exclude=[DC])))
        if isinstance(o, Collection):
            there = (o.asNode(), RDF.type, None) in o.graph      # or deleted
            out.append((o.id, there and flat(o.type), there and flat(o.model), flat(o.version), o.size, [x.id for x in o.parents]))
            out.append(sorted(x.id for x in o.members))
            if len(list(m.get(SKOS.prefLabel))) < 2:
                out.append(flat(o.get_label(l)))
            if hasattr(o, "get_cts_property"):
                out.append(flat(o.get_cts_property("note")))
                for k in ("groupname", "title", "label"):
                    out.append(flat(o.get_cts_property(k)))
            if hasattr(o, "lang"):
                out.append(flat(o.lang))
            if what == "dts" and there and all((x.asNode(), RDF.type, None) in o.graph for x in o.members):
                out.append(written(o, Mimetypes.JSON.DTS.Std))
            elif what == "ld":
                out.append(written(o, Mimetypes.JSON.LD))
            elif what == "rdf":
                out.append(written(o, Mimetypes.XML.RDF))
            elif what in ("cts", "cap") and hasattr(o, "urn"):
                out.append(written(o, Mimetypes.XML.CTS if what == "cts" else Mimetypes.XML.CapiTainS.CTS))
            elif what == "unknown":
                try:
                    out.append(o["urn:no:such"].id)
                except UnknownCollection:
                    out.append("unknown")
        elif isinstance(o, CapitainsCtsText):
            out.append((flat(o.get_title(l)), o.export(Mimetypes.PLAINTEXT), [str(x) for x in o.getReffs()]))
        return out
    return f


# ------------------------------------------------------------------ histories

def value(rng):
    k = rng.randrange(6)
    return text(rng) if k < 3 else rng.randrange(100) if k == 3 else URIRef("http://example.org/" + word(rng)) if k == 4 else \
        Literal(text(rng), lang=lang(rng))


def reword(rng, m):
    """The same inventory, in other words."""
    m = copy.deepcopy(m)
    for x in m.walk():
        if x.kind != "inventory":
            x.names = I.names(rng)
            x.sm = I.structured(rng)
        if x.kind in I.TEXTS:
            x.descs = I.names(rng, 0, 2)
        if x.kind == "work":
            x.lang = lang(rng)
            for t in x.kids:
                if t.kind == "edition":
                    t.lang = x.lang
    return m


def dts_doc(rng, root=None):
    ids = rng.sample(IDS, rng.randrange(1, 5))
    return {
        "@context": {"@vocab": "https://www.w3.org/ns/hydra/core#", "dct": "http://purl.org/dc/terms/", "dts": "https://w3id.org/dts/api#"},
        "@id": ids[0], "@type": "Collection", "title": text(rng), "totalItems": len(ids) - 1,
        "dts:dublincore": {"dct:creator": [{"@language": lang(rng), "@value": text(rng)}]},
        "member": [{"@id": i, "@type": "Collection", "title": text(rng), "totalItems": 0} for i in ids[1:]],
    }


def program(rng, n, base):
    """-> [(store, must it be in use, what, step)]"""
    steps, names = [], {s: [] for s in range(n)}
    shared = I.gen(rng, groups=(1, 2), works=(0, 2), texts=(0, 3))
    doc = tei.gen_doc(rng, depth=2, width=2)
    resolvers = 0
    for i in range(rng.randrange(20, 61)):
        s = rng.randrange(n)
        name = "%d" % i
        mine = names[s]
        if not mine or rng.random() < 0.25:
            k = rng.randrange(14)
            if k < 3 and not any(x[1] == "inventory" for x in mine):
                m = reword(rng, shared)
                steps.append((s, True, "inventory", make("inventory", name, I.to_xml(m, rng))))
                mine.append((name, "inventory"))
            elif k == 3:
                at = rng.randrange(len(shared.kids))
                for more in ("", "b", "c")[:rng.choice([1, 2, 3])]:
                    g = reword(rng, shared).kids[at]
                    g.parent = None
                    steps.append((s, True, "textgroup", make("part", name + more, I.to_xml(g, rng), "textgroup")))
                    mine.append((name + more, "textgroup " + g.urn))
            elif k < 7:
                steps.append((s, True, "holder", make("holder", name, rng.choice(IDS + [None]))))
                mine.append((name, "holder"))
            elif k < 10:
                steps.append((s, True, "collection", make("collection", name, rng.choice(IDS), rng.choice("crd"))))
                mine.append((name, "collection"))
            elif k == 10:
                steps.append((s, True, "dts", make("dts", name, dts_doc(rng))))
                mine.append((name, "dts"))
            elif k == 11:
                steps.append((s, True, "text", make("txt", name, doc.xml, "urn:cts:latinLit:a.b.c")))
                mine.append((name, "text"))
            elif k == 12 and not resolvers and not any(x[1].startswith(("inv", "textgroup")) for x in mine) and rng.random() < 0.5:
                r = R.gen(rng, base, groups=(1, 2), works=(1, 2), texts=(0, 2), nfolders=1, depth=1)
                resolvers += 1
                steps.append((s, True, "resolver", make("resolver", name, r.folders)))
                mine.append((name, "resolver"))
            else:
                steps.append((s, True, "getor", make("getor", name, rng.choice(IDS), rng.choice(PREDS[-2:]))))
                mine.append((name, "holder"))
            continue
        name, kind = rng.choice(mine)
        k = rng.randrange(12 + 3 * kind.startswith("textgroup"))
        if kind == "resolver" or k < 5:
            steps.append((s, False, "ask", ask(name, rng.choice(["json", "graph", "filter", "dts", "ld", "rdf", "cts", "cap", "unknown"]),
                                               rng.randrange(99), rng.choice(PREDS), lang(rng))))
        elif k < 9:
            steps.append((s, False, "describe", describe(name, rng.choice(["add", "add", "set", "remove", "label", "property", "link", "version", "title"]),
                                                         rng.choice(PREDS), value(rng), rng.choice([None, lang(rng)]), rng.randrange(99))))
        elif k == 9:
            steps.append((s, True, "join", join(name, "j%d" % i, rng.choice(IDS))))
            mine.append(("j%d" % i, "collection"))
        elif k == 10:
            steps.append((s, False, "delete", delete(name, rng.randrange(99))))
        elif kind.startswith("textgroup"):
            other = [x for x in mine if x[1] == kind and x[0] != name]
            if other and rng.random() < 0.7:
                steps.append((s, False, "merge", merge(name, rng.choice(other)[0])))
    return steps


def bound(g, pairs):
    for prefix, ns in pairs:
        g.bind(prefix, ns)
    return g


def run(step, st):
    try:
        return step(st)
    except Exception as e:       # the same history alone must fail the same way
        return "%s: %s" % (type(e).__name__, e)


@scenario(quick=500, thorough=12000)
def histories(rng, rec):
    with R.scratch() as base:
        n = rng.choice([2, 2, 3, 4])
        steps = program(rng, n, base)
        # prefixes of one's own, which may be another's for something else
        binds = [[(rng.choice(["ex", "my", "ns1", "ns2"]), rng.choice(["http://example.org/ns#", I.SAWS, I.SCM, "http://example.org/other/"]))
                  for _ in range(rng.choice([0, 0, 1, 2]))] for _ in range(n)]
        mine = [Graph() for _ in binds]
        for g in mine[rng.randrange(n):]:
            rec.expect(bind_graph(g) is g, "new", kind="the-graph-given")
        graphs = [bound(bind_graph() if rng.random() < 0.5 else bind_graph(g), b) for g, b in zip(mine, binds)]
        stores = [Store(g) for g in graphs]
        if rng.random() < 0.3:              # the one that was there first
            graphs[0] = stores[0].graph = bound(get_graph(), binds[0])
        use, answers, foreign, made = 0, [], 0, set()
        set_graph(graphs[0])
        for s, here, what, step in steps:
            nxt = s if here else rng.choice([s] + list(range(n)))
            if nxt != use:
                set_graph(graphs[nxt])
                use = nxt
            rec.expect(get_graph() is graphs[use], "new", kind="in-use")
            before = [set(g) for g in graphs]
            rec.op("store", s, what, "under", use)
            a = run(step, stores[s])
            answers.append(a)
            for i, g in enumerate(graphs):
                if i != s:
                    rec.expect(set(g) == before[i], "untouched", step=what, of=s, under=use, other=i,
                               more=sorted(set(g) - before[i])[:4], less=sorted(before[i] - set(g))[:4])
            if here:
                made.add(s)
                if what in ("inventory", "collection", "dts", "textgroup", "join") and a not in ("no",) and not str(a).startswith("Err"):
                    o = [x for x in stores[s].objs.values() if isinstance(x, Collection)][-1]
                    rec.expect((o.asNode(), RDF.type, None) in graphs[s] and o.graph is graphs[s] and o.metadata.graph is graphs[s],
                               "new", what=what)
            elif what == "ask":
                rec.expect(set(graphs[s]) == before[s], "untouched", kind="question-writes", step=what, under=use)
            if use != s:
                foreign += 1
        if foreign and len(made) > 1:
            rec.distinct([w for _, _, w, _ in steps], repr(answers)[:3000])
            rec.sample([(s, w) for s, _, w, _ in steps])
        # the same histories, each with its store alone
        for i in range(n):
            set_graph(bound(bind_graph(), binds[i]))
            st = Store(get_graph())
            for (s, here, what, step), got in zip(steps, answers):
                if s == i:
                    rec.eq(got, run(step, st), "alone", kind="alone-" + what, store=i)
                    rec.count("foreign", 0 if here else 1)
            rec.eq(statements(graphs[i]), statements(st.graph), "final", store=i)
