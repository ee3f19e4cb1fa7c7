"""C12: collection trees."""
from rdflib import Literal, URIRef
from rdflib.namespace import RDF, RDFS, SKOS, DC, DCTERMS

from vlib.core import declare, scenario
from vlib.gen import text, word, lang
from MyCapytain.common.constants import RDF_NAMESPACES, get_graph
from MyCapytain.errors import UnknownCollection
from MyCapytain.resources.collections.dts import DtsCollection
from MyCapytain.resources.prototypes.metadata import Collection, ResourceCollection

declare(
    "C12",
    rule="A case is a random tree of 1-25 collections and readable resources, grown in random order with labels and metadata, "
         "then subjected to a random history of queries and deletions; after every deletion the whole tree is re-checked. "
         "Non-trivial: at least 4 nodes. Distinct: by shape, identifiers and deletions.",
    require={"tree": 1500, "lookup": 3000, "descendants": 1500, "label": 800, "delete": 300, "survivors": 300, "type": 500,
             "dts": 3000, "dts-delete": 300},
)


class Readable(ResourceCollection):
    @property
    def readable(self):
        return True


class Node:
    def __init__(self, ident, kind, parent):
        self.id, self.kind, self.parent = ident, kind, parent
        self.kids = []
        self.labels = []
        self.meta = []
        self.obj = None

    def below(self):
        for k in self.kids:
            yield k
            yield from k.below()

    def above(self):
        p = self.parent
        while p is not None:
            yield p
            p = p.parent


def ident(rng, used):
    while True:
        base = rng.choice(["urn:cts:ns:", "http://example.org/", "", "/", "urn:x:"])
        s = base + word(rng)
        if used and rng.random() < 0.3:
            s = rng.choice(sorted(used)) + rng.choice(["1", ".a", "/x"])     # one identifier starting with another
        if s not in used:
            used.add(s)
            return s


def check_tree(rec, nodes, dead, root):
    for n in nodes:
        o = n.obj
        rec.eq(o.id, n.id, "tree", kind="id")
        rec.expect(o.parent is (n.parent.obj if n.parent else None), "tree", kind="parent", of=n.id)
        rec.eq([id(x) for x in o.parents], [id(x.obj) for x in n.above()], "tree", kind="parents", of=n.id)
        rec.eq([id(x) for x in o.members], [id(k.obj) for k in n.kids], "tree", kind="members", of=n.id)
        rec.eq({k: id(v) for k, v in o.children.items()}, {k.id: id(k.obj) for k in n.kids}, "tree", kind="children")
        rec.eq(o.size, len(n.kids), "tree", kind="size")
        rec.eq(bool(o.readable), n.kind is Readable, "tree", kind="readable")
        rec.eq(sorted(id(x) for x in o.descendants), sorted(id(x.obj) for x in n.below()), "descendants", of=n.id)
        rec.eq(sorted(id(x) for x in o.readableDescendants),
               sorted(id(x.obj) for x in n.below() if x.kind is Readable), "descendants", kind="readable-descendants")
        # labels and metadata
        rec.eq(sorted((str(x), x.language or "") for x in o.metadata.get(SKOS.prefLabel)),
               sorted((t, l or "") for t, l in n.labels), "label", kind="label-record", of=n.id)
        for t, l in n.labels:
            same = [a for a, b in n.labels if b == l]
            got = o.get_label(l)
            if l is not None:
                rec.expect(got is not None and str(got) in same and got.language == l, "label", got=got, want=same, lang=l)
            else:
                rec.expect(got is not None and (str(got), got.language) in n.labels, "label", got=got)
        anyl = o.get_label()
        other = o.get_label("zz-none")
        if n.labels:
            rec.expect(anyl is not None and (str(anyl), anyl.language) in n.labels, "label", got=anyl)
            rec.expect(other is not None and (str(other), other.language) in n.labels, "label", got=other)
        else:
            rec.expect(anyl is None and other is None, "label", got=anyl)
        rec.eq(sorted(str(x) for x in o.metadata.get(DCTERMS.subject)), sorted(n.meta), "label", kind="metadata", of=n.id)


@scenario(quick=1500, thorough=40000)
def trees(rng, rec):
    used, nodes = set(), []
    big = rng.choice([40, 70, 130]) if rng.random() < 0.012 else 0      # many, or deep
    near = rng.choice([1, 2, 1000])
    for i in range(big or rng.choice([1, 3, 5, 8, 12, 25])):
        kind = Collection if rng.random() < 0.6 else Readable
        parent = rng.choice(nodes[-(near if big else 6):]) if nodes else None
        if big and near == 1000 and rng.random() < 0.9:
            parent = nodes[0] if nodes else None
        n = Node(ident(rng, used), kind, parent)
        n.obj = kind(n.id)
        nodes.append(n)
        if parent is not None:
            n.obj.parent = parent.obj
            parent.kids.append(n)
        for _ in range(rng.randrange(3)):
            l = (text(rng), lang(rng) if rng.random() < 0.8 else None)
            if l not in n.labels:
                n.labels.append(l)
            n.obj.set_label(*l)
        for _ in range(rng.randrange(3)):
            v = text(rng)
            if v not in n.meta:
                n.meta.append(v)
            n.obj.metadata.add(DCTERMS.subject, v)
        # type, model, version
        o = n.obj
        rec.eq((o.type, o.model), (o.TYPE_URI, o.MODEL_URI), "type")
        if rng.random() < 0.4:
            v = rng.choice(["1.0", 3, Literal("v", lang="en")])
            for was in rng.sample(["0.9", 2, v], rng.randrange(3)):
                o.version = was
            o.version = v
            rec.eq(str(o.version), str(v), "type", kind="version")
            rec.eq(o.version, v if isinstance(v, Literal) else Literal(v), "type", kind="version-value")
            o.type = "http://x/T" if rng.random() < 0.5 else URIRef("http://x/T")
            rec.eq((o.type, o.model), (URIRef("http://x/T"), o.MODEL_URI), "type")
            for t in rng.sample(["http://x/U", URIRef("http://x/V"), o.TYPE_URI], rng.randrange(3)):
                o.type = t
                rec.eq((list(get_graph().objects(URIRef(n.id), RDF.type)), str(o.type)), ([URIRef(t)], str(t)), "type", kind="again")
            o.type = "http://x/T"
            o.model = "http://x/M"
            rec.eq((o.type, o.model), (URIRef("http://x/T"), URIRef("http://x/M")), "type")
            rec.eq(len(list(get_graph().objects(URIRef(n.id), RDF.type))), 1, "type", kind="one-type")
        if kind is Readable and rng.random() < 0.5:
            o.lang = "fre"
            o.lang = "lat"
            rec.eq(o.lang, "lat", "type", kind="lang")
            o.metadata.add(DC.creator, "Who", lang="eng")
            o.metadata.add(DC.title, "What", lang="eng")
            o.metadata.add(DC.description, "How", lang="eng")
            o.metadata.add(DC.subject, "Why", lang="eng")
            rec.eq([str(f("eng")) for f in (o.get_creator, o.get_title, o.get_description, o.get_subject)],
                   ["Who", "What", "How", "Why"], "type", kind="dc")
    root = nodes[0]
    if len(nodes) >= 4:
        rec.sample([(n.id, n.parent.id if n.parent else None, n.kind.__name__) for n in nodes])
    check_tree(rec, nodes, [], root)

    def lookups(k, gone):
        for _ in range(k):
            a, b = rng.choice(nodes), rng.choice(nodes)
            inside = b is a or a in b.above()
            rec.op("lookup", b.id, "in", a.id)
            rec.eq(b.id in a.obj, inside, "lookup", kind="contains", a=a.id, b=b.id)
            if inside:
                rec.expect(a.obj[b.id] is b.obj, "lookup", a=a.id, b=b.id)
            else:
                rec.raises(UnknownCollection, lambda: a.obj[b.id], "lookup", a=a.id, b=b.id)
            for ghost in ["nobody", b.id + "!", b.id[:-1]] + gone[-2:]:
                if ghost not in {n.id for n in nodes}:
                    rec.eq(ghost in a.obj, False, "lookup", kind="contains-spurious", ghost=ghost)
                    rec.raises(UnknownCollection, lambda: a.obj[ghost], "lookup", ghost=ghost)

    lookups(8, [])
    hist, gone = [], []
    for _ in range(rng.randrange(3)):
        cands = [n for n in nodes if n.parent is not None]
        if not cands:
            break
        victim = rng.choice(cands)
        frm = rng.choice(list(victim.above()))
        rec.op("del", victim.id, "from", frm.id)
        hist.append((frm.id, victim.id))
        gone_node, lost = URIRef(victim.id), [victim] + list(victim.below())
        said = {n.id: {(p, o) for p, o in get_graph().predicate_objects(URIRef(n.id)) if o != gone_node} for n in nodes
                if n not in lost}
        del frm.obj[victim.id]
        victim.parent.kids.remove(victim)
        for i, was in said.items():
            rec.eq(set(get_graph().predicate_objects(URIRef(i))), was, "survivors", kind="statements-of-others", of=i)
        rec.eq(list(get_graph().predicate_objects(URIRef(victim.id))), [], "delete", kind="statements-of-deleted")
        rec.eq(list(get_graph().subject_predicates(URIRef(victim.id))), [], "delete", kind="statements-about-deleted")
        nodes = [n for n in nodes if n not in lost]
        gone += [n.id for n in lost]
        rec.count("survivors")
        if rng.random() < 0.4:          # and another one put in, before anything is asked
            n = Node(ident(rng, used), Collection if victim.kind is Readable else Readable, rng.choice([victim.parent, frm]))
            n.obj = n.kind(n.id)
            n.obj.parent = n.parent.obj
            n.parent.kids.append(n)
            nodes.append(n)
        check_tree(rec, nodes, gone, root)
        lookups(4, gone)
        rec.raises(UnknownCollection, lambda: frm.obj.__delitem__(victim.id), "delete", kind="delete-twice")
        check_tree(rec, nodes, gone, root)
    rec.raises(UnknownCollection, lambda: root.obj.__delitem__("nobody"), "delete", kind="delete-unknown")
    check_tree(rec, nodes, gone, root)
    if len(nodes) >= 4 or hist:
        rec.distinct([(n.id, n.parent.id if n.parent else None) for n in nodes], hist)


@scenario(quick=500, thorough=15000)
def joined(rng, rec):
    """Trees put together piece by piece, in any order, and asked in between."""
    used, nodes, edges = set(), [], []
    for i in range(rng.choice([3, 5, 8, 14])):
        n = Node(ident(rng, used), Collection if rng.random() < 0.6 else Readable, None)
        n.obj = n.kind(n.id)
        if nodes:
            edges.append((n, rng.choice(nodes[-4:])))
        nodes.append(n)
    rng.shuffle(edges)
    check_tree(rec, nodes, [], None)
    for n, up in edges:
        rec.op("put", n.id, "below", up.id)
        n.obj.parent = up.obj
        n.parent = up
        up.kids.append(n)
        if rng.random() < 0.4:
            x = rng.choice(nodes)
            l = (text(rng), lang(rng))
            if l not in x.labels:
                x.labels.append(l)
            x.obj.set_label(*l)
        check_tree(rec, nodes if rng.random() < 0.5 else rng.sample(nodes, 3), [], None)
        for _ in range(3):
            a, b = rng.choice(nodes), rng.choice(nodes)
            inside = b is a or a in b.above()
            rec.eq(b.id in a.obj, inside, "lookup", kind="contains", a=a.id, b=b.id)
            if inside:
                rec.expect(a.obj[b.id] is b.obj, "lookup", a=a.id, b=b.id)
            else:
                rec.raises(UnknownCollection, lambda: a.obj[b.id], "lookup", a=a.id, b=b.id)
    check_tree(rec, nodes, [], None)
    rec.distinct([(n.id, n.parent.id if n.parent else None) for n in nodes], [(a.id, b.id) for a, b in edges])


@scenario(quick=500, thorough=15000)
def dts_trees(rng, rec):
    """The same of trees read from DTS documents."""
    used, nodes = set(), []

    def grow(parent, depth):
        n = Node("http://example.org/" + ident(rng, used), rng.choice(["Collection", "Resource"]), parent)
        n.labels = [text(rng)]
        n.meta = [text(rng) for _ in range(rng.randrange(2))]
        nodes.append(n)
        if depth:
            n.kids = [grow(n, rng.randrange(depth)) for _ in range(rng.choice([0, 1, 2, 4] if rng.random() < 0.99 else [15, 30, 60]))]
        return n

    def spell(n):
        d = {"@id": n.id, "@type": n.kind, "title": n.labels[0], "totalItems": len(n.kids)}
        if n.kids or rng.random() < 0.5:
            d["member"] = [spell(k) for k in n.kids]
        if n.meta:
            d["dts:dublincore"] = {"dct:subject": n.meta}
        return d
    root = grow(None, rng.choice([1, 2, 3, 4]))
    doc = dict(spell(root), **{"@context": {
        "@vocab": "https://www.w3.org/ns/hydra/core#", "dct": "http://purl.org/dc/terms/", "dts": "https://w3id.org/dts/api#"}})
    rec.op("document", doc)
    objs = DtsCollection.parse(doc)

    def settle(n, o):
        n.obj = o
        rec.eq([x.id for x in o.members], [k.id for k in n.kids], "dts", kind="dts-members", of=n.id)
        for k, x in zip(n.kids, o.members):
            settle(k, x)
    settle(root, objs)

    def whole(gone):
        for n in nodes:
            o = n.obj
            rec.eq([id(x) for x in o.members], [id(k.obj) for k in n.kids], "dts", kind="dts-members", of=n.id)
            rec.eq({k: id(v) for k, v in o.children.items()}, {k.id: id(k.obj) for k in n.kids}, "dts", kind="dts-children")
            rec.eq([id(x) for x in o.parents], [id(n.parent.obj)] if n.parent else [], "dts", kind="dts-parents", of=n.id)
            rec.eq(sorted(id(x) for x in o.descendants), sorted(id(x.obj) for x in n.below()), "dts", kind="dts-descendants")
            rec.eq(sorted(id(x) for x in o.readableDescendants), sorted(id(x.obj) for x in n.below() if x.kind == "Resource"),
                   "dts", kind="dts-readable")
            rec.eq([str(x) for x in o.metadata.get(SKOS.prefLabel)], n.labels, "dts", kind="dts-label", of=n.id)
            rec.eq(sorted(str(x) for x in o.metadata.get(DCTERMS.subject)), sorted(set(n.meta)), "dts", kind="dts-metadata")
        for _ in range(6):
            a, b = rng.choice(nodes), rng.choice(nodes)
            inside = b is a or a in b.above()
            rec.eq(b.id in a.obj, inside, "dts", kind="dts-contains", a=a.id, b=b.id)
            if inside:
                rec.expect(a.obj[b.id] is b.obj, "dts", kind="dts-lookup", a=a.id, b=b.id)
            else:
                rec.raises(UnknownCollection, lambda: a.obj[b.id], "dts", a=a.id, b=b.id)
            for g in gone[-2:] + ["nobody"]:
                rec.raises(UnknownCollection, lambda: a.obj[g], "dts", ghost=g)
    whole([])
    if len(nodes) >= 4:
        rec.distinct(doc)
    gone = []
    for _ in range(rng.randrange(1, 3)):
        if len(nodes) < 2:
            break
        victim = rng.choice([n for n in nodes if n.parent is not None])
        frm = rng.choice(list(victim.above()))
        rec.op("del", victim.id, "from", frm.id)
        del frm.obj[victim.id]
        rec.count("dts-delete")
        victim.parent.kids.remove(victim)
        rec.eq(list(get_graph().predicate_objects(URIRef(victim.id))), [], "dts-delete", kind="dts-statements")
        lost = [victim] + list(victim.below())
        nodes = [n for n in nodes if n not in lost]
        gone += [n.id for n in lost]
        whole(gone)
        rec.raises(UnknownCollection, lambda: frm.obj.__delitem__(victim.id), "dts-delete", kind="dts-twice")
        whole(gone)
