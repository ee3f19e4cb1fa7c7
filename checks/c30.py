"""C30: texts of one's own, written on the prototypes."""
from rdflib import Literal, URIRef
from rdflib.namespace import DC, DCTERMS

from vlib.core import declare, scenario
from vlib.gen import label, lang, text
from MyCapytain.common.constants import Mimetypes, RDF_NAMESPACES, get_graph
from MyCapytain.common.metadata import Metadata
from MyCapytain.common.reference import BaseReference, BaseReferenceSet, Citation, NodeId
from MyCapytain.resources.prototypes.cts.inventory import CtsEditionMetadata, CtsTextgroupMetadata, CtsTranslationMetadata, \
    CtsWorkMetadata
from MyCapytain.resources.prototypes.cts.text import PrototypeCtsNode, PrototypeCtsPassage, PrototypeCtsText
from MyCapytain.resources.prototypes.text import InteractiveTextualNode, TextualElement, TextualGraph, TextualNode

declare(
    "C30",
    rule="A case is a text class written on the library's prototypes over a random tree of passages, of which the constructor, "
         "methods of its own, or both say what surrounds a node; it is walked at random, described, and exported. What comes back, "
         "and what the class was asked on the way, is compared with the tree. Non-trivial: a walk of at least 5 steps, or a "
         "text described from its catalogue entry. Distinct: by tree and walk.",
    require={"node": 3000, "hop": 3000, "asked": 3000, "about": 1500, "text": 600, "catalogue": 600, "refused": 300},
)


class N:
    def __init__(self, id, parent=None):
        self.id, self.parent, self.kids, self.words = id, parent, [], ""

    def around(self):
        if self.parent is None:
            return None, None
        i, ks = self.parent.kids.index(self), self.parent.kids
        return (ks[i - 1] if i else None), (ks[i + 1] if i + 1 < len(ks) else None)

    @property
    def depth(self):
        return 0 if self.parent is None else 1 + self.parent.depth


def tree(rng):
    root = N("urn:x:" + label(rng))
    nodes = [root]
    taken = {root.id}
    for _ in range(rng.randrange(1, 14)):
        p = rng.choice(nodes[-4:])
        i = (p.id + "." if p.parent else "") + label(rng)
        if i in taken:
            continue
        taken.add(i)
        n = N(i, p)
        n.words = text(rng)
        p.kids.append(n)
        nodes.append(n)
    return nodes


def spelt(x):
    return None if x is None else x.id


def family(rng, how, nodes, asked):
    """A text class over the tree: what is said to the constructor, and what is said by methods."""
    at = {n.id: n for n in nodes}

    def make(cls, n):
        kw = {}
        if "siblings" in how:
            kw["siblings"] = tuple(spelt(x) for x in n.around())
        if "parent" in how:
            kw["parent"] = spelt(n.parent)
        if "depth" in how:
            kw["depth"] = n.depth
        if "children" in how:
            kw["children"] = [k.id for k in n.kids]
        return cls(identifier=n.id, **kw)

    class Mine(InteractiveTextualNode):
        EXPORT_TO = [Mimetypes.PLAINTEXT]
        DEFAULT_EXPORT = Mimetypes.PLAINTEXT
        default_exclude = ["x"]

        def getTextualNode(self, subreference):
            asked.append(("node", subreference))
            return make(type(self), at[subreference])

        def getReffs(self, level=1, subreference=None):
            asked.append(("refs", self.id))
            return [k.id for k in at[self.id].kids]

        def __export__(self, output=None, exclude=None, **kw):
            return "%s|%s" % (at[self.id].words, exclude)

    if "siblings" not in how:
        Mine.prevId = property(lambda self: spelt(at[self.id].around()[0]))
        Mine.nextId = property(lambda self: spelt(at[self.id].around()[1]))
    if "parent" not in how:
        Mine.parentId = property(lambda self: spelt(at[self.id].parent))
    if "depth" not in how:
        Mine.depth = property(lambda self: at[self.id].depth)
    return make, Mine


ONE = {"prev": "prevId", "next": "nextId", "parent": "parentId", "first": "firstId", "last": "lastId"}


@scenario(quick=900, thorough=250000)
def walks(rng, rec):
    nodes, asked = tree(rng), []
    how = {x for x in ("siblings", "parent", "depth", "children") if rng.random() < 0.5}
    make, Mine = family(rng, how, nodes, asked)
    m = rng.choice(nodes)
    o = make(Mine, m)
    path = []
    knows = "children" in how

    def target(step):
        if step in ("prev", "next"):
            return m.around()[step == "next"]
        if step == "parent":
            return m.parent
        return m.kids[0 if step == "first" else -1] if m.kids else None

    for _ in range(rng.randrange(4, 14)):
        rec.op("at", m.id, "by", sorted(how))
        for step in rng.sample(sorted(ONE), 3):
            rec.eq(getattr(o, ONE[step]), spelt(target(step)), "node", kind=ONE[step], of=m.id)
        if rng.random() < 0.5:
            rec.eq((o.id, o.depth, tuple(o.siblingsId)), (m.id, m.depth, tuple(spelt(x) for x in m.around())), "node")
        if rng.random() < 0.5:
            rec.eq(list(o.childIds), [k.id for k in m.kids], "node", kind="childIds")
            rec.eq(list(o.childIds), [k.id for k in m.kids], "node", kind="childIds-again")
        rec.expect(asked.count(("refs", m.id)) <= (0 if knows else 1), "asked", kind="asked-again", of=m.id, asked=asked)
        rec.eq([x for x in asked if x[0] == "node"], [], "asked", kind="asked-early")
        asked.clear()
        step = rng.choice(["prev", "next", "parent", "first", "last", "children", "children"])
        path.append(step)
        if step == "children":
            if m.kids and rng.random() < 0.4:       # made when they are reached
                few = rng.randrange(1, len(m.kids) + 1)
                rec.eq([k.id for k, _ in zip(o.children, range(few))][:few], [k.id for k in m.kids][:few], "hop", kind="some-children")
                rec.eq([x for x in asked if x[0] == "node"][:few], [("node", k.id) for k in m.kids][:few], "asked")
                rec.expect(sum(x[0] == "node" for x in asked) <= few + 1, "asked", kind="children-made-early", few=few, asked=asked)
                asked.clear()
            ks = list(o.children)
            rec.eq([k.id for k in ks], [k.id for k in m.kids], "hop", kind="children", of=m.id)
            rec.eq([x for x in asked if x[0] == "node"], [("node", k.id) for k in m.kids], "asked")
            if not m.kids:
                asked.clear()
                continue
            i = rng.randrange(len(ks))
            o, m = ks[i], m.kids[i]
        else:
            got, want = getattr(o, step), target(step)
            rec.eq([x for x in asked if x[0] == "node"], [("node", want.id)] if want else [], "asked", step=step)
            if want is None:
                rec.expect(got is None, "hop", kind="beyond", step=step, got=got)
                asked.clear()
                continue
            rec.expect(type(got) is Mine and got.id == want.id, "hop", step=step, got=got, want=want.id)
            o, m = got, want
        asked.clear()
        rec.eq((o.text, o.export(), o.export(Mimetypes.PLAINTEXT, exclude=["y"])),
               (m.words + "|['x']", m.words + "|None", m.words + "|['y']"), "text", of=m.id)
        rec.raises(NotImplementedError, lambda: o.export(Mimetypes.XML.TEI), "text")
    if len(path) >= 5:
        rec.distinct([(n.id, spelt(n.parent)) for n in nodes], path, sorted(how))
        rec.sample({"tree": [(n.id, spelt(n.parent)) for n in nodes], "steps": path, "told": sorted(how)})


@scenario(quick=400, thorough=100000)
def nodes_told(rng, rec):
    """What a node is told when it is made, it knows; what it is not told, is not there."""
    for cls in (NodeId, TextualNode, TextualGraph, InteractiveTextualNode, PrototypeCtsPassage, PrototypeCtsNode):
        ids = [label(rng) for _ in range(rng.randrange(4))]
        if rng.random() < 0.3:
            ids = BaseReferenceSet(*[BaseReference(x) for x in ids], level=2)
        parent, depth = rng.choice([None, label(rng), BaseReference(label(rng))]), rng.choice([None, 0, 1, 7])
        sib = (rng.choice([None, label(rng)]), rng.choice([None, label(rng)]))
        kw = {"children": ids, "parent": parent, "siblings": sib, "depth": depth}
        told = {k: v for k, v in kw.items() if rng.random() < 0.7}
        if cls in (PrototypeCtsPassage, PrototypeCtsNode):
            n = cls(urn="urn:cts:ns:a.b.c:1.2", **told)
            rec.eq((n.id, str(n.urn)), ("urn:cts:ns:a.b.c:1.2",) * 2, "node", kind="urn")
            rec.raises(TypeError, lambda: setattr(n, "urn", rng.choice([2, None, ["urn"]])), "refused")
            rec.eq(list(n.graph.objects(n.asNode(), RDF_NAMESPACES.DTS.implements)), [URIRef(n.id)], "node", kind="implements")
            n.urn = "urn:cts:ns:a.b.d:2.1"
            rec.eq(str(n.urn), "urn:cts:ns:a.b.d:2.1", "node", kind="urn")
        else:
            n = cls(identifier="urn:x:1", **told)
            rec.eq(n.id, "urn:x:1", "node", kind="id")
            if cls is not NodeId:
                rec.eq(list(n.graph.objects(n.asNode(), RDF_NAMESPACES.DTS.implements)), [URIRef(n.id)], "node", kind="implements")
        kids = list(told.get("children", []))
        if cls in (NodeId, TextualNode, TextualGraph) or "children" in told:
            rec.eq(list(n.childIds), kids, "node", kind="childIds", cls=cls.__name__)
            rec.eq((n.firstId, n.lastId), (kids[0], kids[-1]) if kids else (None, None), "node", kind="ends", cls=cls.__name__)
        else:
            rec.raises(NotImplementedError, lambda: n.childIds, "refused")
        p, x = told.get("siblings", (None, None))
        if cls is PrototypeCtsPassage:
            rec.eq(str(n.parentId), "2", "node", kind="parent")
        else:
            rec.eq(n.parentId, told.get("parent"), "node", kind="parent")
        rec.eq((n.depth, n.prevId, n.nextId, tuple(n.siblingsId)),
               (told.get("depth"), p, x, (p, x)), "node", cls=cls.__name__, told=told)
        if cls is NodeId:
            continue
        rec.expect(isinstance(n.citation, Citation) and not n.citation.is_set(), "node", kind="citation")
        c = Citation(name="line", refsDecl="/tei:TEI/tei:l[@n='$1']")
        n.citation = c
        rec.expect(n.citation is c, "node", kind="citation")
        rec.raises(TypeError, lambda: setattr(n, "citation", rng.choice([None, "line", 1])), "refused")
        rec.expect(n.citation is c, "node", kind="citation")
        if issubclass(cls, TextualGraph):
            rec.raises(NotImplementedError, lambda: n.getTextualNode("1"), "refused")
            rec.raises(NotImplementedError, lambda: n.getReffs(), "refused")
        for k in range(2):              # metadata of its own, or given
            a = TextualElement(identifier="urn:x:%d" % k, metadata=rng.choice([None, Metadata(node=URIRef("urn:y:%s:%d" % (cls.__name__, k)))]))
            said = {}
            for _ in range(rng.randrange(6)):
                what = rng.choice(["creator", "title", "description", "subject"])
                v, l = text(rng), lang(rng)
                if l in said.setdefault(what, {}):
                    continue
                said[what][l] = v
                getattr(a, "set_" + what)(rng.choice([v, Literal(v, lang=l)]), l)
            for what in ("creator", "title", "description", "subject"):
                vs = said.get(what, {})
                for l in list(vs):
                    rec.eq(getattr(a, "get_" + what)(l), Literal(vs[l], lang=l), "about", what=what, lang=l)
                any_ = getattr(a, "get_" + what)()
                rec.expect((any_ is None) if not vs else (any_.language, str(any_)) in vs.items(), "about", kind="any", got=any_)
                other = getattr(a, "get_" + what)("zz")
                rec.expect((other is None) if not vs else (other.language, str(other)) in vs.items(), "about", kind="other", got=other)
                rec.eq({(x.language, str(x)) for x in a.metadata.get(DC[what])}, set(vs.items()), "about", kind="all")
        if rng.random() < 0.3:
            a = TextualElement(identifier="urn:x:t")
            for l in rng.sample(["eng", "fre", "lat", "ger"], 4)[:rng.randrange(4)]:
                a.metadata.add(DCTERMS.title, "T" + l, lang=l)
                rec.eq(str(a.get_title(l)), "T" + l, "about", kind="dct-lang")
            for l in list(a.metadata.get(DCTERMS.title)):
                rec.eq(str(a.get_title(l.language)), "T" + l.language, "about", kind="dct-lang")
            a.metadata.add(DCTERMS.title, "T", lang="eng") if a.get_title() is None else None
            rec.expect(str(a.get_title(str(a.get_title().language))).startswith("T"), "about", kind="dct")
            a.set_title("U", "eng")
            rec.eq(str(a.get_title("eng")), "U", "about", kind="dct-after")


@scenario(quick=400, thorough=100000)
def catalogued(rng, rec):
    """A text takes its names, and its citation if it has none, from its catalogue entry."""
    tg = CtsTextgroupMetadata("urn:cts:ns:a")
    wk = CtsWorkMetadata("urn:cts:ns:a.b", parent=tg)
    ed = rng.choice([CtsEditionMetadata, CtsTranslationMetadata])("urn:cts:ns:a.b.c", parent=wk, lang="lat")
    said = {}
    for o, prop in ((tg, "groupname"), (wk, "title"), (ed, "label"), (ed, "description")):
        said[prop] = {}
        for _ in range(rng.randrange(4)):
            l = lang(rng)
            if l not in said[prop]:
                said[prop][l] = text(rng)
                o.set_cts_property(prop, said[prop][l], l)
    own = Citation(name="mine", refsDecl="/tei:TEI/tei:p[@n='$1']") if rng.random() < 0.4 else None
    theirs = Citation(name="theirs", refsDecl="/tei:TEI/tei:l[@n='$1']") if rng.random() < 0.7 else None
    if theirs:
        ed.citation = theirs
    t = rng.choice([PrototypeCtsText, PrototypeCtsNode])(urn="urn:cts:ns:a.b.c", **({"citation": own} if own else {}))
    before = len(get_graph())
    t.set_metadata_from_collection(ed)
    new = len(get_graph()) - before
    rec.distinct(said, bool(own), bool(theirs))
    for prop, dc in (("groupname", "creator"), ("title", "title"), ("label", "subject"), ("description", "description")):
        want = {(l, v) for l, v in said[prop].items()}
        rec.eq({(x.language, str(x)) for x in t.metadata.get(DC[dc])}, want, "catalogue", kind=dc)
        rec.eq({(x.language, str(x)) for x in t.metadata.get(RDF_NAMESPACES.CTS.term(prop))}, want, "catalogue", kind=prop)
        for l, v in want:
            rec.eq((t.get_cts_metadata(prop, l), getattr(t, "get_" + dc)(l)), (Literal(v, lang=l),) * 2, "catalogue", kind="getter")
    rec.eq(new, 2 * sum(len(x) for x in said.values()), "catalogue", kind="no-more-said")
    rec.eq(t.citation.name, "mine" if own else "theirs" if theirs else None, "catalogue", kind="citation")
    rec.eq((str(t.urn), t.id), ("urn:cts:ns:a.b.c",) * 2, "catalogue", kind="urn")
