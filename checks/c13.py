"""C13: CTS inventories: reading and writing XML."""
import io

from lxml import etree, objectify
from rdflib import Literal, URIRef

from vlib.core import declare, scenario
from vlib import inv as I
from vlib import tei
from MyCapytain.common.constants import Mimetypes, RDF_NAMESPACES, set_graph, bind_graph
from MyCapytain.common.reference import URN
from MyCapytain.resources.collections.cts import (
    XmlCtsTextInventoryMetadata, XmlCtsTextgroupMetadata, XmlCtsWorkMetadata, XmlCtsEditionMetadata,
    XmlCtsTranslationMetadata, XmlCtsCommentaryMetadata)
from MyCapytain.resources.prototypes.cts.inventory import (
    CtsTextInventoryMetadata, CtsTextInventoryCollection, CtsTextgroupMetadata, CtsWorkMetadata, CtsEditionMetadata,
    CtsTranslationMetadata, CtsCommentaryMetadata)

declare(
    "C13",
    rule="A case is a generated CTS inventory (0-3 groups, works, editions, translations, commentaries, names in several "
         "languages, links, citation schemes, structured metadata of every value type) read in one of several XML shapes, "
         "queried, written in CTS and CapiTainS XML and read again. Non-trivial: at least one text. Distinct: by document.",
    require={"parse": 3000, "roundtrip-cts": 3000, "roundtrip-capitains": 3000, "questions": 1500, "structured": 500,
             "built": 300, "collection": 150},
)

CLS = {"inventory": CtsTextInventoryMetadata, "textgroup": CtsTextgroupMetadata, "work": CtsWorkMetadata,
       "edition": CtsEditionMetadata, "translation": CtsTranslationMetadata, "commentary": CtsCommentaryMetadata}
XML = {"inventory": XmlCtsTextInventoryMetadata, "textgroup": XmlCtsTextgroupMetadata, "work": XmlCtsWorkMetadata,
       "edition": XmlCtsEditionMetadata, "translation": XmlCtsTranslationMetadata, "commentary": XmlCtsCommentaryMetadata}
PROP = {"textgroup": "groupname", "work": "title", "edition": "label", "translation": "label", "commentary": "label"}


def key(o):
    """Type, text, language, datatype of a value."""
    return (type(o).__name__, str(o), getattr(o, "language", None) or "", str(getattr(o, "datatype", None) or ""))


def check(rec, o, m, mon, sm=True, parent=None, orphan=False, order=True, cites=lambda c: c):
    """The object says what the model says, recursively. orphan: the node was read without its parents."""
    rec.expect(isinstance(o, CLS[m.kind]), mon, kind=mon + "-class", got=type(o), want=m.kind)
    rec.eq(o.id, m.urn, mon, kind=mon + "-id")
    rec.expect(o.parent is parent, mon, kind=mon + "-parent", of=m.urn)
    if m.kind != "inventory":
        rec.expect(isinstance(o.urn, URN) and str(o.urn) == m.urn, mon, kind=mon + "-urn", got=o.urn)
        term = RDF_NAMESPACES.CTS.term(PROP[m.kind])
        want = sorted(("Literal", t, l or "", "") for l, t in m.names.items())
        rec.eq(sorted(key(x) for x in o.metadata.get(term)), want, mon, kind=mon + "-names", of=m.urn)
        rec.eq({l: str(x) for l, x in o.get_cts_property(PROP[m.kind]).items()}, m.names, mon, kind=mon + "-property")
        rec.expect(str(o.get_label()) in m.names.values(), mon, kind=mon + "-label-default")
        for l, t in m.names.items():
            if l is None:
                rec.count("in no language")
                continue
            rec.eq(str(o.get_cts_property(PROP[m.kind], l)), t, mon, kind=mon + "-property-lang")
            rec.eq((str(o.get_label(l)), o.get_label(l).language), (t, l), mon, kind=mon + "-label")
        rec.expect(str(o.get_cts_property(PROP[m.kind], "xx")) in m.names.values(), mon, kind=mon + "-property-default")
        rec.expect(o.get_cts_property("nothing", "eng") is None and o.get_cts_property("nothing") == {}, mon,
                   kind=mon + "-property-absent")
    if m.kind == "work":
        rec.eq(o.lang, m.lang, mon, kind=mon + "-lang")
    if m.kind in I.TEXTS:
        rec.eq(sorted(key(x) for x in o.metadata.get(RDF_NAMESPACES.CTS.term("description"))),
               sorted(("Literal", t, l or "", "") for l, t in m.descs.items()), mon, kind=mon + "-descriptions", of=m.urn)
        for l, t in m.descs.items():
            if l is None:
                continue
            rec.eq(str(o.get_description(l)), t, mon, kind=mon + "-description")
        rec.eq(sorted(str(x) for x in o.get_link(RDF_NAMESPACES.CTS.term("about"))), sorted(m.abouts), mon,
               kind=mon + "-about")
        want = (None if m.kind == "edition" else m.lang) if orphan else m.effective_lang()
        rec.eq(o.lang, want, mon, kind=mon + "-lang", of=m.urn)
        rec.eq(o.subtype, m.kind, mon, kind=mon + "-subtype")
        rec.expect(o.readable is True, mon)
        got = [] if o.citation is None else [(c.name, c.scope, c.xpath) for c in o.citation]
        rec.eq(cites(got), cites(m.cite), mon, kind=mon + "-citation")
        rec.eq((list(o.members), list(o.descendants)), ([], []), mon)
    else:
        rec.expect(not o.readable, mon)
        rec.eq(sorted(x.id for x in o.members), sorted(x.urn for x in m.kids), mon, kind=mon + "-members", of=m.urn)
        rec.eq(len(o), len(m.texts()), mon, kind=mon + "-len", of=m.urn)
        seq = [x.urn for x in m.kids] if m.kind in ("inventory", "textgroup") else \
            [x.urn for k in I.TEXTS for x in m.kids if x.kind == k]
        if m.kind != "work" and order:
            rec.eq([x.id for x in o.members], seq, mon, kind=mon + "-order")
    if sm and m.kind != "inventory":
        for p in I.SM_PREDS:
            rec.count("structured")
            rec.eq(sorted(key(x) for x in o.metadata.get(URIRef(p))), sorted(v for q, v, _ in m.sm if q == p), mon,
                   kind=mon + "-structured", of=m.urn, predicate=p)
    elif m.kind != "inventory":
        for p in I.SM_PREDS:
            rec.eq([key(x) for x in o.metadata.get(URIRef(p))], [], mon, kind=mon + "-structured-spurious")
    if m.kind not in I.TEXTS:
        kids = {k.urn: k for k in m.kids}
        for x in o.members:
            check(rec, x, kids[x.id], mon, sm, o, order=order, cites=cites)


def spoken(names):
    return [(l, t) for l, t in names.items() if l is not None]


def questions(rec, o, m):
    """o, m: inventory."""
    for x in m.walk():
        rec.expect(x.urn in o and o[x.urn].id == x.urn, "questions", kind="lookup", urn=x.urn)
        if x.kind == "work":
            w = o[x.urn]
            rec.eq(sorted(w.texts), sorted(t.urn for t in x.kids), "questions", kind="texts")
            rec.eq(sorted(t.id for t in w.get_translation_in()), sorted(t.urn for t in x.kids if t.kind == "translation"),
                   "questions", kind="translations")
            for l in ({t.effective_lang() for t in x.kids} | {"zz"}) - {None}:
                want = sorted(t.urn for t in x.kids if t.kind == "translation" and t.effective_lang() == l)
                rec.eq(sorted(t.id for t in w.get_translation_in(l)), want, "questions", kind="translations-in", lang=l)
                for t in x.kids:
                    rec.eq(sorted(s.id for s in o[t.urn].translations(l)), want, "questions", kind="sister-translations")
            for t in x.kids:
                rec.eq(sorted(s.id for s in o[t.urn].editions()), sorted(s.urn for s in x.kids if s.kind == "edition"),
                       "questions", kind="editions")
        if x.kind in I.TEXTS:
            t = o[x.urn]
            for l, v in spoken(x.parent.names):
                rec.eq(str(t.get_title(l)), v, "questions", kind="title")
            for l, v in spoken(x.parent.parent.names):
                rec.eq(str(t.get_creator(l)), v, "questions", kind="creator")
            for l, v in spoken(x.names):
                rec.eq(str(t.get_subject(l)), v, "questions", kind="subject")
    rec.eq(sorted(x.id for x in o.readableDescendants), sorted(t.urn for t in m.texts()), "questions", kind="readable")
    rec.expect("urn:cts:none:none" not in o, "questions")


def source(rng, s):
    s = tei.written(rng, s, r">([^<>&]*\w)<")
    k = rng.randrange(5) if s[:2] != "<?" and s[:2] != "<!" else rng.choice([0, 1])
    if k == 0:
        return s
    if k == 4:
        return "<?xml version='1.0' encoding='%s'?>\n" % rng.choice(["UTF-8", "utf-8", "ISO-8859-1"]) + s
    if k == 1:
        return io.StringIO(s)
    if k == 2:
        return io.BytesIO(("<?xml version='1.0' encoding='UTF-8'?>\n" + s).encode("utf-8"))
    return objectify.fromstring(s.encode("utf-8"))


def no_stray(rec, *written):
    """Between the elements of a written inventory there is no text."""
    for s in written:
        for e in etree.fromstring(s).iter():
            if len(e):
                got = [t for t in [e.text] + [k.tail for k in e] if t and t.strip()]
                rec.eq(got, [], "parse", kind="stray-text", element=e.tag)


def clean():
    """A fresh triple store: what is read next can only come from the document."""
    set_graph(bind_graph())


@scenario(quick=700, thorough=25000)
def inventories(rng, rec):
    m = I.bare(rng, I.gen(rng, groups=(0, 3) if rng.random() < 0.2 else (1, 3)))
    pre = rng.choice(["ti", "", "ns0"])
    s = I.to_xml(m, rng, pre)
    if rng.random() < 0.2:
        s = ('<GetCapabilities xmlns="%s"><request><requestName>GetInventory</requestName></request><reply>' % I.TI + s +
             "</reply></GetCapabilities>")
    rec.op("inventory", s)
    o = XmlCtsTextInventoryMetadata.parse(source(rng, s))
    check(rec, o, m, "parse")
    questions(rec, o, m)
    if m.texts():
        rec.distinct(s)
        rec.sample(s)
    if not m.kids:
        return
    cts = o.export(Mimetypes.XML.CTS)
    cap = o.export(Mimetypes.XML.CapiTainS.CTS)
    tree = o.export(Mimetypes.PYTHON.ETREE)
    check(rec, o, m, "parse")                        # exporting changed nothing
    rec.eq(o.export(Mimetypes.XML.CTS), cts, "parse", kind="export-stable")
    no_stray(rec, cts, cap)
    clean()
    again = XmlCtsTextInventoryMetadata.parse(cts)
    check(rec, again, m, "roundtrip-cts", sm=False)
    # equal: the same kind and the same urn
    some = [x for x in m.walk() if x.kind != "inventory"]
    for x in rng.sample(some, min(4, len(some))):
        for y in some if len(some) < 12 else rng.sample(some, 12) + [x]:
            rec.eq((o[x.urn] == again[y.urn], o[x.urn] != again[y.urn]), (x is y, x is not y), "questions", kind="equal",
                   left=x.urn, right=y.urn)
    clean()
    check(rec, XmlCtsTextInventoryMetadata.parse(tree), m, "roundtrip-cts", sm=False)
    clean()
    again = XmlCtsTextInventoryMetadata.parse(cap)
    check(rec, again, m, "roundtrip-capitains")
    questions(rec, again, m)
    # and once more: a fixed point
    cap2 = again.export(Mimetypes.XML.CapiTainS.CTS)
    clean()
    check(rec, XmlCtsTextInventoryMetadata.parse(cap2), m, "roundtrip-capitains")


@scenario(quick=700, thorough=25000)
def parts(rng, rec):
    """Group, work and text documents read alone (the __cts__.xml files)."""
    m = I.bare(rng, I.gen(rng, groups=(1, 1), works=(1, 2), texts=(1, 3)))
    n = rng.choice([x for x in m.walk() if x.kind != "inventory"])
    parent = n.parent
    n.parent = None
    s = I.to_xml(n, rng, rng.choice(["ti", "", "ns0"]))
    n.parent = parent
    rec.op(n.kind, s)
    rec.distinct(s)
    alone = n.kind in I.TEXTS
    if n.kind == "work" and rng.random() < 0.5:
        o, kids = XmlCtsWorkMetadata.parse(source(rng, s), _with_children=True)
        rec.eq(sorted(k.id for k in kids), sorted(k.urn for k in n.kids), "parse", kind="with-children")
        rec.expect(all(k.parent is o for k in kids), "parse", kind="with-children-parent")
    elif rng.random() < 0.5:
        o = XML[n.kind].parse(source(rng, s))
    else:
        up = XML[parent.kind](parent.urn) if parent.kind != "inventory" else XmlCtsTextInventoryMetadata(parent.urn)
        if parent.kind == "work" and parent.lang:
            up.lang = parent.lang
        o = XML[n.kind].parse(source(rng, s), parent=up)
        check(rec, o, n, "parse", parent=up)
        rec.expect(up.children[n.urn] is o, "parse", kind="joined-parent")
        return
    check(rec, o, n, "parse", orphan=alone)
    cts, cap = o.export(Mimetypes.XML.CTS), o.export(Mimetypes.XML.CapiTainS.CTS)
    no_stray(rec, cts, cap)
    clean()
    check(rec, XML[n.kind].parse(cts), n, "roundtrip-cts", sm=False, orphan=alone)
    clean()
    check(rec, XML[n.kind].parse(cap), n, "roundtrip-capitains", orphan=alone)


def build(m, parent=None):
    o = CLS[m.kind](m.urn, parent) if m.kind in ("textgroup", "work", "inventory") else \
        CLS[m.kind](m.urn, parent, lang=m.lang if m.kind != "edition" else None)
    if m.kind == "work" and m.lang:
        if len(m.urn) % 2:
            o.lang = "mul"          # until one knows better
        o.lang = m.lang
    for l, t in m.names.items():
        o.set_cts_property(PROP[m.kind], t, l)
    for l, t in m.descs.items():
        o.set_cts_property("description", t, l)
    for a in m.abouts:
        o.set_link(RDF_NAMESPACES.CTS.term("about"), a)
    for p, v, _ in m.sm:
        o.metadata.add(URIRef(p), URIRef(v[1]) if v[0] == "URIRef" else
                       Literal(v[1], lang=v[2] or None, datatype=URIRef(v[3]) if v[3] else None))
    for k in m.kids:
        build(k, o)
    return o


@scenario(quick=400, thorough=15000)
def built(rng, rec):
    """Inventories made with the API say and write the same as those read from XML; collections of inventories."""
    m = I.bare(rng, I.gen(rng, tiid="inv-a"))
    for t in m.texts():
        t.cite = []
    o = build(m)
    rec.distinct(I.to_xml(m))
    check(rec, o, m, "built")
    questions(rec, o, m)
    cts, cap = o.export(Mimetypes.XML.CTS), o.export(Mimetypes.XML.CapiTainS.CTS)
    no_stray(rec, cts, cap)
    other = I.gen(rng, groups=(1, 2), ns="farsiLit", tiid="inv-b")
    for t in other.texts():
        t.cite = []
    if {x.urn for x in other.walk()} & {x.urn for x in m.walk()}:
        return
    coll = CtsTextInventoryCollection("coll")
    p = build(other)
    o.parent = coll
    p.parent = coll
    rec.eq(len(coll), len(m.texts()) + len(other.texts()), "collection", kind="collection-len")
    rec.eq([x.id for x in coll.members], ["inv-a", "inv-b"], "collection")
    rec.eq(sorted(x.id for x in coll.readableDescendants), sorted(t.urn for t in m.texts() + other.texts()), "collection")
    whole, wholecap = coll.export(Mimetypes.XML.CTS), coll.export(Mimetypes.XML.CapiTainS.CTS)
    clean()
    check(rec, XmlCtsTextInventoryMetadata.parse(cts), m, "roundtrip-cts", sm=False)
    clean()
    check(rec, XmlCtsTextInventoryMetadata.parse(cap), m, "roundtrip-capitains")
    both = I.M("inventory", "coll", kids=m.kids + other.kids)
    clean()
    check(rec, XmlCtsTextInventoryMetadata.parse(whole), both, "collection", sm=False)
    clean()
    check(rec, XmlCtsTextInventoryMetadata.parse(wholecap), both, "collection")
