"""C10: exports of a text or passage."""
from lxml import etree

from vlib.core import declare, scenario
from vlib import tei
from vlib.gen import text as gtext
from checks.c07 import pick_range
from MyCapytain.common.constants import Mimetypes
from MyCapytain.resources.texts.base.tei import TeiResource

declare(
    "C10",
    rule="A case is a generated TEI edition (markup-special and non-Latin text, nested notes, comments inside text, empty "
         "and space-only lines) exported, whole and by passage, to plain text, XML, TEI, nested dictionary and tree, under "
         "random exclusions and join strings, in two source forms. Non-trivial: at least 3 leaves. Distinct: by edition, "
         "form and exclusions.",
    require={"plaintext": 1000, "excluded": 400, "nested": 300, "xml": 500, "tree": 400, "form-independent": 200,
             "join": 200, "bare": 200},
)

TEXT_URN = "urn:cts:latinLit:phi1294.phi002.perseus-lat2"
NAMES = ["note", "hi", "add", "q", "head", "label", "lb", "lg", "quote", "div", "l", "p", "teiHeader", "orig", "TEI"]


def squeeze(s):
    """Runs of two or more spaces become one."""
    out = []
    for i, ch in enumerate(s):
        if ch == " " and out and out[-1] == " ":
            continue
        out.append(ch)
    return "".join(out)


def expected(el, exclude, join=" "):
    """Text of an element of the source; an excluded ancestor excludes it all."""
    tags = [tei.Q + x for x in exclude]
    if any(a.tag in tags for a in el.iterancestors()):
        return ""
    return squeeze(join.join(tei.plain(el, tags)))


def expected_range(doc, a, b, exclude, join=" "):
    """Text of a range: everything between the beginning of its first unit and the end of its last."""
    return squeeze(join.join(tei.range_text(doc, a, b, [tei.Q + x for x in exclude])))


def plain_dict(d):
    return {k: plain_dict(v) for k, v in d.items()} if isinstance(d, dict) else d


def nested(units, exclude):
    out = {}
    for u in units:
        out[u.ref[-1]] = nested(u.subs, exclude) if u.subs else expected(u.elem, exclude)
    return out


def order_of(d):
    return [(k, order_of(v)) for k, v in d.items()] if isinstance(d, dict) else None


def check_node(rng, rec, node, el, exclude, kind):
    """Every string export of a node that stands for the source element el."""
    ex = ["tei:" + x for x in exclude]
    want = expected(el, exclude)
    rec.eq(node.export(Mimetypes.PLAINTEXT, exclude=ex), want, "plaintext", kind=kind + "-plaintext", exclude=exclude)
    if exclude:
        rec.count("excluded")
    full = expected(el, [])
    rec.eq(node.export(Mimetypes.PLAINTEXT), full, "plaintext", kind=kind + "-default")
    rec.eq(node.export(), full, "plaintext", kind=kind + "-default-format")
    rec.eq(node.text, full, "plaintext", kind=kind + "-text")


@scenario(quick=1200, thorough=60000)
def exports(rng, rec):
    doc = tei.gen_doc(rng)
    exclude = rng.sample(NAMES, rng.choice([0, 1, 1, 2, 3, 3, 8]))
    ex = ["tei:" + x for x in exclude]
    how, text = tei.open_text(rng, doc, TEXT_URN)
    leaves = doc.units(doc.depth)
    rec.op("edition", how, exclude, doc.xml)
    if len(leaves) >= 3:
        rec.distinct(doc.xml, how, exclude)
        rec.sample({"how": how, "exclude": exclude, "text": expected(doc.root, exclude)[:200]})

    # the whole text
    check_node(rng, rec, text, doc.root, exclude, "text")
    for m in (Mimetypes.XML.Std, Mimetypes.XML.TEI):
        rec.eq(tei.canon(etree.fromstring(text.export(m, exclude=ex))), tei._canon(doc.root), "xml")
    rec.eq(tei.canon(etree.fromstring(str(text))), tei._canon(doc.root), "xml", kind="str")
    rec.eq(tei.canon(text.export(Mimetypes.PYTHON.ETREE)), tei._canon(doc.root), "tree")
    d = text.export(Mimetypes.PYTHON.NestedDict, exclude=ex)
    rec.eq(plain_dict(d), nested(doc.top, exclude), "nested", exclude=exclude)
    rec.eq(order_of(d), order_of(nested(doc.top, exclude)), "nested", kind="nested-order")
    d = text.getTextualNode(None).export(Mimetypes.PYTHON.NestedDict, exclude=ex)
    rec.eq(plain_dict(d), nested(doc.top, exclude), "nested", kind="nested-whole")
    for _ in range(2 if doc.depth > 1 else 0):
        us = doc.units(rng.randrange(1, doc.depth))
        u = rng.choice(us)
        simple = rng.random() < 0.5
        d = text.getTextualNode(u.s, simple=simple).export(Mimetypes.PYTHON.NestedDict, exclude=ex)
        want = nested(u.subs, exclude)
        for x in reversed(u.ref):
            want = {x: want}
        rec.eq(plain_dict(d), want, "nested", kind="nested-passage", ref=u.s, simple=simple, depth=doc.depth)
        rec.eq(order_of(d), order_of(want), "nested", kind="nested-passage-order", ref=u.s, simple=simple)
    rec.raises(NotImplementedError, lambda: text.export("application/unknown"), "xml")

    # passages
    for _ in range(3):
        level = rng.randrange(1, doc.depth + 1)
        u = rng.choice(doc.units(level))
        simple = rng.random() < 0.5
        p = text.getTextualNode(u.s, simple=simple)
        check_node(rng, rec, p, u.elem, exclude, "simple" if simple else "context")
        for m in (Mimetypes.XML.Std, Mimetypes.XML.TEI):
            rec.eq(tei.canon(etree.fromstring(p.export(m))), tei.canon(p.resource), "xml")
        rec.expect(p.export(Mimetypes.PYTHON.ETREE) is p.resource, "tree")
        # joining with another string, on one node only
        join = rng.choice(["", "|", "  ", "\n"])
        p.plaintext_string_join = join
        rec.eq(p.export(Mimetypes.PLAINTEXT, exclude=ex), expected(u.elem, exclude, join), "join", exclude=exclude)
        rec.eq(text.getTextualNode(u.s, simple=simple).export(exclude=ex), expected(u.elem, exclude), "join",
               kind="join-leaks")
        ab = pick_range(rng, doc)
        if ab:
            r = text.getTextualNode(ab[0].s + "-" + ab[1].s)
            rec.eq(r.export(Mimetypes.PLAINTEXT, exclude=ex), expected_range(doc, ab[0], ab[1], exclude), "plaintext",
                   kind="range-plaintext", range=str(r.reference), exclude=exclude)

    # the source form does not matter
    how2, other = tei.open_text(rng, doc, TEXT_URN)
    u = rng.choice(leaves)
    for a, b in ((text, other), (text.getTextualNode(u.s), other.getTextualNode(u.s)),
                 (text.getTextualNode(u.s, simple=True), other.getTextualNode(u.s, simple=True))):
        rec.eq(a.export(Mimetypes.PLAINTEXT, exclude=ex), b.export(Mimetypes.PLAINTEXT, exclude=ex), "form-independent",
               forms=(how, how2))
        rec.eq(tei.canon(etree.fromstring(a.export(Mimetypes.XML.Std))),
               tei.canon(etree.fromstring(b.export(Mimetypes.XML.Std))), "form-independent", forms=(how, how2))

    # a bare TEI fragment
    frag = TeiResource(identifier="x", resource=etree.tostring(u.elem, encoding="unicode", with_tail=False))
    rec.eq(frag.export(Mimetypes.PLAINTEXT, exclude=ex), expected(tei.plain_tree(u.elem), exclude), "bare")
    rec.eq(tei.canon(etree.fromstring(str(frag))), tei._canon(u.elem), "bare", kind="bare-xml")
    # exclusions of a class of passages apply to .text only when nothing else is asked
    cls = type("Own", (TeiResource,), {"default_exclude": ["tei:note"]})
    own = cls(identifier="x", resource=etree.tostring(u.elem, encoding="unicode", with_tail=False))
    rec.eq(own.text, expected(tei.plain_tree(u.elem), ["note"]), "bare", kind="default-exclude")
    rec.eq(own.export(Mimetypes.PLAINTEXT), expected(tei.plain_tree(u.elem), ["note"]), "bare", kind="default-exclude")
    rec.eq(own.export(Mimetypes.PLAINTEXT, exclude=[]), expected(tei.plain_tree(u.elem), []), "bare", kind="exclude-none")
