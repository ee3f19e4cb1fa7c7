"""C05: enumeration of the references of an edition."""
import warnings

from lxml import etree

from vlib.core import declare, scenario
from vlib import tei
from vlib.gen import label
from checks.c07 import pick_range
from MyCapytain.common.reference import CtsReference, CtsReferenceSet
from MyCapytain.common.constants import XPATH_NAMESPACES
from MyCapytain.common.reference import Citation
from MyCapytain.errors import CitationDepthError, DuplicateReference, EmptyReference, MissingRefsDecl, RefsDeclError
from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText

declare(
    "C05",
    rule="A case is a generated TEI edition (1-4 levels, wrappers, ragged branches, decoy structures outside the edition, "
         "hostile labels) in one of five source forms; every level is listed, whole and under units and ranges, plus "
         "unknown and too deep requests; a second workload plants duplicate and empty labels. Non-trivial: at least 3 "
         "leaves. Distinct: by edition and form.",
    require={"level": 800, "under": 400, "range": 300, "too-deep": 300, "unknown": 200, "kind": 1000, "duplicates": 100,
             "empties": 50, "declaration": 300},
)

URN = "urn:cts:latinLit:phi1294.phi002.perseus-lat2"


def under(u, depth):
    cur = [u]
    for _ in range(depth - len(u.ref)):
        cur = [x for c in cur for x in c.subs]
    return cur


def check(rec, got, want, level, root, monitor, **detail):
    rec.eq([str(r) for r in got], want, monitor, level=level, **detail)
    rec.expect(isinstance(got, CtsReferenceSet) and all(isinstance(r, CtsReference) for r in got), "kind")
    rec.eq(got.level, level, "kind", kind="set-level")
    rec.expect(got.citation is root[level - 1], "kind", kind="set-citation")


def form(rng, s):
    return rng.choice([s, CtsReference(s)])


@scenario(quick=2500, thorough=100000)
def enumerate_(rng, rec):
    doc = tei.gen_doc(rng, ragged=rng.random() < 0.4)
    how, text = tei.open_text(rng, doc, rng.choice([URN, None]))
    root = text.citation
    rec.op("edition", how, doc.xml)
    rec.eq([c.name for c in root], [l.name for l in doc.levels], "kind", kind="scheme")
    leaves = doc.units(doc.depth)
    if len(leaves) >= 3:
        rec.distinct(doc.xml, how)
        rec.sample({"decl": doc.refsdecl(doc.depth), "leaves": [u.s for u in leaves][:8]})
    levels = list(range(1, doc.depth + 1))
    rng.shuffle(levels)
    for level in levels:
        want = [u.s for u in doc.units(level)]
        if not want:
            rec.raises(KeyError, lambda: text.getReffs(level=level), "level")
            continue
        got = text.getReffs(level=level) if level > 1 or rng.random() < 0.5 else text.getReffs()
        check(rec, got, want, level, root, "level", how=how)
        rec.expect(len(set(got)) == len(got), "level", kind="unique")
    for d in (doc.depth + 1, doc.depth + rng.randrange(2, 5)):
        rec.raises(CitationDepthError, lambda: text.getReffs(level=d), "too-deep")

    whole = [text, text, text.getTextualNode(), text.getTextualNode(simple=True)]      # a text, and all of it as a passage
    asker = lambda: rng.choice(whole)       # noqa

    for _ in range(6):
        d = rng.randrange(1, doc.depth + 1)
        if not doc.units(d):
            continue
        u = rng.choice(doc.units(d))
        asked = rng.randrange(0, doc.depth + 1)
        level = max(asked, d + 1)          # levels not below the reference mean: the level just below it
        rec.op("getReffs", asked, u.s)
        ask = lambda: asker().getReffs(level=asked, subreference=form(rng, u.s))  # noqa
        if level > doc.depth:
            rec.raises(CitationDepthError, ask, "too-deep")
            continue
        want = [x.s for x in under(u, level)]
        if not want:
            rec.raises(KeyError, ask, "unknown")
            continue
        check(rec, ask(), want, level, root, "under", ref=u.s, asked=asked, how=how)
        # asked of the passage itself: counted from it
        own = text.getTextualNode(form(rng, u.s), simple=True)
        got = own.getReffs() if level == d + 1 and rng.random() < 0.5 else own.getReffs(level=level - d)
        check(rec, got, want, level, root, "under", kind="of-passage", ref=u.s, asked=level - d)
        # a reference that does not exist
        bad = list(u.ref)
        bad[-1] = label(rng) + "zz"
        rec.raises(KeyError, lambda: asker().getReffs(level=asked, subreference=form(rng, ".".join(bad))), "unknown")

    order = {el: i for i, el in enumerate(doc.root.iter())}
    for _ in range(4):
        ab = pick_range(rng, doc)
        if not ab or ab[0] is ab[1]:
            continue
        a, b = ab
        s = a.s + "-" + b.s
        common = 0
        while common < min(len(a.ref), len(b.ref)) and a.ref[common] == b.ref[common]:
            common += 1
        asked = rng.choice([0, 1, 1] + list(range(2, doc.depth + 1)))
        level = len(a.ref) if asked == 0 else len(a.ref) + 1 if asked == 1 else max(asked, common + 1)
        rec.op("getReffs", asked, s)
        ask = lambda: asker().getReffs(level=asked, subreference=form(rng, s))  # noqa
        if level > doc.depth:
            rec.raises(CitationDepthError, ask, "too-deep", range=s)
            continue
        lo, hi = order[a.elem], max(order[x] for x in b.elem.iter())
        want = [u.s for u in doc.units(level)
                if order[u.elem] <= hi and max(order[x] for x in u.elem.iter()) >= lo]
        if not want:
            rec.raises(KeyError, ask, "range", range=s)
            continue
        check(rec, ask(), want, level, root, "range", range=s, asked=asked, how=how, common=common)
    # asking changes nothing
    want = [u.s for u in doc.units(1)]
    check(rec, text.getReffs(), want, 1, root, "level")


@scenario(quick=600, thorough=20000)
def faults_in_labels(rng, rec):
    """Editions with duplicate or empty labels at the leaves: listed as they are, and reported when asked."""
    doc = tei.gen_doc(rng, depth=rng.choice([1, 2, 2, 3]))
    leaves = doc.units(doc.depth)
    dup, empty = set(), 0
    kind = rng.choice(["dup", "empty", "none"])
    if kind == "dup":
        for u in list(leaves):
            sib = [x for x in leaves if x.ref[:-1] == u.ref[:-1] and x is not u and x.s not in dup]
            if sib and u.s not in dup and rng.random() < 0.4:
                t = rng.choice(sib)
                t.ref = list(u.ref)
                t.elem.set(tei.clark(doc.levels[-1].attr), u.ref[-1])
                dup.add(u.s)
    elif kind == "empty" and doc.levels[-1].attr != "xml:id":
        for u in leaves:
            if rng.random() < 0.3:
                u.elem.set(tei.clark(doc.levels[-1].attr), "")
                u.ref = u.ref[:-1] + [""]
                empty += 1
    if kind == "dup" and doc.levels[-1].attr == "xml:id":
        return
    doc.xml = tei.etree.tostring(doc.root, encoding="unicode")
    how, text = tei.open_text(rng, doc, URN)
    rec.op(kind, how, doc.xml)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        got = text.getValidReff(level=doc.depth, _debug=True)
    if not empty:
        rec.eq([str(r) for r in got], [u.s for u in leaves], "duplicates", kind="dup-list")
    said = [str(w.message) for w in caught if w.category is DuplicateReference]
    real = {s for s in [u.s for u in leaves] if [u.s for u in leaves].count(s) > 1}
    if real:
        rec.eq([sorted(s.split(", ")) for s in said], [sorted(real)], "duplicates")
    else:
        rec.eq(said, [], "duplicates", kind="dup-false-alarm")
    said = [str(w.message) for w in caught if w.category is EmptyReference]
    rec.eq(len(said), 1 if empty else 0, "empties")
    if empty:
        rec.expect(said[0].startswith("%d " % empty), "empties", kind="empties-count", said=said, empty=empty)
        rec.count("empties")
    if real or empty:
        rec.distinct(doc.xml, "faults")
    # without debugging nothing is said
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        text.getValidReff(level=doc.depth)
    rec.eq([w for w in caught if w.category in (DuplicateReference, EmptyReference)], [], "duplicates", kind="silent")


@scenario(quick=300, thorough=10000)
def declarations(rng, rec):
    """An edition says how it is cited, is told, or is refused; its own test tells a scheme that leads nowhere."""
    doc = tei.gen_doc(rng)
    how, text = tei.open_text(rng, doc, rng.choice([URN, None]))
    rec.op("edition", how, doc.xml)
    rec.expect(text.test() is None, "declaration", kind="test-passes")
    doc.root.insert(0, etree.Element("{http://example.org/}" + rng.choice(["x", "TEI", "text"])))
    bare = etree.fromstring(tei.etree.tostring(doc.root, encoding="unicode"))
    k = rng.randrange(3)
    for el in bare.xpath("//tei:refsDecl[@n='CTS']", namespaces=XPATH_NAMESPACES):
        if k == 0:
            el.getparent().remove(el)
        elif k == 1:
            el.set("n", rng.choice(["CTSX", "cts", "DTS", ""]))
        else:
            el.tag = rng.choice(["refsDecl", "{http://example.org/}refsDecl", tei.Q + "p"])
    rec.distinct(doc.xml, k)
    rec.raises(MissingRefsDecl, lambda: CapitainsCtsText(urn=rng.choice([URN, None]), resource=bare), "declaration", kind="none")
    cut = [c.name for c in text.citation][:rng.randrange(1, doc.depth + 1)]

    def given(base):
        cur = None
        for i in reversed(range(len(cut))):
            cur = Citation(name=cut[i], refsDecl=base + doc.refsdecl(i + 1)[len(doc.base):], child=cur)
        return cur
    for xml in (bare, doc.xml):         # told from outside, whatever the edition says itself
        cite = given(doc.base)
        mine = CapitainsCtsText(urn=URN, resource=xml, citation=cite)
        rec.expect(mine.citation is cite, "declaration", kind="given")
        rec.expect(mine.test() is None, "declaration", kind="given-test")
        for level in range(1, len(cut) + 1):
            want = [u.s for u in doc.units(level)]
            if want:
                check(rec, mine.getReffs(level=level), want, level, cite, "declaration", kind="given-reffs")
        rec.raises(CitationDepthError, lambda: mine.getReffs(level=len(cut) + 1), "declaration", kind="given-too-deep")
        lost = CapitainsCtsText(urn=URN, resource=xml, citation=given(doc.base + "/tei:" + rng.choice(["nowhere", "TEI", "back"])))
        rec.raises(RefsDeclError, lost.test, "declaration", kind="leads-nowhere")
