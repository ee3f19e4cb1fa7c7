"""C14: merging CTS text groups and works."""
from rdflib import URIRef
from rdflib.namespace import RDFS

from vlib.core import declare, scenario
from vlib import inv as I
from vlib.gen import text
from checks.c13 import check, questions, XML, clean, PROP
from MyCapytain.common.constants import Mimetypes, get_graph
from MyCapytain.errors import InvalidURN
from MyCapytain.resources.collections.cts import (XmlCtsTextInventoryMetadata, XmlCtsTextgroupMetadata,
                                                  XmlCtsWorkMetadata, XmlCtsEditionMetadata)

declare(
    "C14",
    rule="A case is a text group (or work) cut into 2-4 overlapping partial documents, read and merged in order, with refused "
         "merges in between, later edits, and a final export that is read back. Non-trivial: at least two texts in the "
         "merged group and one node present in two parts. Distinct: by the parts.",
    require={"merge": 3000, "refused": 300, "donor": 300, "edited": 300, "after": 1000},
)


def part_of(rng, m, last, first=False, depth=0):
    """A partial copy of node m; None if left out. Records in `last` what the newest part says of each node."""
    p = I.M(m.kind, m.urn, lang=m.lang)
    p.names = {l: t for l, t in m.names.items() if rng.random() < 0.6}
    if m.kind in I.TEXTS:
        p.descs = {l: t for l, t in m.descs.items() if rng.random() < 0.6}
        p.abouts = [a for a in m.abouts if rng.random() < 0.6]
        p.cite = m.cite if rng.random() < 0.6 else I.cite(rng)
    p.sm = [x for x in m.sm if rng.random() < 0.6]
    for k in m.kids:
        if rng.random() < 0.6:
            q = part_of(rng, k, last)
            q.parent = p
            p.kids.append(q)
    return p


def absorb(whole, p):
    """The model of merging p into whole."""
    whole.names.update(p.names)
    whole.descs.update(p.descs)
    whole.abouts = sorted(set(whole.abouts) | set(p.abouts))
    for x in p.sm:
        if (x[0], x[1]) not in [(a, b) for a, b, _ in whole.sm]:
            whole.sm.append(x)
    if p.kind in I.TEXTS:
        whole.cite = p.cite
        whole.lang = p.lang
    have = {k.urn: k for k in whole.kids}
    for k in p.kids:
        if k.urn not in have:
            new = whole.add(I.M(k.kind, k.urn, lang=k.lang))
            absorb(new, k)
        else:
            absorb(have[k.urn], k)


def nonempty(m, full):
    """Every node keeps at least one name, so that name questions have an answer."""
    for x in m.walk():
        if not x.names:
            src = next(f for f in full.walk() if f.urn == x.urn)
            x.names = dict(list(src.names.items())[:1])


def stranger(rng, level, urn):
    """An item of the same kind whose identifier differs in one part only."""
    parts = urn.split(":")
    last = parts[3].split(".")
    where = rng.choice(["namespace", "kind", "group", "last", "case"])
    if where == "namespace":
        parts[2] += "x"
    elif where == "kind":
        parts[1] = "cite"
    elif where == "group":
        last[0] = "x" + last[0]
    elif where == "last":
        last[-1] += "x"
    else:
        last[-1] = last[-1].swapcase() if last[-1].swapcase() != last[-1] else last[-1] + "0"
    new = ":".join(parts[:3] + [".".join(last)])
    bad = XML[level](new)
    if level == "textgroup":
        w = XmlCtsWorkMetadata(new + ".w", parent=bad)
        XmlCtsEditionMetadata(new + ".w.t", parent=w)
    else:
        XmlCtsEditionMetadata(new + ".t", parent=bad)
    return bad


@scenario(quick=900, thorough=30000)
def merges(rng, rec):
    level = rng.choice(["textgroup", "textgroup", "work"])
    inv = I.bare(rng, I.gen(rng, groups=(1, 1), works=(1, 4), texts=(0, 4), tiid="urn:x:inv"))
    full = inv.kids[0] if level == "textgroup" else rng.choice(inv.kids[0].kids)
    full.parent = None
    parts = [part_of(rng, full, None) for _ in range(rng.randrange(2, 5))]
    for p in parts:
        nonempty(p, full)
    docs = [I.to_xml(p, rng) for p in parts]
    # values common to the parts of one node are shared between parts: what the store knows is the union of what was read
    whole = I.M(parts[0].kind, parts[0].urn, lang=parts[0].lang)
    up = XmlCtsTextInventoryMetadata("urn:x:inv") if level == "textgroup" else XmlCtsTextgroupMetadata(full.urn.rpartition(".")[0])
    a = XML[level].parse(docs[0], parent=up)
    absorb(whole, parts[0])
    for p, d in zip(parts[1:], docs[1:]):
        rec.op("merge", d)
        b = XML[level].parse(d)
        kids = {k: v for k, v in b.children.items()}
        # refused merges leave everything as it was
        for bad, exc in ((stranger(rng, level, full.urn), InvalidURN), ("nothing", TypeError),
                         (XmlCtsEditionMetadata("urn:cts:a:b.c.d"), TypeError),
                         (XmlCtsWorkMetadata("urn:cts:a:b.c") if level == "textgroup"
                          else XmlCtsTextgroupMetadata("urn:cts:a:b"), TypeError)):
            if rng.random() < 0.3:
                before = sorted(x.id for x in a.descendants)
                rec.raises(exc, lambda: a.update(bad), "refused")
                rec.eq(sorted(x.id for x in a.descendants), before, "refused", kind="refused-changed")
        res = a.update(b)
        absorb(whole, p)
        rec.expect(res is a, "merge", kind="returns-self")
        check(rec, a, whole, "merge", parent=up)
        if level == "textgroup":
            # the donor keeps its own works
            rec.expect({k: id(v) for k, v in b.children.items()} == {k: id(v) for k, v in kids.items()}, "donor")
            rec.expect(all(w.parent is b for w in b.members), "donor", kind="donor-parent")
            rec.expect(all(t.parent is w for w in b.members for t in w.members), "donor", kind="donor-text-parent")
            rec.expect(not any(x is y for x in a.descendants for y in b.descendants), "donor", kind="donor-shares")
        if rng.random() < 0.2:
            a.update(a)
            check(rec, a, whole, "merge", parent=up)
    if len(whole.texts()) > 1:
        rec.distinct(docs)
        rec.sample(docs)
    for x in whole.walk():
        for y in a.descendants:
            if y.id == x.urn:
                rec.expect(y.parents[-1] is up, "merge", kind="parents-chain")
    # what is said of a merged node afterwards belongs to it, everywhere
    for x in rng.sample(list(whole.walk()), min(3, len(list(whole.walk())))):
        o = a[x.urn]
        t = "later " + text(rng)
        x.names["zul"] = t
        o.set_cts_property(PROP[x.kind], t, "zul")
        rec.expect(t in [str(v) for v in get_graph().objects(URIRef(x.urn), RDFS.label)], "edited", urn=x.urn, label=t)
    check(rec, a, whole, "edited", parent=up)
    cap = a.export(Mimetypes.XML.CapiTainS.CTS)
    clean()
    check(rec, XML[level].parse(cap), whole, "after")
