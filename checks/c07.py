"""C07: extracting a range of citable units."""
from vlib.core import declare, scenario
from vlib import tei
from MyCapytain.common.reference import CtsReference

declare(
    "C07",
    rule="A case is a generated TEI edition opened in one of five source forms and up to 8 ranges over it: same level, "
         "mixed levels, degenerate (x-x), whole text, adjacent, across containers; lines with equal text, comments and "
         "uncited elements lie in between. Non-trivial: start and end differ. Distinct: by edition, range and form.",
    require={"shape": 500, "mixed": 60, "cross": 60, "leaves": 300, "identity": 300},
)

TEXT_URN = "urn:cts:latinLit:phi1294.phi002.perseus-lat2"


def pick_range(rng, doc):
    """-> (start unit, end unit, kind) with start not after end, neither containing the other unless equal."""
    order = {el: i for i, el in enumerate(doc.root.iter())}
    for _ in range(20):
        if rng.random() < 0.6:
            d1 = d2 = rng.randrange(1, doc.depth + 1)
        else:
            d1, d2 = rng.randrange(1, doc.depth + 1), rng.randrange(1, doc.depth + 1)
        us1, us2 = doc.units(d1), doc.units(d2)
        if not us1 or not us2:
            continue
        k = rng.random()
        if k < 0.1 and d1 == d2:
            a = rng.choice(us1)
            return a, a
        if k < 0.2:
            a, b = us1[0], us2[-1]
        elif k < 0.4 and d1 == d2 and len(us1) > 1:
            i = rng.randrange(len(us1) - 1)
            a, b = us1[i], us1[i + 1]
        else:
            a, b = rng.choice(us1), rng.choice(us2)
        if order[a.elem] > order[b.elem]:
            a, b = b, a
        n = min(len(a.ref), len(b.ref))
        if a.ref[:n] == b.ref[:n] and a is not b:
            continue       # one contains the other: not a range of two passages
        return a, b
    return None


@scenario(quick=3000, thorough=120000)
def ranges(rng, rec):
    doc = tei.gen_doc(rng, ragged=rng.random() < 0.2)
    how, text = tei.open_text(rng, doc, TEXT_URN)
    rec.op("edition", how, doc.xml)
    order = {el: i for i, el in enumerate(doc.root.iter())}
    for _ in range(8):
        ab = pick_range(rng, doc)
        if not ab:
            continue
        a, b = ab
        s = a.s + "-" + b.s
        rec.op("getTextualNode", s)
        if a is not b:
            rec.distinct(doc.xml, s, how)
            rec.sample({"range": s, "decl": doc.refsdecl(doc.depth), "how": how})
        if len(a.ref) != len(b.ref):
            rec.count("mixed")
        if a.ref[0] != b.ref[0]:
            rec.count("cross")
        p = text.getTextualNode(rng.choice([s, CtsReference(s)]))
        d = tei.matches(p.resource, tei.pruned(doc, a, b))
        rec.expect(d is None, "shape", range=s, how=how, diff=d, decl=doc.refsdecl(doc.depth),
                   got=tei.etree.tostring(p.resource, encoding="unicode"))
        rec.eq(str(p.reference), s, "identity")
        rec.eq(str(p.urn), TEXT_URN + ":" + s, "identity", kind="urn")
        # independent of the shape oracle: the cited leaves found in the result, by their labels and text
        last = doc.levels[-1]
        tag = tei.Q + last.elem
        lo, hi = order[a.elem], max(order[x] for x in b.elem.iter())
        want = [(u.ref[-1], "".join(tei.plain(u.elem))) for u in doc.units(doc.depth) if lo <= order[u.elem] <= hi]
        got = [(e.get(tei.clark(last.attr)), "".join(tei.plain(e))) for e in tei.plain_tree(p.resource).iter(tag)
               if e.get(tei.clark(last.attr)) is not None]
        if last.elem != "div" or doc.depth == 1:
            cited = {id(u.elem) for u in doc.units(doc.depth)}
            rec.eq(got, want, "leaves", range=s) if all(
                id(e) in cited for e in doc.host.iter(tag)) else None
