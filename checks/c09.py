"""C09: walking an edition from passage to passage."""
from vlib.core import declare, scenario
from vlib import tei
from checks.c05 import under
from MyCapytain.common.reference import CtsReference
from MyCapytain.errors import InvalidSiblingRequest

declare(
    "C09",
    rule="A case is a generated TEI edition and walks over it: single units and same-level ranges of every width (also "
         "one-unit ranges, and ranges touching either end of the text), in context and simple mode; hops along "
         "next/prev/first/last/children/parent and whole traverses. Non-trivial: at least 3 units on the level. Distinct: by "
         "edition and walk.",
    require={"siblings": 800, "range-siblings": 600, "children": 500, "hop": 800, "traverse": 200, "mixed": 100,
             "content": 800, "parent": 800},
)

URN = "urn:cts:latinLit:phi1294.phi002.perseus-lat2"


def s(x):
    return None if x is None else str(x)


def window(units, i, j, is_range):
    """Expected previous and next identifiers of units[i..j]"""
    n = j - i + 1
    is_range = is_range and n > 1     # siblings of a one-unit range are single units

    def fmt(a, b):
        return units[a].s + "-" + units[b].s if is_range else units[a].s
    prev = None if i == 0 else fmt(max(0, i - n), i - 1)
    nxt = None if j == len(units) - 1 else fmt(j + 1, min(len(units) - 1, j + n))
    return prev, nxt


def content(rec, doc, p, i, j, units, kind):
    """The passage reached really holds these units."""
    if type(p).__name__ == "_SimplePassage":
        rec.eq(tei.canon(p.resource), tei._canon(units[i].elem), "content", kind=kind)
    else:
        d = tei.matches(p.resource, tei.pruned(doc, units[i], units[j]))
        rec.expect(d is None, "content", kind=kind, diff=d)
    ref = units[i].s if str(p.reference) == units[i].s else units[i].s + "-" + units[j].s
    rec.eq(str(p.reference), ref, "content", kind=kind + "-reference")
    rec.eq(str(p.urn), URN + ":" + ref, "content", kind=kind + "-urn")


def probe(rng, rec, doc, p, i, j, units, level, is_range):
    """Everything the passage says about its place, asked in any order, some of it twice, some not at all."""
    prev, nxt = window(units, i, j, is_range)
    m = "range-siblings" if is_range else "siblings"
    up = None
    if level > 1:
        a, b = units[i].s.rpartition(".")[0], units[j].s.rpartition(".")[0]
        up = a if a == b else a + "-" + b
    want = [x.s for u in units[i:j + 1] for x in u.subs]

    def siblings():
        rec.eq(tuple(s(x) for x in p.siblingsId), (prev, nxt), m)
        for x in p.siblingsId:
            rec.expect(x is None or isinstance(x, CtsReference), m, kind="sibling-type", got=x)

    def parent():
        q = p.parent
        if up is None:
            rec.expect(q is None, "parent", kind="top", got=q)
        else:
            above = doc.units(level - 1)
            content(rec, doc, q, *find(above, up), above, "parent")
    asks = [siblings, parent,
            lambda: rec.eq(s(p.prevId), prev, m, passage=str(p.reference), level=level, total=len(units)),
            lambda: rec.eq(s(p.nextId), nxt, m, passage=str(p.reference), level=level, total=len(units)),
            lambda: rec.eq(p.depth, level, "children", kind="depth"),
            lambda: rec.eq(s(p.parentId), up, "parent", passage=str(p.reference))]
    if i != j or not is_range:          # children of a one-unit range: not specified
        asks += [lambda: rec.eq([str(c) for c in p.childIds], want, "children", passage=str(p.reference)),
                 lambda: rec.eq(s(p.firstId), want[0] if want else None, "children", kind="first-last"),
                 lambda: rec.eq(s(p.lastId), want[-1] if want else None, "children", kind="first-last")]
    rng.shuffle(asks)
    for ask in asks[:rng.randrange(2, len(asks) + 1)] + rng.sample(asks, 2):
        ask()


def find(units, ref):
    a, _, b = ref.partition("-")
    idx = {u.s: k for k, u in enumerate(units)}
    return idx[a], idx[b or a]


@scenario(quick=1500, thorough=70000)
def walks(rng, rec):
    doc = tei.gen_doc(rng)
    how, text = tei.open_text(rng, doc, URN)
    rec.op("edition", how, doc.xml)
    # the text itself
    top = [u.s for u in doc.units(1)]
    rec.eq([str(c) for c in text.childIds], top, "children", kind="text-children")
    rec.eq((str(text.firstId), str(text.lastId)), (top[0], top[-1]), "children", kind="text-first-last")
    rec.eq((text.parentId, text.parent), (None, None), "parent", kind="text")
    content(rec, doc, text.first, 0, 0, doc.units(1), "text.first")
    content(rec, doc, text.last, len(top) - 1, len(top) - 1, doc.units(1), "text.last")
    rec.eq([str(r) for r in text.reffs], [u.s for d in range(1, doc.depth + 1) for u in doc.units(d)], "children",
           kind="reffs")

    for _ in range(3):
        level = rng.randrange(1, doc.depth + 1)
        units = doc.units(level)
        if len(units) >= 3:
            rec.distinct(doc.xml, how, level)
            rec.sample({"units": [u.s for u in units][:8], "how": how})
        i = rng.choice([0, len(units) - 1, rng.randrange(len(units))])
        is_range = rng.random() < 0.5
        j = i
        if is_range:
            j = rng.choice([i, len(units) - 1, rng.randrange(i, len(units))])
        simple = not is_range and rng.random() < 0.3
        ref = units[i].s + ("-" + units[j].s if is_range else "")
        p = text.getTextualNode(CtsReference(ref), simple=simple)
        rec.op("start", ref, "simple" if simple else "context")
        for step in range(rng.randrange(1, 7)):
            if rng.random() < 0.85:
                probe(rng, rec, doc, p, i, j, units, level, is_range)
            k = rng.choice(["next", "next", "prev", "prev", "first", "last", "child"])
            if is_range and i == j and k in ("first", "last", "child"):
                continue
            rec.op(k)
            if k in ("next", "prev"):
                prev, nxt = window(units, i, j, is_range)
                target = nxt if k == "next" else prev
                q = p.next if k == "next" else p.prev
                if target is None:
                    rec.expect(q is None, "hop", kind=k + "-of-end", got=q)
                    continue
                i, j = find(units, target)
                is_range = "-" in target
            else:
                subs = [x for u in units[i:j + 1] for x in u.subs]
                if k == "child":
                    kids = list(p.children)
                    rec.eq([str(c.reference) for c in kids], [x.s for x in subs], "hop", kind="children")
                    if not kids:
                        continue
                    c = rng.randrange(len(kids))
                    q, x = kids[c], subs[c]
                else:
                    q = p.first if k == "first" else p.last
                    if not subs:
                        rec.expect(q is None, "hop", kind=k + "-of-leaf", got=q)
                        continue
                    x = subs[0] if k == "first" else subs[-1]
                level += 1
                units = doc.units(level)
                i = j = [n for n, u in enumerate(units) if u is x][0]
                is_range = False
            rec.count("hop")
            content(rec, doc, q, i, j, units, k)
            p = q

    # a whole traverse, forth and back
    level = rng.randrange(1, doc.depth + 1)
    units = doc.units(level)
    if len(units) <= 25:
        p = text.getTextualNode(units[0].s, simple=rng.random() < 0.3)
        seen = []
        while p is not None and len(seen) <= len(units):
            seen.append(str(p.reference))
            lastp, p = p, p.next
        rec.eq(seen, [u.s for u in units], "traverse")
        seen, p = [], lastp
        while p is not None and len(seen) <= len(units):
            seen.append(str(p.reference))
            p = p.prev
        rec.eq(seen, [u.s for u in reversed(units)], "traverse", kind="traverse-back")

    # ranges over two levels have no siblings
    if doc.depth > 1:
        a, b = rng.choice(doc.units(1)), rng.choice(doc.units(doc.depth))
        order = {el: k for k, el in enumerate(doc.root.iter())}
        if a.ref[0] != b.ref[0]:
            x, y = (a, b) if order[a.elem] < order[b.elem] else (b, a)
            p = text.getTextualNode(x.s + "-" + y.s)
            for attr in ("nextId", "prevId", "siblingsId", "childIds", "next", "prev"):
                rec.raises(InvalidSiblingRequest, lambda: getattr(p, attr), "mixed")
