"""C01: CTS passage references are faithful, immutable values."""
import copy
import pickle

from vlib.core import declare, scenario
from vlib.gen import label, word
from MyCapytain.common.reference import CtsReference, BaseReference, URN
from MyCapytain.common.reference._capitains_cts import CtsSinglePassageId, CtsWordReference

declare(
    "C01",
    rule="A case is one generated reference or a pair of them (1-20 levels, hostile/unicode labels, optional @word[n] on "
         "either end, ranges of equal and mixed depth). Non-trivial: depth>1, a range, or a sub-reference is present. "
         "Distinct: by canonical string.",
    require={"print": 200, "levels": 200, "equality": 200, "copy": 200, "parent": 100, "word": 60, "highest": 60},
)


def gen_single(rng, depth=None):
    depth = depth or rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6] if rng.random() < 0.97 else [7, 9, 10, 11, 12, 20])
    parts = [label(rng) for _ in range(depth)]
    w = c = None
    if rng.random() < 0.4:
        w = word(rng)
        if rng.random() < 0.3:       # digits and low lines are part of words too
            w += rng.choice(["2", "10", "_", "_a", "1b"])
        c = rng.choice([None, None, 1, 2, 7, 10, 123, 10 ** 6, 10 ** 12])
    return parts, w, c


def s_single(m):
    parts, w, c = m
    return ".".join(parts) + ("" if w is None else "@" + w + ("" if c is None else "[%d]" % c))


def gen_ref(rng):
    """-> (start, end or None)"""
    a = gen_single(rng)
    if rng.random() < 0.5:
        return a, None
    k = rng.random()
    if k < 0.25:     # share a prefix
        n = rng.randrange(len(a[0]) + 1)
        extra = rng.randrange(0 if n else 1, 4)
        b = gen_single(rng, max(1, n + extra))
        b = (a[0][:n] + b[0][n:], b[1], b[2])
    elif k < 0.4:    # same depth
        b = gen_single(rng, len(a[0]))
    elif k < 0.5:    # degenerate
        b = a
    else:
        b = gen_single(rng)
    return a, b


def s_ref(m):
    return s_single(m[0]) if m[1] is None else s_single(m[0]) + "-" + s_single(m[1])


def check_single(rec, obj, m):
    parts, w, c = m
    rec.eq(str(obj), s_single(m), "print")
    rec.eq(list(obj), parts, "levels")
    rec.eq(obj.list, parts, "levels")
    rec.eq(len(obj), len(parts), "levels")
    rec.eq(obj.depth, len(parts), "levels")
    check_word(rec, obj.subreference, w, c)


def check_word(rec, sub, w, c):
    if w is None:
        rec.expect(sub is None, "word", got=sub)
        return
    rec.expect(sub is not None, "word", got=sub, want=w)
    rec.eq(str(sub), "@" + w + ("" if c is None else "[%d]" % c), "word")
    rec.eq((sub.word, sub.counter), (w, c or 0), "word")
    rec.eq(sub.tuple(), (w, c or 0), "word")
    rec.eq(list(sub), [w, c or 0], "word")


def check_ref(rec, ref, m):
    a, b = m
    rec.eq(str(ref), s_ref(m), "print")
    check_single(rec, ref.start, a)
    rec.eq(bool(ref.is_range()), b is not None, "range")
    if b is None:
        rec.expect(ref.end is None, "range", got=ref.end)
        check_word(rec, ref.subreference, a[1], a[2])
    else:
        check_single(rec, ref.end, b)
        rec.expect(ref.subreference is None, "range", got=ref.subreference)
    hi = a if b is None or len(a[0]) <= len(b[0]) else b
    rec.eq(str(ref.highest), s_single(hi), "highest")
    rec.eq(ref.depth, len(hi[0]), "highest")


def parent_model(m):
    a, b = m
    if b is None:
        if len(a[0]) == 1:
            return None
        return (a[0][:-1], a[1], a[2]), None
    if len(a[0]) == 1 and len(b[0]) == 1:
        return None
    pa, pb = (a[0][:-1], a[1], a[2]), (b[0][:-1], b[1], b[2])
    if pa[0] == pb[0] and a[1] is None and b[1] is None:
        return pa, None
    return pa, pb


@scenario(quick=8000, thorough=300000)
def references(rng, rec):
    m = gen_ref(rng)
    s = s_ref(m)
    rec.op("CtsReference", s)
    ref = CtsReference(s)
    check_ref(rec, ref, m)
    if m[1] is not None or len(m[0][0]) > 1 or m[0][1]:
        rec.distinct(s)
        rec.sample(s)

    # every way to build the same reference yields the same value
    a, b = s_single(m[0]), (s_single(m[1]) if m[1] else None)
    same = [CtsReference(s), CtsReference((a, b)), CtsReference(ref)]
    if b is not None:
        same += [CtsReference(a, b), CtsReference(CtsSinglePassageId(a), CtsSinglePassageId(b))]
    if a.count("@") <= 1:
        urn = URN("urn:cts:ns:tg.wk.v1:" + s)
        same.append(urn.reference)
    for r in same:
        rec.expect(type(r) is type(ref), "equality", got=type(r))
        rec.expect(r == ref and ref == r and not (r != ref), "equality", a=str(r), b=s)
        rec.eq(hash(r), hash(ref), "equality", kind="hash")
        check_ref(rec, r, m)
    # usable as a key
    rec.eq({ref: 1}.get(same[1]), 1, "equality", kind="hash-key")

    # copies
    for how, dup in (("pickle", pickle.loads(pickle.dumps(ref))), ("pickle2", pickle.loads(pickle.dumps(ref, 2))),
                     ("copy", copy.copy(ref)), ("deepcopy", copy.deepcopy(ref))):
        rec.op(how, s)
        rec.expect(type(dup) is type(ref) and dup == ref, "copy", how=how, s=s)
        check_ref(rec, dup, m)
    for end, mm in ((ref.start, m[0]), (ref.end, m[1])):
        if mm:
            check_single(rec, pickle.loads(pickle.dumps(end)), mm)
            check_single(rec, copy.deepcopy(end), mm)
            if mm[1]:
                rec.count("copy")
                check_word(rec, pickle.loads(pickle.dumps(end.subreference)), mm[1], mm[2])
                check_word(rec, copy.deepcopy(end.subreference), mm[1], mm[2])
                check_word(rec, copy.copy(end.subreference), mm[1], mm[2])

    # parent chain; mixed depth ranges with one end at the first level have no defined parent
    cur, cm = ref, m
    for _ in range(8):
        if cm[1] is not None and (len(cm[0][0]) == 1) != (len(cm[1][0]) == 1):
            break
        pm = parent_model(cm)
        p = cur.parent
        if pm is None:
            rec.expect(p is None, "parent", got=str(p), of=str(cur))
            break
        rec.expect(p is not None, "parent", of=str(cur))
        check_ref(rec, p, pm)
        cur, cm = p, pm
    # reading never changed it
    check_ref(rec, ref, m)


@scenario(quick=6000, thorough=200000)
def pairs(rng, rec):
    """Equality discriminates: two references are equal exactly when they denote the same string."""
    m = gen_ref(rng)
    a, b = m
    k = rng.randrange(6)
    if k == 0:
        n = (a, None) if b is not None else (a, a)
    elif k == 1:
        n = ((a[0] + [label(rng)], a[1], a[2]), b)
    elif k == 2:
        n = (b, a) if b is not None else (a, None)
    elif k == 3:
        n = ((a[0], word(rng), 3), b)
    elif k == 4:
        n = ((a[0][:-1] + [a[0][-1] + "1"], a[1], a[2]), b)
    else:
        n = gen_ref(rng)
    sm, sn = s_ref(m), s_ref(n)
    x, y = CtsReference(sm), CtsReference(sn)
    rec.op(sm, sn)
    rec.eq(x == y, sm == sn, "equality", kind="discrimination", a=sm, b=sn)
    rec.eq(x != y, sm != sn, "equality", kind="discrimination", a=sm, b=sn)
    rec.eq(len({x, y}), len({sm, sn}), "equality", kind="discrimination", a=sm, b=sn)
    rec.distinct(sm, sn)
    rec.expect(CtsReference("") is None and CtsReference(None) is None, "equality", kind="empty")


@scenario(quick=1000, thorough=20000)
def base_references(rng, rec):
    a, b = label(rng), label(rng)
    r1, r2 = BaseReference(a), BaseReference(a, b)
    rec.eq((r1.start, r1.end, bool(r1.is_range())), (a, None, False), "range")
    rec.eq((r2.start, r2.end, bool(r2.is_range())), (a, b, True), "range")
    for r in (r1, r2):
        for d in (pickle.loads(pickle.dumps(r)), copy.deepcopy(r), copy.copy(r)):
            rec.expect(type(d) is BaseReference and d == r and d.start == r.start and d.end == r.end, "copy",
                       got=d, want=r)
    rec.expect(r1 == BaseReference(a) and r1 != r2, "equality")
