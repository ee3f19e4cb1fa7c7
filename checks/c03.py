"""C03: reference sets are faithful ordered containers."""
import copy
import pickle

from vlib.core import declare, scenario
from vlib.gen import label
from checks.c01 import gen_ref, s_ref, check_ref
from MyCapytain.common.reference import (CtsReference, CtsReferenceSet, BaseReference, BaseReferenceSet,
                                         DtsReference, DtsReferenceSet, DtsCitation, Citation)

declare(
    "C03",
    rule="A case is a list of 0-12 distinct generated references put in a CTS, DTS or generic reference set through one "
         "of the construction forms (a list, a generator, positional arguments), then queried. Non-trivial: at least "
         "one reference; sizes 1 and 0 are over-represented. Distinct: by kind, form and contents.",
    require={"order": 200, "membership": 500, "index": 300, "level": 200, "singleton": 60, "copy": 50, "dts-eq": 50},
)


def distinct_refs(rng, n):
    seen, out = set(), []
    while len(out) < n:
        m = gen_ref(rng)
        s = s_ref(m)
        if s not in seen:
            seen.add(s)
            out.append((s, m))
    return out


def build(rng, cls, items, **kw):
    form = rng.choice(["list", "generator", "args", "tuple"])
    if form == "args" and not items:
        form = "list"
    if form == "args":
        return form, cls(*items, **kw)
    if form == "generator":
        return form, cls((x for x in items), **kw)
    return form, cls(list(items) if form == "list" else tuple(items), **kw)


def size(rng):
    return rng.choice([0, 1, 1, 1, 2, 3, 4, 6, 12] if rng.random() < 0.97 else [20, 40, 70, 130, 300])


@scenario(quick=3000, thorough=60000)
def cts_sets(rng, rec):
    refs = distinct_refs(rng, size(rng))
    extra = distinct_refs(rng, 3)
    have = {s for s, _ in refs}
    level = rng.choice([0, 1, 2, 3, 5])
    cite = rng.choice([None, Citation(name="line", refsDecl="/tei:l[@n='$1']")])
    items = [CtsReference(s) for s, _ in refs]
    form, cs = build(rng, CtsReferenceSet, items, citation=cite, level=level)
    rec.op(form, [s for s, _ in refs])
    rec.count("singleton", len(refs) == 1)
    rec.eq(len(cs), len(refs), "order", form=form, refs=[s for s, _ in refs])
    rec.eq([str(x) for x in cs], [s for s, _ in refs], "order")
    for i, (s, m) in enumerate(refs):
        rec.expect(isinstance(cs[i], CtsReference), "order", got=type(cs[i]))
        check_ref(rec, cs[i], m)
        rec.expect(s in cs, "membership", kind="string-missing", s=s)
        rec.expect(CtsReference(s) in cs, "membership", kind="reference-missing", s=s)
        rec.eq(cs.index(s), i, "index", s=s)
        rec.eq(cs.index(CtsReference(s)), i, "index", s=s)
        rec.eq(cs.index(s, i), i, "index", kind="index-from", s=s)
        rec.eq(cs.index(CtsReference(s), 0, i + 1), i, "index", kind="index-to", s=s)
        rec.raises(ValueError, lambda: cs.index(s, i + 1), "index", s=s)
        rec.raises(ValueError, lambda: cs.index(s, 0, i), "index", s=s)
    for s, m in extra:
        if s in have:
            continue
        rec.expect(s not in cs, "membership", kind="string-spurious", s=s)
        rec.expect(CtsReference(s) not in cs, "membership", kind="reference-spurious", s=s)
        rec.raises(ValueError, lambda: cs.index(s), "index", s=s)
    rec.eq(cs.level, level, "level")
    rec.expect(cs.citation is cite, "level", kind="citation")
    if refs:
        rec.eq([str(x) for x in cs[1:]], [s for s, _ in refs[1:]], "order", kind="slice")
        rec.eq(str(cs[-1]), refs[-1][0], "order")
        rec.distinct("cts", form, tuple(have))
        rec.sample((form, [s for s, _ in refs]))
    rec.eq(CtsReferenceSet([CtsReference("1")]).level, 1, "level", kind="default-level")
    for dup in (pickle.loads(pickle.dumps(cs)), copy.copy(cs)):
        rec.eq([str(x) for x in dup], [s for s, _ in refs], "copy")
        rec.eq(dup.level, level, "copy")
        rec.eq(getattr(dup.citation, "name", None), getattr(cite, "name", None), "copy")
        for s, _ in refs:
            rec.expect(s in dup, "copy", s=s)


@scenario(quick=1500, thorough=30000)
def generic_sets(rng, rec):
    n = size(rng)
    refs = []
    while len(refs) < n:
        r = (label(rng), None) if rng.random() < 0.6 else (label(rng), label(rng))
        if r not in refs:
            refs.append(r)
    items = [BaseReference(*[x for x in r if x is not None]) for r in refs]
    level = rng.choice([0, 1, 4])
    form, bs = build(rng, BaseReferenceSet, items, level=level)
    rec.op(form, refs)
    rec.count("singleton", n == 1)
    rec.eq(len(bs), n, "order", kind="generic-len", form=form, refs=refs)
    rec.eq([(x.start, x.end) for x in bs], refs, "order")
    for i, r in enumerate(items):
        rec.expect(r in bs, "membership", s=r)
        rec.eq(bs.index(r), i, "index")
    rec.eq(bs.level, level, "level")
    rec.expect(bs.citation is None, "level")
    if n:
        rec.distinct("generic", form, refs)


@scenario(quick=1500, thorough=20000)
def dts_sets(rng, rec):
    n = size(rng)
    refs = []
    typed = rng.random() < 0.5
    while len(refs) < n:
        r = (label(rng), None) if rng.random() < 0.6 else (label(rng), label(rng))
        if r not in refs:
            refs.append(r)
    types = [rng.choice(["poem", "line", None]) if typed else None for _ in refs]
    items = [DtsReference(*[x for x in r if x is not None], type_=t) for r, t in zip(refs, types)]
    cite = rng.choice([None, DtsCitation(name="poem")])
    form, ds = build(rng, DtsReferenceSet, items, level=2, citation=cite)
    rec.op(form, refs, types)
    rec.count("singleton", n == 1)
    rec.eq(len(ds), n, "order", kind="dts-len", form=form, refs=refs)
    rec.eq([(x.start, x.end) for x in ds], refs, "order")
    for i, (r, t) in enumerate(zip(refs, types)):
        rec.eq(None if ds[i].type is None else str(ds[i].type), t, "order", kind="dts-type")
        rec.expect(items[i] in ds, "membership", s=r)
        rec.expect(DtsReference(*[x for x in r if x is not None], type_=t) in ds, "membership", s=(r, t))
        if r[1] is None:
            rec.expect(r[0] in ds, "membership", kind="dts-string", s=r)
            rec.eq(ds.index(r[0]), i, "index", kind="dts-string-index", s=r)
        rec.eq(ds.index(DtsReference(*[x for x in r if x is not None], type_=t)), i, "index")
        # a reference of another type or with another end is another reference
        rec.expect(DtsReference(r[0], r[1] or "zz", type_="other") not in ds, "membership", kind="dts-spurious")
    for spurious in ["not-there"] + [x for r in refs if r[1] is not None for x in r if (x, None) not in refs]:
        rec.expect(spurious not in ds, "membership", kind="dts-spurious", s=spurious)
        rec.raises(ValueError, lambda: ds.index(spurious), "index", s=spurious)
    rec.eq(ds.level, 2, "level")
    rec.expect(ds.citation is cite, "level")
    same = DtsReferenceSet(*[DtsReference(*[x for x in r if x is not None], type_=t) for r, t in zip(refs, types)],
                           level=2, citation=cite) if n else DtsReferenceSet([], level=2, citation=cite)
    rec.expect(ds == same, "dts-eq", kind="dts-eq", refs=refs)
    if n:
        rec.expect(not (ds == DtsReferenceSet(*items, level=3, citation=cite)), "dts-eq", kind="dts-eq-level")
        rec.expect(not (ds == DtsReferenceSet(*items, level=2, citation=DtsCitation(name="x"))), "dts-eq",
                   kind="dts-eq-citation")
        rec.expect(not (ds == DtsReferenceSet(*(items + [DtsReference("one-more")]), level=2, citation=cite)),
                   "dts-eq", kind="dts-eq-members")
        rec.distinct("dts", form, refs, types)
