"""C02: CTS URNs decompose, truncate, compare and update faithfully."""
import copy
import pickle

from vlib.core import declare, scenario
from vlib.gen import label, word
from checks.c01 import gen_ref, s_ref, s_single, check_ref
from MyCapytain.common.reference import URN, CtsReference

declare(
    "C02",
    rule="A case is one generated URN (namespace only .. version + passage, hostile component alphabets, optional "
         "'#fragment'), every truncation level, and a random history of component assignments. Non-trivial: at least "
         "a work, a passage, or one assignment. Distinct: by URN string and assignment history.",
    require={"print": 200, "component": 200, "upto": 500, "upto-absent": 200, "compare": 200, "assign": 200,
             "invalid": 50, "copy": 100, "whole-again": 1000},
)

CH = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


def comp(rng):
    k = rng.randrange(6)
    if k == 0:
        return rng.choice(["phi1294", "tlg0012", "stoa0040", "phi001", "1", "phi1294-2"])
    if k == 1:
        return "perseus-" + rng.choice(["lat", "eng", "grc"]) + str(rng.randrange(1, 12))
    if k == 2:
        return word(rng)
    if k == 3:
        return rng.choice("abc") + "_" + rng.choice("abc") + "-" + str(rng.randrange(3))
    return "".join(rng.choice(CH) for _ in range(rng.randrange(1, 10)))


def gen_urn(rng):
    m = {"urn_namespace": rng.choice(["cts", "cts", "cts", "cite"]), "namespace": comp(rng),
         "textgroup": None, "work": None, "version": None, "reference": None}
    depth = rng.choice([2, 3, 4, 4, 5, 5, 5, 5])
    for i, k in enumerate(["textgroup", "work", "version"]):
        if depth >= 3 + i:
            m[k] = comp(rng)
    if depth >= 4 and rng.random() < 0.6:
        m["reference"] = gen_ref(rng)
    return m


def no_passage(m):
    s = "urn:%s:%s" % (m["urn_namespace"], m["namespace"])
    parts = [m[k] for k in ("textgroup", "work", "version") if m[k] is not None]
    return s + (":" + ".".join(parts) if parts else "")


def s_urn(m):
    return no_passage(m) + (":" + s_ref(m["reference"]) if m["reference"] else "")


def check(rec, u, m):
    rec.eq(str(u), s_urn(m), "print")
    for k in ("urn_namespace", "namespace", "textgroup", "work", "version"):
        rec.eq(getattr(u, k), m[k], "component", which=k, urn=s_urn(m))
    if m["reference"]:
        rec.expect(isinstance(u.reference, CtsReference), "component")
        check_ref(rec, u.reference, m["reference"])
    else:
        rec.expect(u.reference is None, "component", got=u.reference)
    n = 2 + sum(m[k] is not None for k in ("textgroup", "work", "version"))
    rec.eq(len(u), n, "component", kind="len", urn=s_urn(m))

    base = "urn:%s:%s" % (m["urn_namespace"], m["namespace"])
    want = {URN.NAMESPACE: base, URN.COMPLETE: s_urn(m)}
    if m["textgroup"]:
        want[URN.TEXTGROUP] = base + ":" + m["textgroup"]
    if m["work"]:
        want[URN.WORK] = base + ":" + m["textgroup"] + "." + m["work"]
        want[URN.NO_PASSAGE] = no_passage(m)
    if m["version"]:
        want[URN.VERSION] = no_passage(m)
    if m["reference"]:
        a, b = m["reference"]
        want[URN.PASSAGE] = s_urn(m)
        want[URN.PASSAGE_START] = no_passage(m) + ":" + s_single(a)
        if b:
            want[URN.PASSAGE_END] = no_passage(m) + ":" + s_single(b)
    for name in ("NAMESPACE", "TEXTGROUP", "WORK", "VERSION", "NO_PASSAGE", "PASSAGE", "PASSAGE_START",
                 "PASSAGE_END", "COMPLETE"):
        key = getattr(URN, name)
        if key in want:
            rec.eq(u.upTo(key), want[key], "upto", key=name, urn=s_urn(m))
        else:
            rec.raises(KeyError, lambda: u.upTo(key), "upto-absent", key=name, urn=s_urn(m))
    rec.raises(KeyError, lambda: u.upTo(77), "upto-absent", key=77)


@scenario(quick=5000, thorough=150000)
def parse(rng, rec):
    m = gen_urn(rng)
    s = s_urn(m)
    frag = rng.random() < 0.2
    rec.op("URN", s)
    u = URN(s + ("#" + rng.choice(["", "frag", "a:b"]) if frag else ""))
    check(rec, u, m)
    if m["work"]:
        rec.distinct(s, frag)
        rec.sample(s)
    for dup in (pickle.loads(pickle.dumps(u)), copy.deepcopy(u)):
        rec.expect(dup == u, "copy", kind="copy-eq")
        check(rec, dup, m)
    # truncations are URNs that parse back to the truncated components
    for key, keep in ((URN.NAMESPACE, 0), (URN.TEXTGROUP, 1), (URN.WORK, 2), (URN.VERSION, 3)):
        if keep and m[("textgroup", "work", "version")[keep - 1]] is None:
            continue
        t = {k: v for k, v in m.items()}
        for k in ("textgroup", "work", "version")[keep:]:
            t[k] = None
        t["reference"] = None
        check(rec, URN(u.upTo(key)), t)
    check(rec, u, m)


@scenario(quick=3000, thorough=80000)
def compare(rng, rec):
    a, b = gen_urn(rng), gen_urn(rng)
    if rng.random() < 0.5:
        b = dict(a)
        k = rng.choice(["namespace", "textgroup", "work", "version", "reference", None])
        if k == "reference" and a["work"]:
            b["reference"] = gen_ref(rng)
        elif k in ("namespace", "textgroup", "work", "version") and a[k] is not None:
            b[k] = a[k] + "1"
    sa, sb = s_urn(a), s_urn(b)
    x, y = URN(sa), URN(sb)
    na = sum(a[k] is not None for k in ("textgroup", "work", "version"))
    nb = sum(b[k] is not None for k in ("textgroup", "work", "version"))
    rec.op("compare", sa, sb)
    rec.eq(x == y, sa == sb, "compare", a=sa, b=sb)
    rec.eq(x != y, sa != sb, "compare", a=sa, b=sb)
    rec.eq(x > y, na > nb, "compare", a=sa, b=sb)
    rec.eq(x < y, na < nb, "compare", a=sa, b=sb)
    rec.expect(x != sa and not (x == sa), "compare", kind="urn-vs-str")
    rec.distinct(sa, sb)


@scenario(quick=3000, thorough=80000)
def assignments(rng, rec):
    """A history of component assignments: what is printed always follows the current components."""
    m = gen_urn(rng)
    u = URN(s_urn(m))
    hist = []
    for _ in range(rng.randrange(1, 7)):
        ks = ["namespace"]
        if m["textgroup"]:
            ks += ["textgroup", "work"]
        else:
            ks += ["textgroup"]
        if m["work"]:
            ks += ["version", "reference", "reference"]
        k = rng.choice(ks)
        if rng.random() < 0.6:
            check(rec, u, m)          # reading in between must not freeze the printed form
        if k == "reference":
            r = gen_ref(rng) if rng.random() < 0.8 else None
            m["reference"] = r
            v = s_ref(r) if r else None
            u.reference = CtsReference(v) if (r and rng.random() < 0.5) else v
        elif k == "version" and rng.random() < 0.3:
            m["version"] = None
            u.version = None
            v = None
        else:
            v = comp(rng)
            m[k] = v
            setattr(u, k, v)
        hist.append((k, v))
        rec.op("set", k, v)
        rec.count("assign")
        check(rec, u, m)
        rec.expect(u == URN(s_urn(m)), "assign", kind="assigned-equals-parsed", urn=s_urn(m))
    rec.distinct(s_urn(m), hist)


@scenario(quick=2000, thorough=50000)
def any_order(rng, rec):
    """Components come and go in any order: each stays as it was last given, whatever the others are meanwhile."""
    m = gen_urn(rng)
    u = URN(s_urn(m))
    hist = []
    for _ in range(rng.randrange(2, 9)):
        k = rng.choice(["textgroup", "work", "version", "reference", "namespace", "urn_namespace"])
        if k == "reference":
            m[k] = gen_ref(rng) if rng.random() < 0.6 else None
            v = s_ref(m[k]) if m[k] else None
        else:
            m[k] = v = comp(rng) if k.endswith("namespace") or rng.random() < 0.55 else None
        setattr(u, k, v)
        hist.append((k, v))
        rec.op("set", k, v)
        rec.count("assign")
        for k in ("urn_namespace", "namespace", "textgroup", "work", "version"):
            rec.eq(getattr(u, k), m[k], "component", which=k, history=hist)
        rec.eq(None if u.reference is None else str(u.reference), s_ref(m["reference"]) if m["reference"] else None, "component")
        have = [m[k] is not None for k in ("textgroup", "work", "version")]
        if have == sorted(have, reverse=True) and (have[1] or m["reference"] is None):      # a whole URN again
            check(rec, u, m)
            rec.count("whole-again")
        elif rng.random() < 0.5:
            str(u)                    # whatever it prints meanwhile
    rec.distinct(s_urn(m) if m["textgroup"] else "", hist)


@scenario(quick=300, thorough=3000)
def invalid(rng, rec):
    s = rng.choice(["", "urn", "urn:cts", "urn:" + comp(rng), comp(rng), "urn:cts#x:y:z"])
    rec.raises(ValueError, lambda: URN(s), "invalid", urn=s)
