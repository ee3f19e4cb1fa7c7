"""C15: a folder resolver finds, checks and files what its repositories hold."""
import os

from vlib.core import declare, scenario
from vlib import inv as I
from vlib import repo
from checks.c13 import check
from MyCapytain.errors import UndispatchedTextError, UnknownCollection
from MyCapytain.resolvers.cts.local import CtsCapitainsLocalResolver
from MyCapytain.resolvers.utils import CollectionDispatcher
from MyCapytain.resources.prototypes.cts.inventory import CtsTextInventoryCollection, CtsTextInventoryMetadata

declare(
    "C15",
    rule="A case is a generated repository tree on disk (1-2 folders with awkward names, groups shared between folders, "
         "works, texts) with injected faults: missing, malformed, empty, binary, undeclared texts, a folder where a text "
         "should be, broken metadata files; filed by default or by generated dispatching rules. Non-trivial: at least two "
         "texts. Distinct: by documents and faults.",
    require={"found": 1000, "fault": 60, "dispatch": 300, "undispatched": 60, "broken-metadata": 100, "prototype": 20},
)


class Lenient(CtsCapitainsLocalResolver):
    RAISE_ON_GENERIC_PARSING_ERROR = False


def fingerprint(r):
    return [(x.urn, getattr(x, "fault", None), x.cite) for x in r.m.walk()], sorted(os.path.basename(f) for f in r.folders)


def check_all(rec, inventory, m, mon):
    """Every group of m is in the inventory object, complete, and there is nothing else."""
    rec.eq(sorted(x.id for x in inventory.members), sorted(x.urn for x in m.kids), mon, kind=mon + "-groups")
    for tg in m.kids:
        check(rec, inventory[tg.urn], tg, mon, parent=inventory, order=False, cites=repo.norm)


@scenario(quick=350, thorough=12000)
def discovery(rng, rec):
    with repo.scratch() as base:
        r = repo.gen(rng, base, faults=rng.choice([0, 0.2, 0.5]))
        rec.op("repo", fingerprint(r))
        if len(r.m.texts()) > 1:
            rec.distinct(fingerprint(r))
            rec.sample(fingerprint(r))
        res = CtsCapitainsLocalResolver(list(r.folders))
        inventory = res.inventory.members[0]
        rec.eq([x.id for x in res.inventory.members], ["default"], "found", kind="default-inventory")
        check_all(rec, inventory, r.m, "found")
        rec.eq(sorted(t.id for t in res.texts), sorted(t.urn for t in r.m.texts()), "found", kind="texts")
        for t in r.m.texts():
            rec.count("found" if t.fault is None else "fault")
            rec.eq(res.inventory[t.urn].path and os.path.realpath(res.inventory[t.urn].path), os.path.realpath(t.path),
                   "found", kind="path")
        # reading the same folders again, one by one, in another order, tells the same story
        late = CtsCapitainsLocalResolver([], autoparse=False)
        rec.eq(late.texts, [], "found", kind="lazy")
        for f in rng.sample(r.folders, len(r.folders)):
            late.parse([f])
            for x in rng.sample(r.m.kids, min(2, len(r.m.kids))):       # asked in between
                here = sorted(t.urn for t in x.texts() if t.cite and t.urn in [k.id for k in late.texts])
                if here:
                    rec.eq(sorted(t.id for t in late.getMetadata(x.urn).readableDescendants), here, "found", kind="asked-between")
        check_all(rec, late.inventory.members[0], r.m, "found")


@scenario(quick=200, thorough=8000)
def broken_metadata(rng, rec):
    with repo.scratch() as base:
        r = repo.gen(rng, base, nfolders=1, groups=(1, 3), works=(1, 3), texts=(0, 2))
        junk = rng.choice(["", "<ti:textgroup", "<a></b>", "\x00", "not xml at all"])
        if rng.random() < 0.5:
            tg = rng.choice(r.m.kids)
            repo.put(os.path.join(r.tgdirs[(tg.urn, r.folders[0])], "__cts__.xml"), junk)
            lost = [tg]
        else:
            wk = rng.choice([w for g in r.m.kids for w in g.kids])
            repo.put(os.path.join(r.wkdirs[wk.urn], "__cts__.xml"), junk)
            lost = [wk]
        rec.op("broken", lost[0].urn, junk)
        rec.distinct(fingerprint(r), lost[0].urn)
        rec.raises(Exception, lambda: CtsCapitainsLocalResolver(list(r.folders)), "broken-metadata", what="strict")
    # The same repository, read leniently, in a fresh store
    from checks.c13 import clean
    clean()
    with repo.scratch() as base:
        for x in lost:
            x.parent.kids.remove(x)
        full = r.m
        r.folders = [os.path.join(base, "repo")]
        r.home = {w.urn: r.folders[0] for g in full.kids for w in g.kids}
        repo.write(rng, r)
        # the broken item lies in there too
        if lost[0].kind == "textgroup":
            d = os.path.join(r.folders[0], "data", "zz-broken")
        else:
            d = os.path.join(r.tgdirs[(lost[0].parent.urn, r.folders[0])], "zz-broken")
        os.makedirs(d)
        repo.put(os.path.join(d, "__cts__.xml"), junk)
        res = Lenient(list(r.folders))
        check_all(rec, res.inventory.members[0], full, "broken-metadata")


RULES = ["ns", "name", "urn", "path", "never", "texts"]


def rule(rng, r):
    k = rng.choice(RULES)
    if k == "ns":
        n = rng.choice(["latinLit", "greekLit"])
        return k, lambda tg: tg.urn.startswith("urn:cts:%s:" % n), lambda c, path=None, **kw: c.id.startswith("urn:cts:%s:" % n)
    if k == "name":
        l = rng.choice(I.LANGS)
        return k, lambda tg: l in tg.names, lambda c, **kw: l in {x for x in c.get_cts_property("groupname")}
    if k == "urn":
        u = rng.choice(r.m.kids).urn
        return k, lambda tg: tg.urn == u, lambda c, **kw: c.id == u
    if k == "path":
        f = rng.choice(r.folders)
        return k, lambda tg: (tg.urn, f) in r.tgdirs, lambda c, path, **kw: os.path.abspath(path).startswith(f + os.sep)
    if k == "texts":
        n = rng.randrange(1, 4)
        return k, lambda tg: len(tg.texts()) >= n, lambda c, **kw: len(c.readableDescendants) >= n
    return k, lambda tg: False, lambda c, **kw: rng.choice([False, None, 0, ""]) if True else False


@scenario(quick=250, thorough=10000)
def dispatching(rng, rec):
    with repo.scratch() as base:
        r = repo.gen(rng, base, nfolders=1, groups=(1, 4), works=(0, 2), texts=(0, 2))
        tic = CtsTextInventoryCollection("tic")
        names = ["inv:%d" % i for i in range(rng.randrange(1, 5))]
        for n in names:
            CtsTextInventoryMetadata(n, parent=tic).set_label(n, "eng")
        default = rng.choice([None] + names)
        disp = CollectionDispatcher(tic, default_inventory_name=default) if default else CollectionDispatcher(tic)
        rules = [(default or names[0], "default", lambda tg: True)]
        for _ in range(rng.randrange(0, 5)):
            target = rng.choice(names)
            k, model, real = rule(rng, r)
            if rng.random() < 0.5:
                disp.add(real, target)
            else:
                rec.expect(disp.inventory(target)(real) is real, "dispatch", kind="decorator")
            rules.append((target, k, model))
        rec.eq([n for n, _ in disp.methods], [n for n, _, _ in rules], "dispatch", kind="methods")
        rec.op("rules", [(n, k) for n, k, _ in rules])
        rec.distinct(fingerprint(r), [(n, k) for n, k, _ in rules])
        undispatched = rng.random() < 0.3
        if undispatched:
            # no rule for everything any more
            del disp.methods[0]
            del rules[0]
        want = {n: [] for n in names}
        lost = []
        for tg in r.m.kids:
            for n, _, model in rules[::-1]:
                if model(tg):
                    want[n].append(tg)
                    break
            else:
                lost.append(tg)
        if undispatched:
            class Strict(CtsCapitainsLocalResolver):
                RAISE_ON_UNDISPATCHED = True

            class Tolerant(CtsCapitainsLocalResolver):
                RAISE_ON_UNDISPATCHED = False
            if lost and rng.random() < 0.5:
                rec.raises(UndispatchedTextError, lambda: Strict(list(r.folders), dispatcher=disp), "undispatched")
                return
            cls = Tolerant if lost else rng.choice([Tolerant, Strict])
            rec.count("undispatched")
        else:
            cls = CtsCapitainsLocalResolver
        res = cls(list(r.folders), dispatcher=disp)
        rec.expect(res.inventory is tic, "dispatch", kind="collection")
        for n in names:
            part = I.M("inventory", n, kids=want[n])
            check_all(rec, tic[n], part, "dispatch")
            rec.expect(res.getMetadata(n) is tic[n], "dispatch", kind="by-name")
            rec.eq(str(tic[n].get_label("eng")), n, "dispatch", kind="label")
        for tg in lost:
            rec.expect(tg.urn not in tic, "undispatched", kind="undispatched-listed")
        rec.eq(len(tic), sum(len(t.texts()) for n in names for t in want[n]), "dispatch", kind="len")


@scenario(quick=30, thorough=300)
def prototype(rng, rec):
    """The bare resolver interface promises nothing and says so."""
    from MyCapytain.resolvers.prototypes import Resolver
    p = Resolver()
    for f in (lambda: p.getMetadata(), lambda: p.getTextualNode("x"), lambda: p.getSiblings("x", "1"),
              lambda: p.getReffs("x")):
        rec.raises(NotImplementedError, f, "prototype")
