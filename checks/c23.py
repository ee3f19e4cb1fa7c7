"""C23: collections of a DTS endpoint, known page by page."""
import requests

from vlib.core import declare, scenario
from vlib import dtsd, http
from checks.c18 import described
from MyCapytain.errors import MyCapytainException, UnknownCollection
from MyCapytain.resolvers.dts.api_v1 import HttpDtsResolver
from MyCapytain.resources.collections.dts import HttpResolverDtsCollection

declare(
    "C23",
    rule="A case is a catalogue (collections with one or several parents) behind a model DTS endpoint that answers over real "
         "HTTP in pages of any size, and a random walk through it: members, parents, lookups, descendants and complete "
         "descriptions are asked for in any order and by every way of asking. Every answer is compared with the catalogue, "
         "and what went over the wire is watched. Non-trivial: more than 2 collections. Distinct: by catalogue, page size "
         "and walk.",
    require={"described": 800, "children": 2500, "parents": 900, "lookup": 800, "descendants": 300, "wire": 3000, "refused": 300,
             "same": 800,
             "faults": 600},
)


TRASH = ["", "<html/>", "{", "[]", "{}", "null", '{"@context": 3}', "[{}]"]


def ids(x):
    return sorted(c.id for c in x)


class Walk:
    def __init__(self, rng, rec, srv, site):
        self.rng, self.rec, self.srv, self.site = rng, rec, srv, site
        self.done = {}          # (id(object), what) -> object: already known in full
        self.seen = {}          # (id(object), member id) -> member

    def asked(self, o, what, fn):
        """Run fn, which needs all pages of what ('children', 'parents', None) of o, and watch the wire."""
        self.site.take()
        out = fn()
        reqs = self.site.take()
        d = self.srv.colls[o.id]
        self.rec.op(what, o.id, reqs)
        if (id(o), what) in self.done:
            self.rec.eq(len(reqs), 0, "wire", kind="asked-again", what=what, got_all=reqs)
        elif what:
            n = len(self.srv.pages(d.kids if what == "children" else d.ups, self.srv.page))
            pages = [int(q.params.get("page", 1)) for q in reqs]
            self.rec.eq(pages, sorted(set(pages)), "wire", kind="each-page-once", pages=pages)
            self.rec.expect(len(reqs) <= n, "wire", kind="pages", got_all=reqs)
            for q in reqs:
                self.rec.eq((q.params.get("id"), q.params.get("nav", "children")), (o.id, what), "wire", kind="target")
            self.done[id(o), what] = o
        return out

    def children(self, o):
        d, rng, rec = self.srv.colls[o.id], self.rng, self.rec
        want = sorted(d.kids)
        k = rng.randrange(10)
        if k == 9 and d.kids:
            # one member, page after page as needed
            i = rng.choice(d.kids)
            c = o.children[i]
            rec.eq(c.id, i, "children", kind="by-id")
            rec.expect(self.seen.setdefault((id(o), i), c) is c, "same", kind="same-by-id", of=o.id, member=i)
        elif k == 8:
            held = o.children
            rec.eq(sorted(held.keys()), want, "children", kind="held", of=o.id)
            self.done[id(o), "children"] = o
            rec.eq(sorted(self.asked(o, "children", lambda: list(held))), want, "children", kind="held-again", of=o.id)
            rec.eq(self.asked(o, "children", lambda: len(held)), len(want), "children", kind="held-len", of=o.id)
        else:
            if k == 7:
                i = rng.choice(list(self.srv.colls))
                rec.eq(self.asked(o, "children", lambda: i in o.children), i in want, "children", kind="contains", of=o.id, id=i)
                rec.eq(self.asked(o, "children", lambda: "nope" in o.children), False, "children", kind="contains-not")
            early = None
            if want and rng.random() < 0.3:         # met before the rest is fetched, and the same one afterwards
                early = rng.choice(want)
                early = self.seen.setdefault((id(o), early), o.children[early])
            got = self.asked(o, "children", [
                lambda: ids(o.members), lambda: sorted(o.children), lambda: sorted(o.children.keys()),
                lambda: ids(o.children.values()), lambda: sorted(i for i, c in o.children.items() if c.id == i),
                lambda: want if len(o.children) == len(want) else len(o.children),
                lambda: want if all(o.children[i].id == i for i in want) and len(o.members) == len(want) else ids(o.members),
                lambda: sorted(dict(o.children))][k % 8])
            rec.eq(got, want, "children", of=o.id, how=k)
            if early is not None:
                rec.expect(o.children[early.id] is early and any(c is early for c in o.members), "same", kind="same-after-all",
                           of=o.id, member=early.id)
        rec.eq(o.size, len(want), "children", kind="size")
        for c in o.members:
            rec.expect(isinstance(c, HttpResolverDtsCollection), "children", kind="type")
            rec.expect(self.seen.setdefault((id(o), c.id), c) is c, "same", of=o.id, member=c.id)
            rec.eq(o.children[c.id].id, c.id, "children", kind="key")
            b = self.srv.colls[c.id]
            rec.eq((c.readable, str(c.get_label()), c.size), (b.type.endswith("Resource"), b.title, b.total), "children",
                   kind="summary", of=c.id)
        self.done[id(o), "children"] = o

    def parents(self, o):
        want = sorted(self.srv.colls[o.id].ups)
        k = self.rng.randrange(4)
        if k == 3:
            held = o.parents
            self.rec.eq(ids(held), want, "parents", kind="held", of=o.id)
            self.done[id(o), "parents"] = o
            self.rec.eq(self.asked(o, "parents", lambda: ids(held)), want, "parents", kind="held-again", of=o.id)
            return
        got = self.asked(o, "parents", [lambda: ids(o.parents), lambda: ids(list(o.parents)),
                                        lambda: want if len(o.parents) == len(want) else ids(o.parents)][k])
        self.rec.eq(got, want, "parents", of=o.id, how=k)

    def whole(self, o):
        self.rec.eq(self.asked(o, None, o.retrieve), True, "described", kind="retrieve")
        self.done[id(o), None] = o
        described(self.rec, o, self.srv.colls[o.id])
        self.rec.count("described")

    def below(self, i):
        out = []
        for k in self.srv.colls[i].kids:
            out += [k] + self.below(k)
        return sorted(out)

    def lookup(self, o):
        rng, rec = self.rng, self.rec
        under = self.below(o.id)
        if len(under) > 40:
            return
        i = rng.choice(sorted(self.srv.colls))
        if i == o.id or i in under:
            rec.eq(o[i].id, i, "lookup")
            rec.expect(i in o, "lookup", kind="in")
        else:
            rec.raises(UnknownCollection, lambda: o[i], "lookup")
            rec.expect(i not in o, "lookup", kind="not-in")
        rec.raises(KeyError, lambda: o.children["nope"], "refused", what="unknown member")
        rec.raises(UnknownCollection, lambda: o["nope"], "refused", what="unknown descendant")
        rec.eq(ids(o.descendants), under, "descendants", of=o.id)
        rec.eq(ids(o.readableDescendants), [x for x in under if self.srv.colls[x].type.endswith("Resource")], "descendants",
               kind="readable", of=o.id)


@scenario(quick=1000, thorough=20000)
def walks(rng, rec):
    root, colls = dtsd.catalogue(rng, rng.choice([2, 4, 7, 12]))
    srv = dtsd.Server(rng, root, colls)
    steps = []
    with http.serving(srv, limit=600) as site:
        r = HttpDtsResolver(site.root + srv.prefix)
        w = Walk(rng, rec, srv, site)
        start = rng.choice([None, None, root] + sorted(colls))
        o = r.getMetadata(start) if start else r.getMetadata()
        rec.eq(o.id, start or root, "described", kind="id")
        w.done[id(o), None] = o
        described(rec, o, colls[o.id])
        alive = [o]
        for _ in range(8):
            k = rng.randrange(7)
            steps.append((k, o.id))
            if k < 2:
                w.children(o)
            elif k == 2:
                w.parents(o)
            elif k == 3:
                w.whole(o)
            elif k == 4:
                w.lookup(o)
            near = []
            if k == 5 or rng.random() < 0.4:
                near = list(o.members)
                w.done[id(o), "children"] = o
            elif k == 6:
                near = list(o.parents)
                w.done[id(o), "parents"] = o
            if near:
                o = rng.choice(sorted(near, key=lambda c: c.id))
                alive.append(o)
            elif rng.random() < 0.2:
                o = rng.choice(alive)
        rec.raises(requests.HTTPError, lambda: r.getMetadata("urn:nope"), "refused", what="unknown collection")
    if len(colls) > 2:
        rec.distinct(sorted(colls), srv.page, steps)
        rec.sample([srv.page, steps])


@scenario(quick=400, thorough=10000)
def faults(rng, rec):
    """The endpoint fails now and then: an error each time, and nothing partial passes for the whole."""
    root, colls = dtsd.catalogue(rng, rng.choice([4, 7, 12]))
    srv = dtsd.Server(rng, root, colls)
    srv.page = rng.choice([1, 1, 2, 3])
    state = {"rate": 0.0, "nothing": None}
    seen = []
    trash = rng.random() < 0.5
    pending = []

    def app(req):
        if state["nothing"]:
            return http.Answer(state["nothing"], 200, "application/ld+json")
        if rng.random() < state["rate"]:
            if trash and rng.random() < 0.5:        # an answer that says it is one, and says nothing
                return http.Answer(rng.choice(TRASH), 200, "application/ld+json")
            return http.Answer("{}", rng.choice([500, 502, 503, 429]), "application/ld+json")
        return srv(req)
    with http.serving(app, limit=600) as site:
        r = HttpDtsResolver(site.root + srv.prefix)
        o = r.getMetadata()
        if rng.random() < 0.5:          # nothing but failures for the members
            for c in list(o.members):
                state["rate"] = 1
                rec.raises((Exception, MyCapytainException) if trash else requests.HTTPError, c.retrieve, "faults", kind="no-answer")
                pending.append(c)
                state["rate"] = 0
                if rng.random() < 0.3:
                    state["nothing"] = rng.choice(["{}", "[]"])
                    rec.raises(UnknownCollection, c.retrieve, "faults", kind="nothing-said")
                    state["nothing"] = None
                if rng.random() < 0.5:
                    rec.eq(c.retrieve(), True, "described", kind="recovered", of=c.id)
                    described(rec, c, colls[c.id])
        state["rate"] = rng.choice([0.2, 0.5])
        for _ in range(12):
            d = colls[o.id]
            what, want, fn = rng.choice([
                ("members", sorted(d.kids), lambda: ids(o.members)), ("keys", sorted(d.kids), lambda: sorted(o.children)),
                ("len", len(d.kids), lambda: len(o.children)), ("parents", sorted(d.ups), lambda: ids(o.parents)),
                ("whole", True, lambda: o.retrieve()), ("whole", True, lambda: o.retrieve()), ("again", o.id, lambda: r.getMetadata(o.id).id)])
            try:
                got = fn()
            except ((Exception, MyCapytainException) if trash else requests.HTTPError):
                rec.count("faults")
                seen.append((what, "failed"))
                if what == "whole":
                    pending.append(o)
                continue
            seen.append((what, "held"))
            rec.op(what, o.id, site.take())
            rec.eq(got, want, "children" if what != "parents" else what, kind="after-faults-" + what, of=o.id)
            if what == "whole":
                described(rec, o, d)
            if what in ("members", "parents") and got and rng.random() < 0.5:
                o = rng.choice(sorted(o.members if what == "members" else o.parents, key=lambda c: c.id))
        state["rate"] = 0
        rec.eq(ids(o.members), sorted(colls[o.id].kids), "children", kind="recovered", of=o.id)
        rec.eq(ids(o.parents), sorted(colls[o.id].ups), "parents", kind="recovered", of=o.id)
        for x in pending + [o]:
            rec.eq(x.retrieve(), True, "described", kind="recovered", of=x.id)
            described(rec, x, colls[x.id])
    rec.distinct(sorted(colls), srv.page, seen)
