"""C24: one client, three resolvers."""
from vlib.core import declare, scenario
from vlib import ctsd, dtsd, http, inv as I, repo, tei
from vlib.gen import word
from checks.c07 import pick_range
from checks.c10 import expected_range
from checks.c18 import HYDRA
from MyCapytain.common.constants import Mimetypes
from MyCapytain.common.reference import CtsReference, DtsReference
from MyCapytain.resolvers.cts.api import HttpCtsResolver
from MyCapytain.resolvers.cts.local import CtsCapitainsLocalResolver
from MyCapytain.resolvers.dts.api_v1 import HttpDtsResolver
from MyCapytain.retrievers.cts5 import HttpCtsRetriever

declare(
    "C24",
    rule="A case is one generated library of editions put behind three resolvers: a folder of files, a CTS endpoint and a DTS "
         "endpoint over real HTTP. One client that knows only the common interface asks all three the same random questions "
         "(catalogue, references, passages, neighbours, walks from start to end and back, exports); answers are compared "
         "with each other and with the editions. Non-trivial: the text has at least 3 leaves. Distinct: by document "
         "and question.",
    require={"catalogue": 150, "levels": 300, "children": 300, "text": 600, "neighbours": 600, "walk": 250, "family": 500,
             "range": 100, "refused": 250, "agree": 3000},
)


def dts_of(rng, m):
    """The same library as DTS collections."""
    colls = {}

    def add(x, up):
        c = dtsd.Coll("root" if up is None else x.urn)
        c.id = x.urn if up else "urn:x:root"
        c.kids, c.ups, c.kinds, c.about, c.shown = [], [], {}, {}, 1
        c.type, c.title = HYDRA + ("Resource" if x.kind in I.TEXTS else "Collection"), word(rng)
        colls[c.id] = c
        if up is not None:
            c.ups.append(up.id)
            up.kids.append(c.id)
        for k in x.kids:
            add(k, c)
        c.total = len(c.kids)
        if x.kind in I.TEXTS:
            c.text, c.depth, c.cite = x.doc, x.doc.depth, []
            for l in reversed(x.doc.levels):
                c.cite = [(l.name, c.cite)]
        return c
    return add(m, None).id, colls


def squash(s):
    return "".join(s.split())


def name(x):
    """How a reference is written."""
    if x is None:
        return None
    if not isinstance(x, DtsReference):
        return str(x)
    return str(x.start) + ("-" + str(x.end) if x.end else "")


class Client:
    """Knows nothing of what is behind the resolver."""
    def __init__(self, res, name):
        self.res, self.name = res, name
        self.how = {}           # what else is asked for along with a passage

    def readable(self, urn=None):
        c = self.res.getMetadata(urn) if urn else self.res.getMetadata()
        return sorted({x.id for x in c.readableDescendants} | ({c.id} if urn and c.readable else set()))

    def item(self, urn):
        c = self.res.getMetadata(urn)
        return (c.id, bool(c.readable), sorted({x.id for x in c.readableDescendants} | ({c.id} if c.readable else set())),
                sorted(x.id for x in c.members), sorted(x.id for x in c.descendants))

    def reffs(self, urn, **kw):
        return [name(x) for x in self.res.getReffs(urn, **kw)]

    def node(self, urn, ref=None):
        return self.res.getTextualNode(urn, ref, **self.how) if ref else self.res.getTextualNode(urn, **self.how)

    def siblings(self, urn, ref):
        return tuple(name(x) for x in self.res.getSiblings(urn, ref))

    def below(self, urn, ref):
        """What lies below a passage, asked of a text, and of another passage that comes from it."""
        t = self.node(urn)
        return [[name(x) for x in t.getReffs(subreference=ref)],
                [name(x) for x in t.getTextualNode(ref).getReffs()]]

    def text(self, urn, ref=None, exclude=None):
        return squash(self.node(urn, ref).export(Mimetypes.PLAINTEXT, **({"exclude": exclude} if exclude else {})))

    def around(self, urn, ref):
        p = self.node(urn, ref)
        return tuple(name(x) for x in (p.prevId, p.nextId) + tuple(p.siblingsId))

    def family(self, urn, ref):
        p = self.node(urn, ref)
        kids = [name(x) for x in p.childIds]
        return (kids, name(p.firstId) if kids else None, name(p.lastId) if kids else None,
                name(p.parentId))

    def hops(self, urn, ref):
        """Texts of what is around, reached from the passage itself."""
        p = self.node(urn, ref)
        out = []
        for x in (p.prev, p.next, p.parent, p.first if p.childIds else None, p.last if p.childIds else None):
            out.append(None if x is None else squash(x.export(Mimetypes.PLAINTEXT)))
        return out + [squash(x.export(Mimetypes.PLAINTEXT)) for x in p.children]

    def walk(self, urn, ref, way, n):
        """References met going one way until there is nothing more."""
        p, out = self.node(urn, ref), []
        while p is not None and len(out) <= n:
            out.append((name(p.reference), squash(p.export(Mimetypes.PLAINTEXT))))
            p = p.next if way == "next" else p.prev
        return out

    def refuses(self, f):
        try:
            f()
        except Exception:       # noqa - each has its own errors
            return True
        return False


@scenario(quick=60, thorough=1500)
def catalogues(rng, rec):
    """Every item of a larger library asked for, by its identifier, in any order."""
    with repo.scratch() as base:
        r = repo.gen(rng, base, groups=(1, 4), works=(1, 4), texts=(1, 3), nfolders=1, depth=1)
        root, colls = dts_of(rng, r.m)
        cts, dts = ctsd.Server(rng, r.m), dtsd.Server(rng, root, colls)
        cts.lenient = rng.random() < 0.5        # gives the whole inventory whatever is asked for
        things = [x for x in r.m.walk() if x is not r.m]
        if len(things) > 3:
            rec.distinct([x.urn for x in things])
            rec.sample([x.urn for x in things][:10])
        with http.serving(lambda q: dts(q) if q.path.startswith(dts.prefix) else cts(q), limit=4000) as site:
            clients = [Client(CtsCapitainsLocalResolver(resource=r.folders), "local"),
                       Client(HttpCtsResolver(HttpCtsRetriever(site.root + "/cts")), "cts"),
                       Client(HttpDtsResolver(site.root + dts.prefix), "dts")]
            for x in rng.sample(things, min(len(things), 12)):
                below = [y for y in x.walk()]
                want = (x.urn, x.kind in I.TEXTS, sorted(y.urn for y in below if y.kind in I.TEXTS), sorted(k.urn for k in x.kids),
                        sorted(y.urn for y in below if y is not x))
                for c in clients:
                    rec.eq(c.item(x.urn), want, "catalogue", kind="item", resolver=c.name, of=x.urn)
                rec.count("agree")
                site.take()
            bad = rng.choice(things).urn
            bad = rng.choice([bad + "zz", bad[:-1] + "\u00e9"])
            if rng.random() < 0.3 and not any(x.urn == bad for x in things):
                for c in clients:
                    rec.expect(c.refuses(lambda: c.item(bad)), "refused", kind="unknown-item", resolver=c.name, of=bad)


@scenario(quick=110, thorough=4000)
def clients(rng, rec):
    with repo.scratch() as base:
        r = repo.gen(rng, base, works=(1, 2), texts=(1, 2), nfolders=1)
        texts = r.m.texts()
        root, colls = dts_of(rng, r.m)
        cts, dts = ctsd.Server(rng, r.m), dtsd.Server(rng, root, colls)
        with http.serving(lambda q: dts(q) if q.path.startswith(dts.prefix) else cts(q), limit=4000) as site:
            clients = [Client(CtsCapitainsLocalResolver(resource=r.folders), "local"),
                       Client(HttpCtsResolver(HttpCtsRetriever(site.root + "/cts")), "cts"),
                       Client(HttpDtsResolver(site.root + dts.prefix), "dts")]

            def ask(mon, f, want, but=None, **kw):
                how = rng.choice([{}, {}, {"prevnext": True}, {"metadata": True}, {"metadata": True, "prevnext": True}])
                for c in clients:
                    c.how = how
                got = {c.name: f(c) for c in clients if c.name != but}
                for n, g in got.items():
                    rec.eq(g, want, mon, resolver=n, along=how, **kw)
                rec.count("agree")
                site.take()

            ask("catalogue", lambda c: c.readable(), sorted(t.urn for t in texts))
            t = rng.choice(texts)
            doc = t.doc
            for x in (t, t.parent, t.parent.parent):
                part = [y for y in ([x] if x.kind in I.TEXTS else [k for w in (x.kids if x.kind == "textgroup" else [x])
                                                                  for k in w.kids])]
                ask("catalogue", lambda c: c.readable(x.urn), sorted(y.urn for y in part), of=x.urn)
            if len(doc.units(doc.depth)) > 2:
                rec.distinct(t.urn, doc.xml)
                rec.sample([t.urn, [y.s for y in doc.units(doc.depth)][:10]])
            rec.op("text", t.urn, doc.xml)
            ask("text", lambda c: c.text(t.urn), squash(" ".join(tei.plain(doc.root, []))))
            for level in range(1, doc.depth + 1):
                ask("levels", lambda c: c.reffs(t.urn, level=level), [u.s for u in doc.units(level)], level=level)
            for _ in range(4):
                us = doc.units(rng.randrange(1, doc.depth + 1)) or doc.top
                i = rng.randrange(len(us))
                u = us[i]
                ref = rng.choice([u.s, CtsReference(u.s)])
                ex = rng.choice([None, ["note"]])
                rec.op("at", u.s)
                if u.subs:
                    ask("children", lambda c: c.reffs(t.urn, subreference=ref), [k.s for k in u.subs], ref=u.s)
                ask("text", lambda c: c.text(t.urn, ref, ["tei:note"] if ex else None),
                    squash(" ".join(tei.plain(u.elem, [tei.Q + "note"] if ex else []))), ref=u.s)
                prev, nxt = (us[i - 1].s if i else None), (us[i + 1].s if i + 1 < len(us) else None)
                ask("neighbours", lambda c: c.around(t.urn, ref), (prev, nxt, prev, nxt), ref=u.s)
                ask("neighbours", lambda c: c.siblings(t.urn, ref), (prev, nxt), kind="siblings", ref=u.s, but="dts")
                kids = [k.s for k in u.subs]
                if u.subs:
                    ask("children", lambda c: c.below(t.urn, ref), [kids, kids], kind="of-text", ref=u.s)
                ask("family", lambda c: c.family(t.urn, ref),
                    (kids, kids[0] if kids else None, kids[-1] if kids else None, ".".join(u.ref[:-1]) or None), ref=u.s)
                up = doc.find(u.ref[:-1]) if len(u.ref) > 1 else None

                def said(x):
                    return None if x is None else squash(" ".join(tei.plain(x.elem, [])))
                ask("family", lambda c: c.hops(t.urn, ref),
                    [said(us[i - 1] if i else None), said(us[i + 1] if i + 1 < len(us) else None), said(up),
                     said(u.subs[0] if u.subs else None), said(u.subs[-1] if u.subs else None)] + [said(k) for k in u.subs],
                    kind="hops", ref=u.s)
            # ranges
            for _ in range(2):
                ab = pick_range(rng, doc)
                if not ab:
                    continue
                a, b = ab
                ref = CtsReference(a.s + "-" + b.s)
                ex = rng.random() < 0.4
                rec.op("range", str(ref), ex)
                ask("range", lambda c: c.text(t.urn, ref, ["tei:note"] if ex else None),
                    squash(expected_range(doc, a, b, ["note"] if ex else [])), ref=str(ref))
                if a is not b and len(a.ref) == len(b.ref) < doc.depth:
                    inside = ctsd.within(doc, a, b, len(a.ref) + 1)
                    if inside:      # (a DTS endpoint counts the levels of a range from the range itself)
                        ask("range", lambda c: c.reffs(t.urn, subreference=ref), [k.s for k in inside], kind="children",
                            ref=str(ref), but="dts")
            # the whole text, one step after the other
            us = doc.units(rng.choice([1, doc.depth]))
            if us and len(us) < 25:
                way = rng.choice(["next", "prev"])
                path = us if way == "next" else us[::-1]
                ask("walk", lambda c: c.walk(t.urn, path[0].s, way, len(us) + 2),
                    [(u.s, squash(" ".join(tei.plain(u.elem, [])))) for u in path], way=way)
                rec.count("walk")
            # what is nowhere
            bad = us[0].s + "zz" if us else "zz"
            ask("refused", lambda c: c.refuses(lambda: c.node(t.urn, bad)), True, ref=bad)
            ask("refused", lambda c: c.refuses(lambda: c.node(t.urn + "zz")), True, kind="unknown-text")
            ask("refused", lambda c: c.refuses(lambda: c.reffs(t.urn + "zz")), True, kind="unknown-text-reffs")
