"""C28: readers that work at the same time."""
from vlib.core import Rec, declare, scenario
from vlib import ctsd, dtsd, http, inv as I, repo, tei
from vlib.threads import Crowd, Turns
from checks.c01 import check_ref, gen_ref, s_ref
from checks.c02 import check as check_urn, gen_urn, s_urn
from checks.c24 import dts_of, name, squash
from MyCapytain.common.constants import Mimetypes
from MyCapytain.common.reference import CtsReference, DtsReference, URN
from MyCapytain.resolvers.cts.api import HttpCtsResolver
from MyCapytain.resolvers.cts.local import CtsCapitainsLocalResolver
from MyCapytain.resolvers.dts.api_v1 import HttpDtsResolver
from MyCapytain.retrievers.cts5 import HttpCtsRetriever
from MyCapytain.resources.collections.cts import XmlCtsTextInventoryMetadata

declare(
    "C28",
    rule="A case is one text object, or one resolver (folder, CTS endpoint, DTS endpoint), shared by 2-6 reading threads that ask for "
         "references, passages, ranges, neighbours, children and exports in orders of their own, while threads are switched "
         "every microsecond, made to give way at random lines of the library, or - one at a time, in an order fixed by the seed - "
         "put aside half done while others do whole operations. Every answer is compared with the edition. "
         "Non-trivial: operations overlapped. Distinct: by the order in which operations began and ended.",
    require={"text": 3000, "references": 2500, "around": 2000, "export": 800, "urn": 300, "citation": 200, "catalogue": 200, "overlapping-operations": 5000,
             "switches-within-the-library": 5000, "places-switched-at": 1500, "turns-given": 20000,
             "operations-put-aside-half-done": 3000},
)


def said(el, exclude=()):
    return squash(" ".join(tei.plain(el, [tei.Q + x for x in exclude])))


def words(p, **kw):
    return squash(p.export(Mimetypes.PLAINTEXT, **kw))


def judge(rng, rec, jobs, yielding=None, rounds=12):
    rng.shuffle(jobs)
    manner = rng.choice(["free", "park", "park", "park", "walk"])
    if manner == "free":
        if yielding is None:
            yielding = rng.choice([0, 0.02, 0.1])
        c = Crowd(rng, jobs, rng.randrange(3, 7), rounds, yielding)
    else:
        k, pools = rng.randrange(4), None
        if k == 0:
            jobs = jobs[:rng.choice([2, 4, 8])]         # few questions, over and over
        elif k < 3:                                     # one question at a time, of different passages
            alike = {}
            for i, j in enumerate(jobs):
                alike.setdefault(j[0][:-1], []).append(i)
            alike = [x for x in alike.values() if len(x) > 1]
            if alike:
                pools = [x for _ in range(rounds // 3) for x in [rng.choice(alike)] for _ in range(6)]
        c = Turns(rng, jobs, rng.randrange(2, 5), rounds * 2, manner, pools)
    stuck = c.run()
    if manner != "free":
        rec.count("turns-given", c.switches)
        rec.count("operations-put-aside-half-done", c.parkings)
    rec.expect(not stuck, "finished", kind="never-finished", readers=len(stuck))
    n = c.overlaps()
    rec.count("overlapping-operations", n)
    rec.count("switches-within-the-library", c.switches)
    rec.count("places-switched-at", len(c.spots))
    if n:
        rec.distinct(c.events, [[i for i, _ in r] for r in c.results])
        rec.sample({"readers": len(c.results), "overlaps": n, "switches": c.switches, "places": len(c.spots)})
    for r in c.results:
        for i, (ok, got) in r:
            mon, what, _, want = jobs[i][0][0], jobs[i][0][1:], None, jobs[i][2]
            rec.expect(ok, mon, kind=mon + "-failed", what=what, error=got)
            rec.eq(got, want, mon, what=what)


def some(rng, doc, n):
    us = [u for d in range(1, doc.depth + 1) for u in doc.units(d)]
    return rng.sample(us, min(n, len(us)))


def place(doc, u):
    us = doc.units(len(u.ref))
    i = us.index(u)
    return (us[i - 1] if i else None, us[i + 1] if i + 1 < len(us) else None)


def spelt(x):
    return None if x is None else x.s


@scenario(quick=200, thorough=6000)
def one_text(rng, rec):
    doc = tei.gen_doc(rng, width=4)
    how, t = tei.open_text(rng, doc, "urn:cts:latinLit:phi1294.phi002.perseus-lat2")
    rec.op("text", how, doc.xml)
    jobs = [(("text", "whole"), lambda: words(t), said(doc.root)),
            (("export", "without notes"), lambda: words(t, exclude=["tei:note"]), said(doc.root, ["note"])),
            (("export", "xml"), lambda: tei._canon(tei.etree.fromstring(t.export(Mimetypes.XML.Std))),
             tei._canon(doc.root))]
    for lv in range(1, doc.depth + 1):
        jobs.append((("references", lv), lambda lv=lv: [str(x) for x in t.getReffs(level=lv)], [u.s for u in doc.units(lv)]))
    jobs.append((("references", "citation"), lambda: [(c.name, c.xpath) for c in t.citation],
                 [(x[0], x[2]) for x in repo.cite_pairs(doc)]))
    for u in some(rng, doc, 7):
        prev, nxt = place(doc, u)
        ref = rng.choice([u.s, CtsReference(u.s)])
        jobs += [
            (("text", u.s), lambda ref=ref: words(t.getTextualNode(ref)), said(u.elem)),
            (("text", "simple", u.s), lambda ref=ref: words(t.getTextualNode(ref, simple=True)), said(u.elem)),
            (("around", u.s), lambda ref=ref: [name(x) for x in t.getTextualNode(ref).siblingsId], [spelt(prev), spelt(nxt)]),
            (("around", "simple", u.s), lambda ref=ref: [name(x) for x in t.getTextualNode(ref, simple=True).siblingsId],
             [spelt(prev), spelt(nxt)]),
            (("around", "simple next", u.s), lambda ref=ref: name(t.getTextualNode(ref, simple=True).nextId), spelt(nxt)),
            (("references", "simple children", u.s),
             lambda ref=ref: [name(x) for x in t.getTextualNode(ref, simple=True).childIds], [k.s for k in u.subs]),
            (("around", "parent", u.s), lambda ref=ref: name(t.getTextualNode(ref).parentId), ".".join(u.ref[:-1]) or None),
            (("around", "hop", u.s), lambda ref=ref: (lambda n: None if n is None else words(n))(t.getTextualNode(ref).next),
             None if nxt is None else said(nxt.elem)),
            (("references", "children", u.s), lambda ref=ref: [name(x) for x in t.getTextualNode(ref).childIds], [k.s for k in u.subs]),
            (("export", "xml", u.s),
             lambda ref=ref, u=u: tei.matches(tei.etree.fromstring(t.getTextualNode(ref).export(Mimetypes.XML.Std)),
                                              tei.pruned(doc, u, u)), None),
            (("references", "fill", u.s), lambda u=u: t.citation[len(u.ref) - 1].fill(u.ref), t.citation[len(u.ref) - 1].fill(u.ref)),
        ]
        if u.subs:
            jobs.append((("references", "below", u.s), lambda ref=ref: [str(x) for x in t.getReffs(subreference=CtsReference(str(ref)))],
                         [k.s for k in u.subs]))
        us = doc.units(len(u.ref))
        v = us[rng.randrange(us.index(u), len(us))]
        if v is not u:
            jobs.append((("text", "range", u.s, v.s), lambda u=u, v=v: words(t.getTextualNode(u.s + "-" + v.s)),
                         squash(" ".join(tei.range_text(doc, u, v)))))
    judge(rng, rec, jobs)


@scenario(quick=80, thorough=3500)
def one_passage(rng, rec):
    """A passage shared by its readers, its properties not asked for before."""
    doc = tei.gen_doc(rng, width=4)
    _, t = tei.open_text(rng, doc, "urn:cts:latinLit:phi1294.phi002.perseus-lat2")
    jobs = []
    for u in some(rng, doc, 4):
        prev, nxt = place(doc, u)
        simple = rng.random() < 0.4
        p = t.getTextualNode(u.s, simple=simple)
        kids = [k.s for k in u.subs]
        jobs += [
            (("text", u.s), lambda p=p: words(p), said(u.elem)),
            (("around", u.s), lambda p=p: [name(x) for x in p.siblingsId], [spelt(prev), spelt(nxt)]),
            (("around", "id", u.s), lambda p=p: (name(p.prevId), name(p.nextId), name(p.parentId)),
             (spelt(prev), spelt(nxt), ".".join(u.ref[:-1]) or None)),
            (("around", "next", u.s), lambda p=p: (lambda n: None if n is None else words(n))(p.next),
             None if nxt is None else said(nxt.elem)),
            (("around", "prev", u.s), lambda p=p: (lambda n: None if n is None else words(n))(p.prev),
             None if prev is None else said(prev.elem)),
            (("references", u.s), lambda p=p: [name(x) for x in p.childIds], kids),
            (("references", "ends", u.s), lambda p=p, kids=kids: (name(p.firstId), name(p.lastId)) if kids else (None, None),
             (kids[0], kids[-1]) if kids else (None, None)),
            (("export", "twice", u.s), lambda p=p: words(p, exclude=["tei:note"]), said(u.elem, ["note"])),
        ]
    judge(rng, rec, jobs)


def asked(rng, res, t, local=False):
    """Questions of the common interface about text t."""
    doc, urn = t.doc, t.urn
    jobs = [(("text", "whole", urn), lambda: words(res.getTextualNode(urn)), said(doc.root))]
    for lv in range(1, doc.depth + 1):
        jobs.append((("references", lv), lambda lv=lv: [name(x) for x in res.getReffs(urn, level=lv)], [u.s for u in doc.units(lv)]))
    for u in some(rng, doc, 4):
        prev, nxt = place(doc, u)
        ref = rng.choice([u.s, CtsReference(u.s)])
        jobs += [
            (("text", u.s), lambda ref=ref: words(res.getTextualNode(urn, ref)), said(u.elem)),
            (("export", u.s), lambda ref=ref: words(res.getTextualNode(urn, ref), exclude=["tei:note"]), said(u.elem, ["note"])),
            (("around", u.s), lambda ref=ref: [name(x) for x in res.getTextualNode(urn, ref).siblingsId], [spelt(prev), spelt(nxt)]),
            (("around", "hop", u.s), lambda ref=ref: (lambda n: None if n is None else words(n))(res.getTextualNode(urn, ref).next),
             None if nxt is None else said(nxt.elem)),
            (("references", "children", u.s), lambda ref=ref: [name(x) for x in res.getTextualNode(urn, ref).childIds],
             [k.s for k in u.subs]),
        ]
        if u.subs:
            jobs.append((("references", "below", u.s), lambda ref=ref: [name(x) for x in res.getReffs(urn, subreference=ref)],
                         [k.s for k in u.subs]))
        if local:
            jobs.append((("around", "siblings", u.s), lambda u=u: [name(x) for x in res.getSiblings(urn, CtsReference(u.s))],
                         [spelt(prev), spelt(nxt)]))
    return jobs


@scenario(quick=60, thorough=2800)
def one_folder(rng, rec):
    with repo.scratch() as base:
        r = repo.gen(rng, base, works=(1, 2), texts=(1, 2))
        res = CtsCapitainsLocalResolver(resource=r.folders)
        jobs = []
        for t in r.m.texts():
            jobs += asked(rng, res, t, local=True)
        rec.op("texts", [t.urn for t in r.m.texts()])
        judge(rng, rec, jobs)


@scenario(quick=24, thorough=1200)
def one_endpoint(rng, rec):
    m = I.gen(rng, groups=(1, 1), works=(1, 2), texts=(1, 2))
    for t in m.texts():
        t.doc = tei.gen_doc(rng, depth=rng.choice([1, 2, 3]), width=3)
        t.cite = repo.cite_pairs(t.doc)
    cts = ctsd.Server(rng, m)
    root, colls = dts_of(rng, m)
    dts = dtsd.Server(rng, root, colls)
    which = rng.choice(["cts", "dts"])
    rec.op("endpoint", which, [t.urn for t in m.texts()])
    with http.serving(cts if which == "cts" else dts, limit=100000) as site:
        res = HttpCtsResolver(HttpCtsRetriever(site.root + "/cts")) if which == "cts" else HttpDtsResolver(site.root + dts.prefix)
        jobs = []
        for t in m.texts():
            jobs += asked(rng, res, t)
        judge(rng, rec, jobs, yielding=rng.choice([0, 0.02]), rounds=6)


@scenario(quick=40, thorough=1500)
def one_identity(rng, rec):
    """Identifiers, citation schemes and a catalogue read by several at once."""
    m = I.gen(rng, groups=(1, 2), works=(1, 2), texts=(1, 2))
    inv = XmlCtsTextInventoryMetadata.parse(I.to_xml(m, rng))
    jobs = []
    for _ in range(5):
        um = gen_urn(rng)
        u = URN(s_urn(um))
        jobs += [(("urn", "all", s_urn(um)), lambda u=u, um=um: check_urn(Rec(), u, um), None),
                 (("urn", "print", s_urn(um)), lambda u=u: str(u), s_urn(um)),
                 (("urn", "copy", s_urn(um)), lambda u=u: str(URN(str(u))), s_urn(um))]
        r = gen_ref(rng)
        c = CtsReference(s_ref(r))
        jobs.append((("urn", "reference", s_ref(r)), lambda c=c, r=r: check_ref(Rec(), c, r), None))
    doc = tei.gen_doc(rng, width=3)
    _, t = tei.open_text(rng, doc, "urn:cts:latinLit:phi1294.phi002.perseus-lat2")
    cit = t.citation
    for u in some(rng, doc, 4):
        at = len(u.ref) - 1
        jobs += [(("citation", "fill", u.s), lambda u=u, at=at: cit[at].fill(CtsReference(u.s)), cit[at].fill(CtsReference(u.s))),
                 (("citation", "match", u.s), lambda u=u: cit.match(CtsReference(u.s)).name, repo.cite_pairs(doc)[at][0])]
    for x in m.texts():
        jobs += [(("catalogue", "found", x.urn), lambda x=x: inv[x.urn].id, x.urn),
                 (("catalogue", "above", x.urn), lambda x=x: [p.id for p in inv[x.urn].parents][:2],
                  [x.urn.rsplit(".", 1)[0], x.urn.rsplit(".", 2)[0]])]
    judge(rng, rec, jobs)
