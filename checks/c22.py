"""C22: references and passages of a DTS endpoint."""
import requests

from vlib.core import declare, scenario
from vlib.gen import word, text
from vlib import dtsd, http, tei
from checks.c10 import expected, expected_range
from checks.c17 import OTHER, vkey
from checks.c18 import HYDRA, described
from rdflib import Literal, URIRef
from MyCapytain.common.constants import Mimetypes
from MyCapytain.common.reference import CtsReference, DtsReference, DtsReferenceSet
from MyCapytain.errors import PaginationBrowsingError
from MyCapytain.resolvers.dts.api_v1 import HttpDtsResolver
from MyCapytain.resources.texts.remote.dts import DtsResolverDocument
from MyCapytain.retrievers.dts import HttpDtsRetriever

declare(
    "C22",
    rule="A case is a generated edition behind a model DTS endpoint that answers over real HTTP: references listed at every "
         "level, below every reference and range, grouped, in pages of any size, with kinds and metadata of their own; "
         "documents and passages read whole, walked from neighbour to neighbour, up and down. Every answer is compared with "
         "the model behind the server, and what went over the wire is watched. Non-trivial: the text has at least 3 leaves. "
         "Distinct: by document, and way of asking.",
    require={"reffs": 1500, "kinds": 2000, "about": 500, "pages": 1500, "content": 1500, "links": 1500, "children": 700,
             "hop": 700, "collection": 400, "refused": 400, "export": 800, "faults": 100},
)


def strange(rng, doc):
    """References of a DTS endpoint are any strings: some have signs that mean something in links."""
    for n, l in enumerate(doc.levels, 1):
        if l.attr == "xml:id":
            continue
        for u in doc.units(n):
            if rng.random() < 0.5:
                old, at = u.ref[-1], u.ref[:-1]
                new = rng.choice(["%s a", "a+%s", "%s&b", "50%%%s", "%s=", "é%s", "#%s", "%s?page=7", "%s;", ",%s"]) % old
                u.elem.set(tei.clark(l.attr), new)
                todo = [u]
                while todo:
                    x = todo.pop()
                    x.ref[len(at)] = new
                    todo += x.subs


def build(rng):
    root, colls = dtsd.catalogue(rng, 2)
    d = [c for c in colls.values() if c.id != root][0]
    d.type = HYDRA + "Resource"
    d.total, d.kids = 0, []
    doc = d.text = tei.gen_doc(rng, depth=rng.choice([1, 2, 2, 3]), width=rng.choice([4, 4, 7]), ragged=rng.random() < 0.2)
    if rng.random() < 0.25:
        strange(rng, doc)
    d.cite, d.depth = [], rng.choice([None, doc.depth])
    for l in reversed(doc.levels):
        d.cite = [(l.name, d.cite)]
    for n, l in enumerate(doc.levels, 1):
        if rng.random() < 0.7:
            d.kinds[n] = l.name
        for u in doc.units(n):
            own = rng.choice(["preface", "letter", "l & m"]) if rng.random() < 0.15 else None
            about = []
            terms = OTHER if rng.random() < 0.8 else rng.sample(OTHER, 1)
            for _ in range(rng.choice([0, 0, 0, 0, 1, 1, 3, 3, 9])):
                o = Literal(text(rng), lang=rng.choice(["en", "la", None])) if rng.random() < 0.7 else \
                    URIRef("http://example.org/" + word(rng))
                about.append((rng.choice(terms), o))
            if own or about:
                d.about[u.s] = (own, list(dict.fromkeys(about)))
    return root, colls, d


def anyunit(rng, doc):
    return rng.choice(doc.units(rng.randrange(1, doc.depth + 1)) or doc.top)


def a_ref(rng, doc, span=0.3):
    """-> (list of one or two strings, as an argument)"""
    u = anyunit(rng, doc)
    us = doc.units(len(u.ref))
    i = us.index(u)
    if rng.random() < span and i + 1 < len(us):
        v = rng.choice(us[i + 1:])
        forms = [DtsReference(u.s, v.s), (u.s, v.s)]
        if "-" not in u.s + v.s:
            forms.append(CtsReference(u.s + "-" + v.s))
        return [u.s, v.s], rng.choice(forms)
    return [u.s], rng.choice([u.s, DtsReference(u.s), CtsReference(u.s)])


def refs(x):
    return [[str(y) for y in r if y] for r in x]


def listed(rec, srv, d, got, us, n, at, exclude, default=True):
    """got must be the references of units us grouped by n"""
    rec.expect(isinstance(got, DtsReferenceSet), "reffs", kind="type", got=type(got))
    gs = srv.groups(us, n)
    rec.eq(refs(got), [[g[0].s] if len(g) == 1 else [g[0].s, g[-1].s] for g in gs], "reffs")
    rec.eq(got.level, at, "reffs", kind="level")
    kind = d.kinds.get(at)
    if not srv.vary:                  # the kind of a list whose pages name different ones is open
        rec.eq(got.citation.name if got.citation is not None else None, kind, "kinds", kind="set")
    for r, g in zip(got, gs):
        rec.expect(isinstance(r, DtsReference), "kinds", kind="type")
        own, about = d.about.get(g[0].s, (None, [])) if len(g) == 1 else (None, [])
        if exclude:
            about = []
        want = own if own is not None else kind
        rec.eq(None if r.type is None else str(r.type), want, "kinds", ref=g[0].s)
        for p in OTHER if about else OTHER[:1]:
            rec.eq({vkey(x) for x in r.metadata.get(p)}, {vkey(o) for q, o in about if q == p}, "about", ref=g[0].s, predicate=p)


@scenario(quick=500, thorough=16000)
def navigation(rng, rec):
    root, colls, d = build(rng)
    doc = d.text
    srv = dtsd.Server(rng, root, colls)
    if len(doc.units(doc.depth)) > 2:
        rec.distinct(doc.xml, srv.refpage)
        rec.sample([d.id, d.kinds, srv.refpage])
    rec.op("text", d.id, doc.xml)
    with http.serving(srv, limit=400) as site:
        url = site.root + srv.prefix
        r = HttpDtsResolver(rng.choice([url, HttpDtsRetriever(url)]))
        rec.eq(r.endpoint.endpoint, url, "reffs", kind="endpoint")
        r.endpoint.routes
        for _ in range(5):
            level, n, exclude = rng.randrange(1, doc.depth + 1), 1, None
            ref, arg = (None, None) if rng.random() < 0.35 else a_ref(rng, doc)
            kw, extra = {}, {}
            if level != 1 or rng.random() < 0.3:
                kw["level"] = level
            if arg is not None:
                kw["subreference"] = arg
            if rng.random() < 0.3:
                extra["groupBy"] = n = rng.randrange(1, 5)
            if rng.random() < 0.2:
                extra["exclude"] = exclude = "dts:extensions"
            if extra or rng.random() < 0.2:
                kw["additional_parameters"] = extra
            frozen = dict(extra)
            us = srv.units(d, level, ref)
            rec.op("getReffs", kw)
            site.take()
            got = r.getReffs(d.id, **kw)
            rec.eq(extra, frozen, "reffs", kind="argument-intact")
            listed(rec, srv, d, got, us, n, srv.level(level, ref), exclude)
            reqs = site.take()
            last = len(srv.pages(srv.groups(us, n), srv.refpage))
            rec.eq([int(q.params.get("page", 1)) for q in reqs], list(range(1, last + 1)), "pages", got_all=reqs)
            for q in reqs:
                ps = {k: v for k, v in q.params.items() if k != "page"}
                rec.eq((q.path, ps.pop("id"), ps.pop("level", "1"), ps.pop("groupBy", "1")),
                       (srv.prefix + "/navigation", d.id, str(level), str(n)), "pages", kind="target")
                want = {} if exclude is None else {"exclude": exclude}
                if ref:
                    want.update({"ref": ref[0]} if len(ref) == 1 else {"start": ref[0], "end": ref[1]})
                rec.eq(ps, want, "pages", kind="parameters")
        rec.raises(requests.HTTPError, lambda: r.getReffs("urn:nope"), "refused", what="unknown text")
        rec.raises(requests.HTTPError, lambda: r.getReffs(d.id, subreference="nope.nope"), "refused", what="unknown reference")


@scenario(quick=150, thorough=4000)
def broken(rng, rec):
    """Endpoints that fail between two pages, or say nothing: never a partial list."""
    root, colls, d = build(rng)
    srv = dtsd.Server(rng, root, colls)
    srv.refpage = 1
    doc = d.text
    us = doc.units(doc.depth)
    k = rng.randrange(1, len(us) + 1) if us else 1
    how = rng.choice(["status", "empty", "reference"])

    def app(req):
        if "/navigation" in req.path and int(req.params.get("page", 1)) == k:
            if how == "status":
                return http.Answer("{}", rng.choice([500, 503, 404]), "application/ld+json")
            if how == "empty":
                return http.Answer(rng.choice(["{}", "[]"]), 200, "application/ld+json")
            return http.Answer("{\"@context\": {\"@vocab\": \"https://www.w3.org/ns/hydra/core#\"}, \"@id\": \"urn:x\", "
                               "\"member\": [{\"title\": \"no reference\"}]}", 200, "application/ld+json")
        return srv(req)
    with http.serving(app, limit=400) as site:
        r = HttpDtsResolver(site.root + srv.prefix)
        rec.distinct(doc.xml, k, how)
        f = lambda: r.getReffs(d.id, level=doc.depth)       # noqa
        if how == "status":
            rec.raises(requests.HTTPError, f, "faults", page=k, how=how)
        elif how == "empty":
            rec.raises(PaginationBrowsingError, f, "faults", page=k, how=how)
        else:
            rec.raises(Exception, f, "faults", page=k, how=how)


def same(rec, x, want, what, **kw):
    """An identifier of the neighbourhood"""
    if want is None:
        rec.eq(x, None, "links", kind=what, **kw)
    else:
        rec.expect(isinstance(x, DtsReference), "links", kind=what + "-type", got=repr(x), want=want, **kw)
        rec.eq(refs([x]), [want], "links", kind=what, **kw)


def content(rec, d, x, ref, kind):
    doc = d.text
    rec.expect(isinstance(x, DtsResolverDocument), "content", kind=kind + "-type", got=type(x))
    rec.eq(x.id, d.id, "content", kind=kind + "-id")
    if ref is None:
        rec.eq(tei.canon(x.resource), tei._canon(doc.root), "content", kind=kind)
        rec.eq(x.reference, None, "content", kind=kind + "-reference")
        rec.eq(x.export(Mimetypes.PLAINTEXT), expected(doc.root, []), "export", kind="text")
        return
    a, b = (doc.find(r.split(".")) for r in (ref[0], ref[-1]))
    diff = tei.matches(x.resource, tei.pruned(doc, a, b))
    rec.expect(diff is None, "content", kind=kind, diff=diff)
    got = x.reference
    rec.eq(got if isinstance(got, str) else [str(y) for y in got if y], ref[0] if isinstance(got, str) else ref, "content",
           kind=kind + "-reference")
    for ex in ([], ["note"]):
        rec.eq("".join(x.export(Mimetypes.PLAINTEXT, exclude=["tei:" + e for e in ex]).split()),
               "".join(expected_range(doc, a, b, ex).split()), "export", kind="passage")


def around(rng, rec, srv, d, x, ref):
    """Everything a passage says about its place. -> passages reached"""
    out = []
    prev, nxt, up, first, last = srv.near(d, ref) if ref else (None,) * 5
    kids = srv.units(d, 1, ref)
    ends = ([kids[0].s], [kids[-1].s]) if kids else (None, None)
    level = rng.randrange(1, d.text.depth + 1)
    sub, arg = a_ref(rng, d.text)
    rec.count("children")

    def hop(what, want):
        y = getattr(x, what)
        rec.count("hop")
        if want is None:
            rec.eq(y, None, "hop", kind=what)
        else:
            content(rec, d, y, want, what)
            out.append((y, want))

    def children():
        ys = list(x.children)
        rec.eq([refs([y.reference])[0] for y in ys], [[u.s] for u in kids], "children", kind="passages")
        i = rng.randrange(len(ys))
        content(rec, d, ys[i], [kids[i].s], "child")
    asks = [
        lambda: same(rec, x.prevId, prev, "prev", ref=ref),
        lambda: same(rec, x.nextId, nxt, "next", ref=ref),
        lambda: same(rec, x.parentId, up, "parent", ref=ref),
        lambda: rec.eq(x.siblingsId, (x.prevId, x.nextId), "links", kind="siblings"),
        lambda: listed(rec, srv, d, x.childIds, kids, 1, srv.level(1, ref), None),
        lambda: same(rec, x.firstId, ends[0], "first-child"),
        lambda: same(rec, x.lastId, ends[1], "last-child"),
        lambda: listed(rec, srv, d, x.getReffs(level=level) if level > 1 or rng.random() < 0.5 else x.getReffs(),
                       srv.units(d, level, ref), 1, srv.level(level, ref), None),
        lambda: listed(rec, srv, d, x.getReffs(level, arg), srv.units(d, level, sub), 1, srv.level(level, sub), None),
        lambda: hop("next", nxt), lambda: hop("prev", prev), lambda: hop("parent", up),
        lambda: hop("first", ends[0]), lambda: hop("last", ends[1])]
    if kids and rng.random() < 0.4:
        asks.append(children)
    rng.shuffle(asks)                  # whichever is asked first may ask the server, the others rely on it
    for ask in asks:
        ask()
    return out


@scenario(quick=400, thorough=12000)
def documents(rng, rec):
    root, colls, d = build(rng)
    doc = d.text
    srv = dtsd.Server(rng, root, colls)
    if len(doc.units(doc.depth)) > 2:
        rec.distinct(doc.xml, "documents")
    rec.op("text", d.id, doc.xml)
    with http.serving(srv, limit=600) as site:
        r = HttpDtsResolver(site.root + srv.prefix)
        x = r.getTextualNode(d.id)
        content(rec, d, x, None, "whole")
        path = around(rng, rec, srv, d, x, None)
        ref, arg = a_ref(rng, doc)
        y = rng.choice([lambda: x.getTextualNode(arg), lambda: r.getTextualNode(d.id, arg),
                        lambda: r.getTextualNode(d.id, subreference=arg, prevnext=rng.random() < 0.5, metadata=rng.random() < 0.5)])()
        content(rec, d, y, ref, "passage")
        path += around(rng, rec, srv, d, y, ref)
        for _ in range(2):
            z, zref = rng.choice(path or [(y, ref)])
            rec.op("at", zref)
            path = around(rng, rec, srv, d, z, zref) or path
        # what the catalogue says of the text
        z = rng.choice([x, y, z])
        site.take()
        rec.eq(z.collection.id, d.id, "collection", kind="id")
        described(rec, z.collection, d)
        if rng.random() < 0.5:
            rec.eq(z.depth, doc.depth, "collection", kind="depth")
        for p in OTHER:
            rec.eq({vkey(v) for v in z.metadata.get(p)}, {vkey(v) for q, v in d.stmts if q == p}, "collection", kind="metadata")
        rec.eq(z.depth, doc.depth, "collection", kind="depth")
        rec.expect(z.collection is z.collection, "collection", kind="same")
        rec.expect(len(site.take()) <= 1, "collection", kind="asked-once")
        ref, arg = a_ref(rng, doc)
        w = z.getTextualNode(arg)
        content(rec, d, w, ref, "passage")
        site.take()
        rec.expect(w.collection is z.collection, "collection", kind="shared")
        rec.eq(len(site.take()), 0, "collection", kind="known-already")
        rec.raises(requests.HTTPError, lambda: r.getTextualNode("urn:nope"), "refused", what="unknown text")
        rec.raises(requests.HTTPError, lambda: x.getTextualNode("nope.nope"), "refused", what="unknown passage")
