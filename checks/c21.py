"""C21: the DTS retriever on the wire."""
import json
from urllib.parse import quote, urlencode

import requests

from vlib.core import declare, scenario
from vlib.gen import word
from vlib import http
from checks.c19 import HOSTILE, STATUS, body, reference
from MyCapytain.common.reference import CtsReference, DtsReference
from MyCapytain.common.utils._http import parse_pagination, parse_uri
from MyCapytain.retrievers.dts import HttpDtsRetriever

declare(
    "C21",
    rule="A case is an entry point announcing its three routes in any form (relative, rooted, absolute, on another host, with "
         "query parameters of their own) and a sequence of calls of the DTS retriever against a real HTTP server on the "
         "loopback interface, with hostile identifiers and references. What the server received is compared with what was "
         "asked, and what came back with what was sent; Link headers are read back. Non-trivial: a request reached the "
         "server. Distinct: by request line.",
    require={"request": 2000, "body": 1500, "status": 300, "routes": 1000, "links": 1200, "no-server": 10},
)

APIS = ["collections", "navigation", "documents"]
TEI = "application/tei+xml"


class Entry:
    """An entry point and where its routes really are."""
    def __init__(self, rng, root):
        self.base = rng.choice(["/dts/", "/dts", "/", "/api/dts/", "/a%20b/dts/"])
        self.url = root + self.base
        other = root.replace("127.0.0.1", "127.0.0.2")
        self.where, self.written = {}, {}
        for a in APIS:
            own = rng.choice([[], [], [], [("key", rng.choice(HOSTILE))], [("v", "1"), ("lang", "fr")], [("flag", "")],
                              [("key", "a"), ("key", "b")]])
            k = rng.randrange(6)
            if k == 0:
                host, path, shown = root, "/x/" + a, "/x/" + a
            elif k == 1:
                shown = rng.choice(["", "./"]) + a + rng.choice(["", "/"])
                host, path = root, self.base[:self.base.rindex("/") + 1] + shown.replace("./", "")
            elif k == 2:
                host, path, shown = root, self.base, ""
                own = own + [("api", a)]
            elif k == 3:
                host, path = root, "/abs/" + rng.choice(["", "", ";v=1/"]) + a + rng.choice(["", "", ";x=2"])
                shown = host + path
            elif k == 4:
                host, path = other, rng.choice(["/y/" + a, "/y/" + a + "/"])
                shown = host + path
            else:
                host, path = root, "/up/" + quote(rng.choice(["é", "a b", "a"])) + "/" + a
                shown = path
            if own:
                shown += "?" + urlencode(own)
            self.where[a], self.written[a] = (host[len("http://"):], path, own), shown

    def json(self, rng):
        d = {"@context": "/dts/api/contexts/EntryPoint.jsonld", "@id": self.base, "@type": "EntryPoint"}
        d.update(self.written)
        items = list(d.items())
        rng.shuffle(items)
        return json.dumps(dict(items), ensure_ascii=rng.random() < 0.5)


def ident(rng):
    s = rng.choice(["urn:cts:latinLit:a.b.c", "http://example.org/", "/coll", ""]) + word(rng)
    return s + rng.choice(HOSTILE) if rng.random() < 0.4 else s


def a_ref(rng):
    """-> (argument, expected parameters)"""
    a, b = reference(rng).split("-")[0].split("@")[0], reference(rng).split("-")[0].split("@")[0]
    if rng.random() < 0.3:
        a += rng.choice(HOSTILE)
    k = rng.randrange(9)
    if rng.random() < 0.1:
        b = a
    if k == 0:
        return None, {}
    if k < 3:
        return a, {"ref": a}
    if k == 3:
        return DtsReference(a), {"ref": a}
    if k == 4:
        return DtsReference(a, b), {"start": a, "end": b}
    if k == 5:
        return (a, b), {"start": a, "end": b}
    if k == 6:
        n = rng.choice([0, 1, rng.randrange(100)])
        return n, {"ref": str(n)}
    r = reference(rng).split("@")[0]
    r = rng.choice(["1.2", "1-2", "1.a-3.b", r])
    x, _, y = r.partition("-")
    return CtsReference(r), {"start": x, "end": y} if y else {"ref": x}


def call(rng, r):
    """-> (answer, api, parameters, what may be left out or not, accepted type)"""
    k = rng.choice(APIS)
    want, free, accept = {}, {}, "application/ld+json"
    if k == "collections":
        kw = {}
        free = {"nav": "children", "page": "1"}
        if rng.random() < 0.8:
            kw["collection_id"] = want["id"] = ident(rng)
        if rng.random() < 0.6:
            kw["nav"] = want["nav"] = rng.choice(["children", "parents"])
        if rng.random() < 0.6:
            n = rng.randrange(1, 30)
            kw["page"], want["page"] = rng.choice([n, str(n)]), str(n)
        return r.get_collection(**kw), k, want, free, accept
    want["id"] = i = ident(rng)
    ref, params = a_ref(rng)
    want.update(params)
    kw = {} if ref is None and rng.random() < 0.5 else {"ref": ref}
    if k == "navigation":
        for name, on_wire, v in (("level", "level", rng.randrange(0, 5)), ("group_by", "groupBy", rng.randrange(1, 50)),
                                 ("max_", "max", rng.randrange(1, 9)), ("exclude", "exclude", rng.choice(HOSTILE)),
                                 ("page", "page", rng.randrange(1, 9))):
            if rng.random() < 0.4:
                kw[name], want[on_wire] = v, str(v)
            elif rng.random() < 0.2:
                kw[name] = None
        return r.get_navigation(i, **kw), k, want, free, accept
    accept = TEI
    if rng.random() < 0.4:
        kw["mimetype"] = accept = rng.choice(["text/plain", "application/pdf", "text/html; q=0.5, */*"])
    return r.get_document(i, **kw), k, want, free, accept


@scenario(quick=500, thorough=16000)
def wire(rng, rec):
    state = {}

    def app(req):
        if req.path == state["entry"] and "entry-asked" not in state:
            state["entry-asked"] = req
            return http.Answer(state["json"], 200, rng.choice(["application/json", "application/ld+json; charset=utf-8"]))
        b, t, _ = state["body"]
        return http.Answer(b, state.get("status", 200), t)
    with http.serving(app, limit=50) as site:
        e = Entry(rng, site.root)
        state.update(entry=requests.utils.unquote(e.base), json=e.json(rng))
        r = HttpDtsRetriever(e.url)
        rec.eq(r.endpoint, e.url, "routes", kind="endpoint")
        rec.op("entry point", e.url, e.written)
        for n in range(5):
            state["body"] = body(rng)
            got, api, want, free, accept = call(rng, r)
            reqs = site.take()
            rec.op("request", api, want)
            rec.eq(len(reqs), 2 if n == 0 else 1, "routes", kind="entry-point-once", got_all=reqs)
            host, path, own = e.where[api]
            q = reqs[-1]
            rec.eq((q.method, q.path), ("GET", requests.utils.unquote(path)), "request", kind="target", announced=e.written[api])
            rec.eq(q.headers.get("Host"), host, "request", kind="host", announced=e.written[api])
            args = sorted(x for x in q.args if x not in free.items())
            rec.eq(args, sorted([x for x in want.items() if x not in free.items()] + own), "request", announced=e.written[api])
            rec.expect(accept in q.headers.get("Accept", ""), "request", kind="accept", got=q.headers.get("Accept"))
            rec.distinct(q.target)
            rec.sample(repr(q))
            rec.eq(got.text, state["body"][2], "body", type=state["body"][1])
            rec.eq(got.status_code, 200, "body", kind="status")
        rec.eq(sorted(r.routes), sorted(APIS), "routes")
        for a in APIS:
            host, path, own = e.where[a]
            rec.eq(r.routes[a].path, "http://" + host + path, "routes", kind="path", announced=e.written[a])


@scenario(quick=100, thorough=3000)
def neighbours(rng, rec):
    """Several entry points on one host: each has its own routes."""
    entries = {}

    def app(req):
        if req.path in entries:
            return http.Answer(entries[req.path], 200, "application/json")
        return http.Answer("{}", 200, "application/ld+json")
    with http.serving(app, limit=80) as site:
        known = []
        for base in rng.sample(["/dts", "/dts/", "/", "/other/dts", "/dts/v2"], rng.choice([2, 3])):
            e = Entry(rng, site.root)
            e.base, e.url = base, site.root + base
            for a in APIS:              # rooted, so that each has its own
                e.written[a] = base.rstrip("/") + "/at/" + word(rng) + "/" + a
                e.where[a] = (None, e.written[a], [])
            entries[base] = e.json(rng)
            known.append((e, HttpDtsRetriever(e.url)))
        met = set()
        for _ in range(8):
            e, r = rng.choice(known)
            site.take()
            _, api, want, free, _ = call(rng, r)
            reqs = site.take()
            rec.eq([q.path for q in reqs], ([] if e.base in met else [e.base]) + [e.where[api][1]], "routes", kind="own-routes")
            met.add(e.base)
            rec.eq(sorted(x for x in reqs[-1].args if x not in free.items()),
                   sorted(x for x in want.items() if x not in free.items()), "request", kind="of-several")
        rec.distinct(sorted(entries.items()))


@scenario(quick=200, thorough=6000)
def failures(rng, rec):
    state = {"status": 200}

    def app(req):
        if req.path == "/dts" and not state.get("entry-fails"):
            return http.Answer(json.dumps({a: "/x/" + a for a in APIS}), 200, "application/json")
        return http.Answer(rng.choice(["{}", "<error/>"]), state["status"], rng.choice(["text/xml", "application/json", "text/html"]))
    with http.serving(app, limit=20) as site:
        r = HttpDtsRetriever(site.root + "/dts")
        state["entry-fails"] = rng.random() < 0.3
        state["status"] = rng.choice(STATUS)
        e = rec.raises(requests.HTTPError, lambda: call(rng, r), "status", status=state["status"])
        rec.eq(e.response.status_code, state["status"], "status", kind="code")
        # a failure is not remembered
        state.update({"entry-fails": False, "status": 200})
        got = call(rng, r)[0]
        rec.eq(got.status_code, 200, "status", kind="recovers")
        state["status"] = rng.choice(STATUS)
        rec.op("status", state["status"])
        rec.distinct(state["status"], rng.random())
        e = rec.raises(requests.HTTPError, lambda: call(rng, r), "status", status=state["status"])
        rec.eq(e.response.status_code, state["status"], "status", kind="code")


@scenario(quick=20, thorough=100)
def nobody(rng, rec):
    r = HttpDtsRetriever("http://127.0.0.1:1/dts")
    rec.raises(requests.ConnectionError, lambda: call(rng, r), "no-server")
    rec.distinct(rng.random())


RELS = {"previous": "prev", "next": "next", "last": "last", "current": "current", "first": "first"}


@scenario(quick=1500, thorough=50000)
def links(rng, rec):
    """Pages announced in Link headers."""
    want = dict.fromkeys(RELS.values())
    out = []
    rels = list(RELS)
    rng.shuffle(rels)
    for r in rels + rng.choice([[], ["self"], ["collection"], ["up"]]):
        if rng.random() < 0.3:
            continue
        n = str(rng.randrange(1, 20000))
        params = [("id", ident(rng))] if rng.random() < 0.7 else []
        if rng.random() < 0.4:
            params.append((rng.choice(["nav", "webpage", "perpage"]), rng.choice(["parents", "7"])))
        if rng.random() < 0.9:
            params.append(("page", n))
            if r in RELS:
                want[RELS[r]] = n
        rng.shuffle(params)
        href = rng.choice(["", "/dts/collections", "/dts/collections/", "https://example.org/dts/c", "../c"]) + "?" + urlencode(params)
        out.append("<%s>; rel=%s" % (href, rng.choice(['"%s"', "%s"]) % r) if rng.random() < 0.9
                   else "<%s>; title=\"x\"; rel=\"%s\"" % (href, r))
    header = rng.choice([", ", ","]).join(out)
    rec.op("Link", header)
    rec.distinct(header)
    p = parse_pagination({"Link": header} if out or rng.random() < 0.5 else {})
    rec.eq({k: getattr(p, k) for k in want}, want, "links")
