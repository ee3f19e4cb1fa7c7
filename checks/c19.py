"""C19: the CTS retriever on the wire."""
import codecs

import requests

from vlib.core import declare, scenario
from vlib.gen import word, label, text, UNI
from vlib import http
from MyCapytain.common.reference import CtsReference, URN
from MyCapytain.common.utils.xml import xmlparser
from MyCapytain.resolvers.cts.api import HttpCtsResolver
from MyCapytain.retrievers.cts5 import HttpCtsRetriever
from MyCapytain.retrievers.prototypes import API, CitableTextServiceRetriever, CtsRetriever

declare(
    "C19",
    rule="A case is a sequence of calls of the CTS retriever against a real HTTP server on the loopback interface: every "
         "request verb, hostile identifiers and references, default and explicit inventories, every charset and error "
         "status, redirections. What the server received is compared with what was asked, and what came back with what "
         "the server sent. Non-trivial: a request reached the server. Distinct: by request line.",
    require={"request": 2000, "body": 1500, "status": 300, "redirect": 40, "abstract": 100, "no-server": 10},
)

VERBS = ["GetCapabilities", "GetValidReff", "GetFirstUrn", "GetPrevNextUrn", "GetLabel", "GetPassage", "GetPassagePlus"]
HOSTILE = ["a&b=c", "a b", "a+b", "100%", "é", "漢", "#x", "?x=1", "a;b", "a/b", "\"q\"", "<x>", "\u00a0", "%41", "x\\y"]


def urn(rng):
    u = "urn:cts:%s:%s.%s.%s" % (rng.choice(["latinLit", "greekLit"]), word(rng), word(rng), word(rng))
    return u + rng.choice(HOSTILE) if rng.random() < 0.25 else u


def reference(rng):
    r = ".".join(label(rng) for _ in range(rng.randrange(1, 4)))
    if rng.random() < 0.3:
        r += "-" + ".".join(label(rng) for _ in range(rng.randrange(1, 4)))
    if rng.random() < 0.1:
        r += "@" + rng.choice(["arma", "x[2]", "é&b"])
    return r


def body(rng):
    """-> (bytes, content type, expected text)"""
    s = "<ti:r xmlns:ti='http://chs.harvard.edu/xmlns/cts'>%s</ti:r>" % rng.choice(
        [text(rng).replace("&", "&amp;").replace("<", "&lt;"), "é€漢\U0001F600", "plain", "".join(UNI)])
    enc = rng.choice(["utf-8", "utf-8", "utf-8", "iso-8859-1", "utf-16", "windows-1252", None])
    t = rng.choice(["text/xml", "application/xml", "text/plain", "application/octet-stream"])
    if enc is None:
        return s.encode("utf-8"), rng.choice([t, None]), s
    if enc in ("iso-8859-1", "windows-1252"):
        s = s.encode(enc, "xmlcharrefreplace").decode(enc)
    return s.encode(enc), "%s%s%s" % (t, rng.choice(["; charset=", ";charset=", "; Charset=", "; CHARSET="]), rng.choice([enc, enc.upper()])), s


def call(rng, r, site, default=None):
    """Make one call of a client of which the inventory was said to be default -> (answer, expected parameters)"""
    inv = rng.choice([None, None, "inv-" + word(rng), rng.choice(HOSTILE)])
    u = rng.choice([urn(rng), URN("urn:cts:latinLit:a.b.c")])
    k = rng.choice(VERBS + ["getMetadata", "getTextualNode", "getSiblings", "getReffs", "call"])
    want = {"urn": str(u)}
    kw = {} if inv is None else {"inventory": inv}
    if inv is not None or default is not None:
        want["inv"] = inv if inv is not None else default
    if k == "call":
        want = {"request": "X" + word(rng), "p-" + word(rng): rng.choice(HOSTILE)}
        given = dict(want, nothing=None)
        if inv is not None:
            given["inv"] = want["inv"] = inv
        elif default is not None:
            want["inv"] = default
        before = dict(given)
        out = r.call(given)
        assert given == before, "the parameters given were changed"
        return out, want
    if k in ("getMetadata", "getTextualNode", "getSiblings", "getReffs"):
        want.pop("inv", None)
        if default is not None:
            want["inv"] = default
        sub = reference(rng)
        arg = rng.choice([sub, CtsReference(sub)])
        if k == "getMetadata":
            want["request"] = "GetCapabilities"
            if rng.random() < 0.4:
                del want["urn"]
                return r.getMetadata(), want
            if inv is not None:
                want["inv"] = inv
            return r.getMetadata(u, **kw), want
        if k == "getTextualNode":
            pn, md = rng.random() < 0.3, rng.random() < 0.3
            want["request"] = "GetPassagePlus" if pn or md else "GetPassage"
            if rng.random() < 0.3:
                return r.getTextualNode(u, prevnext=pn, metadata=md), want
            want["urn"] += ":" + sub
            return r.getTextualNode(u, arg, prevnext=pn, metadata=md), want
        if k == "getSiblings":
            want["request"], want["urn"] = "GetPrevNextUrn", want["urn"] + ":" + sub
            return r.getSiblings(u, arg), want
        want["request"] = "GetValidReff"
        level = rng.randrange(1, 4)
        want["level"] = str(level)
        if rng.random() < 0.4:
            return r.getReffs(u, level=level), want
        want["urn"] += ":" + sub
        # levels are counted from the reference given (the highest end of a range)
        want["level"] = str(level + min(p.split("@")[0].count(".") + 1 for p in sub.split("-")))
        return r.getReffs(u, level=level, subreference=arg), want
    want["request"] = k
    f = getattr(r, "g" + k[1:])
    if k == "GetCapabilities":
        if rng.random() < 0.5:
            del want["urn"]
            return f(**kw), want
        return f(urn=u, **kw), want
    if k == "GetValidReff" and rng.random() < 0.7:
        want["level"] = str(rng.randrange(0, 5))
        return f(u, level=int(want["level"]), **kw), want
    if k in ("GetPassage", "GetPassagePlus") and rng.random() < 0.5:
        want["context"] = str(rng.randrange(0, 4))
        return f(urn=u, context=int(want["context"]), **kw), want
    return f(u, **kw), want


@scenario(quick=400, thorough=16000)
def wire(rng, rec):
    state = {}

    def app(req):
        b, t, _ = state["body"]
        return http.Answer(b, state.get("status", 200), t)
    with http.serving(app, limit=50) as site:
        base = rng.choice(["/cts", "/", "/api/cts", "/a%20b/cts", "/cts/"])
        extra = rng.choice([{}, {}, {"x": "1"}])
        default = rng.choice([None, None, "dflt", "a&b"])
        r = HttpCtsRetriever(site.root + base + ("?x=1" if extra else ""), inventory=default)
        for _ in range(6):
            if rng.random() < 0.1:
                default = r.inventory = rng.choice([None, "dflt", "other"])
            state["body"] = body(rng)
            got, want = call(rng, r, site, default)
            rec.eq(r.inventory, default, "request", kind="default-inventory")
            reqs = site.take()
            want.update(extra)
            rec.op("request", want)
            rec.eq(len(reqs), 1, "request", kind="one-request", got_all=reqs)
            rec.eq(sorted(reqs[0].args), sorted(want.items()), "request", base=base)
            rec.eq((reqs[0].method, reqs[0].path), ("GET", requests.utils.unquote(base)), "request", kind="target")
            rec.distinct(reqs[0].target)
            rec.sample(repr(reqs[0]))
            rec.expect(isinstance(got, str), "body", kind="type")
            rec.eq(got, state["body"][2], "body", type=state["body"][1])


STATUS = [400, 401, 403, 404, 405, 410, 418, 429, 500, 501, 502, 503, 504]


@scenario(quick=200, thorough=6000)
def failures(rng, rec):
    state = {}

    def app(req):
        return http.Answer("<error/>", state["status"], rng.choice(["text/xml", "text/html"]))
    with http.serving(app, limit=20) as site:
        r = HttpCtsRetriever(site.root + "/cts")
        s = HttpCtsResolver(r)
        for _ in range(3):
            state["status"] = rng.choice(STATUS)
            rec.op("status", state["status"])
            rec.distinct(state["status"], rng.random())
            e = rec.raises(requests.HTTPError, lambda: call(rng, r, site), "status", status=state["status"])
            rec.eq(e.response.status_code, state["status"], "status", kind="code")
            u = "urn:cts:latinLit:a.b.c"
            f = rng.choice([lambda: s.getMetadata(), lambda: s.getMetadata(u), lambda: s.getTextualNode(u, "1"),
                            lambda: s.getTextualNode(u, "1", metadata=True), lambda: s.getReffs(u), lambda: s.getSiblings(u, "1")])
            rec.raises(requests.HTTPError, f, "status", what="through the resolver", status=state["status"])
    rec.raises(TypeError, lambda: HttpCtsResolver(rng.choice(["http://x/", None, API("http://x/"), object()])), "status",
               what="not an endpoint")
    rec.expect(s.endpoint is r, "status", kind="endpoint")


@scenario(quick=60, thorough=1500)
def redirections(rng, rec):
    def app(req):
        if req.path.startswith("/old"):
            return http.Answer("", rng.choice([301, 302, 303, 307, 308]), "text/plain",
                               [("Location", "/new/cts" + ("?" + req.query if req.query else ""))])
        return http.Answer("<new/>")
    with http.serving(app, limit=20) as site:
        r = HttpCtsRetriever(site.root + "/old/cts")
        got, want = call(rng, r, site)
        rec.eq(got, "<new/>", "redirect")
        reqs = site.take()
        rec.eq([q.path for q in reqs], ["/old/cts", "/new/cts"], "redirect", kind="path")
        rec.eq(sorted(reqs[1].args), sorted(want.items()), "redirect", kind="params")
        rec.distinct(reqs[0].target)


@scenario(quick=20, thorough=100)
def nobody(rng, rec):
    """No server at all: an error, not an empty answer."""
    r = HttpCtsRetriever("http://127.0.0.1:1/cts")
    rec.raises(requests.ConnectionError, lambda: call(rng, r, None), "no-server")
    rec.distinct(rng.random())


@scenario(quick=20, thorough=100)
def abstract(rng, rec):
    for p in (CitableTextServiceRetriever("http://x/"), CtsRetriever("http://x/")):
        rec.eq(p.endpoint, "http://x/", "abstract", kind="endpoint")
        for f in (lambda: p.getMetadata(), lambda: p.getTextualNode("x"), lambda: p.getSiblings("x", "1"), lambda: p.getReffs("x")):
            rec.raises(NotImplementedError, f, "abstract")
    for n in VERBS:
        f = getattr(p, "g" + n[1:])
        rec.raises(NotImplementedError, lambda: f("inv") if n == "GetCapabilities" else f("urn", "inv"), "abstract", verb=n)
