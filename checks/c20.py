"""C20: texts and passages of a remote CTS endpoint."""
import re

import requests

from vlib.core import declare, scenario
from vlib import ctsd, http, inv as I, repo, tei
from checks.c07 import pick_range
from checks.c10 import expected, expected_range, nested, plain_dict
from checks.c13 import check
from checks.c16 import described
from MyCapytain.common.constants import Mimetypes, RDF_NAMESPACES, get_graph
from MyCapytain.common.reference import Citation, CtsReference, URN
from MyCapytain.errors import MissingAttribute
from MyCapytain.resolvers.cts.api import HttpCtsResolver
from MyCapytain.resources.texts.remote.cts import CtsPassage, CtsText
from MyCapytain.retrievers.cts5 import HttpCtsRetriever

declare(
    "C20",
    rule="A case is a generated inventory of editions served by a model CTS endpoint over real HTTP, and texts and "
         "passages of it read through the remote text, the remote passage and the resolver: every form of reference, "
         "references of every level, walks from passage to passage, labels in several languages, unknown references. "
         "Every answer is compared with the model behind the server, and what went over the wire is watched. "
         "Non-trivial: the text has at least 3 leaves. Distinct: by document, walk and way of asking.",
    require={"content": 1500, "reffs": 700, "siblings": 900, "children": 900, "parent": 600, "hop": 500, "label": 400,
             "node-metadata": 600, "citation": 400, "wire": 800, "export": 300, "refused": 200, "catalogue": 300},
)


def build(rng):
    """-> inventory model with readable texts"""
    m = I.gen(rng, groups=(1, 2), works=(1, 2), texts=(0, 2), tiid="inv")
    for t in m.texts():
        depth = rng.choice([1, 1, 2, 2, 2, 2, 3, 3, 4])
        t.doc = tei.gen_doc(rng, depth=depth, width=4 if depth < 4 else 2, ragged=rng.random() < 0.2)
        t.cite = repo.cite_pairs(t.doc)
    return m


def anyunit(rng, doc):
    return rng.choice(doc.units(rng.randrange(1, doc.depth + 1)) or doc.top)


def s(x):
    return None if x is None else str(x)


def forms(rng, t, ref):
    """Every way to name a passage of t"""
    out = [ref, CtsReference(ref), t.urn + ":" + ref, URN(t.urn + ":" + ref)]
    if "-" not in ref:
        out.append(ref.split("."))
    return rng.choice(out)


class Watch:
    """Requests seen since last look."""
    def __init__(self, rec, site):
        self.rec, self.site = rec, site

    def __call__(self, n, what, verb=None):
        reqs = self.site.take()
        if n is not None:
            self.rec.eq(len(reqs), n, "wire", kind=what, got_all=reqs)
        for q in reqs:
            self.rec.eq(q.params.get("urn", "urn:").count("urn:"), 1, "wire", kind="urn-shape", request=repr(q))
            if verb:
                self.rec.eq(q.params["request"], verb, "wire", kind=what + "-verb")
        return reqs


def chain(c):
    return [(x.name, x.scope, x.xpath) for x in c] if c.is_set() else []


def content(rec, t, p, a, b, kind):
    """p is the passage a..b of t (whole text: a is None)"""
    rec.expect(isinstance(p, CtsPassage), "content", kind=kind + "-type", got=type(p))
    if a is None:
        rec.eq(tei.canon(p.resource), tei._canon(t.doc.root), "content", kind=kind)
        ref = None
    else:
        d = tei.matches(p.resource, tei.pruned(t.doc, a, b))
        rec.expect(d is None, "content", kind=kind, diff=d)
        ref = a.s if str(p.urn) == t.urn + ":" + a.s and a is b else a.s + "-" + b.s
    rec.eq(str(p.urn), t.urn + (":" + ref if ref else ""), "content", kind=kind + "-urn")
    rec.eq(s(p.reference), ref, "content", kind=kind + "-reference")
    if ref:
        rec.eq(p.id, ref, "content", kind=kind + "-id")
    rec.eq([str(x) for x in get_graph().objects(p.asNode(), RDF_NAMESPACES.DTS.implements)], [str(p.urn)], "content",
           kind=kind + "-implements")


def cited(rec, srv, t, o, sure, kind):
    """A citation system once received is known."""
    got = repo.norm(chain(o.citation))
    if sure:
        rec.eq(got, repo.norm(t.cite), "citation", kind=kind)
    elif got:
        rec.eq(got, repo.norm(t.cite), "citation", kind=kind)


def probe(rng, rec, srv, watch, t, p, a, b, plus):
    """Everything passage p = a..b of t says about its place."""
    watch(None, "before")
    level = len(a.ref)
    us = t.doc.units(level)
    prev, nxt = srv.siblings(t, p.id)
    asked = [("prevId", prev), ("nextId", nxt), ("siblingsId", (prev, nxt))]
    rng.shuffle(asked)                 # whichever is asked first is the one that asks the server
    for name, want in asked:
        rec.eq(getattr(p, name), want, "siblings", passage=p.id, of=t.urn, name=name, order=[n for n, _ in asked])
    watch(0 if plus else 1, "siblings-asked-once", "GetPrevNextUrn")
    kids = [x.s for x in srv.reffs(t, p.id, 1)]
    asked = [("childIds", kids), ("firstId", kids[0] if kids else None), ("lastId", kids[-1] if kids else None)]
    asked += [rng.choice(asked)] * rng.randrange(3)
    rng.shuffle(asked)
    for name, want in asked:
        got = getattr(p, name)
        rec.eq(list(got) if name == "childIds" else got, want, "children", passage=p.id, name=name,
               order=[n for n, _ in asked])
    verbs = sorted(q.params["request"] for q in watch(None, "children"))
    rec.eq(verbs, ["GetFirstUrn", "GetValidReff"], "wire", kind="children-asked-once")
    up = None
    if level > 1:
        x, y = a.s.rpartition(".")[0], b.s.rpartition(".")[0]
        up = x if x == y else x + "-" + y
    rec.eq(p.parentId, up, "parent", passage=p.id)
    rec.eq(p.depth, level, "children", kind="depth")
    watch(0, "parent-is-not-asked")
    k = rng.randrange(0, t.doc.depth - level + 2)
    if k:
        want = srv.reffs(t, p.id, level + k)
        rec.eq(list(p.getReffs(level=k) if k > 1 else p.getReffs()), [x.s for x in want], "reffs", kind="relative",
               passage=p.id, level=k)


@scenario(quick=500, thorough=12000)
def texts(rng, rec):
    m = build(rng)
    ts = m.texts()
    if not ts:
        return
    t = rng.choice(ts)
    doc = t.doc
    srv = ctsd.Server(rng, m)
    if len(doc.units(doc.depth)) > 2:
        rec.distinct(doc.xml)
        rec.sample([t.urn, t.cite, srv.prefix, srv.named])
    rec.op("text", t.urn, doc.xml)
    with http.serving(srv, limit=400) as site:
        watch = Watch(rec, site)
        r = HttpCtsRetriever(site.root + "/cts")

        def new():
            return CtsText(rng.choice([t.urn, URN(t.urn)]), r)
        # labels
        x = new()
        md = x.getLabel()
        watch(1, "label", "GetLabel")
        rec.expect(md is x.metadata, "label", kind="returned")
        described(rec, x, t)
        cited(rec, srv, t, x, srv.in_label or srv.in_request, "label")
        x.getLabel()
        described(rec, x, t)
        rec.count("label")
        watch(None, "before")
        # references
        x = new()
        top = [u.s for u in doc.units(1)]
        rec.eq(list(x.childIds), top, "children", kind="text")
        rec.eq(list(x.childIds), top, "children", kind="text")
        watch(1, "text-children-asked-once", "GetValidReff")
        rec.eq((x.firstId, x.lastId, x.firstId), (top[0], top[-1], top[0]), "children", kind="text-first-last")
        watch(1, "text-first-asked-once", "GetFirstUrn")
        content(rec, t, x.first, doc.top[0], doc.top[0], "text-first")
        content(rec, t, x.last, doc.top[-1], doc.top[-1], "text-last")
        kids = list(x.children)
        rec.eq([c.id for c in kids], top, "children", kind="text-children")
        c = rng.randrange(len(kids))
        content(rec, t, kids[c], doc.top[c], doc.top[c], "text-child")
        rec.eq((x.parentId, x.parent, x.depth), (None, None, None), "parent", kind="text")
        for n in ("next", "prev", "nextId", "prevId", "siblingsId"):
            rec.raises(NotImplementedError, lambda: getattr(x, n), "siblings", what="a text has none")
        for level in range(1, doc.depth + 1):
            want = [u.s for u in doc.units(level)]
            rec.eq(list(x.getReffs(level=level)), want, "reffs", level=level)
            rec.eq(list(x.getValidReff(level=level)), want, "reffs", kind="valid", level=level)
        u = anyunit(rng, doc)
        level = rng.randrange(1, doc.depth + 2)
        want = [y.s for y in srv.reffs(t, u.s, level)]
        sub = rng.choice([u.s, CtsReference(u.s)])
        rec.eq(list(x.getReffs(level, sub)), want, "reffs", kind="under", level=level, ref=u.s)
        rec.eq(list(x.getValidReff(level, sub)), want, "reffs", kind="under-valid", level=level, ref=u.s)
        x = new()
        if srv.in_label or srv.in_request:
            rec.eq(list(x.reffs), [u.s for d in range(1, doc.depth + 1) for u in doc.units(d)], "reffs", kind="all")
            rec.eq(list(x.getValidReff(level=-1)), [u.s for u in doc.units(doc.depth)], "reffs", kind="deepest")
        # what is known stays known, whatever later answers leave out
        cur = None
        for n, scope, xp in reversed(t.cite):
            cur = Citation(name=n, scope=scope, xpath=xp, child=cur)
        x = CtsText(t.urn, r, citation=cur)
        for _ in range(3):
            rng.choice([x.getLabel, x.getPassagePlus, x.getReffs, x.getTextualNode, lambda: x.getPassagePlus(top[0]),
                        lambda: x.first])()
            cited(rec, srv, t, x, bool(t.cite), "known")
        # neighbours and first, by reference
        us = doc.units(rng.randrange(1, doc.depth + 1)) or doc.top
        u = rng.choice(us)
        x = new()
        rec.eq(x.getPrevNextUrn(rng.choice([u.s, CtsReference(u.s)])), srv.siblings(t, u.s), "siblings", kind="by-reference")
        f = srv.reffs(t, u.s, 1)[:1]
        rec.eq(x.getFirstUrn(rng.choice([u.s, t.urn + ":" + u.s])), f[0].s if f else None, "children", kind="first-by-reference")
        # the text of a URN with a reference is that passage
        x = CtsText(t.urn + ":" + u.s, r)
        rec.eq(list(x.childIds), [y.s for y in srv.reffs(t, u.s, 1)], "children", kind="text-of-reference")
        rec.eq(x.depth, len(u.ref), "children", kind="text-of-reference-depth")
        # export
        x = new()
        watch(None, "before")
        rec.eq(x.export(Mimetypes.PLAINTEXT), expected(doc.root, []), "export", kind="text")
        watch(1, "export", "GetPassage")
        rec.eq(x.export(Mimetypes.PLAINTEXT, exclude=["tei:note"]), expected(doc.root, ["note"]), "export", kind="text-exclude")
        rec.eq(x.text, expected(doc.root, []), "export", kind="text-property")
        rec.eq(tei.canon(tei.etree.fromstring(x.export(Mimetypes.XML.Std))),
               tei._canon(doc.root), "export", kind="text-xml")
        if not doc.features["ragged"] and (srv.in_label or srv.in_request):
            w = x.getPassagePlus()
            rec.eq(plain_dict(w.export(Mimetypes.PYTHON.NestedDict)), nested(doc.top, []), "export", kind="nested")
        # unknown things are errors
        bad = u.s + "zz"
        x = new()
        for f in (lambda: x.getTextualNode(bad), lambda: x.getPassagePlus(bad), lambda: x.getReffs(1, bad),
                  lambda: x.getPrevNextUrn(bad), lambda: x.getFirstUrn(bad), lambda: CtsText(t.urn + "zz", r).getLabel(),
                  lambda: CtsText(t.urn + "zz", r).childIds):
            rec.raises(requests.HTTPError, f, "refused", of=t.urn)
    rec.raises(MissingAttribute, lambda: CtsText(t.urn, None), "refused", what="no retriever")


def fetch(rng, t, holder, ref, rec):
    """Ask holder (text or passage of t) for ref -> (passage, with neighbours and labels)"""
    if rng.random() < 0.35:
        return holder.getPassagePlus(rng.choice([ref, CtsReference(ref), ref if "-" in ref else ref.split(".")])), True
    return holder.getTextualNode(forms(rng, t, ref)), False


@scenario(quick=700, thorough=18000)
def passages(rng, rec):
    m = build(rng)
    ts = m.texts()
    if not ts:
        return
    t = rng.choice(ts)
    doc = t.doc
    srv = ctsd.Server(rng, m)
    rec.op("text", t.urn, doc.xml)
    with http.serving(srv, limit=400) as site:
        watch = Watch(rec, site)
        r = HttpCtsRetriever(site.root + "/cts")
        x = CtsText(t.urn, r)
        # whole text
        if rng.random() < 0.3:
            w, plus = (x.getTextualNode(), False) if rng.random() < 0.5 else (x.getPassagePlus(), True)
            content(rec, t, w, None, None, "whole")
            rec.eq((w.parentId, w.parent, w.depth), (None, None, None), "parent", kind="whole")
            rec.eq(list(w.childIds), [u.s for u in doc.units(1)], "children", kind="whole")
            if plus:
                described(rec, w, t)
                cited(rec, srv, t, w, srv.in_label or srv.in_request, "whole")
                rec.eq((w.prevId, w.nextId), (None, None), "siblings", kind="whole")
        # a range
        ab = pick_range(rng, doc)
        if ab and ab[0] is not ab[1]:
            p, plus = fetch(rng, t, x, ab[0].s + "-" + ab[1].s, rec)
            content(rec, t, p, ab[0], ab[1], "range")
            # the wire merges the text on both sides of a comment: spaces aside
            rec.eq("".join(p.export(Mimetypes.PLAINTEXT).split()),
                   "".join(expected_range(doc, ab[0], ab[1], []).split()), "export", kind="range")
            if len(ab[0].ref) == len(ab[1].ref):
                probe(rng, rec, srv, watch, t, p, ab[0], ab[1], plus)
        # a walk
        u = anyunit(rng, doc)
        rec.distinct(doc.xml, u.s, rng.random())
        watch(None, "before")
        p, plus = fetch(rng, t, x, u.s, rec)
        watch(1, "one-passage", "GetPassagePlus" if plus else "GetPassage")
        for _ in range(rng.randrange(1, 6)):
            content(rec, t, p, u, u, "unit")
            rec.eq(p.export(Mimetypes.PLAINTEXT), expected(u.elem, []), "export", kind="passage")
            cited(rec, srv, t, p, srv.in_request or plus and srv.in_label, "passage")
            if plus:
                described(rec, p, t)
            probe(rng, rec, srv, watch, t, p, u, u, plus)
            k = rng.choice(["next", "next", "prev", "first", "last", "children", "parent", "jump", "jump"])
            us = doc.units(len(u.ref))
            i = us.index(u)
            plus = False
            rec.op(k, u.s)
            if k == "jump":
                u = anyunit(rng, doc)
                p, plus = fetch(rng, t, p, u.s, rec)
                rec.count("hop")
                continue
            if k == "parent":
                to = doc.find(u.ref[:-1]) if len(u.ref) > 1 else None
            elif k in ("next", "prev"):
                j = i + 1 if k == "next" else i - 1
                to = us[j] if 0 <= j < len(us) else None
            elif k == "children":
                kids = list(p.children)
                rec.eq([c.id for c in kids], [y.s for y in u.subs], "hop", kind="children")
                if kids:
                    j = rng.randrange(len(kids))
                    p, u = kids[j], u.subs[j]
                else:
                    p, plus = fetch(rng, t, p, u.s, rec)
                continue
            else:
                to = (u.subs[0] if k == "first" else u.subs[-1]) if u.subs else None
            q = getattr(p, k)
            rec.count("hop")
            if to is None:
                rec.expect(q is None, "hop", kind=k + "-of-end", got=q, of=u.s)
                p, plus = fetch(rng, t, p, u.s, rec)
                continue
            p, u = q, to


@scenario(quick=300, thorough=7000)
def resolver(rng, rec):
    m = build(rng)
    srv = ctsd.Server(rng, m)
    with http.serving(srv, limit=400) as site:
        watch = Watch(rec, site)
        r = HttpCtsResolver(HttpCtsRetriever(site.root + "/cts"))
        rec.op("inventory", [x.urn for x in m.walk()])
        check(rec, r.getMetadata(), m, "catalogue", parent=None, cites=repo.norm)
        watch(1, "catalogue", "GetCapabilities")
        for _ in range(2):
            x = rng.choice([y for y in m.walk() if y.kind != "inventory"])
            part, mine = ctsd.clone_under(m, x.urn)
            o = r.getMetadata(x.urn)
            check(rec, o, mine, "catalogue", parent=o.parent, cites=repo.norm)
            up, mu = o, mine
            while mu.parent is not None:
                up, mu = up.parent, mu.parent
                rec.eq(up.id, mu.urn, "catalogue", kind="ancestors")
            watch(1, "catalogue-part", "GetCapabilities")
        bad = rng.choice([y.urn for y in m.walk() if y.kind != "inventory"]) + "zz"
        rec.raises(Exception, lambda: r.getMetadata(bad), "refused", what="unknown collection")
        if not m.texts():
            return
        for _ in range(3):
            t = rng.choice(m.texts())
            u = anyunit(rng, t.doc)
            watch(None, "before")
            meta, near = rng.random() < 0.4, rng.random() < 0.4
            p = r.getTextualNode(rng.choice([t.urn, URN(t.urn)]), rng.choice([u.s, CtsReference(u.s)]), metadata=meta, prevnext=near)
            watch(1, "node", "GetPassagePlus" if meta or near else "GetPassage")
            content(rec, t, p, u, u, "resolver")
            if meta:
                described(rec, p, t)
            if near:
                rec.eq((p.prevId, p.nextId), srv.siblings(t, u.s), "siblings", kind="resolver-prevnext")
                watch(0, "neighbours-came-along")
            rec.eq(r.getSiblings(t.urn, rng.choice([u.s, CtsReference(u.s)])), srv.siblings(t, u.s), "siblings", kind="resolver")
            level = rng.randrange(1, t.doc.depth + 1)
            rec.eq(list(r.getReffs(t.urn, level=level)), [y.s for y in t.doc.units(level)], "reffs", kind="resolver")
            rec.eq(list(r.getReffs(t.urn, level=level, subreference=rng.choice([u.s, CtsReference(u.s)]))),
                   [y.s for y in srv.reffs(t, u.s, level)], "reffs", kind="resolver-under")
            w = r.getTextualNode(t.urn)
            content(rec, t, w, None, None, "resolver-whole")
            rec.distinct(t.doc.xml, u.s)
            rec.raises(requests.HTTPError, lambda: r.getTextualNode(t.urn, u.s + "zz"), "refused", what="unknown reference")
            rec.raises(requests.HTTPError, lambda: r.getReffs(t.urn + "zz"), "refused", what="unknown text")
