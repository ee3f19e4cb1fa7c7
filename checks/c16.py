"""C16: a folder resolver answers questions about what it found."""
from math import ceil
import os
import re

from lxml import etree

from vlib.core import declare, scenario
from vlib import inv as I
from vlib import repo, tei
from vlib.gen import word
from checks.c05 import under
from checks.c07 import pick_range
from checks.c09 import window
from checks.c13 import check
from MyCapytain.common.constants import Mimetypes, get_graph, RDF_NAMESPACES
from MyCapytain.common.reference import CtsReference, URN
from MyCapytain.errors import InvalidURN, UnknownCollection, UnknownObjectError, CitationDepthError
from MyCapytain.resolvers.cts.local import CtsCapitainsLocalResolver
from rdflib.namespace import DC

declare(
    "C16",
    rule="A case is a generated repository on disk read by a folder resolver that is then asked for metadata at every "
         "level, units, ranges, whole texts, references and neighbours, in every identifier form, for things that exist "
         "and things that do not, in random order; every answer is compared with the model of the files. Pagination: "
         "random lengths, pages, limits. Non-trivial: at least two texts. Distinct: by documents.",
    require={"metadata": 1000, "node": 500, "range": 80, "whole": 80, "node-metadata": 150, "reffs": 500, "siblings": 250,
             "by-work": 100, "refused": 400, "store-intact": 300, "pages": 3000},
)


def ids(rng, s):
    return rng.choice([s, URN(s)])


def sub(rng, s):
    return rng.choice([s, CtsReference(s)])


def restricted(m, urn):
    """The part of inventory m that getMetadata(urn) shows: texts that can be read under urn, and what holds them."""
    out = I.M("inventory", m.urn)

    def clone(x, parent):
        c = I.M(x.kind, x.urn)
        c.__dict__.update(x.__dict__)
        c.kids = []
        return parent.add(c)
    found = None
    for tg in m.kids:
        for wk in tg.kids:
            for t in wk.kids:
                if t.cite and urn in (tg.urn, wk.urn, t.urn):
                    g = next((x for x in out.kids if x.urn == tg.urn), None) or clone(tg, out)
                    w = next((x for x in g.kids if x.urn == wk.urn), None) or clone(wk, g)
                    c = clone(t, w)
                    found = {tg.urn: g, wk.urn: w, t.urn: c}[urn]
    return found


def node(rec, doc, p, a, b, urn, mon):
    d = tei.matches(p.resource, tei.pruned(doc, a, b))
    rec.expect(d is None, mon, kind=mon + "-content", diff=d, ref=(a.s, b.s), of=urn)
    ref = a.s if a is b else a.s + "-" + b.s
    rec.eq(str(p.reference), ref, mon, kind=mon + "-reference")
    rec.eq(str(p.urn), urn + ":" + ref, mon, kind=mon + "-urn")


def described(rec, p, t):
    """A passage asked for with its metadata carries the names of its text, work and group."""
    wk, tg = t.parent, t.parent.parent
    for names, key, cts, getter in ((t.names, DC.subject, "label", p.get_subject), (wk.names, DC.title, "title", p.get_title),
                                    (tg.names, DC.creator, "groupname", p.get_creator),
                                    (t.descs, DC.description, "description", p.get_description)):
        want = sorted((str(v), l or "") for l, v in names.items())
        rec.eq(sorted((str(x), x.language or "") for x in p.metadata.get(key)), want, "node-metadata", kind="dc", of=t.urn, key=key)
        rec.eq(sorted((str(x), x.language or "") for x in p.metadata.get(RDF_NAMESPACES.CTS.term(cts))), want, "node-metadata",
               kind="cts", of=t.urn)
        for l, v in names.items():
            if v and l is not None:
                rec.eq((str(getter(l)), getter(l).language), (v, l), "node-metadata", kind="getter")


def store():
    # a question with no answer may leave the (empty) answer's own node behind
    return {x for x in get_graph() if str(x[0]) != "defaultInventory"}


def ask_metadata(rng, rec, res, r):
    inventory = res.inventory.members[0]
    before = store()
    for _ in range(4):
        x = rng.choice([y for y in r.m.walk() if y.kind != "inventory"])
        m = restricted(r.m, x.urn)
        rec.op("getMetadata", x.urn)
        if m is None:
            rec.raises(Exception, lambda: res.getMetadata(x.urn), "metadata", what="nothing to read there")
            continue
        o = res.getMetadata(x.urn)
        up, mu = o, m
        while mu.parent is not None:
            rec.eq(up.id, mu.urn, "metadata", kind="ancestors")
            up, mu = up.parent, mu.parent
        rec.eq([y.id for y in o.parents][:len(m.urn.split(".")) ],
               [y.urn for y in ancestors(m)][:len(m.urn.split("."))], "metadata", kind="parents")
        rec.eq(up.id, "default", "metadata", kind="inventory-name")
        check(rec, o, m, "metadata", parent=o.parent, order=False, cites=repo.norm)
    # asking does not change what is known
    rec.eq(store() ^ before, set(), "store-intact", kind="graph")
    rec.expect(res.getMetadata() is res.inventory and res.inventory.members[0] is inventory, "store-intact")
    rec.expect(res.getMetadata("default") is inventory, "metadata", kind="inventory")
    rec.eq(len(inventory), len(r.m.texts()), "store-intact", kind="texts")
    for tg in r.m.kids:
        check(rec, inventory[tg.urn], tg, "store-intact", parent=inventory, order=False, cites=repo.norm)


def ancestors(m):
    while m.parent is not None:
        m = m.parent
        yield m


def ask_node(rng, rec, res, t):
    doc = t.doc
    k = rng.randrange(6)
    meta = rng.random() < 0.4
    kw = {"metadata": True} if meta else {}
    if k == 0:
        p = res.getTextualNode(ids(rng, t.urn), **kw)
        rec.eq(tei.canon(p.resource), tei.canon(doc_root(doc, p)), "whole", of=t.urn)
        rec.eq(str(p.urn), t.urn, "whole", kind="whole-urn")
    elif k == 1:
        ab = pick_range(rng, doc)
        if not ab or ab[0] is ab[1]:
            return
        rec.op("range", t.urn, ab[0].s, ab[1].s)
        p = res.getTextualNode(ids(rng, t.urn), sub(rng, ab[0].s + "-" + ab[1].s), **kw)
        node(rec, doc, p, ab[0], ab[1], t.urn, "range")
    else:
        u = rng.choice(doc.units(rng.randrange(1, doc.depth + 1)))
        rec.op("node", t.urn, u.s)
        p = res.getTextualNode(textId=ids(rng, t.urn), subreference=sub(rng, u.s), **kw)
        node(rec, doc, p, u, u, t.urn, "node")
    if meta:
        described(rec, p, t)


def doc_root(doc, p):
    tag = p.resource.getroot().tag if hasattr(p.resource, "getroot") else p.resource.tag
    rootel = etree.fromstring(doc.xml.encode("utf-8"))
    return rootel if rootel.tag == tag else rootel.find(".//" + tag)


def ask_reffs(rng, rec, res, t):
    doc = t.doc
    d = rng.randrange(0, doc.depth + 1)
    if d == 0:
        level = rng.randrange(1, doc.depth + 1)
        rec.op("reffs", t.urn, level)
        got = res.getReffs(ids(rng, t.urn)) if level == 1 else res.getReffs(ids(rng, t.urn), level=level)
        rec.eq([str(x) for x in got], [u.s for u in doc.units(level)], "reffs", of=t.urn)
        return
    u = rng.choice(doc.units(d))
    asked = rng.randrange(1, doc.depth + 1)
    level = max(asked, d + 1)
    rec.op("reffs", t.urn, asked, u.s)
    ask = lambda: res.getReffs(ids(rng, t.urn), level=asked, subreference=sub(rng, u.s))  # noqa
    if level > doc.depth:
        rec.raises(CitationDepthError, ask, "reffs", of=t.urn)
        return
    want = [x.s for x in under(u, level)]
    if want:
        rec.eq([str(x) for x in ask()], want, "reffs", kind="reffs-under", of=t.urn, ref=u.s, level=asked)
    else:
        rec.raises(Exception, ask, "reffs")


def ask_siblings(rng, rec, res, t):
    us = t.doc.units(rng.randrange(1, t.doc.depth + 1))
    i = rng.randrange(len(us))
    j = rng.choice([i, i, min(i + 1, len(us) - 1), rng.randrange(i, len(us))])
    ref = us[i].s if i == j else us[i].s + "-" + us[j].s
    rec.op("siblings", t.urn, ref)
    got = res.getSiblings(ids(rng, t.urn), sub(rng, ref))
    rec.expect(isinstance(got, tuple), "siblings", kind="tuple")
    rec.eq(tuple(None if x is None else str(x) for x in got), window(us, i, j, i != j), "siblings", of=t.urn, ref=ref)


def ask_by_work(rng, rec, res, wk):
    """A work stands for one of its editions."""
    eds = [t for t in wk.kids if t.kind == "edition"]
    if not eds:
        for f in (lambda: res.getTextualNode(wk.urn), lambda: res.getReffs(wk.urn), lambda: res.getSiblings(wk.urn, "1")):
            rec.raises(UnknownObjectError, f, "by-work", what="no edition", of=wk.urn)
        return
    if any(t.fault for t in eds):
        return
    rec.op("by-work", wk.urn)
    p = res.getTextualNode(ids(rng, wk.urn))
    t = next((t for t in eds if t.urn == str(p.urn)), None)
    rec.expect(t is not None, "by-work", kind="by-work-urn", got=p.urn, of=wk.urn)
    rec.eq([str(x) for x in res.getReffs(ids(rng, wk.urn))], [u.s for u in t.doc.units(1)], "by-work", kind="by-work-reffs")
    u = rng.choice(t.doc.units(t.doc.depth))
    q = res.getTextualNode(ids(rng, wk.urn), sub(rng, u.s))
    node(rec, t.doc, q, u, u, t.urn, "by-work")


def refused(rng, rec, res, r):
    known = {x.urn for x in r.m.walk()}
    tg = rng.choice(r.m.kids)
    bad = rng.choice([tg.urn + "zz", tg.urn + ".zz", tg.urn + ".zz.zz", "urn:cts:nope:a.b.c", "urn:cts:nope:a.b",
                      tg.urn.split(":")[0] + ":cts:zz:" + tg.urn.split(":")[-1], "nothing", ""])
    if bad in known:
        return
    rec.op("refused", bad)
    rec.raises(Exception, lambda: res.getMetadata(bad), "refused", what="metadata", urn=bad)
    for f in (lambda: res.getTextualNode(bad), lambda: res.getReffs(bad), lambda: res.getSiblings(bad, "1")):
        rec.raises(Exception, f, "refused", urn=bad)
    for f in (lambda: res.getTextualNode(tg.urn), lambda: res.getReffs(tg.urn), lambda: res.getSiblings(tg.urn, "1")):
        rec.raises(InvalidURN, f, "refused", what="no single text", urn=tg.urn)
    if bad.count(".") == 2:
        rec.raises(UnknownCollection, lambda: res.getTextualNode(bad), "refused", what="unknown text", urn=bad)
    if bad.count(".") == 1:
        rec.raises(UnknownObjectError, lambda: res.getTextualNode(bad), "refused", what="unknown work", urn=bad)
    ok = [t for t in r.m.texts() if not t.fault]
    if ok:
        t = rng.choice(ok)
        u = rng.choice(t.doc.units(t.doc.depth))
        rec.raises(Exception, lambda: res.getTextualNode(t.urn, u.s + "zz"), "refused", what="unknown reference")
        rec.raises(CitationDepthError, lambda: res.getTextualNode(t.urn, u.s + ".1"), "refused", what="too deep")
    lost = [t for t in r.m.texts() if t.fault]
    if lost:
        t = rng.choice(lost)
        # no declaration, or no readable file: nothing to read
        rec.raises(Exception, lambda: res.getReffs(t.urn), "refused", what=t.fault)
        rec.raises(Exception, lambda: res.getTextualNode(t.urn, "1"), "refused", what=t.fault)


@scenario(quick=900, thorough=14000)
def answers(rng, rec):
    with repo.scratch() as base:
        r = repo.gen(rng, base, faults=rng.choice([0, 0, 0.3]), groups=(1, 2), works=(1, 3), texts=(0, 3), depth=rng.choice([None, 2]))
        fp = [(t.urn, t.fault or t.doc.xml) for t in r.m.texts()]
        rec.op("repo", [(t.urn, t.fault) for t in r.m.texts()])
        if len(fp) > 1:
            rec.distinct(fp)
            rec.sample([(t.urn, t.fault, t.cite) for t in r.m.texts()])
        res = CtsCapitainsLocalResolver(list(r.folders))
        ok = [t for t in r.m.texts() if not t.fault]
        todo = [lambda: ask_metadata(rng, rec, res, r), lambda: refused(rng, rec, res, r), lambda: refused(rng, rec, res, r)]
        for wk in [w for g in r.m.kids for w in g.kids]:
            todo.append(lambda wk=wk: ask_by_work(rng, rec, res, wk))
        for t in ok:
            for f in (ask_node, ask_node, ask_node, ask_reffs, ask_reffs, ask_siblings):
                todo.append(lambda f=f, t=t: f(rng, rec, res, t))
        rng.shuffle(todo)
        todo.append(lambda: ask_metadata(rng, rec, res, r))
        for f in todo:
            f()


@scenario(quick=80, thorough=3000)
def changing_files(rng, rec):
    """The files are the truth: what is read is what they hold now, and a vanished file is an error, not an answer."""
    with repo.scratch() as base:
        r = repo.gen(rng, base, groups=(1, 2), works=(1, 2), texts=(1, 2), depth=2)
        if not r.m.texts():
            return
        res = CtsCapitainsLocalResolver(list(r.folders))
        t = rng.choice(r.m.texts())
        ask_node(rng, rec, res, t)
        t.doc = tei.gen_doc(rng, depth=2)
        if rng.random() < 0.5:          # no word of it stays, and the size does
            repo.put(t.path, t.doc.xml)
            for f in (ask_node, ask_reffs):
                f(rng, rec, res, t)
            for el in t.doc.root.iter():
                if isinstance(el.tag, str):
                    el.text = el.text and re.sub(r"w(\d+)", r"v\1", el.text)
                el.tail = el.tail and re.sub(r"w(\d+)", r"v\1", el.tail)
            t.doc.xml = etree.tostring(t.doc.root, encoding="unicode")
        repo.put(t.path, t.doc.xml)
        for f in (ask_node, ask_reffs, ask_siblings):
            f(rng, rec, res, t)
        os.remove(t.path)
        for f in (lambda: res.getTextualNode(t.urn), lambda: res.getReffs(t.urn), lambda: res.getTextualNode(t.urn, "1")):
            rec.raises(Exception, f, "refused", what="vanished file")
        rec.distinct(t.doc.xml)


@scenario(quick=150, thorough=5000)
def pages(rng, rec):
    for _ in range(20):
        n = rng.choice([0, 1, 2, 9, 10, 11, 99, 100, 101, rng.randrange(0, 1000)])
        limit = rng.choice([None, 0, 1, 2, 10, 99, 100, 101, 1000, -3, rng.randrange(1, 101)])
        eff = limit if limit and 1 <= limit <= 100 else 10
        last = max(1, ceil(n / eff))
        f = CtsCapitainsLocalResolver.pagination
        rec.op("pages", n, limit)
        rec.distinct(n, limit)
        items, seen = list(range(n)), []
        for page in range(1, last + 1):
            a, b, p, count = f(page, limit, n)
            seen += items[a:b]
            rec.eq(p, page, "pages", kind="page-number", length=n, limit=limit)
            rec.eq(items[a:b], items[(page - 1) * eff:page * eff], "pages", kind="page-content", length=n, limit=limit, page=page)
            if n:
                rec.eq(count, b - a, "pages", kind="page-count", length=n, limit=limit, page=page)
        rec.eq(seen, items, "pages", kind="partition", length=n, limit=limit)
        for page in (last + 1, last + rng.randrange(2, 50)):
            rec.eq(f(page, limit, n), f(last, limit, n), "pages", kind="beyond", length=n, limit=limit, page=page)
        for page in (None, 0):
            rec.eq(f(page, limit, n), f(1, limit, n), "pages", kind="default-page", length=n, limit=limit)
