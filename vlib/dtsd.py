"""A DTS server over a model: what a well-behaved endpoint answers, built without the code under test."""
import json
from urllib.parse import quote, quote_plus, urlencode

from lxml import etree

from vlib import ctsd, http, tei
from checks.c18 import Doc, HYDRA, Style, gen


class Bad(Exception):
    pass


class Coll(Doc):
    """A collection of the model: kids and ups are identifiers, text a tei.Doc if it can be read."""
    text = None

    @classmethod
    def of(cls, d):
        o = cls(d.id)
        o.__dict__.update(d.__dict__)
        o.kids, o.ups, o.kinds, o.about = [], [], {}, {}
        return o

    def brief(self):
        """What is said of it in the list of another one."""
        o = Doc(self.id)
        o.type, o.title, o.total = self.type, self.title, self.total
        o.stmts, o.description = (self.stmts[:self.shown], self.description if self.shown else [])
        return o


def catalogue(rng, n):
    """-> root id, {id: Coll}: n collections, some with several parents"""
    used, out = set(), []
    wide = n if rng.random() > 0.03 else n + rng.choice([10, 14, 26])      # the first has many members
    for _ in range(wide):
        c = Coll.of(gen(rng, used, 0))
        c.type = HYDRA + "Collection"
        c.shown = rng.choice([0, 0, 1, 9])
        for p in rng.sample(out, min(len(out), rng.choice([1, 1, 1, 1, 2, 3]))):
            if rng.random() < 0.7 or not c.ups:
                p.kids.append(c.id)
                c.ups.append(p.id)
        if wide > n and out and out[0].id not in c.ups and len(out) > 1:
            out[0].kids.append(c.id)
            c.ups.append(out[0].id)
        out.append(c)
    if wide > n and rng.random() < 0.5:     # and the last many parents
        for p in out[1:-1]:
            if p.id not in out[-1].ups:
                p.kids.append(out[-1].id)
                out[-1].ups.append(p.id)
    for c in out:
        c.total = len(c.kids)
        if not c.kids and c is not out[0] and rng.random() < 0.8:
            c.type = HYDRA + "Resource"
    return out[0].id, {c.id: c for c in out}


class Server:
    """root: id of the collection at the root; colls: id -> c18.Doc with .kids and .ups (ids) and maybe .text (a tei.Doc).

    Of a text: levels of references are those of the edition; kinds of units and their metadata are in .kinds, .about."""

    plain = False       # documents in UTF-8 as lxml writes them

    def __init__(self, rng, root, colls, prefix="/dts"):
        self.rng, self.root, self.colls, self.prefix = rng, root, colls, prefix
        self.page = rng.choice([1, 2, 3, 1000])             # members of a collection per page
        self.refpage = rng.choice([2, 3, 5, 1000])
        self.vary = rng.random() < 0.3                      # pages of references name different default kinds
        self.reach = rng.random() < 0.5                     # a view is there even for a single page
        self.style = Style(rng)
        self.gap = rng.choice([0, 1, 2, 5]) if rng.random() < 0.12 else None      # a page nothing is left on, e.g. by filtering
        self.plus = rng.random() < 0.5                      # spaces of the links are +, or %20
        self.noise = rng.choice([[], [], [("webpage", "7")], [("nopage", "9"), ("x", "page=4")]])
        self.host = rng.choice(["", "http://example.org"])

    # -------- model
    def units(self, t, level, ref=None):
        """Units of a level below a reference (level 0: itself) or in the whole text; ref is a list of one or two strings."""
        doc = t.text
        if ref is None:
            return doc.units(level) if 1 <= level <= doc.depth else []
        ends = [doc.find(r.split(".")) for r in ref]
        if None in ends:
            raise Bad("no such reference %r" % (ref,))
        a, b = ends[0], ends[-1]
        level += len(a.ref) - (1 if len(ref) == 2 else 0)
        if level > doc.depth or level < 1:
            return []
        order = doc.order()
        return [u for u in doc.units(level) if order[a.elem][0] <= order[u.elem][0] <= order[b.elem][1]]

    def level(self, level, ref):
        return level if ref is None else level + ref[0].count(".") + (1 if len(ref) == 1 else 0)

    def groups(self, us, n):
        return [us[i:i + n] for i in range(0, len(us), n)]

    def near(self, t, ref):
        """-> (previous, next, parent, first, last): lists of one or two strings, or None"""
        doc = t.text
        a, b = (doc.find(r.split(".")) for r in (ref[0], ref[-1]))
        us = doc.units(len(a.ref))
        if b not in us:
            return (None,) * 5      # over two levels
        i, j = us.index(a), us.index(b)
        n = j - i + 1

        def span(x, y):
            x, y = max(x, 0), min(y, len(us) - 1)
            return None if x > y else [us[x].s] if x == y else [us[x].s, us[y].s]
        up = [".".join(a.ref[:-1])] if len(ref) == 1 and len(a.ref) > 1 else None
        return (span(i - n, i - 1) if i else None), span(j + 1, j + n), up, span(0, n - 1), span(len(us) - n, len(us) - 1)

    def pages(self, things, size):
        """The pages of a list, at least one"""
        out = [things[i:i + size] for i in range(0, len(things), size)] or [[]]
        if self.gap is not None and len(out) > 1:
            out.insert(min(self.gap, len(out)), [])
        return out

    # -------- wire
    def link(self, api, params):
        params = list(params) + self.noise
        self.rng.shuffle(params)
        return self.host + self.prefix + "/" + api + "?" + urlencode(params, quote_via=quote_plus if self.plus else quote)

    def __call__(self, req):
        p = req.params
        try:
            if req.path.rstrip("/") == self.prefix:
                return http.Answer(json.dumps(dict({"@type": "EntryPoint", "@id": self.prefix}, **{
                    a: self.prefix + "/" + a for a in ("collections", "documents", "navigation")})), ctype="application/ld+json")
            f = {"/collections": self.collections, "/navigation": self.navigation, "/documents": self.documents}.get(
                req.path[len(self.prefix):])
            if f is None:
                raise Bad("no such route")
            return f(p)
        except Bad as e:
            return http.Answer(json.dumps({"@type": "Status", "statusCode": 404, "title": str(e)}), 404, "application/ld+json")

    def view(self, api, params, page, last):
        v = {"@type": self.style.h("PartialCollectionView"), "@id": self.link(api, params + [("page", page)])}
        h = self.style.h
        v[h("first")], v[h("last")] = self.link(api, params + [("page", 1)]), self.link(api, params + [("page", last)])
        if page > 1:
            v[h("previous")] = self.link(api, params + [("page", page - 1)])
        if page < last:
            v[h("next")] = self.link(api, params + [("page", page + 1)])
        return v

    def answer(self, o):
        items = list(o.items())
        self.rng.shuffle(items)
        return http.Answer(json.dumps(dict(items), ensure_ascii=self.rng.random() < 0.5),
                           ctype=self.rng.choice(["application/ld+json", "application/ld+json; charset=utf-8"]))

    def collections(self, p):
        d = self.colls.get(p.get("id", self.root))
        if d is None:
            raise Bad("no such collection")
        nav = p.get("nav", "children")
        if nav not in ("children", "parents"):
            raise Bad("nav")
        ids = d.kids if nav == "children" else d.ups
        pages = self.pages(ids, self.page)
        last, page = len(pages), int(p.get("page", 1))
        if not 1 <= page <= last:
            raise Bad("page")
        o = self.style.doc(d)
        ms = [self.style.doc(self.colls[i].brief(), False) for i in pages[page - 1]]
        if ms:
            o[self.style.h("member")] = self.style.many(ms)
        if last > 1 or (self.reach and ms):
            params = [("id", d.id)] + ([("nav", nav)] if nav != "children" or self.rng.random() < 0.3 else [])
            o[self.style.h("view")] = self.view("collections", params, page, last)
        return self.answer(o)

    def text(self, p):
        d = self.colls.get(p.get("id"))
        if d is None or getattr(d, "text", None) is None:
            raise Bad("no such text")
        ref = [p["ref"]] if "ref" in p else [p["start"], p["end"]] if "start" in p and "end" in p else None
        if ref:
            self.units(d, 0, ref)
        return d, ref

    def navigation(self, p):
        d, ref = self.text(p)
        st = self.style
        level, n = int(p.get("level", 1)), int(p.get("groupBy", 1))
        us = self.groups(self.units(d, level, ref), n)
        pages = self.pages(us, self.refpage)
        last, page = len(pages), int(p.get("page", 1))
        if not 1 <= page <= last:
            raise Bad("page")
        at = self.level(level, ref)
        o = {"@context": st.ctx, "@id": self.link("navigation", [("id", d.id)]), st.d("level"): at,
             st.d("citeDepth"): d.text.depth}
        kind = d.kinds.get(at)
        mine = pages[page - 1]
        given = kind
        if kind is not None and self.vary and self.rng.random() < 0.7:
            # a page may name another kind, or none: then its members name theirs
            given = self.rng.choice([None] + [d.about[g[0].s][0] for g in mine
                                              if len(g) == 1 and d.about.get(g[0].s, (None,))[0] is not None])
        if given is not None:
            o[st.d("citeType")] = given
        ms = []
        for g in mine:
            m = {st.d("ref"): g[0].s} if len(g) == 1 else {st.d("start"): g[0].s, st.d("end"): g[-1].s}
            if len(g) > 1 and given != kind:
                m[st.d("citeType")] = kind
            if len(g) == 1:
                own, about = d.about.get(g[0].s, (None, []))
                if own is None and given != kind:
                    own = kind
                if own is not None:
                    m[st.d("citeType")] = own
                if about and p.get("exclude") != "dts:extensions":
                    m[st.d("extensions")] = st.statements(about)
            ms.append(m)
        if ms or self.rng.random() < 0.5:
            o[st.h("member")] = st.many(ms)
        if last > 1 or self.reach:
            params = [(k, v) for k, v in p.items() if k != "page"]
            o[st.h("view")] = self.view("navigation", params, page, last)
        return self.answer(o)

    def documents(self, p):
        d, ref = self.text(p)
        links = [(self.link("collections", [("id", d.id)]), "collection")]
        if ref is None:
            el = ctsd.from_canon(tei._canon(d.text.root))
        else:
            doc = d.text
            el = ctsd.skeleton(doc, *(doc.find(r.split(".")) for r in (ref[0], ref[-1])))
            for r, rel in zip(self.near(d, ref), ("prev", "next", "up", "first", "last")):
                if r is not None:
                    ps = [("ref", r[0])] if len(r) == 1 else [("start", r[0]), ("end", r[1])]
                    links.append((self.link("documents", [("id", d.id)] + ps), rel))
                elif rel == "up" and self.rng.random() < 0.5:
                    links.append((self.link("documents", [("id", d.id)]), rel))
        self.rng.shuffle(links)
        header = ", ".join("<%s>; rel=\"%s\"" % l for l in links)
        body = etree.tostring(el, encoding="unicode")
        if self.plain:
            return http.Answer(body, 200, "application/tei+xml", [("Link", header)])
        return http.xml_answer(self.rng, tei.written(self.rng, body), ["application/tei+xml", "application/xml; charset=utf-8", "text/xml"], [("Link", header)])
