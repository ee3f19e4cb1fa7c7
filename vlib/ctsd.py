"""A CTS server over a model: what a well-behaved endpoint answers, built without the code under test."""
from xml.sax.saxutils import escape, quoteattr

from lxml import etree

from vlib import http, tei
from vlib import inv as I


class Bad(Exception):
    pass


def lex(ref):
    a, _, b = ref.partition("-")
    return a.split("."), b.split(".") if b else a.split(".")


def clone_under(m, urn):
    """The part of inventory m at, above and below urn."""
    out = I.M("inventory", m.urn)
    found = []

    def clone(x, parent):
        c = I.M(x.kind, x.urn)
        c.__dict__.update(x.__dict__)
        c.kids = []
        return parent.add(c)

    def below(x, parent):
        c = clone(x, parent)
        for k in x.kids:
            below(k, c)
        return c

    def walk(x, parent):
        for k in x.kids:
            if k.urn == urn:
                found.append(below(k, parent))
            elif urn.startswith(k.urn + "."):
                walk(k, clone(k, parent))
    walk(m, out)
    return out, found[0] if found else None


def skeleton(doc, a, b):
    """Passage element: the source restricted to a..b."""
    def build(x):
        if x[0] == "full":
            return from_canon(x[1])
        el = etree.Element(x[1], dict(x[2]))
        el.text = x[4] or None
        for k, tail in zip(x[3], x[5]):
            k = build(k)
            k.tail = tail or None
            el.append(k)
        return el
    return build(tei.pruned(doc, a, b))


def from_canon(c):
    if c[0] == "comment":
        return etree.Comment(c[1])
    if c[0] == "processinginstruction":
        n, _, t = "pi", "", c[1]
        return etree.ProcessingInstruction(n, t or None)
    el = etree.Element(c[0], dict(c[1]))
    el.text = c[2] or None
    for k, tail in c[3]:
        k = from_canon(k)
        k.tail = tail or None
        el.append(k)
    return el


def within(doc, a, b, level):
    """Units of the level from a through b."""
    order = {el: i for i, el in enumerate(doc.root.iter())}
    lo, hi = order[a.elem], max(order[x] for x in b.elem.iter())
    return [u for u in doc.units(level) if lo <= order[u.elem] <= hi]


class Server:
    """m: inventory model whose texts with a .doc can be read.

    Style of the answers: rng decides on prefixes, white space and whether the request part repeats the names."""

    plain = False       # answers in UTF-8, as they were put together

    def __init__(self, rng, m):
        self.m, self.rng = m, rng
        self.prefix = rng.choice(["CTS", "ti", ""])
        self.named = rng.random() < 0.7          # the request part carries names and citation
        # where the citation is said: with the names, only in the request part, only in the label, nowhere
        self.cites = rng.choice(["both"] * 5 + ["request", "label", "no"])
        self.empty_urn = rng.random() < 0.5      # an absent neighbour is <prev/> or <prev><urn/></prev>
        self.lenient = rng.random() < 0.3        # the whole catalogue, whatever part is asked for

    # -------- model
    def text(self, urn):
        """-> (text model, reference or None)"""
        parts = urn.split(":")
        if parts[:2] != ["urn", "cts"] or len(parts) not in (4, 5):
            raise Bad("urn " + urn)
        base = ":".join(parts[:4])
        for t in self.m.texts():
            if t.urn == base and getattr(t, "doc", None) is not None:
                return t, parts[4] if len(parts) == 5 else None
        raise Bad("no such text " + urn)

    def units(self, t, ref):
        a, b = lex(ref)
        a, b = t.doc.find(a), t.doc.find(b)
        if a is None or b is None:
            raise Bad("no such reference " + ref)
        return a, b

    def reffs(self, t, ref, level):
        doc = t.doc
        if ref is None:
            if not 1 <= level <= doc.depth:
                raise Bad("level %d" % level)
            return doc.units(level)
        a, b = self.units(t, ref)
        at = min(len(a.ref), len(b.ref))
        level = max(level, at + 1)
        if level > doc.depth:
            return []
        return within(doc, a, b, level)

    def siblings(self, t, ref):
        a, b = self.units(t, ref)
        us = t.doc.units(len(a.ref))
        if b not in us:
            return None, None       # over two levels: no neighbours
        i, j = us.index(a), us.index(b)
        return us[i - 1].s if i else None, us[j + 1].s if j + 1 < len(us) else None

    # -------- wire
    @property
    def in_request(self):
        return self.named and self.cites in ("both", "request")

    @property
    def in_label(self):
        return self.cites in ("both", "label")

    def names(self, t, cite):
        q = self.q
        out = ""
        wk, tg = t.parent, t.parent.parent
        for tag, n in (("groupname", tg.names), ("title", wk.names), ("label", t.names), ("description", t.descs)):
            out += "".join('<%s%s xml:lang="%s">%s</%s%s>' % (q, tag, l, escape(v), q, tag) for l, v in n.items())
        c = ""
        for name, scope, xpath in reversed(t.cite if cite else []):
            c = "<%scitation label=%s scope=%s xpath=%s>%s</%scitation>" % (
                q, quoteattr(name), quoteattr(scope), quoteattr(xpath), c, q)
        return out + c

    @property
    def q(self):
        return self.prefix + ":" if self.prefix else ""

    def __call__(self, req):
        try:
            if self.plain:
                return http.Answer(self.answer(req))
            return http.xml_answer(self.rng, tei.written(self.rng, self.answer(req), r">([^<>&]*\w)<"),
                                   ["text/xml", "application/xml; charset=utf-8"])
        except Bad as e:
            return http.Answer("<CTSError xmlns='%s'><message>%s</message></CTSError>" % (I.TI, escape(str(e))), 404)

    def answer(self, req):
        p = req.params
        verb, urn = p.get("request"), p.get("urn")
        if verb == "GetCapabilities":
            m = self.m
            if urn and not self.lenient:
                m, _ = clone_under(self.m, urn)
            return "<GetCapabilities xmlns='%s'><request><requestName>GetCapabilities</requestName></request><reply>%s</reply>" \
                   "</GetCapabilities>" % (I.TI, I.to_xml(m, self.rng, prefix=self.prefix))
        t, ref = self.text(urn or "")
        q = self.q
        head = "<%srequest><%srequestName>%s</%srequestName><%srequestUrn>%s</%srequestUrn>" % (
            q, q, verb, q, q, escape(urn), q)
        if self.named:
            head += self.names(t, self.in_request)
        head += "</%srequest>" % q

        def tag(name, inner):
            return "<%s%s>%s</%s%s>" % (q, name, inner, q, name)

        def urns(us):
            return "".join(tag("urn", escape(t.urn + ":" + s)) for s in us)

        def near():
            prev, nxt = self.siblings(t, ref) if ref is not None else (None, None)
            none = tag("urn", "") if self.empty_urn else ""
            return tag("prevnext", tag("prev", urns([prev]) if prev else none) + tag("next", urns([nxt]) if nxt else none))

        def passage():
            if ref is None:
                el = from_canon(tei._canon(t.doc.root))
            else:
                el = skeleton(t.doc, *self.units(t, ref))
            return tag("passage", etree.tostring(el, encoding="unicode"))
        if verb == "GetValidReff":
            level = int(p.get("level", 1))
            body = tag("reff", urns([u.s for u in self.reffs(t, ref, level)]))
        elif verb == "GetFirstUrn":
            us = self.reffs(t, ref, 1)[:1]
            body = urns([u.s for u in us]) or tag("urn", "")
        elif verb == "GetPrevNextUrn":
            if ref is None:
                raise Bad("no reference")
            body = near()
        elif verb == "GetLabel":
            body = tag("urn", escape(urn)) + tag("label", self.names(t, self.in_label))
        elif verb == "GetPassage":
            body = tag("urn", escape(urn)) + passage()
        elif verb == "GetPassagePlus":
            body = tag("urn", escape(urn)) + tag("label", self.names(t, self.in_label)) + passage() + near()
        else:
            raise Bad("request " + str(verb))
        sp = self.rng.choice(["", "\n  "])
        ns = "xmlns:%s=" % self.prefix if self.prefix else "xmlns="
        return "<%s%s %s'%s' xmlns:tei='%s'>%s%s%s%s</%s%s>" % (
            q, verb, ns, I.TI, tei.TEI, sp, head, sp, tag("reply", body), q, verb)
