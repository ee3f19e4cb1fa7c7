"""Generated CTS inventories: a model (plain Python objects) and its XML."""
from xml.sax.saxutils import escape, quoteattr

from vlib.gen import text, lang, word, LANGS, ALPHA

TI = "http://chs.harvard.edu/xmlns/cts"
CPT = "http://purl.org/capitains/ns/1.0#"
RDFNS = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
XSDNS = "http://www.w3.org/2001/XMLSchema#"
DCNS = "http://purl.org/dc/elements/1.1/"
DCTNS = "http://purl.org/dc/terms/"
SAWS = "http://purl.org/saws/ontology#"
SCM = "http://schema.org/"
PREFIXES = {"cpt": CPT, "rdf": RDFNS, "xsd": XSDNS, "dc": DCNS, "dct": DCTNS, "saws": SAWS, "scm": SCM}
SM_PREDS = [DCNS + "creator", DCNS + "contributor", DCTNS + "dateCopyrighted", DCTNS + "abstract", SAWS + "cost",
            SAWS + "isAttributedToAuthor", SCM + "birthDate", SCM + "birthPlace"]


class M:
    """One node: kind in inventory, textgroup, work, edition, translation, commentary."""
    def __init__(self, kind, urn, **kw):
        self.kind, self.urn = kind, urn
        self.lang = None          # xml:lang as declared
        self.names = {}           # groupname / title / label: lang -> text
        self.descs = {}           # texts only
        self.abouts = []          # texts only
        self.cite = []            # texts only: [(name, scope, xpath)]
        self.sm = []              # structured metadata: (predicate, (type, text, lang, datatype), how)
        self.kids = []
        self.parent = None
        self.__dict__.update(kw)

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()

    def texts(self):
        return [x for x in self.walk() if x.kind in TEXTS]

    def add(self, kid):
        kid.parent = self
        self.kids.append(kid)
        return kid

    def effective_lang(self):
        if self.kind == "edition":
            return self.parent.lang
        if self.kind in TEXTS:
            return self.lang or self.parent.lang
        return self.lang


TEXTS = ("edition", "translation", "commentary")
NAME_TAG = {"textgroup": "groupname", "work": "title", "edition": "label", "translation": "label", "commentary": "label"}


def names(rng, lo=1, hi=3):
    return {l: (text(rng) if rng.random() < 0.97 else "") for l in rng.sample(LANGS, rng.randrange(lo, hi + 1))}


def component(rng, taken):
    while True:
        k = rng.randrange(6)
        if k < 2:
            c = rng.choice(["phi", "tlg", "stoa"]) + "%03d" % rng.randrange(1, 30)
        elif k == 2 and taken:
            c = rng.choice(sorted(taken)) + rng.choice(["1", "a", "b", "0"])     # wk1, wk10
        elif k == 3:
            c = rng.choice(["perseus-lat2", "perseus-eng1", "1st1K-grc1", "opp_fre1", "x"])
        else:
            c = "".join(rng.choice(ALPHA + "0123456789") for _ in range(rng.randrange(1, 6)))
        if c not in taken:
            taken.add(c)
            return c


def structured(rng):
    """-> list of (predicate, expected (type, text, lang, datatype), xml attrs+text)"""
    out = []
    for _ in range(rng.choice([0, 1, 2, 4])):
        p = rng.choice(SM_PREDS)
        k = rng.randrange(8)
        if k == 0:
            t, l = text(rng) if rng.random() < 0.95 else "", lang(rng)
            v, x = ("Literal", t, l, ""), (' xml:lang="%s"' % l, t)
        elif k == 1:
            t, l = rng.choice(["1984", "007", "true", "1.50", "1e3", "-0", "NaN", "False", "0384"]), lang(rng)
            v, x = ("Literal", t, l, ""), (' xml:lang="%s"' % l, t)
        elif k == 2:
            t = rng.choice(["http://ex.org/", "https://ex.org/a?b=1&c=", "urn:cts:x:", "hdl:10.1/",
                            "urn:isbn:", "urn:x:", "urn:cite2:", "http:", "https:x", "hdl:"]) + word(rng)
            v, x = ("URIRef", t, "", ""), ("", t)
        elif k == 3:
            n = rng.choice([0, 7, 1837, -384, 10 ** 12, 9007199254740993, -12345678901234567891])
            w = str(n) if rng.random() < 0.8 else "-0" + str(-n) if n < 0 else "00" + str(n)     # a number, however it is written
            v, x = ("Literal", str(n), "", XSDNS + "integer"), ("", w)
        elif k == 4:
            t = rng.choice(["1.5", "-0.25", "1837.0", "3.14159265358", "0.0625", "123456.789012"])
            v, x = ("Literal", t, "", XSDNS + "float"), ("", t)
        elif k == 5:
            t, d = rng.choice([("1837", "gYear"), ("0384", "string"), ("2001-01-01", "date"), ("true", "boolean"),
                               ("12", "string"), ("a&b", "string")])
            v = ("Literal", t, "", XSDNS + d)
            x = (' rdf:datatype="%s"' % (rng.choice(["xsd:", XSDNS]) + d), t)
        else:
            t = rng.choice(["457BCE", "circa <1>", "a & b", "\"q\"", "urnful", "urn", "httpd", "https", "hdl10.1/a", "not urn:x:y",
                            "http//ex.org", "xsd12", "dcterms", "", "x" + text(rng, 2), "true", "0x1F", "None", "1,000", "12a"])
            v, x = ("Literal", t, "", ""), ("", t)
        if (p, v) not in [(a, b) for a, b, _ in out]:
            out.append((p, v, x))
    return out


def cite(rng):
    n = rng.choice([0, 1, 2, 3])
    out, scope = [], rng.choice(["/tei:TEI/tei:text/tei:body", "/tei:TEI/tei:text/tei:body/tei:div[@type='edition']",
                                 "//tei:body//tei:div"])
    for i in range(n):
        step = rng.choice(["/tei:div[@n='?']", "/tei:div[@type='book' and @n='?']", "//tei:l[@n='?']",
                           "/tei:div[@n='?' and @type='a&b']"]) if True else ""
        out.append((rng.choice(["book", "poem", "line", "l & m", "say \"x\"", "a &lt; b &amp; c"]), scope, step))
        scope += step
    return out


def gen(rng, groups=(1, 3), works=(0, 3), texts=(0, 4), sm=True, ns="latinLit", tiid=None):
    inv = M("inventory", tiid if tiid is not None else rng.choice(["inv" + word(rng), "urn:x:" + word(rng), "defaultInventory"]))
    tgs = set()
    if rng.random() < 0.01 and groups[1] > 1:       # many of one kind
        k = rng.randrange(3)
        if k == 0:
            groups, works, texts = (25, 60), (0, 1), (0, 1)
        else:
            groups, works, texts = (1, 1), ((1, 1), (25, 60))[k == 1], ((25, 60), (0, 1))[k == 1]
    for _ in range(rng.randint(*groups)):
        nsp = ns if rng.random() < 0.7 else rng.choice(["greekLit", ns])
        tg = inv.add(M("textgroup", "urn:cts:%s:%s" % (nsp, component(rng, tgs)), names=names(rng),
                       sm=structured(rng) if sm else []))
        gen_works(rng, tg, works, texts, sm)
    if rng.random() < 0.5:          # wk10 before wk1
        for n in list(inv.walk()):
            rng.shuffle(n.kids)
    return inv


def gen_works(rng, tg, works=(0, 3), texts=(0, 4), sm=True, wks=None):
    wks = set() if wks is None else wks
    for _ in range(rng.randint(*works)):
        wk = tg.add(M("work", tg.urn + "." + component(rng, wks), names=names(rng), lang=lang(rng) if rng.random() < 0.9 else None,
                      sm=structured(rng) if sm else []))
        gen_texts(rng, wk, texts, sm)


def gen_texts(rng, wk, texts=(0, 4), sm=True, taken=None):
    taken = set() if taken is None else taken
    for _ in range(rng.randint(*texts)):
        kind = rng.choice(["edition", "edition", "translation", "commentary"])
        t = wk.add(M(kind, wk.urn + "." + component(rng, taken), names=names(rng), descs=names(rng, 0, 2), cite=cite(rng),
                     sm=structured(rng) if sm else []))
        t.lang = wk.lang if kind == "edition" else rng.choice([None, lang(rng), lang(rng)])
        if kind == "commentary":
            t.abouts = ["%s.about%d%s" % (wk.urn, i, rng.choice(["", "", ":1.1", ":1.1-1.4", ":1@arma[1]", "#part"]))
                        for i in range(rng.randrange(4))]


# ---------------------------------------------------------------- XML

def sm_xml(node):
    if not node.sm:
        return ""
    back = {v: k for k, v in PREFIXES.items()}
    out = ""
    for p, _, (attrs, t) in node.sm:
        ns = max((n for n in back if p.startswith(n)), key=len)
        q = back[ns] + ":" + p[len(ns):]
        out += "<%s%s>%s</%s>" % (q, attrs, escape(t), q)
    return "<cpt:structured-metadata>%s</cpt:structured-metadata>" % out


def said(l, rng):
    if l is None:
        return rng.choice(["", ' xml:lang=""']) if rng is not None else ""
    return ' xml:lang="%s"' % l


def bare(rng, m, p=0.12):
    """Some names and descriptions are in no language."""
    for x in m.walk():
        for d in (x.names, x.descs):
            if d and rng.random() < p:
                d[None] = d.pop(rng.choice(list(d)))
    return m


def to_xml(node, rng=None, prefix="ti", top=True, sm=True):
    q = (prefix + ":") if prefix else ""

    def sp():
        return rng.choice(["", "\n", "\n    ", "<!-- c -->"]) if rng is not None else ""
    head = ""
    if top:
        head = ' xmlns%s="%s"' % (":" + prefix if prefix else "", TI)
        head += "".join(' xmlns:%s="%s"' % kv for kv in PREFIXES.items())
    if node.kind == "inventory":
        body = "".join(sp() + to_xml(k, rng, prefix, False, sm) for k in node.kids)
        return "<%sTextInventory%s tiid=%s>%s%s</%sTextInventory>" % (q, head, quoteattr(node.urn), body, sp(), q)
    attrs = " urn=%s" % quoteattr(node.urn)
    if node.lang:
        attrs += ' xml:lang="%s"' % node.lang
    if node.parent is not None and node.kind == "work":
        attrs += " groupUrn=%s" % quoteattr(node.parent.urn)
    if node.parent is not None and node.kind in TEXTS:
        attrs += " workUrn=%s" % quoteattr(node.parent.urn)
    tag = NAME_TAG[node.kind]
    body = "".join(sp() + '<%s%s%s>%s</%s%s>' % (q, tag, said(l, rng), escape(t), q, tag) for l, t in node.names.items())
    body += "".join(sp() + '<%sdescription%s>%s</%sdescription>' % (q, said(l, rng), escape(t), q)
                    for l, t in node.descs.items())
    body += "".join(sp() + '<%sabout urn="%s"/>' % (q, a) for a in node.abouts)
    if node.cite:
        c = ""
        for name, scope, xpath in reversed(node.cite):
            c = "<%scitation label=%s scope=%s xpath=%s>%s</%scitation>" % (
                q, quoteattr(name), quoteattr(scope), quoteattr(xpath), c, q)
        body += sp() + "<%sonline><%scitationMapping>%s</%scitationMapping></%sonline>" % (q, q, c, q, q)
    body += "".join(sp() + to_xml(k, rng, prefix, False, sm) for k in node.kids)
    if sm:
        body += sp() + sm_xml(node)
    return "<%s%s%s%s>%s%s</%s%s>" % (q, node.kind, head, attrs, body, sp(), q, node.kind)
