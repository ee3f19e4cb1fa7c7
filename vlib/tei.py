"""Generator of TEI editions together with an independent model of what they contain."""
import re
from lxml import etree

from vlib.gen import label, text, word

TEI = "http://www.tei-c.org/ns/1.0"
XML = "http://www.w3.org/XML/1998/namespace"
Q = "{%s}" % TEI


class Level:
    __slots__ = ("name", "elem", "attr", "preds", "axis", "wrap", "test")


class Unit:
    """A cited unit: ref is its list of labels, elem its element in doc.root, subs its cited children."""
    __slots__ = ("ref", "elem", "subs", "own")

    def __init__(self, ref, elem):
        self.ref, self.elem, self.subs = ref, elem, []

    @property
    def s(self):
        return ".".join(self.ref)


class Doc:
    def units(self, depth):
        """Units of a level, in document order."""
        cur = self.top
        for _ in range(depth - 1):
            cur = [x for u in cur for x in u.subs]
        return cur

    @property
    def depth(self):
        return len(self.levels)

    def find(self, ref):
        cur, u = self.top, None
        for l in ref:
            u = [x for x in cur if x.ref[-1] == l]
            if not u:
                return None
            u = u[0]
            cur = u.subs
        return u

    def order(self):
        """Position of every node, and of the last node in it."""
        if getattr(self, "_order", None) is None:
            seq = list(self.root.iter())
            last = {}
            for i in range(len(seq) - 1, -1, -1):
                last[seq[i]] = max([i] + [last[c] for c in seq[i].iterchildren()])
            self._order = {el: (i, last[el]) for i, el in enumerate(seq)}
        return self._order

    def refsdecl(self, n):
        return self.base + "".join(step(l, i + 1) for i, l in enumerate(self.levels[:n]))


def step(level, i):
    return "%s%s[@%s='$%d']%s" % (level.axis, (level.test or "tei:%s") % level.elem, level.attr, i, level.preds)


NAMES = ["book", "poem", "line", "chapter", "section", "verse", "act", "scene", "speech", "card", "Book", "pr-line"]


def gen_levels(rng, depth=None, xmlid=True):
    depth = depth or rng.choice([1, 2, 2, 2, 3, 3, 3, 4])
    levels = []
    names = rng.sample(NAMES, depth)
    for i in range(depth):
        l = Level()
        last = i == depth - 1
        l.name = names[i]
        l.elem = rng.choice(["l", "p", "seg", "ab", "div"]) if last else rng.choice(["div", "div", "lg", "div1", "sp"])
        if not last:
            while levels and l.elem == levels[-1].elem and l.elem != "div":
                l.elem = rng.choice(["div", "lg", "div1", "sp"])
        elif levels and l.elem == levels[-1].elem and l.elem != "div":
            l.elem = "l"
        l.attr = "n" if rng.random() < 0.85 else "corresp"
        l.preds = ""
        l.test = rng.choice(["*[self::tei:%s]", "*[self::tei:%s or self::tei:zz]"]) if rng.random() < 0.08 else None
        if l.elem == "div" and rng.random() < 0.5:
            l.preds = rng.choice(["[@type='textpart']", "[@subtype='%s']" % l.name, "[@type='text-part']", "[@subtype='a/b']",
                                  "[@subtype='1']", "[@subtype=\"it's\"]", "[@subtype='say \"x\"']", "[@subtype='a.b']",
                                  "[@subtype='cost: $']", "[@subtype='sure?']"])
        l.axis = "/"
        l.wrap = None
        # descendant axis: units may lie below uncited wrappers (never for div, which would nest ambiguously)
        if not last and l.elem in ("lg", "div1", "sp") and not any(x.elem == l.elem for x in levels) \
                and rng.random() < 0.4:
            l.axis = "//"
            l.wrap = rng.choice(["quote", "floatingText"]) if rng.random() < 0.7 else None
        if l.elem in ("l", "p", "seg", "ab") and rng.random() < (0.5 if i else 0.25):
            l.axis = "//"
            l.wrap = rng.choice(["lg", "quote", "floatingText"]) if rng.random() < 0.7 else None
            if any(x.elem == l.wrap for x in levels):
                l.wrap = "quote"
        levels.append(l)
    for l in levels:
        # an element of the same name at another level, or a wrapper that is a level, would be ambiguous
        if l.axis == "//" and sum(x.elem == l.elem for x in levels) > 1:
            l.axis, l.wrap = "/", None
        if any(x.elem == l.wrap for x in levels):
            l.wrap = "quote"
    for l in levels:
        # units inside uncited elements that the path names: several of them stand side by side
        if l.axis == "/" and rng.random() < 0.12:
            l.wrap = rng.choice(["quote", "floatingText"])
            l.axis = "/tei:%s/" % l.wrap
    if xmlid and depth == 1 and rng.random() < 0.15:
        levels[0].attr = "xml:id"
    return levels


def clark(attr):
    return attr.replace("xml:", "{%s}" % XML)


def pred_attrs(preds):
    out = {}
    if preds:
        k, v = preds[2:-1].split("=")
        out[k] = v[1:-1]
    return out


class _State:
    def __init__(self, rng, features):
        self.rng, self.n, self.f = rng, 0, features

    def tok(self):
        self.n += 1
        return "w%d" % self.n


def fill_leaf(st, el):
    """Content of a leaf unit: unique tokens, duplicated text, inline markup, nothing at all..."""
    rng = st.rng
    k = rng.random()
    if k < 0.08:
        return                                   # empty
    if k < 0.3 and st.f["dups"]:
        el.text = rng.choice(["eadem verba", "1", "true", "eadem verba", "  ", "1.0"])   # same value as others
        return
    el.text = st.tok() + rng.choice([" ", "", "  ", "\n   "]) + text(rng, 3)
    if rng.random() < 0.02:
        el.text += rng.choice(["\r", "\r\n", "\t", "\u0085", "\u2028"]) + st.tok()
    if k < 0.7:
        return
    for _ in range(rng.randrange(1, 4)):
        kind = rng.choice(["hi", "note", "add", "lb", "comment", "pi", "nest"])
        if rng.random() < 0.02:
            c = etree.SubElement(el, rng.choice(["{http://www.w3.org/1998/Math/MathML}mi", "{http://www.tei-c.org/ns/Examples}l"]))
            c.text = st.tok()
            c.set("n", "1")
        if kind == "comment":
            if not st.f["comments"]:
                continue
            c = etree.Comment(" c%d " % st.n)
        elif kind == "pi":
            if not st.f["comments"]:
                continue
            c = etree.ProcessingInstruction("pi", "x%d" % st.n)
        elif kind == "lb":
            c = etree.Element(Q + "lb")
            if rng.random() < 0.5:
                c.set("n", "1")
        else:
            c = etree.Element(Q + (kind if kind != "nest" else "q"))
            c.text = st.tok() + " " + text(rng, 2)
            if kind == "nest":
                d = etree.SubElement(c, Q + rng.choice(["note", "hi"]))
                d.text = st.tok()
                if rng.random() < 0.5:
                    d.tail = " " + st.tok()
        if rng.random() < 0.7:
            c.tail = rng.choice([" ", ""]) + st.tok() + rng.choice(["", " "])
        el.append(c)


def uncited(st, parent):
    rng = st.rng
    k = rng.choice(["head", "milestone", "pb", "note", "comment", "pi", "label"])
    if k in ("comment", "pi"):
        if not st.f["comments"]:
            return
        c = etree.Comment(" between ") if k == "comment" else etree.ProcessingInstruction("between", "x")
    else:
        c = etree.Element(Q + k)
        if k in ("head", "note", "label"):
            c.text = st.tok() + " " + text(rng, 2)
        elif rng.random() < 0.5:
            c.set("n", rng.choice(["1", "2", "p1"]))
            c.set("unit", "page")
    parent.append(c)


def gen_labels(rng, n, hostile):
    if rng.random() < 0.35:
        start = rng.choice([1, 1, 1, 8, 98])
        return [str(i) for i in range(start, start + n)]
    out = []
    if n < 13 and rng.random() < 0.07:          # made of one another, in the other parts of the text too
        return rng.sample(["1", "11", "111", "2", "12", "21", "112", "121", "211", "1a", "a1", "a"], n)
    while len(out) < n:
        l = label(rng, hostile)
        if l not in out:
            out.append(l)
    return out


def build_units(st, doc, parent, prefix, depth, width):
    rng = st.rng
    level = doc.levels[depth]
    units = []
    host = parent
    most = width[depth] if isinstance(width, list) else width
    count = rng.randrange(1 if most < 9 else most // 2, most + 1)
    mixed = st.f["mixed"] and rng.random() < 0.6

    def running(el, where):
        """Text between elements: punctuation or words (space alone is dropped by some parsers)."""
        if mixed and rng.random() < 0.5:
            setattr(el, where, rng.choice([", ", "; ", "\n  " + st.tok() + " ", " " + st.tok(), "eadem verba "]))

    running(parent, "text")
    labels = ["x%d" % (7 * i) for i in range(count)] if level.attr == "xml:id" else gen_labels(rng, count, st.f["hostile"])
    for l in labels:
        if level.wrap:
            k = rng.random()
            named = level.axis != "//"
            if k < 0.3 or (named and host is parent):
                if len(parent):
                    running(parent[-1], "tail")
                host = etree.SubElement(parent, Q + level.wrap)
                if rng.random() < 0.4:
                    host.set("rend", rng.choice(["", "w" + str(rng.randrange(9))]))
                if rng.random() < 0.2 and not named:
                    running(host, "text")
                    host = etree.SubElement(host, Q + level.wrap)
                running(host, "text")
            elif k < 0.45 and not named:
                host = parent
        if st.f["uncited"] and rng.random() < 0.15:
            uncited(st, host)
        if len(host):
            running(host[-1], "tail")
        el = etree.SubElement(host, Q + level.elem)
        for k, v in pred_attrs(level.preds).items():
            el.set(k, v)
        el.set(clark(level.attr), l)
        if rng.random() < 0.15:
            el.set("{%s}lang" % XML, rng.choice(["lat", "grc"]))
        if rng.random() < 0.1:
            el.set("rend", rng.choice([text(rng, 2), ""]))
        if rng.random() < 0.05:
            el.set("{http://example.org/marks}rend", rng.choice(["a", "", "1 < 2"]))
        if rng.random() < 0.06:
            k, v = rng.choice([("{%s}space" % XML, "preserve"), ("{%s}base" % XML, "http://example.org/"), ("xml", "1"),
                               ("part", "I"), ("type", ""), ("N", "9"), ("id", "x")])
            if clark(level.attr) != k and k not in el.attrib:
                el.set(k, v)
        u = Unit(prefix + [l], el)
        if depth + 1 < len(doc.levels):
            if st.f["ragged"] and rng.random() < 0.12:
                fill_leaf(st, el)             # a container with no cited children
            else:
                u.subs = build_units(st, doc, el, u.ref, depth + 1, width)
        else:
            fill_leaf(st, el)
        running(el, "tail")
        units.append(u)
    if st.f["uncited"] and rng.random() < 0.15:
        uncited(st, host)
        if len(host):
            running(host[-1], "tail")
    return units


def gen_doc(rng, depth=None, width=None, dups=True, comments=True, uncited_=True, ragged=False, hostile=True,
            decoys=True, mixed=None):
    """-> Doc: .xml (source string), .root (plain lxml tree of the source), .levels, .top, .base"""
    st = _State(rng, dict(dups=dups, comments=comments, uncited=uncited_, ragged=ragged, hostile=hostile,
                         mixed=rng.random() < 0.3 if mixed is None else mixed))
    doc = Doc()
    if depth is None and width is None:
        k = rng.random()
        if k < 0.03:        # deep
            depth, width = rng.choice([(5, 2), (5, 2), (6, 2)])
        elif k < 0.06:      # wide, somewhere
            depth, width = rng.choice([(1, [60]), (2, [30, 2]), (2, [2, 25]), (3, [2, 14, 2]), (3, [12, 2, 2])])
        elif k < 0.064:     # more of both
            depth, width = rng.choice([(1, [280]), (2, [3, 150]), (2, [120, 2]), (7, [2, 1, 2, 1, 1, 2, 2]),
                                       (9, [2, 1, 1, 2, 1, 1, 1, 2, 2]), (12, [2] + [1] * 9 + [2, 2])])
    doc.levels = gen_levels(rng, depth)
    decoys = decoys and not any(l.attr == "xml:id" for l in doc.levels)
    doc.base = "/tei:TEI/tei:text/tei:body"
    root = etree.Element(Q + "TEI", nsmap={"tei" if rng.random() < 0.1 else rng.choice(["t", None]) if rng.random() < 0.04 else None: TEI})
    header = etree.SubElement(root, Q + "teiHeader")
    enc = etree.SubElement(header, Q + "encodingDesc")
    textel = etree.SubElement(root, Q + "text")
    if rng.random() < 0.3:
        textel.set("{%s}lang" % XML, "lat")
    if decoys and rng.random() < 0.3:
        front = etree.SubElement(textel, Q + "front")
        _decoy(st, doc, front)
    body = etree.SubElement(textel, Q + "body")
    host = body
    if rng.random() < 0.6 or doc.levels[0].axis == "//":
        n, sub = rng.choice(["1", "12", "urn:cts:x"]), rng.choice([None, "a/b", "1", "[x]"])
        doc.base += "/tei:div" + rng.choice(["[@type='edition']"] * 4 + ["[@n='%s']" % n, "[@type='edition' and @n='%s']" % n] +
                                            (["[@type='edition'][@subtype='%s']" % sub] if sub and "[" not in sub else []))
        if decoys and rng.random() < 0.5:
            _decoy(st, doc, etree.SubElement(body, Q + "div", type="apparatus"))
        host = etree.SubElement(body, Q + "div", type="edition")
        host.set("n", n)
        if sub:
            host.set("subtype", sub)
        if decoys and rng.random() < 0.5:
            _decoy(st, doc, etree.SubElement(body, Q + "div", type="commentary"))
    if width is None:
        width = {1: 8, 2: 5, 3: 4, 4: 3}[len(doc.levels)]
    if rng.random() < 0.2:      # an edition may be found in other ways
        doc.base = doc.base.replace(*rng.choice([("/tei:TEI/tei:text/", "//"), ("/tei:TEI/tei:text/", "//tei:text/"),
                                                 ("/tei:TEI/", "/*/"), ("/tei:TEI/tei:text/", "/tei:TEI//")]))
    doc.top = build_units(st, doc, host, [], 0, width)
    doc.host = host
    for el in (root, textel, body, host):
        if rng.random() < 0.15:
            el.set(rng.choice(["rend", "rendition", "{http://example.org/marks}rend", "{%s}base" % XML]), rng.choice(["", "", "a b", "x&y"]))
    # refsDecl, deepest first
    rd = etree.SubElement(enc, Q + "refsDecl", n="CTS")
    for i in range(len(doc.levels), 0, -1):
        p = etree.SubElement(rd, Q + "cRefPattern", n=doc.levels[i - 1].name,
                             matchPattern=r"\.".join([r"(\w+)"] * i),
                             replacementPattern="#xpath(%s)" % doc.refsdecl(i))
        etree.SubElement(p, Q + "p").text = "This pointer pattern extracts " + doc.levels[i - 1].name
    if rng.random() < 0.3:
        etree.SubElement(enc, Q + "refsDecl").text = "not the CTS one"
    doc.root = root
    doc.xml = written(rng, etree.tostring(root, encoding="unicode"))
    doc.features = st.f
    return doc


def written(rng, s, words=r">([^<>&]*w[0-9][^<>&]*)<"):
    """The same document, written as others would."""
    k = rng.random()
    if k < 0.04:
        s = re.sub(words, lambda m: "><![CDATA[%s]]><" % m.group(1) if rng.random() < 0.5 else m.group(), s)
    elif k < 0.08:
        s = re.sub(r"[^\x00-\x7f]", lambda m: rng.choice(["&#%d;", "&#x%x;"]) % ord(m.group()), s)
    elif k < 0.12:
        s = re.sub(r'="([^"\'<>]*)"', r"='\1'", s)
    if rng.random() < 0.06:
        s = rng.choice(["<!-- an edition -->\n", "<?xml-model href='x.rng'?>\n", "<!DOCTYPE %s>\n" % re.search(r"<([\w:]+)", s).group(1)]) + s
        s += rng.choice(["", "\n", "\n<!-- end -->\n"])
    return s


def _decoy(st, doc, host):
    """Same cited structure outside the edition: must never be picked up."""
    f, st.f = st.f, dict(st.f, uncited=False, comments=False, mixed=False)
    saved = st.n
    units = build_units(st, doc, host, [], 0, 2)
    for el in host.iter():
        if el.text:
            el.text = "DECOY"
        if el.tail:
            el.tail = "DECOY"
    st.f = f
    st.n = saved
    return units


# ---------------------------------------------------------------- canonical forms

def attrs(el):
    return tuple(sorted(el.attrib.items()))


def is_element(n):
    return isinstance(n.tag, str)


def plain_tree(el):
    """The same element as a plain lxml tree (objectified proxies show comments as elements)."""
    return etree.fromstring(etree.tostring(el, with_tail=False, encoding="unicode"))


def canon(el):
    """Full content of an element, tail excluded, comments and PIs included."""
    return _canon(plain_tree(el))


def _canon(el):
    if not is_element(el):
        return (type(el).__name__.lstrip("_").lower(), el.text or "")
    return (el.tag, attrs(el), el.text or "", tuple((_canon(c), c.tail or "") for c in el.iterchildren()))


def blank(s):
    return s is None or not s.strip()


# ---------------------------------------------------------------- expected shape of a passage

def pruned(doc, start, end):
    """What a context passage for start..end must be: the source tree restricted to the document-order span from the
    beginning of start to the end of end, text between elements included.
    -> nested ('anc', tag, attrs, children, text, tails) / ('full', canon)"""
    order = doc.order()
    s0, e1 = order[start.elem][0], order[end.elem][1]
    above = set(end.elem.iterancestors())

    def build(el):
        lo, hi = order[el]
        if lo >= s0 and hi <= e1 and el not in above:
            return ("full", _canon(el))
        kids, tails = [], []
        txt = el.text or "" if lo >= s0 else ""
        for c in el.iterchildren():
            clo, chi = order[c]
            if chi >= s0 and clo <= e1 and (is_element(c) or clo >= s0):
                kids.append(build(c) if is_element(c) else ("full", _canon(c)))
                tails.append("")
            if s0 <= chi < e1:                  # what follows c lies between
                if tails:
                    tails[-1] += c.tail or ""
                else:
                    txt += c.tail or ""
        return ("anc", el.tag, attrs(el), tuple(kids), txt, tuple(tails))
    return build(doc.root)


def range_text(doc, start, end, exclude=()):
    """Text pieces between the beginning of start and the end of end, in document order."""
    order = doc.order()
    s0, e1 = order[start.elem][0], order[end.elem][1]
    inside = set(end.elem.iter()) - {end.elem}
    out = []

    def walk(el):
        lo, hi = order[el]
        if is_element(el):
            if el.tag in exclude:
                return
            if el.text and s0 <= lo <= e1:
                out.append(el.text)
            for c in el.iterchildren():
                walk(c)
                if c.tail and s0 <= order[c][1] and (order[c][1] < e1 or c in inside):
                    out.append(c.tail)
    walk(doc.root)
    return out


def matches(actual, expected):
    """None if the element matches the expected shape, else a description of the first difference."""
    return _matches(plain_tree(actual), expected, "")


def visible(s):
    """Text as it is; some parsers drop what is white space alone."""
    return s if s and s.strip() else ""


def _matches(actual, expected, path):
    if expected[0] == "full":
        c, want = _canon(actual), expected[1]
        if c != want:
            return "%s: content differs: %r != %r" % (path, c, want)
        return None
    _, tag, at, kids, txt, tails = expected
    if actual.tag != tag:
        return "%s: tag %r != %r" % (path, actual.tag, tag)
    if attrs(actual) != at:
        return "%s/%s: attributes %r != %r" % (path, tag, attrs(actual), at)
    got = list(actual.iterchildren())
    if visible(actual.text) != visible(txt):
        return "%s/%s: text %r != %r" % (path, tag, actual.text, txt)
    if len(got) != len(kids):
        return "%s/%s: %d children instead of %d: %r" % (
            path, tag, len(got), len(kids), [(c.tag, c.get("n")) if is_element(c) else c.text for c in got])
    for g, k, t in zip(got, kids, tails):
        if visible(g.tail) != visible(t):
            return "%s/%s: text after a child %r != %r" % (path, tag, g.tail, t)
        d = _matches(g, k, path + "/" + tag.split("}")[-1])
        if d:
            return d
    return None


def plain(el, exclude=()):
    """Text pieces of an element in document order, comments and PIs left out, excluded elements left out."""
    out = []

    def walk(e):
        if not is_element(e):
            return
        if e.tag in exclude:
            return
        if e.text:
            out.append(e.text)
        for c in e.iterchildren():
            walk(c)
            if c.tail:
                out.append(c.tail)
    walk(el)
    return out


def open_text(rng, doc, urn=None, how=None):
    """Build the text object under test from one of its source forms."""
    import io
    from lxml import objectify
    from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText
    from MyCapytain.common.utils.xml import xmlparser
    how = how or rng.choice(["str", "file", "parsed", "plain-etree", "objectified"])
    if how == "str":
        res = doc.xml
        if rng.random() < 0.3 and res[:2] != "<?":
            res = "<?xml version='1.0' encoding=\"%s\"?>\n%s" % (rng.choice(["UTF-8", "utf-8", "ISO-8859-15"]), res)
    elif how == "file":
        res = io.StringIO(doc.xml)
    elif how == "parsed":
        res = xmlparser(doc.xml)
    elif how == "plain-etree":
        res = xmlparser(doc.xml, objectify=False)
    else:
        res = objectify.parse(io.StringIO(doc.xml)).getroot()
    return how, CapitainsCtsText(resource=res, urn=urn)
