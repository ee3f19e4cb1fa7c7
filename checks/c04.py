"""C04: citation schemes."""
import copy
import pickle
import re

from lxml import etree
from pyld import jsonld

from vlib.core import declare, scenario
from vlib.gen import label, text
from vlib import tei
from MyCapytain.common.constants import Mimetypes, XPATH_NAMESPACES, RDF_NAMESPACES, get_graph
from MyCapytain.common.reference import Citation, CtsReference, DtsCitationSet, DtsCitation
from MyCapytain.common.utils.xml import xmlparser
from MyCapytain.resources.collections.cts import XmlCtsCitation

declare(
    "C04",
    rule="CTS cases: a generated scheme of 1-5 (now and then 9-12) levels (hyphenated/unioned predicates, descendant steps, xml:id, hostile "
         "names) built by one of six routes, probed, edited, exported and re-read. DTS cases: a generated citation forest. "
         "Non-trivial: at least two levels. Distinct: by declaration, names and route (or by forest).",
    require={"shape": 500, "root": 300, "xpath-scope": 300, "fill": 300, "select": 300, "match": 300, "setter": 300,
             "roundtrip-cts": 150, "roundtrip-tei": 150, "copy": 150, "dts": 300, "dts-roundtrip": 100},
)

NAMES = ["book", "poem", "line", "Book", "a b", "chapitre", "livre é", "§", "l'acte", "漢", "x<y", "R&B", "\"q\""]


class L:
    pass


def gen_levels(rng, n):
    out = []
    for i in range(n):
        l = L()
        l.name = rng.choice(NAMES) + (str(i) if rng.random() < 0.5 else "")
        l.attr = rng.choice(["n", "n", "n", "xml:id", "corresp"])
        elem = rng.choice(["tei:div", "tei:l", "tei:p", "tei:lg", "tei:div1", "tei:seg", "*", "(tei:l|tei:p)", "tei:s_a"])
        pred = rng.choice(["", "", "[@type='textpart']", "[@type='text-part']", "[@subtype='book_a']",
                           "[not(@ana)]", "[@type='a, b']", "[tei:head]", "[@type='1']", "[@type='a/b']", "[@type='sure?']", "[@type='US$ 2']"])
        axis = rng.choice(["/", "/", "//"])
        wrap = rng.choice(["", "", "", "/tei:lg", "//tei:quote"]) if i else ""
        a, b = rng.choice([(pred, ""), ("", pred)])
        l.template = wrap, axis + elem + a + "[@%s='%%s']" % l.attr + b
        l.axis, l.elem, l.pred = axis, elem, pred
        out.append(l)
    return out


def decl(base, levels, vals):
    return base + "".join(l.template[0] + l.template[1] % v for l, v in zip(levels, vals))


LITERAL = re.compile(r"'([^']*)'|\"([^\"]*)\"")
CONCAT = re.compile(r"concat\(([^()\x01\x02]*\x01[^\x01\x02]*\x02(?:\s*,\s*\x01[^\x01\x02]*\x02)*)\s*\)")


def spelled(xpath):
    """An XPath with its literals apart, so that it does not matter which quotes they are written in."""
    x = LITERAL.sub(lambda m: "\x01%s\x02" % (m.group(1) if m.group(1) is not None else m.group(2)), xpath)
    return CONCAT.sub(lambda m: "\x01%s\x02" % "".join(re.findall("\x01([^\x01\x02]*)\x02", m.group(1))), x)


def filled(template, label):
    return spelled(template.replace("='%s'", "")) if label is None else spelled(template).replace("%s", label)


PREDICATES = {"": (None, lambda e: True), "[not(@ana)]": (("ana", "x", False), lambda e: e.get("ana") is None),
              "[tei:head]": ("head", lambda e: e.find(tei.Q + "head") is not None)}
for _k, _v in (("type", "textpart"), ("type", "text-part"), ("subtype", "book_a"), ("type", "a, b"), ("type", "edition"),
               ("type", "translation-en"), ("type", "1"), ("type", "a/b"), ("type", "sure?"), ("type", "US$ 2"), ("n", "1"), ("n", "12")):
    PREDICATES["[@%s='%s']" % (_k, _v)] = ((_k, _v, True), lambda e, k=_k, v=_v: e.get(k) == v)


def steps_of(base, levels):
    """The steps of a scheme: (any depth, element, predicate, attribute of the label or None)."""
    def plain(path):
        return [(a == "//", e, p, None) for a, e, p in re.findall(r"(//?)tei:(\w+)(\[[^\]]*\])?", path)]
    out = [plain(base)]
    for l in levels:
        out.append(plain(l.template[0]) + [(l.axis == "//", l.elem.replace("tei:", ""), l.pred, l.attr)])
    return out


def document(rng, steps, labels):
    """A tree in which some elements stand where the steps lead, and others nearly."""
    root = etree.Element("{urn:x}root", nsmap={"tei": tei.TEI})

    def grow(at, i, budget):
        if i == len(steps):
            return
        deep, elem, pred, attr, k = steps[i]
        right = rng.randrange(2)
        for j in range(2 if attr or rng.random() < 0.4 else 1):
            host, good = at, j == right or rng.random() < 0.2
            if deep:
                for _ in range(rng.randrange(3)):
                    host = etree.SubElement(host, tei.Q + rng.choice(["ab", "quote", "lg"]))
            wrong = None if good else rng.choice(["label", "pred", "elem"])
            e = etree.SubElement(host, tei.Q + ((rng.choice(["l", "p", "div"]) if elem == "*" else elem) if wrong != "elem"
                                                else "note"))
            if attr:
                e.set(tei.clark(attr), labels[k] if wrong != "label" else
                      rng.choice([labels[k] + "x", labels[k][:-1], "", labels[k].swapcase() + "'"]))
            what = PREDICATES[pred][0]
            if what == "head":
                if wrong != "pred":
                    etree.SubElement(e, tei.Q + "head").text = "h"
            elif what and what[2] == (wrong != "pred"):
                e.set(what[0], what[1])
            if budget > 0:
                grow(e, i + 1, budget - (0 if good else 2))
    grow(root, 0, 3)
    return root


def selected(root, steps, labels):
    """What steps with these labels (None: any) select, worked out without XPath."""
    at = {root}
    for deep, elem, pred, attr, k in steps:
        new = set()
        for x in at:
            for e in (x.iterdescendants() if deep else x):
                name = etree.QName(e)
                if name.namespace != tei.TEI and elem != "*" or elem not in ("*", name.localname):
                    continue
                if not PREDICATES[pred][1](e):
                    continue
                if attr and (e.get(tei.clark(attr)) is None or (labels[k] is not None and e.get(tei.clark(attr)) != labels[k])):
                    continue
                new.add(e)
        at = new
    return [e for e in root.iter() if e in at]


def check_selection(rng, rec, cs, base, levels, i, labels, opened):
    parts = steps_of(base, levels[:i + 1])
    steps = [s + (k - 1,) for k, p in enumerate(parts) for s in p]
    tree = document(rng, steps, labels)
    holder = etree.Element("holder")          # "/a" starts at the document: the first step is asked of the outer element
    holder.append(tree)
    pre = "/holder/*"
    some = 0
    for what, given in ((labels, list(labels)), (opened, opened), ([None] * len(labels), None)):
        want = selected(tree, steps, what)
        some += len(want)
        got = holder.xpath(pre + cs[i].fill(given), namespaces=XPATH_NAMESPACES)
        rec.expect([id(x) for x in got] == [id(x) for x in want], "select", labels=what, xpath=cs[i].fill(given),
                   got=[etree.tostring(x, with_tail=False).decode()[:200] for x in got],
                   want=[etree.tostring(x, with_tail=False).decode()[:200] for x in want])
    if some:
        rec.distinct(tuple(labels), some, i)
    last = steps[-1:]
    want = selected(tree, [(False,) + last[0][1:]], labels) if not last[0][0] else selected(tree, last, labels)
    got = holder.xpath(pre + cs[i].fill(labels[-1], xpath=True), namespaces=XPATH_NAMESPACES)
    rec.expect([id(x) for x in got] == [id(x) for x in want], "select", kind="select-last", xpath=cs[i].fill(labels[-1], xpath=True))


def build(rng, base, levels):
    """-> (route, root citation)"""
    n = len(levels)
    decls = [decl(base, levels[:i + 1], ["$%d" % (j + 1) for j in range(i + 1)]) for i in range(n)]
    pairs = []
    for i in range(n):
        full = decl(base, levels[:i + 1], ["?"] * (i + 1))
        last = levels[i].template[1] % "?"
        pairs.append((full[:-len(last)], last))
    route = rng.choice(["bottom-up", "top-down", "scope-xpath", "children", "tei", "cts"])
    cls = rng.choice([Citation, XmlCtsCitation])
    if route in ("bottom-up", "scope-xpath", "children"):
        cur = None
        for i in reversed(range(n)):
            kw = dict(refsDecl=decls[i]) if route != "scope-xpath" else dict(scope=pairs[i][0], xpath=pairs[i][1])
            if route == "children":
                new = cls(name=levels[i].name, **kw)
                if cur is not None:
                    new.children = [cur]
                cur = new
            else:
                cur = cls(name=levels[i].name, child=cur, **kw)
        return route, cur, decls, pairs
    if route == "top-down":
        cs = [cls(name=levels[i].name, refsDecl=decls[i]) for i in range(n)]
        for i in range(n - 1):
            cs[i].child = cs[i + 1]
        return route, cs[0], decls, pairs
    if route == "tei":
        enc = etree.Element(tei.Q + "refsDecl", n="CTS")
        for i in reversed(range(n)):
            etree.SubElement(enc, tei.Q + "cRefPattern", n=levels[i].name, matchPattern="x",
                             replacementPattern="#xpath(%s)" % decls[i])
        return route, Citation.ingest(enc), decls, pairs
    ns = "http://chs.harvard.edu/xmlns/cts"
    root = etree.Element("{%s}x" % ns)
    cur = root
    for i in range(n):
        cur = etree.SubElement(cur, "{%s}citation" % ns, label=levels[i].name, scope=pairs[i][0], xpath=pairs[i][1])
    return route, XmlCtsCitation.ingest(root), decls, pairs


def check_scheme(rec, root, levels, decls, pairs, route, monitor="shape"):
    n = len(levels)
    cs = list(root)
    rec.eq([c.name for c in cs], [l.name for l in levels], monitor, route=route)
    rec.eq([c.refsDecl for c in cs], decls, monitor, kind="refsDecl", route=route)
    rec.eq(len(root), n, monitor, kind="len")
    rec.eq(root.depth, n, monitor, kind="depth")
    rec.expect(root.is_root(), "root")
    for i, c in enumerate(cs):
        rec.eq((c.scope, c.xpath), pairs[i], "xpath-scope", route=route, refsDecl=decls[i])
        rec.eq(c.attribute, levels[i].attr, monitor, kind="attribute")
        rec.eq(c.depth, n - i, monitor, kind="depth")
        rec.eq(len(c), n - i, monitor, kind="len")
        rec.eq(c.is_empty(), i == n - 1, monitor, kind="is_empty")
        rec.expect(c.is_set(), monitor)
        rec.expect((c.child is cs[i + 1]) if i + 1 < n else c.child is None, monitor, kind="child")
        rec.expect(c.root is root, "root", route=route, level=i, got=c.root, want=root)
        rec.eq(c.is_root(), i == 0, "root", kind="is_root")
        rec.expect(root[i] is c and root[i - n] is c, monitor, kind="index")
    rec.raises((KeyError, IndexError), lambda: root[n], monitor)
    return cs


@scenario(quick=2500, thorough=120000)
def cts_schemes(rng, rec):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5]) if rng.random() < 0.97 else rng.randint(9, 12)
    base = rng.choice(["/tei:TEI/tei:text/tei:body", "/tei:TEI/tei:text/tei:body/tei:div[@type='edition']",
                       "/tei:TEI//tei:body//tei:div[@type='translation-en']", "//tei:body/tei:div",
                       "/tei:TEI/tei:text/tei:body/tei:div[@n='1']", "/tei:TEI/tei:text/tei:group/tei:text[@n='12']/tei:body"])
    levels = gen_levels(rng, n)
    route, root, decls, pairs = build(rng, base, levels)
    rec.op(route, decls, [l.name for l in levels])
    if n > 1:
        rec.distinct(decls[-1], [l.name for l in levels], route)
        rec.sample({"refsDecl": decls[-1], "route": route})
    cs = check_scheme(rec, root, levels, decls, pairs, route)

    # fill: one label per level; None leaves the level open
    for _ in range(4):
        i = rng.randrange(n)
        labels = [label(rng) for _ in range(i + 1)]
        want = spelled(base) + "".join(l.template[0] + filled(l.template[1], v) for l, v in zip(levels, labels))
        rec.eq(spelled(cs[i].fill(list(labels))), want, "fill")
        rec.eq(spelled(cs[i].fill(CtsReference(".".join(labels)))), want, "fill", kind="fill-reference")
        end = [label(rng) for _ in range(rng.randrange(1, n + 1))]     # a range is where it starts
        rec.eq(spelled(cs[i].fill(CtsReference(".".join(labels) + "-" + ".".join(end)))), want, "fill", kind="fill-range")
        opened = [x if rng.random() < 0.5 else None for x in labels]
        want = spelled(base) + "".join(l.template[0] + filled(l.template[1], v) for l, v in zip(levels, opened))
        rec.eq(spelled(cs[i].fill(opened)), want, "fill", kind="fill-open", labels=opened)
        wantall = spelled(base) + "".join(l.template[0] + filled(l.template[1], None) for l in levels[:i + 1])
        rec.eq(spelled(cs[i].fill(None)), wantall, "fill", kind="fill-none")
        rec.eq(spelled(cs[i].fill(labels[-1], xpath=True)), filled(levels[i].template[1], labels[-1]), "fill", kind="fill-last")
        rec.eq(spelled(cs[i].fill(None, xpath=True)), filled(levels[i].template[1], None), "fill", kind="fill-last-open")
        if not any("|" in l.elem for l in levels[:i + 1]):
            check_selection(rng, rec, cs, base, levels, i, labels, opened)

    # match: from any level of the scheme, the level as deep as the reference
    for _ in range(4):
        d = rng.randrange(1, n + 1)
        ref = ".".join(label(rng) for _ in range(d))
        who = rng.choice(cs)
        rec.expect(who.match(ref) is cs[d - 1] and who.match(CtsReference(ref)) is cs[d - 1], "match", ref=ref)
    rec.raises((KeyError, IndexError), lambda: rng.choice(cs).match(".".join("1" * (n + 1))), "match")

    # XML forms read back the same
    if True:
        x = root.export(Mimetypes.XML.CTS)
        q = get_graph().namespace_manager.qname(RDF_NAMESPACES.CTS.citation)
        wrap = '<r xmlns%s="http://chs.harvard.edu/xmlns/cts/">%s</r>' % (":" + q.split(":")[0] if ":" in q else "", x)
        rec.eq(read_cts(wrap), [(l.name, p[0], p[1]) for l, p in zip(levels, pairs)], "roundtrip-cts")
        again = XmlCtsCitation.ingest(rebuild_cts(wrap))
        check_scheme(rec, again, levels, decls, pairs, "cts-again", "roundtrip-cts")
        t = "<r xmlns:tei='%s'>%s</r>" % (tei.TEI, "".join(c.export(Mimetypes.XML.TEI) for c in reversed(cs)))
        again = Citation.ingest(etree.fromstring(t))
        check_scheme(rec, again, levels, decls, pairs, "tei-again", "roundtrip-tei")
        pats = [p.get("matchPattern") for p in etree.fromstring(t)]
        rec.eq(pats, [r"\.".join([r"(\w+)"] * (i + 1)) for i in reversed(range(n))], "roundtrip-tei", kind="matchPattern")

    # A declaration written with double quotes is the same scheme
    if rng.random() < 0.1:
        dq = Citation(name="book", refsDecl='/tei:TEI/tei:body/tei:div[@n="$1"]')
        rec.eq((dq.scope, dq.xpath, dq.attribute), ("/tei:TEI/tei:body", '/tei:div[@n="?"]', "n"), "xpath-scope")
        rec.eq(dq.fill(["7"]), "/tei:TEI/tei:body/tei:div[@n='7']", "fill")
        both, q = Citation(name="x", refsDecl=decls[-1].replace("'", '"')), get_graph().namespace_manager.qname(RDF_NAMESPACES.CTS.citation)
        out = '<r xmlns%s="http://chs.harvard.edu/xmlns/cts/">%s</r>' % (":" + q.split(":")[0] if ":" in q else "",
                                                                        both.export(Mimetypes.XML.CTS))
        rec.eq(read_cts(out), [("x", pairs[-1][0], pairs[-1][1])], "roundtrip-cts", kind="cts-double-quotes")
        out = "<r xmlns:tei='%s'>%s</r>" % (tei.TEI, dq.export(Mimetypes.XML.TEI))
        if 'replacementPattern="#xpath(/tei:TEI/tei:body/tei:div[@n="$1"])"' in out:
            rec.finding("C04-tei-double-quotes", out)
        else:
            rec.eq(Citation.ingest(etree.fromstring(out)).refsDecl, dq.refsDecl, "roundtrip-tei", kind="double-quotes")

    # copies are whole, and stand alone
    how = rng.choice(["pickle", "deepcopy"])
    again = pickle.loads(pickle.dumps(root)) if how == "pickle" else copy.deepcopy(root)
    acs = check_scheme(rec, again, levels, decls, pairs, how, "copy")
    rec.expect(not any(a is b for a in acs for b in cs), "copy", kind="copy-shares")

    # re-assigning scope or xpath of one level changes that half of that level and nothing else
    i = rng.randrange(n)
    c = cs[i]
    which = rng.choice(["scope", "xpath"])
    if which == "xpath":
        new = "//tei:%s[@n='?']" % rng.choice(["l", "ab", "p"])
        c.xpath = new
        rec.eq((c.scope, c.xpath), (pairs[i][0], new), "setter")
    else:
        new = "/tei:TEI/tei:div" + "/tei:div[@n='?']" * i
        c.scope = new
        rec.eq((c.scope, c.xpath), (new, pairs[i][1]), "setter")
    want = (c.scope + c.xpath)
    k = 0
    while "'?'" in want:
        k += 1
        want = want.replace("'?'", "'$%d'" % k, 1)
    rec.eq(c.refsDecl, want, "setter", kind="setter-refsDecl")
    for asked in [labels, [label(rng) for _ in range(k)]]:         # with what was filled in before, too
        if len(asked) == k and not any("'" in a for a in asked):
            filled_in = re.sub(r"'\$(\d+)'", lambda m: "'%s'" % asked[int(m.group(1)) - 1], want)
            rec.eq(spelled(c.fill(list(asked))), spelled(filled_in), "setter", kind="setter-fill")
    rec.eq([x.refsDecl for x in cs if x is not c], [d for j, d in enumerate(decls) if j != i], "setter", kind="setter-others")
    c.scope = None
    c.xpath = None
    rec.eq(c.refsDecl, want, "setter", kind="setter-none")
    # cutting the scheme
    if n > 1:
        j = rng.randrange(n - 1)
        cs[j].child = None
        rec.eq([x.name for x in root], [l.name for l in levels[:j + 1]], "setter", kind="cut")
        rec.expect(cs[j].child is None and cs[j].is_empty() and root.depth == j + 1, "setter", kind="cut")


def read_cts(xml):
    out = []
    cur = etree.fromstring(xml)
    while True:
        k = [c for c in cur if isinstance(c.tag, str) and c.tag.endswith("}citation")]
        if not k:
            return out
        cur = k[0]
        out.append((cur.get("label"), cur.get("scope"), cur.get("xpath")))


def rebuild_cts(xml):
    """The exported fragment under a root that binds its prefix to the CTS namespace the reader expects."""
    root = etree.fromstring(xml)
    ns = XPATH_NAMESPACES["ti"]

    def conv(el):
        new = etree.Element("{%s}%s" % (ns, etree.QName(el).localname), **dict(el.attrib))
        for c in el:
            new.append(conv(c))
        return new
    return conv(root)


# ------------------------------------------------------------------ DTS citation forests

def gen_forest(rng, depth, width):
    return [(text(rng, 2), gen_forest(rng, depth - 1, width) if depth > 1 and rng.random() < 0.7 else [])
            for _ in range(rng.randrange(1, width + 1))]


def pre(forest):
    for name, kids in forest:
        yield name
        yield from pre(kids)


def deep(forest):
    return max([1 + deep(k) for _, k in forest] or [0])


def at(forest, i):
    if i == 0:
        return [n for n, _ in forest]
    return [x for _, k in forest for x in at(k, i - 1)]


DTS = "https://w3id.org/dts/api#"


def as_json(forest):
    out = []
    for name, kids in forest:
        d = {"dts:citeType": name}
        if kids:
            d["dts:citeStructure"] = as_json(kids)
        out.append(d)
    return out


def expand(struct):
    """struct: value of dts:citeStructure -> expanded list as the ingester wants it"""
    e = jsonld.expand({"@context": {"dts": DTS}, "@id": "http://x", "dts:citeStructure": struct})
    return e[0].get(DTS + "citeStructure", []) if e else []


def by_hand(rng, forest):
    out = []
    for n, k in forest:
        kids = by_hand(rng, k)
        if rng.random() < 0.5:
            c = DtsCitation(name=n, children=kids or None)
        else:                       # one after the other, the first ones at once
            i = rng.randrange(len(kids) + 1)
            c = DtsCitation(name=n, children=kids[:i])
            for x in kids[i:]:
                c.add_child(x)
        out.append(c)
    return out


def grown(rng, where, forest):
    """From the top: what is below a citation is added when the citation is already in place."""
    for n, k in forest:
        c = DtsCitation(name=n)
        where.add_child(c)
        grown(rng, c, k)


def check_forest(rec, cset, forest, how, monitor="dts"):
    nodes = list(cset)
    rec.eq([c.name for c in nodes], list(pre(forest)), monitor, how=how)
    rec.eq(len(cset), len(list(pre(forest))), monitor, kind="dts-len")
    d = deep(forest)
    rec.eq(cset.depth, d, monitor, kind="dts-depth")
    rec.expect(cset.is_root(), monitor, kind="dts-root")
    rec.eq(cset.is_empty(), not forest, monitor, kind="dts-empty")
    for i in range(d):
        rec.eq([c.name for c in cset[i]], at(forest, i), monitor, kind="dts-level")
        rec.eq([c.name for c in cset[i - d]], at(forest, i), monitor, kind="dts-level-negative")

    def walk(cites, model):
        rec.eq([c.name for c in cites], [n for n, _ in model], monitor, kind="dts-children")
        for c, (name, kids) in zip(cites, model):
            rec.expect(c.root is cset and not c.is_root(), "root", kind="dts-node-root", how=how, name=name)
            rec.eq(c.depth, 1 + deep(kids), monitor, kind="dts-node-depth")
            rec.eq(len(c), len(list(pre(kids))), monitor, kind="dts-node-len")
            rec.eq(c.is_empty(), not kids, monitor, kind="dts-node-empty")
            rec.expect(c.is_set(), monitor)
            walk(c.children, kids)
    walk(cset.children, forest)


@scenario(quick=1200, thorough=40000)
def dts_schemes(rng, rec):
    forest = gen_forest(rng, rng.randrange(1, 5), rng.choice([1, 2, 3])) if rng.random() < 0.95 else []
    if rng.random() < 0.05:
        for _ in range(rng.randrange(1, 9)):        # deep
            forest = gen_forest(rng, 1, 2) + [(text(rng, 2), forest)]
    how = rng.choice(["ingest", "ingest", "by-hand", "add", "grown"])
    struct = as_json(forest)
    if how == "ingest":
        cset = DtsCitationSet.ingest(expand(struct))
    elif how == "by-hand":
        cset = DtsCitationSet(children=by_hand(rng, forest))
    elif how == "add":
        cset = DtsCitationSet()
        for c in by_hand(rng, forest):
            cset.add_child(c)
    else:
        cset = DtsCitationSet()
        grown(rng, cset, forest)
    rec.op(how, forest)
    if deep(forest) > 1:
        rec.distinct(forest, how)
        rec.sample({"forest": forest, "how": how})
    check_forest(rec, cset, forest, how)
    out = cset.export(Mimetypes.JSON.DTS.Std)
    if forest:
        rec.eq(out, struct, "dts-roundtrip")
        check_forest(rec, DtsCitationSet.ingest(expand(out)), forest, "again", "dts-roundtrip")
        ctx = cset.export(Mimetypes.JSON.DTS.Std, context=True)
        rec.eq(jsonld.expand(ctx), jsonld.expand({"@context": {"dts": DTS}, "dts:citeStructure": struct}), "dts-roundtrip",
               kind="dts-context")
    again = pickle.loads(pickle.dumps(cset)) if rng.random() < 0.5 else copy.deepcopy(cset)
    check_forest(rec, again, forest, "copy", "copy")
