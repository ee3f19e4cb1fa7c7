"""C26: what can be exported, and to what."""
import json

from lxml import etree
from rdflib import Literal
from rdflib.namespace import DC, SKOS

from vlib.core import declare, scenario
from vlib import inv as I, tei
from vlib.gen import text, word, lang
from checks.c13 import XML
from checks.c17 import build_set, cites, ident, value, OTHER
from MyCapytain.common.base import Exportable
from MyCapytain.common.constants import Mimetypes, get_graph
from MyCapytain.common.metadata import Metadata
from MyCapytain.common.reference import Citation, DtsCitation, DtsCitationSet
from MyCapytain.resources.collections.dts import DtsCollection
from MyCapytain.resources.prototypes.cts.inventory import CtsTextInventoryCollection
from MyCapytain.resources.prototypes.metadata import Collection, ResourceCollection
from MyCapytain.resources.prototypes.text import InteractiveTextualNode, TextualElement, TextualGraph, TextualNode

declare(
    "C26",
    rule="A case is either a hierarchy of 1-8 exportable classes (diamonds included) that declare formats, inherit them, or "
         "replace each other's exports, or an object of the library itself: metadata, collections, inventories and their parts, "
         "citations, texts and passages. Every known format is asked for, advertised or not, with and without arguments, "
         "and twice. Non-trivial: at least one format is advertised. Distinct: by hierarchy, or class and content.",
    require={"dispatch": 1200, "refused": 8000, "default": 1500, "advertised": 1500, "again": 1000, "intact": 800},
)


def formats(c=Mimetypes):
    out = []
    for k, v in sorted(vars(c).items()):
        if not k.startswith("_"):
            out += formats(v) if isinstance(v, type) else [v]
    return out


ALL = formats() + ["application/x-unknown", "", "text"]


@scenario(quick=500, thorough=20000)
def hierarchies(rng, rec):
    made, own = [], {}
    for i in range(rng.randrange(1, 9)):
        bases = rng.sample(made, min(len(made), rng.choice([0, 1, 1, 2, 3]))) or [Exportable]
        # more derived first, so that an order exists
        bases.sort(key=lambda c: -made.index(c) if c in made else 0)
        ns = {}
        if rng.random() < 0.7:
            ns["EXPORT_TO"] = rng.sample(ALL[:8], rng.randrange(0, 4))
        if rng.random() < 0.4:
            ns["DEFAULT_EXPORT"] = rng.choice(ALL[:8] + [None])
        name = "C%d" % i
        if rng.random() < 0.7:
            def f(self, output=None, _name=name, **kwargs):
                return (_name, output, kwargs, self)
            ns["__export__"] = f
        try:
            c = type(name, tuple(bases), ns)
        except TypeError:           # no consistent order of bases: not a class
            continue
        own[c] = ns
        made.append(c)
    if not made:
        return
    c = rng.choice(made[-3:])

    def first(cls, attr, default):
        for k in cls.__mro__:
            if attr in own.get(k, ()):
                return own[k][attr]
        return default
    o = c() if rng.random() < 0.5 else c("anything", key=1)
    caps = set()
    for k in c.__mro__:
        caps |= set(first(k, "EXPORT_TO", []))
    rec.eq(set(o.export_capacities), caps, "dispatch", kind="capacities")
    if caps:
        rec.distinct(str([(k.__name__, own[k].get("EXPORT_TO"), "__export__" in own[k]) for k in c.__mro__ if k in own]))
        rec.sample([(k.__name__, own[k].get("EXPORT_TO"), "__export__" in own[k]) for k in c.__mro__ if k in own])
    default = first(c, "DEFAULT_EXPORT", None)
    for m in ALL + [None]:
        kw = rng.choice([{}, {}, {"only": [1]}, {"exclude": [], "x": None}])
        mon = "default" if m is None else "dispatch"
        ask = default if m is None else m
        if ask is None or ask not in caps:
            rec.raises(NotImplementedError, lambda: o.export(m, **kw) if m is not None else o.export(**kw), "refused", format=m)
            continue
        got = rng.choice([lambda: o.export(m, **kw), lambda: o.export(output=m, **kw)])() if m is not None else \
            rng.choice([lambda: o.export(**kw), lambda: o.export(None, **kw)])()
        # the nearest class that declares it decides, with the export it has
        want = None
        for k in c.__mro__:
            if ask in first(k, "EXPORT_TO", []):
                for b in k.__mro__:
                    if "__export__" in own.get(b, ()):
                        want = (b.__name__, ask, kw, o)
                        break
                break
        rec.eq(got, want, mon, format=m)


def comparable(x):
    if isinstance(x, etree._Element):
        return tei.canon(x)
    if isinstance(x, bytes):
        x = x.decode("utf-8")
    if isinstance(x, str):
        return x
    return json.dumps(x, sort_keys=True, default=str)


def examine(rng, rec, o, sizes=True, skip=()):
    caps = o.export_capacities
    if caps:
        rec.distinct(type(o).__name__, str(getattr(o, "id", None)), text(rng))
    before = set(get_graph())
    for m in ALL:
        if m in skip:
            continue
        if m not in caps:
            rec.raises(NotImplementedError, lambda: o.export(m), "refused", of=type(o).__name__, format=m)
            continue
        x = o.export(m)
        rec.expect(x is not None, "advertised", of=type(o).__name__, format=m)
        y = o.export(output=m)
        rec.expect(type(x) is type(y), "again", kind="type", of=type(o).__name__, format=m)
        if m not in (Mimetypes.JSON.LD, Mimetypes.XML.RDF):     # the order and names of parts are free there
            if m == Mimetypes.JSON.DTS.Std or isinstance(o, Metadata):
                continue
            rec.eq(comparable(x), comparable(y), "again", of=type(o).__name__, format=m)
    d = type(o).DEFAULT_EXPORT
    if d is None:
        rec.raises(NotImplementedError, lambda: o.export(), "refused", of=type(o).__name__, format=None)
    else:
        rec.expect(d in caps, "default", kind="advertised", of=type(o).__name__)
        x, y = o.export(), o.export(d)
        rec.count("default")
        if not isinstance(o, Metadata):
            rec.eq(comparable(x), comparable(y), "default", of=type(o).__name__)
    # passages taken on the way may speak of themselves; of what was there, nothing changes
    known = {s for s, _, _ in before}
    rec.eq({t for t in set(get_graph()) ^ before if t[0] in known}, set(), "intact")


@scenario(quick=150, thorough=5000)
def objects(rng, rec):
    k = rng.choice(["metadata", "plain", "cts", "cts", "citation", "abstract"])
    rec.op(k)
    if k == "metadata":
        m = Metadata(rng.choice([None, None]))
        for _ in range(rng.choice([0, 1, 4])):
            m.add(rng.choice(OTHER), value(rng))
        examine(rng, rec, m)
    elif k == "plain":
        used = set()
        os_ = [cls(ident(rng, used)) for cls in (Collection, ResourceCollection, DtsCollection)]
        for o in os_:
            for _ in range(rng.choice([0, 1, 4])):
                o.metadata.add(DC.title, text(rng))
            if rng.random() < 0.5:
                o.set_label(text(rng), lang(rng))
            examine(rng, rec, o)
            examine(rng, rec, o.metadata)
        examine(rng, rec, CtsTextInventoryCollection(ident(rng, used)))
    elif k == "cts":
        m = I.gen(rng, groups=(0, 2), works=(0, 2), texts=(0, 2), tiid="urn:x:inv")
        o = XML[m.kind].parse(I.to_xml(m, rng))
        for x in [o] + list(o.descendants):
            examine(rng, rec, x)
            if rng.random() < 0.2:
                examine(rng, rec, x.metadata)
    elif k == "citation":
        doc = tei.gen_doc(rng, depth=rng.choice([1, 2, 3]), width=2)
        _, t = tei.open_text(rng, doc)
        for c in t.citation:
            examine(rng, rec, c)
        s = build_set(cites(rng, rng.randrange(0, 3)))
        for c in [s] + list(s.children):
            examine(rng, rec, c)
    else:
        for cls in (TextualElement, TextualNode, TextualGraph, InteractiveTextualNode):
            o = cls(identifier=word(rng))
            examine(rng, rec, o)


@scenario(quick=150, thorough=5000)
def texts(rng, rec):
    doc = tei.gen_doc(rng, depth=rng.choice([1, 2, 3]), width=3)
    _, t = tei.open_text(rng, doc)
    if not doc.units(1):
        return
    examine(rng, rec, t, skip=() if doc.units(doc.depth) else (Mimetypes.PYTHON.NestedDict,))
    u = rng.choice(doc.units(rng.randrange(1, doc.depth + 1)) or doc.top)
    for simple in (True, False):
        p = t.getTextualNode(list(u.ref), simple=simple)
        # a nested dictionary holds what is below; there is none to hold for what has nothing below
        examine(rng, rec, p, skip=() if u.subs and doc.depth == len(u.ref) + 1 else (Mimetypes.PYTHON.NestedDict,))
