"""C08: what an edition answers does not depend on what it was asked before; passages can be cited again."""
from lxml import etree

from vlib.core import declare, scenario, CpuExceeded
from vlib import tei
from checks.c07 import pick_range
from MyCapytain.common.constants import Mimetypes
from MyCapytain.common.reference import CtsReference, URN

declare(
    "C08",
    rule="A case is one opened edition put through a random history of 6-16 reads (listing, extraction, navigation, every "
         "export with exclusions, failing requests, edits of the XML of already extracted passages); every answer is "
         "compared with that of an edition freshly opened from the same source, and the source tree is compared at the "
         "end. Non-trivial: at least 6 operations were compared. Distinct: by source and history.",
    require={"same-answer": 1500, "source-intact": 300, "recite": 600, "edited-passage": 200, "after-failure": 200,
             "held": 1500, "cited-inside": 100},
)

TEXT_URN = "urn:cts:latinLit:phi1294.phi002.perseus-lat2"
EXCLUDES = [[], ["tei:note"], ["tei:note", "tei:hi"], ["tei:head", "tei:orig"], ["tei:l"]]


def gen_op(rng, doc):
    k = rng.choice(["reffs", "reffs", "reffs-under", "context", "context", "simple", "range", "export", "nested", "nav",
                    "whole", "bad", "children", "xpath", "reffs-range"])
    d = rng.randrange(1, doc.depth + 1)
    u = rng.choice(doc.units(d))
    ab = pick_range(rng, doc) or (u, u)
    r = ab[0].s + "-" + ab[1].s
    simple = rng.random() < 0.5
    ex = rng.choice(EXCLUDES)
    if k == "reffs":
        return k, d
    if k == "reffs-under":
        return k, d, rng.choice(doc.units(1)).s
    if k == "reffs-range":
        return k, rng.randrange(0, doc.depth + 1), r
    if k in ("context", "simple"):
        return k, u.s, ex
    if k == "range":
        return k, r, ex
    if k == "export":
        return k, rng.choice(["text", "xml", "tei", "etree"]), ex
    if k == "nested":
        return k, ex
    if k == "nav":
        return k, u.s, simple, rng.choice(["next", "prev", "first", "last"]), rng.choice(["next", "prev", "none"])
    if k == "children":
        return k, u.s, simple
    if k == "whole":
        return k, ex
    if k == "xpath":
        return k, "//tei:%s" % rng.choice(["l", "p", "div", "note", "seg"])
    return k, rng.choice([u.s + "zz", ".".join(["1"] * (doc.depth + 1)), r + "zz"]), simple


def passage(p, ex):
    if p is None:
        return None
    return (type(p).__name__, str(p.reference), str(p.urn), p.depth, tei.canon(p.resource),
            p.export(Mimetypes.PLAINTEXT, exclude=ex), str(p.citation.name))


def plain_dict(d):
    return [(k, plain_dict(v)) for k, v in d.items()] if isinstance(d, dict) else d


def perform(text, op):
    k = op[0]
    if k == "reffs":
        r = text.getReffs(level=op[1])
        return [str(x) for x in r], r.level, r.citation.name
    if k in ("reffs-under", "reffs-range"):
        r = text.getReffs(level=op[1], subreference=op[2])
        return [str(x) for x in r], r.level, r.citation.name
    if k in ("context", "range"):
        return passage(text.getTextualNode(CtsReference(op[1])), op[2])
    if k == "simple":
        return passage(text.getTextualNode(op[1], simple=True), op[2])
    if k == "export":
        m = {"text": Mimetypes.PLAINTEXT, "xml": Mimetypes.XML.Std, "tei": Mimetypes.XML.TEI,
             "etree": Mimetypes.PYTHON.ETREE}[op[1]]
        out = text.export(m, exclude=op[2])
        return out if op[1] == "text" else tei.canon(out) if op[1] == "etree" else tei.canon(etree.fromstring(out))
    if k == "nested":
        return plain_dict(text.export(Mimetypes.PYTHON.NestedDict, exclude=op[1]))
    if k == "nav":
        p = text.getTextualNode(op[1], simple=op[2])
        q = getattr(p, op[3])
        if q is not None and op[4] != "none":
            q = getattr(q, op[4])
        return passage(q, []), str(p.prevId), str(p.nextId)
    if k == "children":
        p = text.getTextualNode(op[1], simple=op[2])
        return [passage(c, []) for c in p.children], [str(x) for x in p.childIds]
    if k == "whole":
        p = text.getTextualNode(None)
        return tei.canon(p.resource), p.export(Mimetypes.PLAINTEXT, exclude=op[1]), [str(x) for x in p.childIds]
    if k == "xpath":
        return [tei.canon(x) for x in text.xpath(op[1], namespaces={"tei": tei.TEI})]
    return passage(text.getTextualNode(op[1], simple=op[2]), [])


def answer(text, op):
    try:
        return "ok", perform(text, op)
    except (CpuExceeded, KeyboardInterrupt):
        raise
    except BaseException as e:
        return "raised", type(e).__name__


@scenario(quick=1000, thorough=50000)
def histories(rng, rec):
    doc = tei.gen_doc(rng, ragged=rng.random() < 0.3)
    if not doc.units(doc.depth):
        doc = tei.gen_doc(rng)
    how, text = tei.open_text(rng, doc, rng.choice([TEXT_URN, TEXT_URN, None]))
    urn = str(text.urn) if text.urn else None
    before = tei.canon(text.resource)
    history = []
    failed = False
    rec.op("edition", how, doc.xml)
    # a few questions come back several times in the history
    again = [gen_op(rng, doc) for _ in range(3)]
    for _ in range(rng.randrange(6, 17)):
        op = rng.choice(again) if rng.random() < 0.3 else gen_op(rng, doc)
        history.append(op)
        rec.op(*op)
        got = answer(text, op)
        _, fresh = tei.open_text(rng, doc, urn, how)
        rec.eq(got, answer(fresh, op), "same-answer", op=op, history=history)
        if failed:
            rec.count("after-failure")
        failed = got[0] == "raised"
        # editing the XML of a rebuilt passage does not reach the edition
        if rng.random() < 0.3:
            u = rng.choice(doc.units(rng.randrange(1, doc.depth + 1)))
            p = text.getTextualNode(u.s)
            for el in list(p.resource.iter()):
                if isinstance(el.tag, str):
                    el.set("n", "EDITED")
                    el.set("type", "EDITED")
            p.resource.clear()
            rec.count("edited-passage")
            rec.op("edited", u.s)
    if len(history) >= 6:
        rec.distinct(doc.xml, how, history)
        rec.sample({"history": history, "how": how})
    rec.eq(tei.canon(text.resource), before, "source-intact", history=history)
    rec.eq(tei.canon(text.resource), tei._canon(doc.root), "source-intact", kind="source-as-given")

    # cite again: from its own reference and from its own URN, a passage gives itself
    for _ in range(3):
        ab = pick_range(rng, doc)
        if rng.random() < 0.5 or not ab:
            ref = rng.choice(doc.units(rng.randrange(1, doc.depth + 1))).s
            simple = rng.random() < 0.5
        else:
            ref, simple = ab[0].s + "-" + ab[1].s, False
        p = text.getTextualNode(ref, simple=simple)
        q = text.getTextualNode(p.reference, simple=simple)
        rec.eq(passage(q, []), passage(p, []), "recite")
        if urn:
            rec.eq(str(p.urn), urn + ":" + ref, "recite", kind="recite-urn")
            q = text.getTextualNode(URN(str(p.urn)).reference, simple=simple)
            rec.eq(passage(q, []), passage(p, []), "recite")
        if not simple:
            # a rebuilt passage is itself an edition of what it holds
            sub = type(text)(resource=tei.plain_tree(p.resource), citation=text.citation, urn=urn)
            r = sub.getTextualNode(p.reference)
            rec.eq(tei.canon(r.resource), tei.canon(p.resource), "recite", kind="recite-passage", ref=ref)


def gen_hold(rng, doc):
    """How a passage to keep is got."""
    d = rng.randrange(1, doc.depth + 1)
    u = rng.choice(doc.units(d))
    ab = pick_range(rng, doc)
    k = rng.choice(["context", "context", "simple", "simple", "range", "whole", "hop"])
    if k == "range" and ab:
        return "range", ab[0].s + "-" + ab[1].s
    if k == "whole":
        return k, rng.random() < 0.5
    if k == "hop":
        return k, u.s, rng.random() < 0.5, rng.choice(["next", "prev", "first", "last", "parent"])
    return ("simple" if k == "simple" else "context"), u.s


def hold(text, h):
    if h[0] in ("context", "range"):
        return text.getTextualNode(CtsReference(h[1]))
    if h[0] == "simple":
        return text.getTextualNode(h[1], simple=True)
    if h[0] == "whole":
        return text.getTextualNode(None, simple=h[1])
    p = text.getTextualNode(h[1], simple=h[2])
    return getattr(p, h[3]) or p


def gen_question(rng, doc):
    """A question to a passage."""
    k = rng.choice(["id", "id", "id", "node", "node", "children", "reffs", "reffs-under", "export", "cite", "xpath", "str", "kind"])
    u = rng.choice(doc.units(rng.randrange(1, doc.depth + 1)))
    if k == "id":
        return k, rng.choice(["nextId", "prevId", "siblingsId", "childIds", "firstId", "lastId", "parentId"])
    if k == "node":
        return k, rng.choice(["next", "prev", "first", "last", "parent"])
    if k == "reffs":
        return k, rng.randrange(1, doc.depth + 2)
    if k == "reffs-under":
        return k, rng.randrange(1, doc.depth + 2), u.s
    if k == "export":
        return k, rng.choice([Mimetypes.PLAINTEXT, Mimetypes.XML.Std, Mimetypes.XML.TEI, Mimetypes.PYTHON.NestedDict]), rng.choice(EXCLUDES)
    if k == "cite":
        return k, rng.choice([u.s, u.s, u.s + "zz"])
    if k == "xpath":
        return k, ".//tei:%s" % rng.choice(["l", "p", "div", "note", "seg"])
    return k,


def flat(x):
    if x is None or isinstance(x, str):
        return x if x is None else str(x)
    if hasattr(x, "is_range"):
        return str(x)
    if hasattr(x, "resource"):
        return passage(x, [])
    return [flat(y) for y in x]


def question(p, q):
    k = q[0]
    if k in ("id", "node"):
        return flat(getattr(p, q[1]))
    if k == "children":
        return flat(p.children)
    if k == "reffs":
        return flat(p.getReffs(level=q[1]))
    if k == "reffs-under":
        return flat(p.getReffs(level=q[1], subreference=q[2]))
    if k == "export":
        return plain_dict(p.export(q[1], exclude=q[2]))
    if k == "cite":
        return flat(p.getTextualNode(q[1]))
    if k == "xpath":
        return [tei.canon(x) for x in p.xpath(q[1], namespaces={"tei": tei.TEI})]
    if k == "str":
        return str(p), p.tostring(encoding=str), p.text
    return passage(p, []), [c.name for c in p.citation], flat(p.siblingsId)


def tried(f, *args):
    try:
        return "ok", f(*args)
    except (CpuExceeded, KeyboardInterrupt):
        raise
    except BaseException as e:
        return "raised", type(e).__name__


@scenario(quick=500, thorough=25000)
def held(rng, rec):
    """Several passages of a text are kept and questioned in turns, the text too: each answers as if it was alone."""
    doc = tei.gen_doc(rng, ragged=rng.random() < 0.3)
    if not doc.units(doc.depth):
        doc = tei.gen_doc(rng)
    how, text = tei.open_text(rng, doc, rng.choice([TEXT_URN, TEXT_URN, None]))
    urn = str(text.urn) if text.urn else None
    rec.op("edition", how, doc.xml)
    wanted = [gen_hold(rng, doc) for _ in range(rng.randrange(2, 5))]
    kept = [tried(hold, text, h) for h in wanted]
    some = [gen_question(rng, doc) for _ in range(3)]
    asked = []
    for _ in range(rng.randrange(6, 15)):
        if rng.random() < 0.2:
            op = gen_op(rng, doc)
            rec.op(*op)
            answer(text, op)
            continue
        i = rng.randrange(len(kept))
        if kept[i][0] != "ok":
            continue
        q = rng.choice(some) if rng.random() < 0.4 else gen_question(rng, doc)
        rec.op("ask", i, wanted[i], q)
        got = tried(question, kept[i][1], q)
        _, fresh = tei.open_text(rng, doc, urn, how)
        alone = tried(hold, fresh, wanted[i])
        rec.eq(alone[0], "ok", "held", kind="held-got", hold=wanted[i])
        if alone[0] == "ok":
            rec.eq(got, tried(question, alone[1], q), "held", hold=wanted[i], question=q, asked=asked)
        asked.append((i, q))
    if len(asked) >= 5:
        rec.distinct(doc.xml, how, wanted, asked)
    # a unit of a passage, asked of the passage in any form, is the one the text gives
    for h, (ok, p) in zip(wanted, kept):
        u = rng.choice(doc.units(rng.randrange(1, doc.depth + 1)))
        own = str(p.reference) if ok == "ok" and p.reference else None
        if ok != "ok" or h[0] == "whole" or (own and u.s != own and not u.s.startswith(own + ".")):
            continue
        want = passage(text.getTextualNode(u.s), [])
        for form in (u.s, CtsReference(u.s), list(u.ref)):
            rec.eq(passage(p.getTextualNode(form), []), want, "cited-inside", hold=h, form=repr(form))
