"""C06: extracting one citable unit."""
from vlib.core import declare, scenario
from vlib import tei
from vlib.gen import label
from MyCapytain.common.reference import CtsReference, URN
from MyCapytain.common.constants import Mimetypes
from MyCapytain.errors import CitationDepthError, InvalidURN

declare(
    "C06",
    rule="A case is a generated TEI edition (1-4 citation levels, uncited wrappers, heads, milestones, comments, decoy "
         "structures, equal-valued and empty lines) opened in one of five source forms; several units of every level are "
         "extracted in context and in simple mode, plus references that do not exist. Non-trivial: the edition has at "
         "least 3 leaf units. Distinct: by edition source and source form.",
    require={"context": 300, "simple": 300, "too-deep": 50, "unknown-simple": 50, "whole": 50, "identity": 300},
)

TEXT_URN = "urn:cts:latinLit:phi1294.phi002.perseus-lat2"


def ref_forms(rng, u):
    k = rng.randrange(3)
    if k == 0:
        return u.s
    if k == 1:
        return CtsReference(u.s)
    return list(u.ref)


@scenario(quick=4000, thorough=120000)
def units(rng, rec):
    doc = tei.gen_doc(rng, ragged=rng.random() < 0.3)
    urn = rng.choice([TEXT_URN, TEXT_URN, None])
    how, text = tei.open_text(rng, doc, urn)
    leaves = doc.units(doc.depth)
    if len(leaves) >= 3:
        rec.distinct(doc.xml, how)
        rec.sample({"depth": doc.depth, "leaves": [u.s for u in leaves][:8], "decl": doc.refsdecl(doc.depth), "how": how})
    rec.op("edition", how, doc.xml)
    picks = []
    for d in range(1, doc.depth + 1):
        us = doc.units(d)
        if us:
            picks += rng.sample(us, min(len(us), 4))
    rng.shuffle(picks)
    for u in picks:
        rec.op("getTextualNode", u.s)
        p = text.getTextualNode(ref_forms(rng, u))
        d = tei.matches(p.resource, tei.pruned(doc, u, u))
        rec.expect(d is None, "context", ref=u.s, how=how, diff=d, decl=doc.refsdecl(len(u.ref)))
        rec.eq(str(p.reference), u.s, "identity")
        rec.eq(p.depth, len(u.ref), "identity", kind="depth")
        rec.eq([c.name for c in p.citation], [l.name for l in doc.levels[len(u.ref) - 1:]], "identity", kind="citation-level")
        if urn:
            rec.eq(str(p.urn), TEXT_URN + ":" + u.s, "identity", kind="urn")
        s = text.getTextualNode(ref_forms(rng, u), simple=True)
        rec.expect(tei.canon(s.resource) == tei.canon(u.elem), "simple", ref=u.s, how=how,
                   got=tei.canon(s.resource), want=tei.canon(u.elem))
        rec.eq(str(s.reference), u.s, "identity", kind="simple-reference")
        rec.eq(s.depth, len(u.ref), "identity", kind="simple-depth")
        rec.eq([c.name for c in s.citation], [l.name for l in doc.levels[len(u.ref) - 1:]], "identity", kind="simple-citation")
        if urn:
            rec.eq(str(s.urn), TEXT_URN + ":" + u.s, "identity", kind="simple-urn")
    # a unit that lies in another, asked of the passage that other one is
    for _ in range(3):
        u = rng.choice(picks)
        up = u.ref[:rng.randrange(len(u.ref) + 1)]
        simple = rng.random() < 0.4
        holder = text.getTextualNode(".".join(up), simple=simple) if up else text.getTextualNode(None, simple=simple)
        if rng.random() < 0.3 and len(up) + 1 < len(u.ref):
            holder = holder.getTextualNode(CtsReference(".".join(u.ref[:len(up) + 1])))
        rec.op("getTextualNode", up, simple, u.s)
        p = holder.getTextualNode(ref_forms(rng, u))
        d = tei.matches(p.resource, tei.pruned(doc, u, u))
        rec.expect(d is None, "context", kind="inside", ref=u.s, up=up, how=how, diff=d)
        rec.eq((str(p.reference), p.depth, str(p.urn) if urn else None), (u.s, len(u.ref), TEXT_URN + ":" + u.s if urn else None),
               "identity", kind="inside", up=up)
        rec.eq([c.name for c in p.citation], [l.name for l in doc.levels[len(u.ref) - 1:]], "identity", kind="inside-citation", up=up)
    # references that are not there
    u = rng.choice(leaves) if leaves else rng.choice(doc.top)
    deep = ".".join(u.ref + ["1"] * (doc.depth + 1 - len(u.ref)))
    for simple in (False, True):
        rec.raises(CitationDepthError, lambda: text.getTextualNode(deep, simple=simple), "too-deep", ref=deep)
    sibs = {tuple(x.ref) for d in range(1, doc.depth + 1) for x in doc.units(d)}
    for _ in range(2):
        d = rng.randrange(1, doc.depth + 1)
        base = rng.choice(doc.units(d) or doc.top)
        miss = list(base.ref)
        miss[rng.randrange(len(miss))] = label(rng) + "0"
        if tuple(miss) in sibs:
            continue
        miss = ".".join(miss)
        rec.raises(InvalidURN, lambda: text.getTextualNode(miss, simple=True), "unknown-simple", ref=miss)
        rec.raises(Exception, lambda: text.getTextualNode(miss), "unknown-context", ref=miss)
    # no reference: the whole text
    whole = text.getTextualNode()
    rec.expect(tei.canon(whole.resource) == tei.canon(doc.root), "whole", how=how)
