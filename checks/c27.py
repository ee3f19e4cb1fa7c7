"""C27: reading a document reads that document, and nothing else."""
import ctypes
import io
import os
import re

from vlib.core import CpuExceeded, declare, scenario
from vlib import ctsd, dtsd, http, inv as I, repo, tei
from vlib.gen import text, word
from checks.c24 import dts_of, squash
from MyCapytain.common.constants import Mimetypes
from MyCapytain.common.utils.xml import xmlparser
from MyCapytain.resolvers.cts.api import HttpCtsResolver
from MyCapytain.resolvers.cts.local import CtsCapitainsLocalResolver
from MyCapytain.resolvers.dts.api_v1 import HttpDtsResolver
from MyCapytain.resources.collections.cts import XmlCtsTextInventoryMetadata
from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText
from MyCapytain.retrievers.cts5 import HttpCtsRetriever

declare(
    "C27",
    rule="A case is a generated edition, or an inventory, whose XML uses entities of its own, character references and CDATA "
         "sections, and mostly holds a trap: an external entity, DTD, inclusion or stylesheet that names a file or an address "
         "which is watched, or entities that grow without end. It is read as a string, a file, from a repository, or from "
         "an endpoint. Non-trivial: the document uses entities or holds a trap. Distinct: by document.",
    require={"content": 700, "untouched": 700, "trapped": 500, "watched-files": 700, "inventory": 100},
)

CANARY = "CANARY-7d1f"
# may be refused, for they cannot be read without what they refer to, or at all
DEPENDENT = ("general-file", "general-http", "param-file", "param-http", "relative", "bomb")
HARMLESS = ("unused-file", "unused-http", "dtd-http", "dtd-file", "public", "defaults", "xinclude", "schema", "stylesheet")


class Watch:
    """Whether any of these files is opened."""
    libc = ctypes.CDLL(None, use_errno=True)

    def __init__(self, paths):
        self.fd = self.libc.inotify_init1(os.O_NONBLOCK)
        self.works = self.fd >= 0 and all(self.libc.inotify_add_watch(self.fd, p.encode(), 0x20) >= 0 for p in paths)
        if self.works:
            with open(paths[0], "rb"):
                pass
            self.works = self.seen()

    def seen(self):
        try:
            return len(os.read(self.fd, 4096)) > 0
        except OSError:
            return False

    def close(self):
        if self.fd >= 0:
            os.close(self.fd)


class Traps:
    """Files and addresses that nobody is to read."""
    def __init__(self, base, site):
        self.dir = os.path.join(base, "traps")
        os.makedirs(self.dir)
        self.file, self.dtd = os.path.join(self.dir, "secret.txt"), os.path.join(self.dir, "x.dtd")
        with open(self.file, "w") as f:
            f.write(CANARY)
        with open(self.dtd, "w") as f:
            f.write(self.dtd_source())
        self.site = site
        self.watch = Watch([self.file, self.dtd])

    @staticmethod
    def dtd_source():
        return '<!ENTITY trap "%s"><!ATTLIST l rend CDATA "%s"><!ATTLIST p rend CDATA "%s"><!ATTLIST div rend CDATA "%s">' % (
            (CANARY,) * 4)

    def app(self, other=None):
        def f(q):
            if q.path.startswith("/trap"):
                return http.Answer(self.dtd_source() if q.path.endswith("dtd") else CANARY)
            return other(q)
        return f

    def check(self, rec, said):
        rec.count("untouched")
        hits = [r for r in self.site.log if r.path.startswith("/trap")]
        rec.expect(not hits, "untouched", kind="request-sent", requests=hits)
        for s in said:
            rec.expect(CANARY not in s, "untouched", kind="content-of-elsewhere", said=s)
        if self.watch.works:
            rec.expect(not self.watch.seen(), "watched-files", kind="file-opened")


def dressed(rng, xml, traps, trap, entities):
    """xml holds ZZ<name>ZZ where entity <name>, or the trap, is to stand -> the document with its declarations."""
    decl, system = [], ""
    xml = re.sub(r"^\s*(<\?xml\s[^>]*\?>)?\s*(?:<!DOCTYPE[^>]*>|<!--.*?-->|<\?(?!xml\s)[^>]*\?>)\s*", lambda m: (m.group(1) or "") + "\n" if m.group(1) else "", xml, flags=re.S)
    root = re.match(r"\s*(?:<\?xml[^>]*\?>)?\s*<([^\s/>]+)", xml).group(1)
    f, http_ = "file://" + traps.file, traps.site.root + "/trap/secret.txt"
    d, dhttp = "file://" + traps.dtd, traps.site.root + "/trap/x.dtd"
    inside = ""
    if trap == "general-file":
        decl.append('<!ENTITY trap SYSTEM "%s">' % rng.choice([f, traps.file]))
    elif trap == "general-http":
        decl.append('<!ENTITY trap SYSTEM "%s">' % http_)
    elif trap == "relative":
        decl.append('<!ENTITY trap SYSTEM "%s">' % os.path.relpath(traps.file, rng.choice([os.getcwd(), traps.dir + "/../x"])))
    elif trap == "param-file":
        decl.append('<!ENTITY %% par SYSTEM "%s"> %%par;' % d)
    elif trap == "param-http":
        decl.append('<!ENTITY %% par SYSTEM "%s"> %%par;' % dhttp)
    elif trap == "unused-file":
        decl.append('<!ENTITY nobody SYSTEM "%s">' % f)
    elif trap == "unused-http":
        decl.append('<!ENTITY nobody PUBLIC "-//X//Y" "%s">' % http_)
    elif trap == "dtd-http":
        system = ' SYSTEM "%s"' % dhttp
    elif trap in ("dtd-file", "defaults"):
        system = ' SYSTEM "%s"' % rng.choice([d, traps.dtd])
    elif trap == "public":
        system = ' PUBLIC "-//TEI P5//DTD Main Document Type//EN" "%s"' % rng.choice([d, dhttp])
    elif trap == "bomb":
        decl.append('<!ENTITY b0 "%s">' % ("boom " * 40))
        decl += ['<!ENTITY b%d "%s">' % (i, "&b%d;" % (i - 1) * 10) for i in range(1, 7)]
        decl.append('<!ENTITY trap "&b6;">')
    uses = {"general-file", "general-http", "relative", "param-file", "param-http", "bomb"}
    if trap in uses:
        inside = "&trap;"
    elif trap == "xinclude":
        inside = '<xi:include xmlns:xi="http://www.w3.org/2001/XInclude" href="%s" parse="text"/>' % rng.choice([f, http_])
    for n, v in entities.items():
        decl.append("<!ENTITY %s %s>" % (n, v[0]))
    xml = xml.replace("ZZtrapZZ", inside)
    xml = re.sub(r"ZZ(e\d+)ZZ", lambda m: entities[m.group(1)][1] if entities[m.group(1)][1] else "&%s;" % m.group(1), xml)
    if trap == "schema":
        xml = re.sub(r"^(\s*(?:<\?xml[^>]*\?>)?\s*<[^\s/>]+)", r'\1 xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" '
                     r'xsi:schemaLocation="urn:x %s"' % dhttp.replace("\\", ""), xml, count=1)
    head = ""
    if trap == "stylesheet":
        head = '<?xml-stylesheet type="text/xsl" href="%s"?>\n' % http_
    if decl or system:
        rng.shuffle(decl) if trap == "none" else None
        head += "<!DOCTYPE %s%s%s>\n" % (root, system, " [\n%s\n]" % "\n".join(decl) if decl else "")
    m = re.match(r"\s*<\?xml[^>]*\?>\s*", xml)
    return xml[:m.end()] + head + xml[m.end():] if m else head + xml


def own_entities(rng, n, markup=True):
    """-> name -> (declaration, markup to use instead of a reference or None, what it says)"""
    out = {}
    for i in range(n):
        k = rng.randrange(6 if markup else 5)
        name = "e%d" % i
        w = "own%d" % rng.randrange(1000)
        if k == 0:
            out[name] = ('"%s"' % w, None, w)
        elif k == 1:
            out[name] = ("'&#x%x;%s&#60;'" % (rng.choice([0xe9, 0x1f00, 0x1F600]), w), None, None)
            ch = chr(int(re.search("x([0-9a-f]+);", out[name][0]).group(1), 16))
            # a character reference in the declaration is expanded at once: &#60; would be markup, so it is escaped twice
            out[name] = (out[name][0].replace("&#60;", "&#38;#60;"), None, ch + w + "<")
        elif k == 2 and i:
            prev = "e%d" % (i - 1)
            out[name] = ('"%s &%s;!"' % (w, prev), None, w + " " + out[prev][2] + "!")
        elif k == 3:
            out[name] = ('"x"', "<![CDATA[<%s> & ]]>" % w, "<%s> & " % w)
        elif k == 4:
            out[name] = ('"x"', "&#%d;&amp;&lt;%s" % (0x6f22, w), chr(0x6f22) + "&<" + w)
        elif not markup:
            out[name] = ('"%s"' % w, None, w)
        else:
            out[name] = ("\"<hi xmlns='%s'>%s</hi>\"" % (tei.TEI, w), None, w)
    # a CDATA section or a character reference stands for itself where the entity is used; others may refer to it only by name
    for n in list(out):
        if out[n][1] is not None:
            i = int(n[1:])
            nxt = "e%d" % (i + 1)
            if nxt in out and "&%s;" % n in out[nxt][0]:
                out[nxt] = ('"plain"', None, "plain")
    changed = True
    while changed:
        changed = False
        for n, (d, mk, said) in list(out.items()):
            i = int(n[1:])
            p = "e%d" % (i - 1)
            if "&%s;" % p in d:
                want = d.strip('"').split(" ")[0] + " " + out[p][2] + "!"
                if want != said:
                    out[n] = (d, mk, want)
                    changed = True
    return out


def prepare(rng, t):
    """Puts placeholders in the edition t.doc (in its tree and source) -> entities"""
    doc = t.doc
    leaves = [u for u in doc.units(doc.depth)]
    ents = own_entities(rng, rng.choice([0, 1, 2, 4]))
    for n in ents:
        if leaves:
            el = rng.choice(leaves).elem
            el.text = (el.text or "") + " ZZ%sZZ " % n
    if leaves:
        el = rng.choice(leaves).elem
        el.text = (el.text or "") + " ZZtrapZZ "
    from lxml import etree
    doc.xml = etree.tostring(doc.root, encoding="unicode")
    return ents


def reveal(doc, ents):
    """The tree as it is to be read."""
    for el in doc.root.iter():
        for f in ("text", "tail"):
            v = getattr(el, f)
            if v and "ZZ" in v:
                v = v.replace("ZZtrapZZ", "")
                setattr(el, f, re.sub(r"ZZ(e\d+)ZZ", lambda m: ents[m.group(1)][2], v))


def said(el):
    return squash(" ".join(tei.plain(el, [])))


def questions(rng, rec, doc, node):
    """node: reference (or None) -> the text at it; everything said in answer"""
    out = []
    todo = [None] + rng.sample([u for d in range(1, doc.depth + 1) for u in doc.units(d)],
                               min(4, sum(len(doc.units(d)) for d in range(1, doc.depth + 1))))
    for u in todo:
        p = node(u.s if u is not None else None)
        s = p.export(Mimetypes.PLAINTEXT)
        out += [s, p.export(Mimetypes.XML.Std)]
        out.append(str(out[-1]))
        rec.eq(squash(s), said(u.elem if u is not None else doc.root), "content", at=u.s if u is not None else None)
    return [str(x) for x in out]


def attempt(rec, trap, f):
    """Reads; a document that depends on what it must not read may be refused."""
    if trap not in DEPENDENT:
        return f()
    rec.count("trapped")
    try:
        return f()
    except (CpuExceeded, KeyboardInterrupt, SystemExit):
        raise
    except Exception as e:      # noqa
        if type(e).__name__ == "Violation":
            raise
        rec.count("refused")
        return [str(e)]         # nor may the error tell


def pick(rng):
    return rng.choice(("none",) + DEPENDENT + HARMLESS)


@scenario(quick=700, thorough=20000)
def editions(rng, rec):
    with repo.scratch() as base, http.serving(None) as site:
        traps = Traps(base, site)
        site.srv.app = traps.app()
        try:
            t = I.M("edition", "urn:cts:latinLit:a.b.c")
            t.doc = tei.gen_doc(rng)
            ents, trap = prepare(rng, t), pick(rng)
            xml = dressed(rng, t.doc.xml, traps, trap, ents)
            reveal(t.doc, ents)
            how = rng.choice(["str", "stringio", "bytesio", "file", "plain"])
            rec.op("document", trap, how, xml)
            if trap != "none" or ents:
                rec.distinct(trap, how, t.doc.xml)
                rec.sample([trap, how, xml[:300]])
            if trap in HARMLESS:
                rec.count("trapped")

            def read():
                if how == "str":
                    o = CapitainsCtsText(resource=xml, urn=t.urn)
                elif how == "plain":
                    o = CapitainsCtsText(resource=xmlparser(xml, objectify=False), urn=t.urn)
                elif how == "stringio":
                    o = CapitainsCtsText(resource=io.StringIO(xml), urn=t.urn)
                elif how == "bytesio":
                    o = CapitainsCtsText(resource=io.BytesIO(xml.encode("utf-8")), urn=t.urn)
                else:
                    path = os.path.join(base, "text.xml")
                    with open(path, "wb") as f:
                        f.write(xml.encode("utf-8"))
                    with open(path, "rb") as f:
                        o = CapitainsCtsText(resource=f, urn=t.urn)
                return questions(rng, rec, t.doc, lambda r: o if r is None else o.getTextualNode(
                    r, simple=False))
            traps.check(rec, attempt(rec, trap, read))
        finally:
            traps.watch.close()


@scenario(quick=260, thorough=8000)
def libraries(rng, rec):
    """Through resolvers: a folder, a CTS endpoint, a DTS endpoint."""
    with repo.scratch() as base, http.serving(None, limit=4000) as site:
        traps = Traps(base, site)
        try:
            r = repo.gen(rng, base, groups=(1, 1), works=(1, 1), texts=(1, 2), nfolders=1)
            t = r.m.texts()[0]
            ents, trap = prepare(rng, t), pick(rng)
            rec.distinct(trap, t.doc.xml)
            rec.op("text", t.urn, trap, t.doc.xml)
            if trap in HARMLESS:
                rec.count("trapped")
            k = rng.randrange(3)
            if k == 0:
                site.srv.app = traps.app()
                with open(t.path, "wb") as f:
                    f.write(dressed(rng, t.doc.xml, traps, trap, ents).encode("utf-8"))
                reveal(t.doc, ents)

                def read():
                    res = CtsCapitainsLocalResolver(resource=r.folders)
                    return questions(rng, rec, t.doc, lambda x: res.getTextualNode(t.urn, x))
            else:
                if k == 1:
                    server = ctsd.Server(rng, r.m)
                else:
                    root, colls = dts_of(rng, r.m)
                    server = dtsd.Server(rng, root, colls)

                server.plain = True

                def answer(q):
                    a = server(q)
                    body = a.body.decode("utf-8")
                    if body.lstrip().startswith("<"):
                        a.body = dressed(rng, body, traps, trap, ents).encode("utf-8")
                    return a
                site.srv.app = traps.app(answer)

                def read():
                    res = HttpCtsResolver(HttpCtsRetriever(site.root + "/cts")) if k == 1 else \
                        HttpDtsResolver(site.root + server.prefix)
                    shown = tei.Doc()
                    shown.__dict__.update(t.doc.__dict__)
                    import copy
                    shown.root = copy.deepcopy(t.doc.root)
                    reveal(shown, ents)
                    path = {el: i for i, el in enumerate(t.doc.root.iter())}
                    els = list(shown.root.iter())
                    out = []
                    us = [u for d in range(1, t.doc.depth + 1) for u in t.doc.units(d)]
                    for u in [None] + rng.sample(us, min(3, len(us))):
                        p = res.getTextualNode(t.urn, u.s if u is not None else None)
                        s = p.export(Mimetypes.PLAINTEXT)
                        out += [s, str(p.export(Mimetypes.XML.Std))]
                        rec.eq(squash(s), said(els[path[u.elem]] if u is not None else shown.root), "content",
                               at=u.s if u is not None else None)
                    return out
            traps.check(rec, attempt(rec, trap, read))
        finally:
            traps.watch.close()


@scenario(quick=250, thorough=8000)
def catalogues(rng, rec):
    with repo.scratch() as base, http.serving(None, limit=4000) as site:
        traps = Traps(base, site)
        site.srv.app = traps.app()
        try:
            m = I.gen(rng, groups=(1, 2), works=(1, 2), texts=(1, 2))
            trap = rng.choice(("none", "general-file", "general-http", "relative", "param-file", "param-http", "bomb",
                               "unused-file", "unused-http", "dtd-http", "dtd-file", "public", "schema", "stylesheet"))
            ents = own_entities(rng, 2, markup=False)
            want = {}
            for x in m.walk():
                if x.kind != "inventory" and x.names:
                    l = rng.choice(sorted(x.names))
                    if "<" not in x.names[l]:
                        n = rng.choice(sorted(ents)) if ents else None
                        base_ = word(rng)
                        x.names[l] = base_ + (" ZZ%sZZ" % n if n else "") + "ZZtrapZZ"
                        want[x.urn] = (l, base_ + (" " + ents[n][2] if n else ""))
            xml = dressed(rng, I.to_xml(m, rng), traps, trap, ents)
            rec.distinct(trap, xml)
            rec.op("inventory", trap, xml)
            if trap in HARMLESS:
                rec.count("trapped")
            src = rng.choice([lambda: xml, lambda: io.StringIO(xml), lambda: io.BytesIO(xml.encode("utf-8"))])

            def read():
                o = XmlCtsTextInventoryMetadata.parse(src())
                rec.eq(sorted(x.id for x in o.descendants), sorted(x.urn for x in m.walk() if x is not m), "inventory")
                out = []
                for urn, (l, s) in want.items():
                    got = str(o[urn].get_label(l))
                    rec.eq(squash(got), squash(s), "inventory", kind="label")
                    out.append(got)
                out.append(o.export(Mimetypes.XML.CTS))
                return out
            traps.check(rec, attempt(rec, trap, read))
        finally:
            traps.watch.close()
