"""CapiTainS repositories on disk, generated from a model inventory, in a scratch directory."""
import os
import re
import shutil
import tempfile
from contextlib import contextmanager

from vlib import inv as I
from vlib import tei
from vlib.gen import word

FAULTS = ("missing", "malformed", "nodecl", "empty", "binary", "directory")


@contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="verif-repo-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def cite_pairs(doc):
    out = []
    for i in range(doc.depth):
        scope = doc.base + "".join(tei.step(l, 1) for l in doc.levels[:i])
        last = tei.step(doc.levels[i], 1)
        if not last.startswith("//"):
            # an element that the path names but that is not cited belongs to the scope
            cut = re.match(r"(.*)/[^/\[\]]+(\[[^\]]*\])+$", last).end(1)
            scope, last = scope + last[:cut], last[cut:]
        out.append((doc.levels[i].name, scope.replace("$1", "?"), last.replace("$1", "?")))
    return out


def norm(cites):
    """The quotes of a literal do not matter; what it holds does."""
    return [tuple(re.sub(r"\"[^\"]*\"|'[^']*'", lambda m: "<%s>" % m.group()[1:-1], x) for x in c) for c in cites]


class Repo:
    """m: inventory model; every text model has .doc or .fault, and .folder; .folders: the folders to give a resolver."""


def gen(rng, base, faults=0.0, groups=(1, 3), works=(0, 3), texts=(0, 3), nfolders=None, depth=None, declared=0.3):
    r = Repo()
    r.m = I.bare(rng, I.gen(rng, groups=groups, works=works, texts=texts, tiid="default"))
    n = nfolders or rng.choice([1, 1, 2])
    names = rng.sample(["repo", "canonical-latinLit", "my repo", "[x]", "a*b", "q?", "été", "x.git", "{b}", "repo2"], n)
    if n == 2 and rng.random() < 0.4:
        names = rng.choice([["repo", "repo2"], ["repo2", "repo"], ["repo", "repo-data"]])
    r.folders = [os.path.join(base, x) for x in names]
    for t in r.m.texts():
        t.declared = t.cite
        if rng.random() > declared:
            t.declared = []
        t.doc, t.fault = None, None
        if rng.random() < faults:
            t.fault = rng.choice(FAULTS)
            t.cite = t.declared
        else:
            t.doc = tei.gen_doc(rng, depth=depth or rng.choice([1, 2, 2, 3]), width=3)
            t.cite = cite_pairs(t.doc)
    r.home = {}
    for wk in [w for tg in r.m.kids for w in tg.kids]:
        r.home[wk.urn] = rng.choice(r.folders)
    write(rng, r)
    return r


def plain_dir(rng, used, name):
    """Folder names need not follow the URNs."""
    d = name if rng.random() < 0.7 else rng.choice(["d", "[1]", "w x", "é"]) + word(rng)
    while d in used:
        d += "x"
    used.add(d)
    return d


def write(rng, r):
    r.tgdirs, r.wkdirs = {}, {}
    for f in r.folders:
        os.makedirs(os.path.join(f, "data"))
        if rng.random() < 0.3:
            os.makedirs(os.path.join(f, ".git"))
            open(os.path.join(f, "data", "README.md"), "w").write("nothing")
            os.makedirs(os.path.join(f, "data", "emptydir"))
    for tg in r.m.kids:
        homes = {r.home[w.urn] for w in tg.kids} or {r.folders[0]}
        last = tg.urn.split(":")[-1]
        for f in homes:
            d = os.path.join(f, "data", plain_dir(rng, set(os.listdir(os.path.join(f, "data"))), last))
            os.makedirs(d)
            r.tgdirs[(tg.urn, f)] = d
            works, tg.kids = tg.kids, []
            put(os.path.join(d, "__cts__.xml"), I.to_xml(tg, rng), rng)
            tg.kids = works
            if rng.random() < 0.2:
                os.makedirs(os.path.join(d, "nothing-here"))
            used = set()
            for wk in works:
                if r.home[wk.urn] != f:
                    continue
                wd = os.path.join(d, plain_dir(rng, used, wk.urn.split(".")[-1]))
                os.makedirs(wd)
                r.wkdirs[wk.urn] = wd
                cites = [(t, t.cite) for t in wk.kids]
                for t in wk.kids:
                    t.cite = t.declared
                put(os.path.join(wd, "__cts__.xml"), I.to_xml(wk, rng), rng)
                for t, c in cites:
                    t.cite = c
                for t in wk.kids:
                    put_text(os.path.join(wd, t.urn.split(":")[-1] + ".xml"), t, rng)
                    t.path = os.path.join(wd, t.urn.split(":")[-1] + ".xml")


def put(path, s, rng=None):
    """A file, in UTF-8 or in an encoding it declares."""
    enc = rng.choice([None] * 6 + ["UTF-8", "utf-8", "UTF-16", "ISO-8859-1", "US-ASCII"]) if rng else None
    if enc is None or s.lstrip()[:2] in ("<?", "<!") or ("CDATA" in s and enc[0].isupper() and enc != "UTF-16"):
        data = s.encode("utf-8")
    else:
        data = ("<?xml version=%s encoding=%s?>\n" % tuple(rng.choice("\"'").join(["", x, ""]) for x in ("1.0", enc)) + s)
        data = data.encode(enc, "xmlcharrefreplace")
    with open(path, "wb") as f:
        f.write(data)


NODECL = '<TEI xmlns="http://www.tei-c.org/ns/1.0"><text><body><div n="1"><p>x</p></div></body></text></TEI>'


def put_text(path, t, rng=None):
    if t.fault is None:
        put(path, t.doc.xml, rng)
    elif t.fault == "malformed":
        put(path, "<TEI xmlns='http://www.tei-c.org/ns/1.0'><text>")
    elif t.fault == "nodecl":
        put(path, NODECL)
    elif t.fault == "empty":
        put(path, "")
    elif t.fault == "binary":
        with open(path, "wb") as f:
            f.write(bytes(range(256)))
    elif t.fault == "directory":
        os.makedirs(path)
