#!/usr/bin/env python3
"""Mechanical changes of the code under test, to find what no check sees (development only).

mutate.py run OUT.jsonl N SEED [WORKERS] [path part]: N mutants drawn at random; those that the project's own tests do not
notice are given to the checks, the ones nearest to the file first."""
import ast
import glob
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys

REPO, HERE = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = "/tmp/w/mut"
SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is",
        ast.In: "not in", ast.NotIn: "in"}
ARITH = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Div: "*", ast.Mod: "*"}


def offsets(src):
    out, n = [0], 0
    for l in src.splitlines(True):
        n += len(l.encode())
        out.append(n)
    return out


def candidates(path):
    src = open(path, encoding="utf-8").read()
    raw, off = src.encode(), offsets(src)
    tree = ast.parse(src)
    out = []

    def seg(n):
        a, b = off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
        return a, b, raw[a:b].decode()

    def put(n, text, kind):
        a, b, s = seg(n)
        if s != text:
            out.append((path, n.lineno, a, b, s, text, kind))
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and \
                isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0].value)
            docs.add(n.body[0])
    for n in ast.walk(tree):
        if n in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = seg(n.left)[2], seg(n.comparators[0])[2]
            put(n, "%s %s %s" % (l, SWAP[type(n.ops[0])], r), "compare")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + op.join(seg(v)[2] for v in n.values) + ")", "boolop")
            for i in range(len(n.values)):
                put(n, "(" + ((" and " if isinstance(n.op, ast.And) else " or ").join(
                    seg(v)[2] for j, v in enumerate(n.values) if j != i)) + ")", "bool-drop")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, "(" + seg(n.operand)[2] + ")", "not")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            put(n, "(" + seg(n.operand)[2] + ")", "minus")
        elif isinstance(n, ast.BinOp) and type(n.op) in ARITH and not isinstance(n.left, ast.Constant):
            put(n, "(%s %s %s)" % (seg(n.left)[2], ARITH[type(n.op)], seg(n.right)[2]), "arith")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            put(n, str(not n.value), "bool")
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            put(n, str(n.value + 1), "int")
            if n.value:
                put(n, str(n.value - 1), "int")
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value and \
                raw[off[n.lineno - 1] + n.col_offset:][:1] in (b'"', b"'"):
            put(n, repr(n.value + "x"), "str")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            put(n.test, "(not (%s))" % seg(n.test)[2], "negate")
            put(n.test, "False", "never")
            if isinstance(n, ast.If):
                put(n.test, "True", "always")
        elif isinstance(n, ast.comprehension):
            for i in n.ifs:
                put(i, "True", "comp-if")
        elif isinstance(n, ast.Return) and n.value is not None:
            put(n.value, "None", "return")
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            put(n, "pass", "delete")
        elif isinstance(n, ast.Slice):
            pass
        elif isinstance(n, ast.Break):
            put(n, "continue", "break")
        elif isinstance(n, ast.Continue):
            put(n, "break", "continue")
        if isinstance(n, ast.Call):
            for k in n.keywords:
                a = seg(k)
                tail = raw[a[1]:a[1] + 40].decode("utf-8", "ignore")
                stop = len(tail) - len(tail.lstrip())
                if tail.lstrip()[:1] == ",":
                    out.append((path, k.value.lineno, a[0], a[1] + stop + 1, a[2] + ",", "", "kw-drop"))
                else:
                    out.append((path, k.value.lineno, a[0], a[1], a[2], "", "kw-drop"))
            if len(n.args) == 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                a, b = seg(n.args[0]), seg(n.args[1])
                out.append((path, n.lineno, a[0], b[1], raw[a[0]:b[1]].decode(), b[2] + ", " + a[2], "arg-swap"))
    subtle(tree, docs, seg, put)
    return out


def subtle(tree, docs, seg, put):
    """Changes that matter for some inputs only."""
    def plain(n):
        return isinstance(n, (ast.Name, ast.Attribute))
    for n in ast.walk(tree):
        if n in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None:
            l = seg(n.left)[2]
            if isinstance(n.ops[0], ast.IsNot):
                put(n, "(%s)" % l, "s-truth")
            if isinstance(n.ops[0], ast.Is):
                put(n, "(not %s)" % l, "s-truth")
        if isinstance(n, (ast.If, ast.While, ast.IfExp)) and plain(n.test):
            put(n.test, "%s is not None" % seg(n.test)[2], "s-none")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not) and plain(n.operand):
            put(n, "(%s is None)" % seg(n.operand)[2], "s-none")
        if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or) and len(n.values) == 2 and plain(n.values[0]):
            a, b = seg(n.values[0])[2], seg(n.values[1])[2]
            put(n, "(%s if %s is not None else %s)" % (a, a, b), "s-or")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and n.slice.value == 0:
            put(n.slice, "-1", "s-index")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.UnaryOp):
            put(n.slice, "0", "s-index")
        if isinstance(n, ast.Call):
            f, full = seg(n.func)[2], seg(n)[2]
            m = n.func.attr if isinstance(n.func, ast.Attribute) else f
            args = [seg(x)[2] for x in n.args]
            if m == "split" and len(args) == 1:
                put(n, "%s(%s, 1)" % (f, args[0]), "s-split")
                put(n, f[:-5] + "rsplit(%s, 1)" % args[0], "s-split")
            if m == "replace" and len(args) == 2:
                put(n, "%s(%s, %s, 1)" % (f, *args), "s-replace")
            if m in ("startswith", "endswith") and len(args) == 1:
                put(n, "(%s in %s)" % (args[0], f.rsplit(".", 1)[0]), "s-in")
            if m in ("list", "set", "sorted", "tuple", "dict", "str", "copy", "deepcopy", "frozenset") and len(args) == 1:
                put(n, "(%s)" % args[0], "s-unwrap")
            if m in ("lower", "upper", "strip") and not args:
                put(n, f.rsplit(".", 1)[0], "s-unwrap")
            if m == "get" and len(args) == 2:
                put(n, "%s(%s)" % (f, args[0]), "s-get")
            if m == "isinstance" and isinstance(n.args[1], ast.Tuple):
                for e in n.args[1].elts:
                    put(n, "isinstance(%s, (%s,))" % (args[0], ", ".join(seg(x)[2] for x in n.args[1].elts if x is not e)), "s-isinstance")
            if m == "isinstance" and plain(n.args[1]):
                put(n, "(type(%s) is %s)" % (args[0], args[1]), "s-isinstance")
            if m in ("any", "all"):
                put(n.func, {"any": "all", "all": "any"}[m], "s-any")
            if m in ("max", "min"):
                put(n.func, {"max": "min", "min": "max"}[m], "s-max")
        if isinstance(n, ast.Attribute) and n.attr == "text" and isinstance(n.ctx, ast.Load):
            put(n, "(%s or '').strip()" % seg(n)[2], "s-strip")
        if isinstance(n, (ast.For, ast.comprehension)):
            it = seg(n.iter)[2]
            put(n.iter, "list(reversed(list(%s)))" % it, "s-reversed")
            put(n.iter, "list(%s)[:3]" % it, "s-three")
            put(n.iter, "list(dict.fromkeys(%s))" % it, "s-once")
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], ast.Eq) and \
                not isinstance(n.comparators[0], (ast.Constant, ast.Attribute)):
            put(n, "(str(%s).lower() == str(%s).lower())" % (seg(n.left)[2], seg(n.comparators[0])[2]), "s-case")


def order(rel):
    sys.path.insert(0, os.path.join(HERE, "tools"))
    near, far = [], []
    for l in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(l)
        (near if rel in json.dumps(p) else far).append(p["id"])
    return near if near and os.environ.get("NEAR") else near + far


DES = ["--deselect", "tests/retrievers/test_dts.py::TestDtsParsing::test_get_collection_headers_parsing_and_hit"]
for m in ("test_capitains_xml_default", "test_capitains_xml_notObjectified"):
    for c in ("CapitainsXmlTextTest", "CapitainsXmlPassageTests", "CapitainsXMLRangePassageTests"):
        DES += ["--deselect", "tests/resources/texts/local/%s.py::%s" % (m, c)]


def worker(args):
    k, muts, out, scale = args
    r, v = "%s/repo%d" % (WORK, k), "%s/verif%d" % (WORK, k)
    for a, b in ((REPO, r), (HERE, v)):
        shutil.rmtree(b, ignore_errors=True)
        shutil.copytree(a, b, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", "seeded", ".git", "replays"))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_REPO=r, VERIF_JOBS="1")
    for m in muts:
        path, line, a, b, old, new, kind = m
        rel = os.path.relpath(path, REPO)
        tgt = os.path.join(r, rel)
        raw = open(path, "rb").read()
        mut = raw[:a] + new.encode() + raw[b:]
        res = {"file": rel, "line": line, "kind": kind, "old": old[:200], "new": new[:200]}
        try:
            compile(mut.decode(), tgt, "exec")
        except SyntaxError:
            continue
        open(tgt, "wb").write(mut)
        try:
            try:
                t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60"] + DES +
                                   ["tests"], cwd=r, env=env, capture_output=True, timeout=240)
                bad = t.returncode
            except subprocess.TimeoutExpired:
                bad = "timeout"
            if bad:
                res["by"] = "tests"
            else:
                res["by"] = None
                for c in order(rel):
                    try:
                        t = subprocess.run(["bash", v + "/run.sh", c, "quick", "--scale", str(scale)], env=env, capture_output=True,
                                           timeout=400, text=True)
                        if t.returncode:
                            res["by"], res["code"] = c, t.returncode
                            res["how"] = t.stdout[:300]
                            break
                    except subprocess.TimeoutExpired:
                        res["by"] = c + " timeout"
                        break
        finally:
            open(tgt, "wb").write(raw)
        with open(out, "a") as f:
            f.write(json.dumps(res) + "\n")


if __name__ == "__main__":
    out, n, seed = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    w = int(sys.argv[5]) if len(sys.argv) > 5 else 8
    part = sys.argv[6] if len(sys.argv) > 6 else ""
    allc = []
    for p in sorted(glob.glob(REPO + "/MyCapytain/**/*.py", recursive=True)):
        if part in p:
            allc += candidates(p)
    print(len(allc), "candidates")
    if os.environ.get("KIND"):
        allc = [c for c in allc if c[6].startswith(os.environ["KIND"])]
        print(len(allc), "of kind", os.environ["KIND"])
    rng = random.Random(seed)
    rng.shuffle(allc)
    pick = allc[:n]
    os.makedirs(WORK, exist_ok=True)
    with multiprocessing.Pool(w) as pool:
        pool.map(worker, [(k, pick[k::w], out, 0.3) for k in range(w)])
