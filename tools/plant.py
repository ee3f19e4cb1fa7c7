#!/usr/bin/env python3
"""Development aid: make and try planted bugs.

plant.py make FILE [ID...]   FILE defines BUGS = [dict(id, property, file, edits=[(old, new)...] (or edits=[(file, old, new)]),
                             needs, breaks, demo)]; writes seeded/<id>/ for each
plant.py try [ID...]         verifies each (scratch copy): demo clean/patched, tests, original lines only, and which checks catch it
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(here, "seeded")
BASE = "f71c118"
DEMO_SH = """#!/bin/bash
# exit 0: the behaviour is as it should be; 1: it is not
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=$(mktemp -d) LANG=C.UTF-8 PYTHONUTF8=1 no_proxy='*' NO_PROXY='*'
/opt/venv/bin/python -W ignore "$d/demo.py"
rc=$?
rmdir "$PYTHONPYCACHEPREFIX" 2>/dev/null
exit $rc
"""
HEAD = "import os\nimport sys\nsys.path.insert(0, os.getcwd())\n"


def sh(cmd, cwd=None, timeout=900, env=None):
    e = dict(os.environ, **(env or {}))
    r = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, capture_output=True, text=True, timeout=timeout, env=e)
    return r.returncode, r.stdout + r.stderr


def scratch():
    d = tempfile.mkdtemp(prefix="plant-")
    shutil.rmtree(d)
    shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
    return d


def make(path, ids):
    ns = {}
    exec(compile(open(path).read(), path, "exec"), ns)
    for b in ns["BUGS"]:
        if ids and b["id"] not in ids:
            continue
        d = scratch()
        try:
            for e in b["edits"]:
                f, old, new = e if len(e) == 3 else (b["file"],) + tuple(e)
                p = os.path.join(d, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(b["id"], "edit matches", s.count(old), "times:", old[:80])
                    break
                open(p, "w").write(s.replace(old, new))
            else:
                out = os.path.join(SEEDED, b["id"])
                os.makedirs(out, exist_ok=True)
                rc, diff = sh(["git", "diff"], cwd=d)
                open(os.path.join(out, "patch.diff"), "w").write(diff)
                open(os.path.join(out, "demo.py"), "w").write(HEAD + b["demo"].strip("\n") + "\n")
                p = os.path.join(out, "demo.sh")
                open(p, "w").write(DEMO_SH)
                os.chmod(p, 0o755)
                json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                          open(os.path.join(out, "meta.json"), "w"), indent=1, ensure_ascii=False)
        finally:
            shutil.rmtree(d)


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("passed", "pass", "stable", "tests"):
        if k in b:
            v = b[k]
            return set(v if isinstance(v, list) else [x for x, y in v.items() if y in ("passed", "pass", True)])


def original_lines(diff):
    """Lines the patch removes or changes that our own commits added."""
    bad, f, old = [], None, 0
    blame = {}
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
            rc, o = sh(["git", "-C", "/repo", "blame", "-s", "-l", "HEAD", "--", f])
            blame = {i + 1: x for i, x in enumerate(o.splitlines())}
        elif l.startswith("@@"):
            old = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"):
            h = blame[old].split()[0].lstrip("^")
            rc, _ = sh(["git", "-C", "/repo", "merge-base", "--is-ancestor", h, BASE])
            if rc:
                bad.append(l)
            old += 1
        elif l.startswith("+"):
            pass
        else:
            old += 1
    return bad


def attempt(i):
    b = os.path.join(SEEDED, i)
    meta = json.load(open(os.path.join(b, "meta.json")))
    d = scratch()
    w = tempfile.mkdtemp(prefix="plantw-")
    res = {"id": i, "property": meta["property"]}
    try:
        shutil.copytree(b, os.path.join(w, "demo"))
        demo = ["bash", os.path.join(w, "demo", "demo.sh")]
        rc, o = sh(demo, cwd=d, timeout=300)
        res["clean"] = rc
        if rc:
            res["out"] = o[-800:]
        rc, o = sh(["git", "apply", os.path.join(b, "patch.diff")], cwd=d)
        if rc:
            res["apply"] = o
            return res
        diff = open(os.path.join(b, "patch.diff")).read()
        res["mine"] = original_lines(diff)
        rc, o = sh(demo, cwd=d, timeout=300)
        res["patched"] = rc
        res["says"] = o.strip().splitlines()[-1][:150] if o.strip() else ""
        env = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "PYTHONPYCACHEPREFIX": os.path.join(w, "pyc")}
        rc, o = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=120 --continue-on-collection-errors "
                   "-o junit_family=xunit2 --junitxml=%s/j.xml tests; /usr/bin/python3 /opt/vp/results.py %s/o.json junit:%s/j.xml"
                   % (w, w, w), cwd=d, env=env)
        out = json.load(open(w + "/o.json"))
        passed = next(set(v if isinstance(v, list) else [x for x, y in v.items() if y in ("passed", "pass", True)])
                      for k, v in out.items() if k in ("passed", "pass", "stable", "tests"))
        res["tests"] = sorted(stable() - passed)[:3]
        rc, o = sh(["bash", os.path.join(here, "run.sh"), meta["property"], "quick"], env={"VERIF_REPO": d, "VERIF_SEED": "1",
                                                                                         "VERIF_TIER": "quick"})
        res["caught"] = rc == 1 and ("VIOLATION property=%s" % meta["property"]) in o
        res["check"] = [l for l in o.splitlines() if "kind=" in l][:1] or o.splitlines()[-2:]
    finally:
        shutil.rmtree(d)
        shutil.rmtree(w)
    return res


def main():
    if sys.argv[1] == "make":
        make(sys.argv[2], sys.argv[3:])
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
        with ThreadPoolExecutor(3) as ex:
            for r in ex.map(attempt, ids):
                ok = not r.get("clean") and r.get("patched") and not r.get("tests") and not r.get("mine") and "apply" not in r
                print("%-28s %s %s %s" % (r["id"], r["property"], "VALID" if ok else "INVALID", "caught" if r.get("caught") else "MISSED"))
                if not ok or not r.get("caught"):
                    print("   ", {k: v for k, v in r.items() if k not in ("id", "property")})


main()
