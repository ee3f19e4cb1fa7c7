#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/meta/*.py (one table, so that the two stay in step).
Usage: python3 tools/mk_meta.py"""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, title)
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state, observe=observe))


ns = {"prop": prop}
exec(compile(open(os.path.join(here, "tools", "properties_table.py")).read(), "properties_table.py", "exec"), ns)

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                        "mechanism": [dict(zip(("name", "where"), m)) for m in p["mech"]],
                        "observe_at": list(p["observe"]), "hook_needed": None},
        }, ensure_ascii=False) + "\n")

man = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "bash run.sh %s quick" % p["id"],
        "thorough_cmd": "bash run.sh %s thorough" % p["id"],
        "technique": "runtime monitoring: " + p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    } for p in P],
    "not_applicable": [],
    "notes": "No hooks are needed in /repo: every monitor observes the public API, or the wire. See DESIGN.md.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(P), "properties")
