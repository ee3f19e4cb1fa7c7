#!/usr/bin/env python3
"""Refreshes the "fixed" list of known_findings.json from the fix commits of /repo and the table below."""
import json
import os
import subprocess

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPERTY = {
    "76029d0": "C01", "86249af": "C01", "74b6ab4": "C03", "012a3bf": "C07", "7200bf0": "C07", "69c0e1d": "C04",
    "3c36995": "C04", "c986a28": "C13", "961a6e7": "C04", "749749c": "C09", "9b2bd71": "C09", "48c4e99": "C10",
    "42a006a": "C11", "48450ed": "C11", "7657c5e": "C12", "db514d0": "C13", "4605fd7": "C13", "1972f65": "C13",
    "f494f87": "C13", "de6ca62": "C13", "97a0260": "C13", "4e2eaa6": "C13", "2631da6": "C14", "de9b3b9": "C25",
    "2ae961f": "C15", "30e2447": "C15", "0d6aa69": "C16", "5c4f3fa": "C16", "320970f": "C17", "fbd13f9": "C17",
    "8b06138": "C18", "ee95313": "C17", "bc92db7": "C17", "adfb643": "C17", "e749959": "C18", "54b1694": "C18",
    "30753da": "C19", "e379d9d": "C09", "86052cd": "C20", "63aab9f": "C20", "31ceff1": "C20", "7213b7b": "C20",
    "82f9225": "C20", "bc3a1a7": "C10", "05a5ed6": "C07", "900cac7": "C21", "91dda91": "C21", "70a1cbe": "C21",
    "ef67029": "C21", "ea9f8cb": "C21", "6facd0d": "C23", "4e853cb": "C23", "fa36482": "C23", "d128cee": "C23",
    "917df89": "C23", "ee2fb39": "C05", "8ef2793": "C22", "f65e2be": "C22", "3af2267": "C22", "fd4101c": "C15",
    "cc2b096": "C25", "44a9536": "C26", "d813b22": "C10",
    "fa2cd97": "C18", "4eb2f18": "C03", "e3e949b": "C03", "af273cb": "C17", "ad91906": "C29", "18fef8e": "C12", "8362cd5": "C30", "1feb0cd": "C30", "1a5574a": "C04", "a07acfc": "C20", "bab463b": "C20", "5c4de54": "C21", "b54a79f": "C24",
    "7195706": "C08", "81a8e94": "C20", "59c68c3": "C08", "93ef24c": "C06", "a7df0ad": "C04", "acf62ec": "C06", "7df943c": "C13", "b9ca613": "C13", "2690aca": "C05", "076d4d1": "C15",
}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "f71c118..HEAD"], capture_output=True,
                     text=True, check=True).stdout.splitlines()
path = os.path.join(here, "known_findings.json")
d = json.load(open(path))
d["fixed"] = []
for l in log:
    h, subj = l.split(" ", 1)
    if not subj.startswith("fix: "):
        continue
    assert h in PROPERTY, l
    d["fixed"].append("fixed: property=%s %s this did not hold: %s" % (PROPERTY[h], h, subj[5:]))
json.dump(d, open(path, "w"), indent=1, ensure_ascii=False)
open(path, "a").write("\n")
print(len(d["fixed"]))
