#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import PROPS
NA = {
 "N01": "a compile-time fact (a program that copies does not compile): there is no execution for a monitor to observe",
 "P06": "writeFile is an empty stub on the pinned tree (recorded in DESIGN.md as a missing feature): there is no behaviour to observe",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    else:
        NA.setdefault(i, "no check yet")
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks,
     "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i not in PROPS],
     "notes": "No hooks in /repo: the checks observe the public interface, and instrument by compiler and by interposed pthread functions."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks")
