#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS, UNCLAIMED
checks, na = [], []
TECH = "runtime monitoring of the real code under ASan/UBSan: "
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in PROPS:
        c = PROPS[p]
        checks.append({"property": p, "quick_cmd": "python3 run.py %s --tier quick" % p, "thorough_cmd": "python3 run.py %s --tier thorough" % p,
                       "technique": TECH + c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"]})
    else:
        na.append({"property": p, "reason": UNCLAIMED.get(p, "the check of this property is not built yet")})
m = {"version": 1, "setup_cmd": "python3 run.py --build-only", "checks": checks, "not_applicable": na,
     "notes": "No hooks were needed in /repo: the harness observes through the library's own interfaces (storage, transport, platform stubs)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "unclaimed")
