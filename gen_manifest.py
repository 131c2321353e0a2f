#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py (claims) and the reasons below."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    s = PROPS[i]
    checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                   "thorough_cmd": "python3 check.py %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": s["technique"], "level": s.get("level", "proof"), "level_note": s["note"]})
na = [{"property": i, "reason": NOT_APPLICABLE[i]} for i in ids if i not in PROPS]
m = {"version": 1,
     "setup_cmd": "python3 setup.py",
     "checks": checks, "not_applicable": na,
     "notes": "Contracts are attached to functions extracted from /repo on every run (contracts/, lib/rustx.py); "
              "Verus discharges them. harness/ holds the replay and bounded searches against the real code. "
              "See DESIGN.md for the decision policy. No hooks are needed in /repo."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
