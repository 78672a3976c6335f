#!/usr/bin/env python3
"""Write MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NOT_APPLICABLE

TECH = "contract-based deductive verification of the Go source (gvc: verification conditions per function, z3/cvc5)"
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if pid in PROPS:
        p = PROPS[pid]
        t = p.get("technique", TECH)
        checks.append({"property": pid, "quick_cmd": "python3 tools/check.py %s quick" % pid,
                       "thorough_cmd": "python3 tools/check.py %s thorough" % pid,
                       "technique": t, "level": p.get("level", "proof"), "level_note": p["note"]})
    else:
        na.append({"property": pid, "reason": NOT_APPLICABLE.get(pid, "not built yet: no contract covers it so far")})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
