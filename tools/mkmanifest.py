#!/usr/bin/env python3
# Writes MANIFEST.json from tools/checks.py and properties.jsonl.
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from checks import CHECKS
ROOT = os.path.dirname(H)
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i,
            "thorough_cmd": "python3 run.py %s thorough" % i,
            "technique": c.get("technique", "stateful property-based testing against a reference model, with shrinking, in debug and release builds"),
            "level": "exploration",
            "level_note": c.get("note", "Random search over generated histories and inputs: no violation on the explored cases; not a proof.") +
                " Assumes: " + "; ".join(c.get("assumptions", [])) + "."})
    else:
        na.append({"property": i, "reason": "no check yet"})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
     "notes": "Each check builds its own harness from /repo's working tree in debug and release configurations. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
