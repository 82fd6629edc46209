#!/usr/bin/env python3
"""Write MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stages
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = ("Bounded exhaustive model checking of the specification, and conformance of the real crate: every recorded call is "
        "checked by TLC to be a transition the specification allows. %s Assumes TLC, the recording harness and the sequential "
        "nature of the crate; inputs beyond the stated bounds are sampled from the seed.")
checks = []
for p in props:
    if p not in stages.STAGES:
        continue
    checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p,
                   "thorough_cmd": "python3 check.py %s thorough" % p,
                   "technique": "TLA+ specification, TLC; trace validation of the real crate and replay of model-generated sessions",
                   "level": "model_checking", "level_note": NOTE % stages.NOTES.get(p, "")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": p, "reason": "not built yet"} for p in props if p not in stages.STAGES],
     "notes": "TLA+ with TLC; see DESIGN.md. No hooks are needed in /repo."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
