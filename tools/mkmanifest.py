#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from plan import PLAN
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("TLC checks the algorithm model against the contract of this property on all small grammars of the stated bounds, and checks every history "
        "recorded from the real code (cases enumerated by the specification and random histories) against the same contract. "
        "Exhaustive only within those bounds; trusts TLC, the contract's text in spec/, and the harness's faithful recording.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
                           technique="TLA+ specification checked with TLC; trace validation of recorded executions against it",
                           level="model_checking", level_note=PLAN[i].get("note", NOTE)))
    else:
        na.append(dict(property=i, reason="not built yet"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="TLA+ with TLC. No hooks in /repo: the public API exposes the abstract state. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
