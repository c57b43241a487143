#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the table of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks.table import CHECKS, NOTES, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in CHECKS:
        checks.append({
            "property": i, "quick_cmd": f"python3 run.py {i} --tier quick", "thorough_cmd": f"python3 run.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json", "level": "model_checking",
            "technique": "stateless model checking of the real code: exhaustive enumeration of a bounded choice tree, oracle per execution",
            "level_note": NOTES.get(i, CHECKS[i].get("bounds", "")) or "bounded exhaustive enumeration",
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", [x["property"] for x in na])
