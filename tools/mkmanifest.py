#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plan.py."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "tools"))
from plan import PLAN, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        pl = PLAN[i]
        checks.append({
            "property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": pl.get("technique", "TLA+ specification model-checked with TLC; TLC-emitted and generated cases run on the real code, every recorded step judged by TLC against the specification"),
            "level": pl["level"], "level_note": pl["note"]})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
