#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from plan import PLAN
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
    if p not in PLAN:
        continue
    checks.append({
        "property": p,
        "quick_cmd": f"python3 check.py {p}",
        "thorough_cmd": f"env VERIF_TIER=thorough python3 check.py {p}",
        "technique": PLAN[p].get("technique") or "TLA+ specification checked with TLC; recorded executions of the real code validated step by step against it",
        "level": "model_checking",
        "level_note": PLAN[p].get("note") or "Exhaustive within the constants of the design models; every recorded step of the real code on the explored histories is decided by TLC. Trusts the recorder's projection of the observed values.",
    })
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": "no check yet"} for p in props if p not in PLAN],
     "notes": "No hooks in /repo: everything is observed through the public API. Repairs of genuine defects are the fix: commits, listed in known-findings.txt."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
