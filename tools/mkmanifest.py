#!/usr/bin/env python3
"""Rewrites /verif/MANIFEST.json from the check registry."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
import registry  # noqa: E402

ids = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]
na = getattr(registry, "NOT_APPLICABLE", {})
m = {"version": 1,
     "setup_cmd": "./check --setup",
     "checks": [{"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "./check " + p,
                 "evidence_file": "evidence/%s.json" % p,
                 "technique": registry.CHECKS[p]["technique"], "level": "model_checking",
                 "level_note": registry.CHECKS[p]["note"]} for p in ids if p in registry.CHECKS],
     "not_applicable": [{"property": p, "reason": r} for p, r in na.items()],
     "notes": "Specifications in spec/ (TLA+), recorders in drivers/, pipeline in harness/. See DESIGN.md."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "checks; without a check:", [p for p in ids if p not in registry.CHECKS and p not in na])
