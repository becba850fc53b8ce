#!/usr/bin/env python3
"""actions.py: run every design model with TLC's coverage and report actions that never
fired and parts of actions or invariants that were never evaluated."""
import json
import os
import re
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
import registry  # noqa: E402
import run  # noqa: E402

seen = set()
os.makedirs(os.path.join(ROOT, ".work"), exist_ok=True)
for pid, c in sorted(registry.CHECKS.items()):
    for m in c["models"]:
        cfg = m.get("cfg", m["module"] + ".cfg")
        if cfg in seen or "quick" not in m.get("tiers", ("quick", "thorough")):
            continue
        seen.add(cfg)
        with tempfile.TemporaryDirectory(dir=os.path.join(ROOT, ".work")) as w:
            try:
                r = run.tlc(m["module"], cfg, w, env={"EMIT": "0"}, limit=900, workers=4, extra=("-coverage", "1"))
            except run.Machinery as e:
                print(pid, cfg, e)
                continue
        out = r["out"]
        k = out.rfind("The coverage statistics")
        acts, never, zero = 0, [], 0
        for x in re.finditer(r"^<(\w+) line (\d+).*of module (\w+)(?: \([\d ]+\))?>: (\d+):(\d+)", out[k:], re.M):
            acts += 1
            if x.group(5) == "0":
                never.append("%s (%s:%s)" % (x.group(1), x.group(3), x.group(2)))
        lines = [x.group(0).strip() for x in re.finditer(r"^\s*\|*line \d+, col \d+ to line \d+, col \d+ of module (\w+): 0$", out[k:], re.M)]
        print(json.dumps({"cfg": cfg, "rc": r["rc"], "states": r["distinct"], "actions": acts, "never": never, "unevaluated": len(lines), "where": lines[:6]}), flush=True)
