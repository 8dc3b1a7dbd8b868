#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = registry.CHECKS.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": registry.NOT_APPLICABLE.get(p["id"], "check still being built")})
        continue
    checks.append({"property": p["id"], "quick_cmd": "VERIF_TIER=quick python3 check.py " + p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                   "technique": c.get("technique", "property-based testing: random structured generation against a reference model, with shrinking"),
                   "level": c.get("level", "exploration"),
                   "level_note": c.get("note", c["rule"])})
json.dump({"version": 1, "setup_cmd": "python3 vlib/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every check builds from the working tree and observes public behaviour only. See DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
