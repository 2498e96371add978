#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of checks below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, os.path.join(ROOT, "tools"))
from manifest_table import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
    if p in CHECKS:
        tech, note = CHECKS[p]
        checks.append(dict(property=p, quick_cmd="VERIF_TIER=quick python3 checks/run.py " + p,
                           thorough_cmd="VERIF_TIER=thorough python3 checks/run.py " + p,
                           evidence_file="evidence/%s.json" % p,
                           technique=tech, level="model_checking", level_note=note))
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, "check under construction; not claimed yet"))
      for p in props if p not in CHECKS]
m = dict(version=1, setup_cmd="python3 harness/setup.py", checks=checks, not_applicable=na,
         notes="TLA+ specifications in specs/, checked with TLC; DESIGN.md explains each check.")
open(os.path.join(ROOT, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
