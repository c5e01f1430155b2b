#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registry of checks."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from specs import registry
from specs.describe import LEVEL_NOTE, NOT_APPLICABLE, LIMITS

UNIT = "value-numbering dataflow over the syntax tree, compared with a reference snippet per function"
RULE = "whole-program rules over the resolved syntax tree (effects, aliases, imports, defaults)"

checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    u, r = registry.UNITS.get(p), registry.RULES.get(p)
    if p in NOT_APPLICABLE or not u and not r:
        na.append({"property": p, "reason": NOT_APPLICABLE.get(p, "no check has been built for it yet")})
        continue
    tech = "static analysis: " + " and ".join(([UNIT] if u else []) + ([RULE] if r else []))
    note = LEVEL_NOTE
    if p in LIMITS:
        note += " Limits: " + LIMITS[p]
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py %s --tier quick" % p,
        "thorough_cmd": "python3 check.py %s --tier thorough" % p,
        "technique": tech,
        "level": "other",
        "level_note": note,
    })
json.dump({"version": 1, "setup_cmd": "python3 -c \"import ast, sys; sys.exit(0 if sys.version_info >= (3, 9) else 1)\"",
           "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
