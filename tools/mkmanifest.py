#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties that have a check in tools/props."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("TLC explores the specification exhaustively within the stated constants; behaviours generated from it "
        "and seeded random ones are executed on the real code and every recorded result and state is "
        "validated against the specification")
checks, na = [], []
for p in props:
    f = os.path.join(V, "tools/props", p["id"] + ".py")
    if os.path.exists(f):
        checks.append(dict(property=p["id"],
            quick_cmd="VERIF_TIER=quick python3 tools/check.py " + p["id"],
            thorough_cmd="VERIF_TIER=thorough python3 tools/check.py " + p["id"],
            evidence_file="evidence/%s.json" % p["id"],
            technique="TLA+ specification checked with TLC, bound to the code by trace validation",
            level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=p["id"], reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="All checks: tools/check.py <id>; specifications in spec/, harnesses in harness/.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "without")
