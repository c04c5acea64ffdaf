#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and py/registry.py."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, "py"))
from registry import REG
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in REG:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
                       "technique": REG[i].get("technique", "TLA+ specification: TLC model checking of the laws, TLC-generated cases replayed into the code, TLC trace validation of the recorded calls"),
                       "level": "model_checking", "level_note": REG[i].get("note", "laws exhaustive within the model constants; conformance on the TLC-generated and seeded cases")})
    else:
        na.append({"property": i, "reason": "machinery not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 -c \"print('nothing to build')\"", "checks": checks, "not_applicable": na}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
