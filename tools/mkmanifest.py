#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the registered checks."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from vlib import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = dict(version=1, setup_cmd="true", checks=[], not_applicable=[])
for p in props:
    c = checks.CHECKS[p["id"]]
    out["checks"].append(dict(property=p["id"], quick_cmd="bin/check %s quick" % p["id"], thorough_cmd="bin/check %s thorough" % p["id"],
                              technique=checks.TECHNIQUE[p["id"]], level=c["level"], level_note=checks.NOTE[p["id"]]))
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
