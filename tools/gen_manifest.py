#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/registry.py and properties.jsonl."""
import json, os
from registry import CHECKS, NOT_APPLICABLE, PENDING
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 run.py --build", checks=[], not_applicable=[],
         notes="TLA+ with TLC; no hooks: the specifications are bound to the code through its public interface, sockets, files and the program itself.")
for p in ids:
    if p in CHECKS:
        mod, spec, note = CHECKS[p]
        m["checks"].append(dict(property=p, quick_cmd="python3 run.py %s" % p,
            thorough_cmd="VERIF_TIER=thorough python3 run.py %s" % p, evidence_file="evidence/%s.json" % p,
            technique="TLA+ specification (%s) checked with TLC, bound to the code by replaying its behaviours and validating recorded runs" % spec,
            level="model_checking", level_note=note))
    else:
        m["not_applicable"].append(dict(property=p, reason=NOT_APPLICABLE.get(p, PENDING)))
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
