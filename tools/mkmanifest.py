#!/usr/bin/env python3
"""Regenerate /verif/MANIFEST.json (checks = those implemented in lib/checks.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib")); sys.dont_write_bytecode = True
import checks
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
tech = "TLA+ specification model-checked with TLC; traces of the real code validated against it with TLC"
note = ("TLC explores the specification exhaustively for small constants; behaviours generated from it and seeded larger ones are executed on the code "
        "in /repo and every recorded step is validated by TLC against the same specification. Assumes the recording harness and the stated bounds; "
        "code paths never executed are not covered.")
m = dict(version=1, setup_cmd="python3 setup_check.py",
         hooks=dict(guard="VERIF_HOOKS", enable="no hooks are needed: every observation is made through the public API", source_commits=[]),
         checks=[dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % i,
                      technique=tech, level="model_checking", level_note=note) for i in ids if i in checks.CHECKS],
         not_applicable=[dict(property=i, reason=NA.get(i, "no check built yet")) for i in ids if i not in checks.CHECKS])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])
