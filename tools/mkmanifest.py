#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties that have checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks, models

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
have = set(checks.GROUPS)
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, 'lib'); import core; core.build_harness()\"",
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in have:
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": checks.TECHNIQUE.get(i, "TLA+ specification, TLC trace validation of recorded executions"),
            "level": "model_checking",
            "level_note": checks.NOTES.get(i, "Every recorded execution of the real crate is checked step by step against the TLA+ machine by TLC; cases are generated from seeds and exhaustive small domains, so the assurance is bounded by them. Trusts TLC and the harness."),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
