#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the harness folders and the lists below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
}
PENDING = "no check built yet"
TECH = "bounded symbolic execution of the Go SSA of /repo with SMT-decided branches and assertions (z3), counterexamples replayed natively"
NOTE = {
    "C24": "Texts are symbolic; on each path the numbers are concrete, so floating-point results are compared exactly, without an FP theory.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    d = os.path.join(V, "harness", i.lower())
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.isdir(d):
        checks.append({
            "property": i,
            "quick_cmd": "./check.sh " + i,
            "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
            "technique": TECH,
            "level": "model_checking",
            "level_note": "Every path of the real code for all inputs within the bounds stated per harness in the evidence and in DESIGN.md; nothing is claimed outside them. "
                "Trusted: go/ssa, the executor and its library models (sampled paths are compared with native runs), z3. " + NOTE.get(i, ""),
        })
    else:
        na.append({"property": i, "reason": PENDING})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Engine: /verif/engine (symbolic executor for Go SSA). Harnesses: /verif/harness/cNN, overlaid on /repo at analysis time; /repo has no hooks."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
