#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness descriptions."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
na = {}
p = V + "/harness/not_applicable.json"
if os.path.exists(p):
    na = json.load(open(p))
checks, nas = [], []
for q in props:
    i = q["id"]
    c = V + "/harness/%s.json" % i
    if os.path.exists(c) and i not in na:
        d = json.load(open(c))
        checks.append({
            "property": i,
            "quick_cmd": "python3 bin/check.py %s --tier quick" % i,
            "thorough_cmd": "python3 bin/check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "solver-based: exhaustive symbolic execution (LLVM instrumentation of the real sources, Z3 decides every branch and assertion), counterexamples replayed on the plain build",
            "level": "model_checking",
            "level_note": "bounded: " + d["bounds"],
        })
    else:
        nas.append({"property": i, "reason": na.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 bin/check.py --setup", "checks": checks, "not_applicable": nas,
     "notes": "See DESIGN.md. No hooks are needed in /repo; the checks compile /repo's sources with their own flags into /verif/build."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(nas), "not applicable")
