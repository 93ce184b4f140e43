#!/usr/bin/env python3
"""Source of MANIFEST.json (run: python3 notes/mkmanifest.py > MANIFEST.json)."""
import json, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
sys.dont_write_bytecode = True
import registry
ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"))]
NA = getattr(registry, "NOT_APPLICABLE", {})
checks, na = [], []
for i in ids:
    js = [j for j in registry.JOBS if j["p"] == i]
    if i in NA or not js:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
        continue
    b = sorted(set(j["bounds"] for j in js if j.get("tier") != "thorough" and j.get("bounds")))
    checks.append(dict(property=i, quick_cmd="python3 bin/vfcheck.py %s --tier quick" % i,
                       thorough_cmd="python3 bin/vfcheck.py %s --tier thorough" % i,
                       evidence_file="evidence/%s.json" % i,
                       technique="bounded symbolic execution of the compiled C source to SAT (goto-cc/CBMC), counterexamples replayed natively",
                       level="model_checking",
                       level_note="Holds for every value within: " + "; ".join(b) + ". Outside: larger sizes, allocation failure, and the modelled operating-system boundary (DESIGN.md)."))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na)
print(json.dumps(m, indent=1))
