#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list and the check registry."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa import registry  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "test -x /usr/lib/llvm-18/bin/clang && test -x /usr/lib/llvm-18/bin/opt && "
                  "python3 -c \"import sys; sys.path.insert(0,'/verif'); from sa import llvmir\"",
     "checks": [], "not_applicable": [],
     "notes": "All checks are static: they compile the working tree to LLVM IR, interpret it "
              "abstractly (never run it) and apply per-property rules. Exit 2 = analysis broken."}
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        m["checks"].append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick python3 /verif/check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 /verif/check.py " + i,
            "evidence_file": "/verif/evidence/%s.json" % i,
            "technique": registry.TECHNIQUE.get(i, registry.TECH),
            "level": "other", "level_note": registry.CHECKS[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": registry.NA.get(
            i, "no static check for it has been built")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "n/a")
