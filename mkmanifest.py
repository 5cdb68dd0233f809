#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os
from checks import CHECKS, NA
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(
            property=i,
            quick_cmd="python3 check.py %s --tier quick" % i,
            thorough_cmd="python3 check.py %s --tier thorough" % i,
            technique="bounded symbolic execution of the compiled code's LLVM IR, decided with z3 (counterexamples replayed natively)",
            level="model_checking",
            level_note="Holds for every value within the bounds: " + "; ".join(c["bounds"]) + ". Outside: " + (c.get("outside") or "anything beyond these bounds") +
            ". Trusts rustc's lowering to LLVM IR, the IR semantics in /verif/engine and z3; the harness's reference model.",
        ))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
