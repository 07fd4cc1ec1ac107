#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the harness files present."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
checks, na = [], []
NA = {}
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    f = os.path.join(root, "harness/props", i.lower() + ".go")
    if not os.path.exists(f):
        na.append({"property": i, "reason": NA.get(i, "no check yet")}); continue
    src = open(f).read()
    m = re.search(r'((?:^// ?[^\n]*\n)*?^// Bounds:(?:[^\n]*\n)(?:^//[^\n]*\n)*)', src, re.M)
    b = " ".join(x.lstrip("/ ").strip() for x in m[1].splitlines())
    checks.append({
        "property": i,
        "quick_cmd": f"bin/check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough bin/check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": "symbolic execution of the Go SSA of /repo with an SMT solver (z3), counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "Bounded: holds for every value within the bounds, nothing is claimed outside them. " + b +
            " Trusts the SSA builder, the engine's instruction semantics and library models (sampled paths are replayed natively and compared on every run) and the solver's unsat answers.",
    })
m = {"version": 1, "setup_cmd": "bin/build.sh warm", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks load /repo's packages as they are. /repo's fix: commits are listed in known_findings.txt."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), [x["property"] for x in na])
