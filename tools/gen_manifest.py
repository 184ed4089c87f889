#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks/plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/checks")
import plan
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
NOTE = "Symbolic execution of the LLVM IR of the real headers with harness inputs symbolic; Z3 decides every branch and assertion for all values within the bounds listed in checks/plan.py and in the evidence file. Trusts clang's IR generation, the engine (engine/), the models of libstdc++ parts in engine/rt, and Z3; passing paths are cross-checked natively. Larger inputs than the bounds are not covered."
checks = []
for p in props:
    i = p["id"]
    if i in plan.RUNS:
        checks.append(dict(property=i, quick_cmd=f"python3 run_check.py {i} quick", thorough_cmd=f"python3 run_check.py {i} thorough", evidence_file=f"evidence/{i}.json",
            technique="symbolic execution of the compiled code (LLVM IR) with SMT (Z3 bit-vectors), counterexamples replayed natively", level="model_checking", level_note=getattr(plan, "NOTES", {}).get(i, "") + NOTE))
na = [dict(property=p["id"], reason=NA.get(p["id"], "check not built yet")) for p in props if p["id"] not in plan.RUNS]
json.dump(dict(version=1, setup_cmd="make -C engine", checks=checks, not_applicable=na, notes="No hooks in /repo. See DESIGN.md."), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
