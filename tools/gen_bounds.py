#!/usr/bin/env python3
"""Writes BOUNDS.md: the runs of each property, from checks/plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/checks")
import plan
props = {p["id"]: p for p in map(json.loads, open(V + "/properties.jsonl"))}
out = ["# Runs and bounds", "", "Generated by `tools/gen_bounds.py` from `checks/plan.py`. *thorough* lists the parameters the thorough tier raises."]
for pid in sorted(plan.RUNS):
    rs = plan.RUNS[pid]
    out += ["", f"## {pid} {props[pid]['title']}", "", f"{len(rs)} runs.", "", "| run | harness | bound | thorough |", "|---|---|---|---|"]
    for r in rs:
        par = " ".join(f"{k}={v}" for k, v in r.get("params", {}).items()); d = " ".join(r.get("defines", []))
        sch = ", ".join(f"{k}={r[k]}" for k in ("threads", "delays", "base", "pbase") if k in r)
        th = " ".join(f"{k}={v}" for k, v in r.get("thorough", {}).items()) + (f" deviations={r['tdelays']}" if "tdelays" in r else "")
        out.append(f"| {r['name']} | `{r['src']}` {par} {d} | {r['bounds']}{' (' + sch + ')' if sch else ''} | {th.strip() or '—'} |".replace("  ", " "))
open(V + "/BOUNDS.md", "w").write("\n".join(out) + "\n")
print(sum(map(len, plan.RUNS.values())), "runs")
