#!/usr/bin/env python3
"""Replays a recorded counterexample natively: run_replay.py FILE.in.json"""
import sys, json, tempfile, os, shutil
sys.argv, args = [sys.argv[0]], sys.argv[1:]
import run_check as R
d = json.load(open(args[0])); r = next(x for x in R.plan.RUNS[d["property"]] if x["name"] == d["run"].split("+")[0])
c = R.Ctx(); c.tier = d.get('tier', 'quick'); c.exe = R.engine(); os.makedirs(f"{R.V}/build", exist_ok=True); c.work = tempfile.mkdtemp(dir=f"{R.V}/build")
c.native = lambda k, r, m: R.compile_native(c, k, r, m)
f = c.work + "/in"; open(f, "w").write(d["inputs"])
if d.get("points"):
    c.ir = lambda k, r: R.compile_ir(c, k, r)
    ok, text = R.replay_points(c, R.second_stage(r), d["params"], R.instrument(c, r, R.key(r), d["points"])[1], f)
else: ok, text = R.replay(c, R.key(r), r, d["params"], f, "uninit")
print(text); print("reproduced" if ok else "not reproduced"); shutil.rmtree(c.work)
sys.exit(1 if ok else 0)
