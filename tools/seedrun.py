#!/usr/bin/env python3
"""seedrun.py [--nobuild] [--checks=C01,C02] ID...: verifies planted bugs in /repo (apply, build, tests, demo, check, undo)."""
import sys, os, subprocess, json, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("SEED_REPO", "/repo")  # a scratch clone, with build scripts adapted
def sh(cmd, to=1200): return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=to)
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
nobuild = "--nobuild" in sys.argv; extra = next((a[9:].split(",") for a in sys.argv if a.startswith("--checks=")), None); nodemo = "--nodemo" in sys.argv
S = "/opt/vp"
if R != "/repo":
    S = R + ".scripts"; os.makedirs(S, exist_ok=True)
    for f in ("build.sh", "test.sh"): open(f"{S}/{f}", "w").write(open("/opt/vp/" + f).read().replace("/repo", R).replace("/opt/vp/build.sh", S + "/build.sh"))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for i in ids:
    d = f"{V}/seeded/{i}"; m = json.load(open(d + "/meta.json")); r = []
    assert sh("git -C " + R + " status --porcelain -uno").stdout == ""
    if not nodemo: r.append("clean-demo=%d" % sh(f"cd {R} && bash {d}/demo.sh").returncode)
    a = sh(f"git -C {R} apply {d}/patch.diff")
    if a.returncode: print(i, "patch does not apply", a.stderr); continue
    try:
        if not nobuild:
            b = sh(f"bash {S}/build.sh"); t = sh(f"bash {S}/test.sh /tmp/seedtest.json")
            try: r.append("build=%d failing=%s" % (b.returncode, sorted(stable - set(json.load(open("/tmp/seedtest.json"))["passed"]))))
            except Exception as e: r.append(f"build={b.returncode} tests: {e}")
        if not nodemo: r.append("bug-demo=%d" % sh(f"cd {R} && bash {d}/demo.sh").returncode)
        for c in extra or [m["property"]]:
            t0 = time.time(); k = sh(f"cd {V} && VERIF_REPO={R} python3 run_check.py {c} quick"); v = [l for l in k.stdout.split("\n") if "VIOLATION" in l]
            why = [l.strip() for l in k.stdout.split("\n") if l.startswith("    ") and ":" in l][:1]
            r.append(f"{c}: rc={k.returncode} {len(v)} violations {time.time()-t0:.0f}s {why[:1]}")
    finally: sh("git -C " + R + " checkout -- .")
    print(i, " ".join(r), flush=True)
