#!/usr/bin/env python3
"""Decides one property by symbolic execution of the real code.

  run_check.py Cxx [quick|thorough] [--only RUN[,RUN]] [--keep]

For every run listed in checks/plan.py the harness is compiled to LLVM IR together with
/repo's current headers, executed symbolically (build/symex, Z3 decides every branch and
every assertion), and every counterexample is replayed against a native build of the same
sources.  Exit 0: held within the bounds; 1: VIOLATION; 2: no answer.
"""
import sys, os, json, signal, subprocess, time, shutil, re, threading, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "checks"))
import plan

CLANG = "clang++-18" if shutil.which("clang++-18") else "clang++"
IRF = ["-std=c++17", "-O1", "-g1", "-w", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-mllvm", "-replexitval=never", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-I", f"{V}/engine/include"]
NATF = ["-std=c++17", "-O1", "-g1", "-w", "-ffp-contract=off"]
WRAP = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=posix_memalign"]
CPUS = os.cpu_count() or 4
log_lock = threading.Lock()
def log(*a):
    with log_lock: print(*a, flush=True)

def sh(cmd, timeout=600, **kw):
    inp = kw.pop("input", None)
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, **kw)
    try:
        out, _ = p.communicate(inp, timeout)
        return p.returncode, out.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        out, _ = p.communicate()
        return 124, out.decode("utf8", "replace") + "\n[timeout]"

def engine():
    exe = f"{V}/build/symex"
    srcs = [f"{V}/engine/{f}" for f in ("symex.cpp", "expr.h", "decode.h", "exec.h")]
    if not os.path.exists(exe) or any(os.path.getmtime(s) > os.path.getmtime(exe) for s in srcs):
        rc, out = sh(["make", "-C", f"{V}/engine"], 900)
        if rc: log(out); raise SystemExit(2)
    return exe

def incs(): return ["-I", f"{REPO}/include", "-I", f"{REPO}/apps", "-I", f"{V}/harness", "-I", f"{V}/harness/sapporo", "-I", f"{V}/harness/cudd"]
def srcflags(r):
    f = [f"-D{d}" for d in r.get("defines", [])]
    if r.get("omp"): f += ["-fopenmp"]
    return f
def key(r): return (r["src"],) + tuple(r.get("defines", [])) + (bool(r.get("omp")),)
def kname(k): return re.sub(r"[^A-Za-z0-9]+", "_", "_".join(map(str, k)))

class Ctx: pass

def compile_ir(c, k, r):
    out = f"{c.work}/{kname(k)}.bc"
    return sh([CLANG] + IRF + srcflags(r) + incs() + ["-emit-llvm", "-c", f"{V}/harness/{r['src']}", "-o", out], 300) + (out,)

def compile_native(c, k, r, mode):  # mode: asan, plain
    out = f"{c.work}/{kname(k)}.{mode}"
    f = list(NATF)
    if mode == "asan": f += ["-fsanitize=address", "-fno-omit-frame-pointer"]
    # the engine's omp.h declares the few omp functions used; no OpenMP run time is installed for clang
    inc = ["-I", f"{V}/replay/include"] if r.get("omp") else []
    extra = [f"{V}/replay/replay_omp.cpp"] if r.get("omp") else []
    cmd = [CLANG] + f + srcflags(r) + inc + incs() + ["-c", f"{V}/harness/{r['src']}", "-o", out + ".o"]
    rc, o = sh(cmd, 300)
    if rc: return rc, o, out
    cmd = [CLANG] + f + [out + ".o", f"{V}/replay/replay_rt.cpp"] + extra + WRAP + ["-o", out]
    rc, o = sh(cmd, 300)
    return rc, o, out

def racing(rep): return sorted(l[5:] for l in rep["labels"] if l.startswith("race@") and ":" in l)
def instrument(c, r, k, pts):
    """schedule points before racing accesses -> (engine bitcode, native program, places)"""
    if not pts: return None, None, pts
    base = f"{c.work}/{kname(k)}.{r['name']}"; arg = ["-points", ",".join(pts), "-o", c.work]
    sh([c.exe, c.ir(k, r)[2], "-instrument", base + ".race.bc"] + arg, 60)
    nb = base + ".nat.bc"
    sh([CLANG] + IRF[:-2] + srcflags(r) + ["-I", f"{V}/replay/include"] + incs() + ["-emit-llvm", "-c", f"{V}/harness/{r['src']}", "-o", nb], 300)
    sh([c.exe, nb, "-instrument", nb + ".race.bc"] + arg, 60)
    sh([CLANG] + NATF + ["-x", "ir", nb + ".race.bc", "-x", "none", f"{V}/replay/replay_rt.cpp", f"{V}/replay/replay_omp.cpp"] + WRAP + ["-o", base + ".race"], 300)
    return base + ".race.bc", base + ".race", pts

def params(r, tier):
    p = dict(r.get("params", {}))
    if tier == "thorough": p.update(r.get("thorough", {}))
    return p

def delays(r, tier): return r.get('tdelays', r.get('delays', 1)) if tier == 'thorough' else r.get('delays', 1)
def pargs(r, p, tier='quick'):
    a = [f"{k}={v}" for k, v in p.items()]
    if r.get("omp"):
        a += [f"__threads={r.get('threads', 2)}"]
        a += [f"__delays={delays(r, tier)}", f"__base={r.get('base', 0)}"]
    return a

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=0:hard_rss_limit_mb=6000:abort_on_error=0:exitcode=99", LC_ALL="C")
def native_run(exe, infile, args, timeout=40):
    return sh([exe, infile] + args, timeout, env=ENV)

def replay(c, k, r, p, infile, kind):
    """does the counterexample reproduce on the native build?  -> (bool, text)"""
    args = pargs(r, p, c.tier)
    rc, o, exe = c.native(k, r, "asan")
    if rc: return False, "native build failed:\n" + o[-2000:]
    rc, out = native_run(exe, infile, args)
    if rc in (77, 78): return False, out
    if rc != 0: return True, f"exit {rc}\n" + out[-3000:]
    if kind.startswith("uninit"):
        rc, o, exe = c.native(k, r, "plain")
        if rc: return False, o
        rc, out = sh(["valgrind", "-q", "--error-exitcode=9", "--track-origins=no", exe, infile] + args, 200, env=ENV)
        return rc == 9, out[-3000:]
    return False, "did not reproduce natively:\n" + out[-1000:]

def replay_points(c, r, p, exe, infile):
    rc, text = native_run(exe, infile, pargs(r, p, c.tier)); ok = rc not in (0, 77, 78)
    if rc == 0:  # memory errors and unwritten values show under valgrind only
        rc, text = sh(["valgrind", "-q", "--error-exitcode=9", "--track-origins=no", exe, infile] + pargs(r, p, c.tier), 200, env=ENV); ok = rc == 9
    return ok, f"exit {rc}\n" + text[-3000:]
def second_stage(r): return dict(r, name=r["name"] + "+points", twin=False, base=r.get("pbase", 0), delays=max(1, r.get("pdelays", r.get("delays", 1))))

def symex(c, r, bc, p, outdir, tlimit, jobs, extra=()):
    os.makedirs(outdir, exist_ok=True)
    cmd = [c.exe, bc, c.rt, "-o", outdir, "-time", str(tlimit), "-j", str(jobs), "-maxinstr", str(r.get("maxinstr", 30000000 if c.tier == "quick" else 200000000)), "-maxviol", str(r.get("maxviol", 4))]
    for a, b in p.items(): cmd += ["-D", f"{a}={b}"]
    if r.get("omp"): cmd += ["-threads", str(r.get("threads", 2)), "-delays", str(delays(r, c.tier)), "-base", str(r.get("base", 0))]
    cmd += list(extra)
    rc, out = sh(cmd, tlimit + 120)
    rep = None
    try: rep = json.load(open(f"{outdir}/report.json"))
    except Exception: pass
    return rc, out, rep

def load_known(pid):
    known = []
    f = f"{V}/known_findings.jsonl"
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l and not l.startswith("#"):
                d = json.loads(l)
                if d.get("status") == "known" and d.get("property") == pid: known.append(d)
    return known

def do_run(c, r):
    t0 = time.time()
    p = params(r, c.tier); k = key(r)
    res = dict(run=r["name"], harness=r["src"], bounds=r.get("bounds", ""), params=p, violations=[], unconfirmed=[], validated=0)
    rc, o, bc = c.ir(k, r)
    if rc:
        res["error"] = "harness does not compile against /repo"; res["detail"] = o[-3000:]
        return [res]
    tl = max(200, r.get("time", 0)) if c.tier == "quick" else r.get("ttime", max(900, 4 * r.get("time", 60)))
    tl = max(5, min(tl, c.deadline - time.time()))
    explore(c, r, p, k, res, bc, tl, None, t0)
    if not r.get("race") or "report" not in res or res["violations"]: return [res]
    # second stage: schedule points before the accesses that are not ordered by synchronisation
    t0 = time.time(); rbc, exe, pts = instrument(c, r, k, racing(res["report"]))
    res["racing_lines"] = pts
    if not pts: return [res]
    r2 = second_stage(r)
    res2 = dict(run=r2["name"], harness=r["src"], bounds=r.get("bounds", "") + "; schedule points also before the unordered accesses at " + ", ".join(pts), params=p, violations=[], unconfirmed=[], validated=0)
    res2["points"] = pts; explore(c, r2, p, k, res2, rbc, max(5, min(tl, c.deadline - time.time())), exe, t0)
    return [res, res2]

def explore(c, r, p, k, res, bc, tl, exe2, t0):
    if r.get("omp"): res.update(threads=r.get("threads", 2), schedule_deviations=delays(r, c.tier), base_schedule=r.get("base", 0))
    od = f"{c.work}/out_{r['name']}"
    rc, out, rep = symex(c, r, bc, p, od, tl, r.get("jobs", c.jobs), ["-race"] if r.get("race") and not exe2 else [])
    if rep is None:
        res["error"] = "engine produced no report"; res["detail"] = out[-2000:]; return
    res["report"] = rep; res["wall_s"] = round(time.time() - t0, 2)
    # counterexamples
    seen = set()
    for i in range(rep["violations"]):
        vin, vtxt = f"{od}/viol_{i}.in", f"{od}/viol_{i}.txt"
        if not os.path.exists(vtxt) or not os.path.exists(vin): continue
        L = open(vtxt).read().split("\n"); kind, msg, where = (L + ["", "", ""])[:3]
        sig = (kind, msg)
        if exe2:
            ok, text = replay_points(c, r, p, exe2, vin)
        else: ok, text = replay(c, k, r, p, vin, kind)
        d = dict(kind=kind, msg=msg, where=where[:600], inputs=open(vin).read().split("\n")[:200])
        if not ok: d["replay"] = text[-800:]; res["unconfirmed"].append(d); continue
        kn = next((q for q in c.known if q["run"] in (r["name"], "*") and re.search(q["msg"], msg) and (not q.get("where") or re.search(q["where"], where))), None)
        if kn: d["known"] = kn["desc"]; res["violations"].append(d); continue
        if sig in seen: continue
        seen.add(sig)
        rd = f"{V}/replays/{c.pid}"; os.makedirs(rd, exist_ok=True)
        path = f"{rd}/{r['name']}_{i}.txt"
        with open(path, "w") as f:
            f.write(f"property {c.pid}\nrun {r['name']}\nharness harness/{r['src']} defines={r.get('defines', [])} params={p}\nkind {kind}\ncheck {msg}\nwhere {where}\n\n")
            if exe2: f.write("schedule points also before the accesses at " + ", ".join(res["points"]) + "\n")
            f.write(f"replay with: python3 {V}/run_replay.py {path[:-4]}.in.json\n")
            f.write("\ninputs:\n" + open(vin).read() + "\nnative replay:\n" + text + "\n")
        json.dump(dict(property=c.pid, run=r["name"], tier=c.tier, points=res.get("points"), params=p, inputs=open(vin).read()), open(path[:-4] + ".in.json", "w"))
        d["path"] = path; res["violations"].append(d)
    # encoding validation: solver-found inputs of passing paths are run natively
    samples = []
    for i in range(3):
        s = f"{od}/sample_{i}.txt"
        if os.path.exists(s):
            samples.append(" ".join(open(s).read().split("\n")).strip()[:600])
            if not res["violations"]:
                rc, o, exe = (0, "", exe2) if exe2 else c.native(k, r, "asan")
                if rc: res["native_error"] = o[-1500:]; continue
                rc, o = native_run(exe, s, pargs(r, p, c.tier), 60)
                if rc == 0: res["validated"] += 1
                elif not exe2: res.setdefault("disagree", []).append(dict(sample=samples[-1], rc=rc, out=o[-1200:]))
    res["samples"] = samples
    # vacuity twin
    if r.get("twin", True) and not res["violations"]:
        q = dict(p); q["twin"] = 1
        _, _, tr = symex(c, r, bc, q, od + "_twin", 60, 2, ["-maxviol", "1"])
        res["twin_violated"] = bool(tr and tr["violations"] > 0)
    shutil.rmtree(od, ignore_errors=True); shutil.rmtree(od + "_twin", ignore_errors=True)

def main():
    pid = sys.argv[1]; tier = "quick"; only = None; keep = False
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"): tier = a
        elif a.startswith("--only="): only = a[7:].split(",")
        elif a == "--keep": keep = True
    c = Ctx(); c.pid = pid; c.tier = tier; t0 = time.time()
    c.deadline = t0 + (float(os.environ.get("VERIF_BUDGET", 560)) if tier == "quick" else 6 * 3600)
    c.exe = engine()
    base = os.environ.get("VERIF_TMP", f"{V}/build"); os.makedirs(base, exist_ok=True)
    c.work = tempfile.mkdtemp(prefix=f"work_{pid}_", dir=base)
    shutil.rmtree(f"{V}/replays/{pid}", ignore_errors=True)
    try:
        rcode = run(c, only)
    finally:
        if not keep: shutil.rmtree(c.work, ignore_errors=True)
    log(f"{pid} {tier}: {time.time()-t0:.1f} s")
    sys.exit(rcode)

def run(c, only):
    t0 = time.time(); pid = c.pid
    runs = [r for r in plan.RUNS[pid] if (not only or r["name"] in only) and (c.tier == "thorough" or not r.get("thorough_only"))]
    c.known = load_known(pid)
    c.rt = f"{c.work}/rt.bc"
    rc, o = sh([CLANG] + IRF + ["-fno-builtin", "-emit-llvm", "-c", f"{V}/engine/rt/rt.cpp", "-o", c.rt], 300)
    if rc: log(o); return 2
    workers = max(1, min(len(runs), 4)); c.jobs = max(2, CPUS // min(workers, 2))
    cpool = cf.ThreadPoolExecutor(CPUS)
    irf, natf, lk = {}, {}, threading.Lock()
    def ir(k, r):
        with lk:
            if k not in irf: irf[k] = cpool.submit(compile_ir, c, k, r)
        return irf[k].result()
    def native(k, r, m):
        with lk:
            if (k, m) not in natf: natf[(k, m)] = cpool.submit(compile_native, c, k, r, m)
        return natf[(k, m)].result()
    c.ir, c.native = ir, native
    for r in runs:
        k = key(r)
        if k not in irf: irf[k] = cpool.submit(compile_ir, c, k, r)
    for r in runs:
        k = key(r)
        if (k, "asan") not in natf: natf[(k, "asan")] = cpool.submit(compile_native, c, k, r, "asan")
    skipped = []
    def step(r): # once a violation is confirmed the runs not yet started are left out (VERIF_ALL=1 keeps them)
        if c.found and not os.environ.get("VERIF_ALL"): skipped.append(r["name"]); return []
        l = do_run(c, r)
        if any("known" not in v for x in l for v in x["violations"]): c.found = True
        return l
    c.found = False
    with cf.ThreadPoolExecutor(workers) as ex: results = [x for l in ex.map(step, runs) for x in l]
    cpool.shutdown(wait=True)
    nviol = 0; code = 0; reps = [r["report"] for r in results if "report" in r]
    knowns = set()
    for r in results:
        rp = r.get("report")
        if rp:
            log(f"  {r['run']}: paths {rp['paths_ok']}/{rp['paths']} queries {rp['queries']} unsat {rp['unsat']} solver {rp['solver_s']:.1f}s wall {r['wall_s']}s trunc {rp['truncated']} unsup {rp['unsupported']} eng {rp['engine_errors']} maxinstr {rp['max_path_instr']} checks {rp['checks']} valid {r['validated']} twin {r.get('twin_violated')} labels {json.dumps(rp['labels'])[:300]}")
            if rp["unsupported"]: log("    unsupported:", json.dumps(rp["unsupported_what"])[:600])
        if "error" in r: log(f"  {r['run']}: ERROR {r['error']}\n{r.get('detail','')}")
        for u in r["unconfirmed"]: log(f"    unconfirmed counterexample (not reported): {u['kind']} {u['msg']} at {u['where'][:200]}\n      {u['replay'][-300:]}")
        for d in r.get("disagree", []): log(f"    native run of a passing path disagrees: rc={d['rc']} {d['out'][-400:]}")
        if r.get("native_error"): log("    native build failed: " + r["native_error"][-500:])
        for v in r["violations"]:
            if "known" in v: knowns.add(v["known"]); continue
            nviol += 1; code = 1
            log(f"VIOLATION property={pid} replay={v['path']}"); log(f"    {v['kind']}: {v['msg']} at {v['where'][:300]}")
    if skipped: log(f"  {len(skipped)} runs left out after the violation")
    for s in sorted(knowns): log(f"KNOWN-FINDING: property={pid} {s}")
    errors = [r["run"] for r in results if "error" in r]
    if code == 0 and (errors and len(errors) == len(results) or not reps): code = 2
    if code == 0 and errors: code = 2
    s = lambda f: sum(x[f] for x in reps)
    fn = sorted({f for x in reps for f in x["functions"]})
    dem = []
    if fn:
        _, o = sh(["c++filt"], 30, input="\n".join(fn).encode()) if shutil.which("c++filt") else (0, "\n".join(fn))
        dem = sorted({re.sub(r"<.*>", "<>", x.split("(")[0])[-80:] for x in o.split("\n") if "tdzdd" in x})
    cov = {}
    for x in reps:
        for f, ls in x.get("lines", {}).items():
            f = os.path.normpath(f); f = f[f.index("/repo/") + 6:] if "/repo/" in f else f; d = cov.setdefault(f, {})
            for l in ls: d[abs(l)] = d.get(abs(l), False) or l > 0
    linecov = {f: dict(lines_executed=sum(d.values()), lines_instantiated=len(d), not_executed=sorted(l for l in d if not d[l])) for f, d in sorted(cov.items())}
    complete = bool(reps) and not skipped and all(x["truncated"] == 0 and x["unsupported"] == 0 and x["engine_errors"] == 0 and x["unknown"] == 0 for x in reps) and not errors
    ev = dict(property=pid, tier=c.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
        coverage=dict(
            states=s("paths"), transitions=s("symbolic_branches"), traces_validated_against_impl=sum(r["validated"] for r in results),
            samples=[dict(run=r["run"], solver_inputs_of_a_checked_path=x) for r in results for x in r.get("samples", [])[:1]][:12] or ["none"],
            exhaustive=complete, solver="z3 4.8.12 (QF_BV)", queries=s("queries"), queries_sat=s("sat"), queries_unsat=s("unsat"), queries_unknown=s("unknown"), solver_s=round(s("solver_s"), 2),
            assertions_decided=s("checks"), assertions_by_solver=s("checks_solver"), ir_instructions_executed=s("instructions"), paths_truncated=s("truncated"), paths_unsupported=s("unsupported"),
            source_lines=linecov, functions_encoded=dem[:400], functions_encoded_count=len(dem),
            runs=[dict(run=r["run"], harness=r["harness"], bounds=r["bounds"], params=r["params"], error=r.get("error"), wall_s=r.get("wall_s"), vacuity_twin_violated=r.get("twin_violated"), unconfirmed_counterexamples=len(r["unconfirmed"]), **{q: r[q] for q in ("threads", "schedule_deviations", "base_schedule", "racing_lines", "points") if q in r},
                       **({k: r["report"][k] for k in ("paths_ok", "paths", "paths_pruned", "queries", "unsat", "sat", "unknown", "solver_s", "checks", "truncated", "unsupported", "unsupported_what", "engine_errors", "labels", "races")} if "report" in r else {})) for r in results],
            explanation="states = symbolic paths explored, transitions = branch decisions on symbolic values put to the solver; every assertion is decided by the solver for all input values of its path"),
        assumptions=plan.ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(f"{V}/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    return code

if __name__ == "__main__": main()
