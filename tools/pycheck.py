"""C12, C13: the Python binding under a simulated schedule, native allocator and garbage collector."""
import os, sys, json, time, subprocess, shutil, glob, hashlib, copy
import build
from build import BUILD, VERIF, REPO, sh, mirror, compile_all, REDEF
from common import *
PYD = os.path.join(BUILD, "py")
ENV = dict(os.environ, PYTHONHASHSEED="0", PYTHONMALLOC="pymalloc_debug", MALLOC_PERTURB_="165", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", LC_ALL="C.UTF-8")
WORKER = os.path.join(VERIF, "sim", "py", "worker.py")
EPISODES = dict(C12=26000, C13=16000)

def literals():
    """integers written in the binding's own sources (constants and products, powers and shifts of them)"""
    import ast; out = set()
    def val(n):
        if isinstance(n, ast.Constant) and type(n.value) in (int, float) and n.value == int(min(max(n.value, -1e15), 1e15)): return int(n.value)
        if isinstance(n, ast.BinOp):
            a, b = val(n.left), val(n.right)
            if a is None or b is None: return None
            if isinstance(n.op, ast.Mult): return a * b
            if isinstance(n.op, ast.LShift) and 0 <= b < 40: return a << b
            if isinstance(n.op, ast.Pow) and 0 <= b < 40 and abs(a) < 100: return a ** b
    for f in sorted(glob.glob(os.path.join(PYD, "tindicators", "**", "*.py"), recursive=True)):
        try: t = ast.parse(open(f).read())
        except (SyntaxError, ValueError, OverflowError): continue
        for n in ast.walk(t):
            x = val(n)
            if x is not None and 5 <= x <= 20000: out.add(x)
    return sorted(out)[:24]
def build_py():
    """the binding package of the working tree with the natively instrumented library; returns (python, package root)"""
    import fcntl
    os.makedirs(BUILD, exist_ok=True); lock = open(os.path.join(BUILD, "lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    tree, src = mirror(); objs = compile_all(tree, src, "-fsanitize-coverage=trace-pc", "py")
    pkg = os.path.join(PYD, "tindicators"); shutil.rmtree(PYD, ignore_errors=True); os.makedirs(pkg)
    lib = os.path.join(PYD, "lib.o"); sh(["ld", "-r", "--force-group-allocation", "-o", lib + ".1"] + objs)
    ren = os.path.join(PYD, "redef.txt"); open(ren, "w").write("".join("%s %s\n" % kv for kv in REDEF.items()))
    sh(["objcopy", "--redefine-syms=" + ren, lib + ".1", lib])
    S = os.path.join(VERIF, "sim", "py")
    sh(["gcc", "-O2", "-fPIC", "-fexceptions", "-w", "-c", S + "/pyrt.c", "-o", PYD + "/pyrt.o"]); sh(["g++", "-O2", "-fPIC", "-c", S + "/throw.cpp", "-o", PYD + "/throw.o"])
    sh(["g++", "-shared", "-o", pkg + "/libindicators.so", lib, PYD + "/pyrt.o", PYD + "/throw.o", "-lm"])
    for f in glob.glob(os.path.join(REPO, "bindings/python/tindicators", "**", "*.py"), recursive=True):
        rel = os.path.relpath(f, os.path.join(REPO, "bindings/python/tindicators"))
        if os.path.basename(f).startswith("test"): continue
        os.makedirs(os.path.dirname(os.path.join(pkg, rel)), exist_ok=True); shutil.copy(f, os.path.join(pkg, rel))
    ENV["TISIM_PYDICT"] = " ".join(map(str, literals())); return build.find_python("numpy"), PYD
def evaluate(py, root, plan, d):
    f = os.path.join(d, "eval-%d.json" % os.getpid()); json.dump(plan, open(f, "w"))
    try: r = subprocess.run([py, WORKER, root, "eval", f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV, timeout=150)
    except subprocess.TimeoutExpired: return dict(bad=True, key="hang", detail="the plan does not finish", hash="-")
    for l in reversed(r.stdout.strip().split("\n")):
        if l.startswith("{"): return json.loads(l)
    if r.returncode < 0: return dict(bad=True, key="interpreter-dies", detail="signal %d: %s" % (-r.returncode, r.stderr.strip().split("\n")[0][:120]), hash="-")
    if "Timeout" in r.stderr: return dict(bad=True, key="hang", detail="the plan does not finish", hash="-")
    return dict(bad=False, key="harness", detail=r.stderr[-800:], hash="-", error=True)
def minimise(py, root, plan, key, d, budget=70, wall=90):
    t0 = time.time(); best = plan
    def ok(p):
        nonlocal budget
        if budget <= 0 or time.time() - t0 > wall: return False
        budget -= 1; r = evaluate(py, root, p, d); return r["bad"] and r["key"] == key
    def tryset(mut):
        nonlocal best
        p = copy.deepcopy(best)
        if mut(p) is False: return False
        if ok(p): best = p; return True
        return False
    tryset(lambda p: p.update(switches=[]) if p["switches"] else False)
    tryset(lambda p: p.update(gcs=[], leak=None))
    tryset(lambda p: p.update(threads=[[o for o in t if o["op"] == "call"] for t in p["threads"]]))
    for t in range(len(best["threads"]) - 1, -1, -1):
        if len(best["threads"]) > 1: tryset(lambda p: p["threads"].pop(t) and None)
    for t in range(len(best["threads"])):
        for k in range(len(best["threads"][t]) - 1, -1, -1): tryset(lambda p: p["threads"][t].pop(k) and None)
    step = max(1, len(best["switches"]) // 2)
    while step >= 1 and best["switches"]:
        i = 0
        while i < len(best["switches"]):
            if not tryset(lambda p: p["switches"].__delitem__(slice(i, i + step))): i += step
        step //= 2
    tryset(lambda p: [o.update(nsw=[]) for t in p["threads"] for o in t if o["op"] == "call"] and None)
    return best
def gate(py, root, plan, key, d):
    small = minimise(py, root, plan, key, d)
    for p in (small, plan):
        rs = [evaluate(py, root, p, d) for _ in range(2)]
        if rs[0]["bad"] and (rs[0]["key"], rs[0]["hash"]) == (rs[1]["key"], rs[1]["hash"]):
            p = dict(p, violation=rs[0]["key"], detail=rs[0]["detail"]); path = save_replay(p["prop"], rs[0]["key"], json.dumps(p, indent=1) + "\n", "json")
            return dict(key=rs[0]["key"], detail=rs[0]["detail"], replay=path)
    return None
def determinism(py, root, prop, seed, n, d):
    """the same episodes by one worker and by two: every execution hash must agree"""
    logs = []
    for W in (1, 2):
        ps = [subprocess.Popen([py, WORKER, root, "run", prop, str(seed), str(w), str(W), str(n), "60", d, "d%d%d" % (W, w)], env=dict(ENV, TISIM_LOG="1"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for w in range(W)]; m = {}
        for w, p in enumerate(ps):
            p.wait(); f = os.path.join(d, "wd%d%d.log" % (W, w))
            for l in open(f) if os.path.exists(f) else []: e, rest = l.split(" ", 1); m[int(e)] = rest
        logs.append(m)
    for f in glob.glob(d + "/wd*"): os.unlink(f)
    keys = set(logs[0]) & set(logs[1]); return dict(episodes_executed_again_with_another_worker_count=len(keys), identical_execution_hashes=sum(logs[0][k] == logs[1][k] for k in keys))
def check(prop, seed, tier):
    t0 = time.time(); py, root = build_py(); t1 = time.time()
    n = EPISODES[prop] * (30 if tier == "thorough" else 1); cap = 150 if tier == "quick" else 3 * 3600
    if os.environ.get("TISIM_EPISODES"): n = int(os.environ["TISIM_EPISODES"])
    W = min(16, os.cpu_count() or 4); d = os.path.join(BUILD, "run", prop); shutil.rmtree(d, ignore_errors=True); os.makedirs(d); det = determinism(py, root, prop, seed, 160, d)
    def spawn(w, a): return subprocess.Popen([py, WORKER, root, "run", prop, str(seed), str(a), str(W), str(n), str(max(5, cap - (time.time() - t1))), d, str(w)], env=ENV, stdout=subprocess.DEVNULL, stderr=open(os.path.join(d, "w%d.err" % w), "w"))
    procs = {w: spawn(w, w) for w in range(W)}; deaths = 0; found = []; errs = []
    while procs:
        time.sleep(.1)
        for w, p in list(procs.items()):
            rc = p.poll()
            if rc is None: continue
            del procs[w]
            if rc == 0: continue
            ep = int(open(os.path.join(d, "w%d.prog" % w)).read().strip() or -1); err = open(os.path.join(d, "w%d.err" % w)).read()
            if rc > 0 and rc != 77 and "Timeout" not in err: errs.append("worker %d: exit %d: %s" % (w, rc, err[-600:])); continue
            if rc != 77: found.append(dict(ep=ep, key="hang" if "Timeout" in err else "interpreter-dies", detail="worker ended with %d" % rc))
            deaths += 1
            if deaths < 8: procs[w] = spawn(w, ep + W)
    if errs: die("python simulator failed: " + errs[0])
    for f in glob.glob(d + "/w*.found"): found += [json.loads(l) for l in open(f)]
    found.sort(key=lambda f: f["ep"]); known = load_known(prop); new, gate_errors, keys = [], [], set(); seen_known = set()
    for f in found:
        if f["key"] in known: seen_known.add(f["key"]); continue
        if f["key"] in keys or len(new) >= 2 or len(gate_errors) >= 3: continue
        keys.add(f["key"]); plan = json.loads(subprocess.run([py, WORKER, root, "gen", prop, str(seed), str(f["ep"])], env=ENV, stdout=subprocess.PIPE, text=True).stdout)
        v = gate(py, root, plan, f["key"], d)
        if v: new.append(v)
        else: gate_errors.append(f); keys.discard(f["key"])
    for k in known: print("KNOWN-FINDING: property=%s %s%s" % (prop, known[k], "" if k in seen_known else " (not reached in this run)"))
    tot = {}; shapes = set(); inters = set(); N = 0; capped = False; inds = set()
    for f in glob.glob(d + "/w*.stats"):
        s = json.load(open(f)); N += s["n"]; shapes.update(s["shapes"]); inters.update(s["inters"]); capped |= s["capped"]; inds.update(s["inds"])
        for k, v in s["tot"].items(): tot[k] = tot.get(k, 0) + v
    secs = max(1e-6, time.time() - t1); sample = subprocess.run([py, WORKER, root, "gen", prop, str(seed), "0"], env=ENV, stdout=subprocess.PIPE, text=True).stdout
    cov = dict(evaluations=N, distinct_nontrivial=len(shapes), rule="one evaluation = one simulated execution of a plan (threads, operations, line/opcode-level and native switches, GC points, allocation faults) drawn from the seed; distinct when operations, arguments, switches, faults or series lengths differ, non-trivial when at least one bar reached native code through the binding",
        samples=[sample[:2500]], simulated_runs=N, executions_per_hour=int(N / secs * 3600), seeds_per_hour=int(N / secs * 3600),
        simulated_time={"binding_lines_or_opcodes": tot.get("lines", 0), "native_blocks": tot.get("native_steps", 0), "bars_delivered": tot.get("bars", 0), "unit": "no clock exists; time is counted in traced binding lines and native basic blocks"},
        faults_injected={"native_allocation_failures": tot.get("alloc_failures", 0), "thread_switches": tot.get("switches", 0), "switches_inside_native_code": tot.get("native_switches", 0), "garbage_collections": tot.get("gcs", 0), "heap_reuse_bursts": tot.get("churn", 0)},
        outcomes={"calls": tot.get("calls", 0), "call_crowds": tot.get("crowds", 0), "out_of_memory_exceptions": tot.get("oom_raised", 0), "values_compared": tot.get("compared", 0)},
        interleavings_or_states={"measure": "distinct switch sequences (thread, thread, step) actually taken", "interleavings": len(inters), "plan_shapes": len(shapes), "indicators_exercised": len(inds)},
        real_components="bindings/python/tindicators (unmodified), CPython, ctypes, numpy, the whole native library compiled from /repo", stubbed_components="thread scheduler and threading locks, native allocator, garbage collection trigger points, native clock/random sources", determinism=det, capped=capped, workers=W, build_s=round(t1 - t0, 2))
    if not N and not new: die("no episode ran")
    return finish(prop, seed, tier, cov, t0, new, gate_errors, ["CPython 3.12 with the GIL; a switch inside numpy or ctypes C code happens only inside the native library call", "the debug allocator of CPython and MALLOC_PERTURB_ overwrite freed memory"])
def replay(plan):
    py, root = build_py(); d = os.path.join(BUILD, "run"); os.makedirs(d, exist_ok=True); r = evaluate(py, root, plan, d)
    if r["bad"]: print("reproduced: %s %s (execution %s)" % (r["key"], r["detail"], r["hash"])); return 1
    print("not reproduced on this tree"); return 0
