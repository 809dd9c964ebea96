"""C14: the code generator on a simulated disk with crashes and errors."""
import os, sys, json, time, subprocess, shutil, glob, copy
import build
from build import BUILD, VERIF, REPO, sh
from common import *
S = os.path.join(VERIF, "sim", "fs"); OUT = os.path.join(BUILD, "cg"); WORKER = os.path.join(S, "cgworker.py"); EPISODES = 4000
def setup():
    import fcntl
    os.makedirs(BUILD, exist_ok=True); lock = open(os.path.join(BUILD, "lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    shutil.rmtree(OUT, ignore_errors=True); os.makedirs(OUT + "/bin"); os.makedirs(OUT + "/src")
    sh(["gcc", "-O2", "-fPIC", "-shared", "-w", S + "/simfs.c", "-o", OUT + "/libsimfs.so", "-ldl"]); sh(["gcc", "-O2", "-w", S + "/gitstub.c", "-o", OUT + "/bin/git"])
    for f in ("codegen.py", "version.py", "indicators.yaml"): shutil.copy(os.path.join(REPO, f), OUT + "/src")
    shutil.copytree(os.path.join(REPO, "indicators"), OUT + "/src/indicators")
    py = build.find_python("yaml")
    env = dict(os.environ, LD_PRELOAD=OUT + "/libsimfs.so", TISIM_SRC=os.path.realpath(OUT + "/src"), TISIM_GIT=OUT + "/bin", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8", PYTHONUTF8="1")
    for k in list(env):
        if k.startswith("SIMFS_"): del env[k]
    return py, env
def evaluate(py, env, plan, d):
    f = os.path.join(d, "eval-%d.json" % os.getpid()); json.dump(plan, open(f, "w")); base = os.path.realpath(os.path.join(d, "eval-%d" % os.getpid())); os.makedirs(base, exist_ok=True)
    try: r = subprocess.run([py, WORKER, "eval", f, base], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, timeout=300)
    except subprocess.TimeoutExpired: return dict(bad=True, key="hang", detail="the plan does not finish", hash="-")
    finally: shutil.rmtree(base, ignore_errors=True)
    for l in reversed(r.stdout.strip().split("\n")):
        if l.startswith("{"): return json.loads(l)
    die("code generation simulator failed: " + r.stderr[-600:])
def minimise(py, env, plan, key, d, budget=120, wall=80):
    t0 = time.time(); best = plan
    def tryset(mut):
        nonlocal best, budget
        p = copy.deepcopy(best)
        if budget <= 0 or time.time() - t0 > wall or mut(p) is False: return False
        budget -= 1; r = evaluate(py, env, p, d)
        if r["bad"] and r["key"] == key: best = p; return True
        return False
    for i in range(len(best["runs"]) - 1, -1, -1): tryset(lambda p: p["runs"].pop(i) and None)
    step = max(1, len(best["entries"]) // 2)
    while step >= 1:
        i = 0
        while i < len(best["entries"]):
            if not (len(best["entries"]) > step and tryset(lambda p: p["entries"].__delitem__(slice(i, i + step)))): i += step
        step //= 2
    for i in range(len(best["runs"])):
        for j in range(len(best["runs"][i]["faults"]) - 1, -1, -1): tryset(lambda p: p["runs"][i]["faults"].pop(j) and None)
        tryset(lambda p: p["runs"][i].update(tear=0) if p["runs"][i]["tear"] else False); tryset(lambda p: p["runs"][i].update(git="ok") if p["runs"][i]["git"] != "ok" else False)
    tryset(lambda p: p.update(old=False) if p["old"] else False); tryset(lambda p: p.update(tree="built") if p["tree"] != "built" else False)
    return best
def gate(py, env, plan, key, d):
    small = minimise(py, env, plan, key, d)
    for p in (small, plan):
        rs = [evaluate(py, env, p, d) for _ in range(2)]
        if rs[0]["bad"] and rs[0] == rs[1]:
            p = dict(p, violation=rs[0]["key"], detail=rs[0]["detail"]); return dict(key=rs[0]["key"], detail=rs[0]["detail"], replay=save_replay(p["prop"], rs[0]["key"], json.dumps(p, indent=1) + "\n", "json"))
    return None
def determinism(py, env, seed, n, d, W):
    """some of the same histories by one worker in another order of processes: every execution hash must agree"""
    d2 = d + "/det"; os.makedirs(d2); subprocess.run([py, WORKER, "run", str(seed), "0", "1", str(n), "60", d2, "0"], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    def logs(x): return {l.split(" ", 1)[0]: l for f in glob.glob(x + "/w*.log") for l in open(f)}
    a, b = logs(d2), logs(d); keys = set(a) & set(b); shutil.rmtree(d2, ignore_errors=True)
    return dict(episodes_executed_again_with_another_worker_count=len(keys), identical_execution_hashes=sum(a[k] == b[k] for k in keys))
def check(prop, seed, tier):
    t0 = time.time(); py, env = setup(); t1 = time.time(); n = EPISODES * (40 if tier == "thorough" else 1); cap = 150 if tier == "quick" else 3 * 3600
    if os.environ.get("TISIM_EPISODES"): n = int(os.environ["TISIM_EPISODES"])
    W = min(16, os.cpu_count() or 4); d = os.path.realpath(os.path.join(BUILD, "run")) + "/" + prop; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    ps = [(w, subprocess.Popen([py, WORKER, "run", str(seed), str(w), str(W), str(n), str(cap), d, str(w)], env=env, stdout=subprocess.DEVNULL, stderr=open("%s/w%d.err" % (d, w), "w"))) for w in range(W)]
    for w, p in ps:
        if p.wait(): die("code generation simulator failed: " + open("%s/w%d.err" % (d, w)).read()[-600:])
    det = determinism(py, env, seed, 40, d, W)
    found = [json.loads(l) for f in glob.glob(d + "/w*.found") for l in open(f)]; found.sort(key=lambda f: f["ep"]); known = load_known(prop); new, gate_errors, keys, seen_known = [], [], set(), set()
    for f in found:
        if f["key"] in known: seen_known.add(f["key"]); continue
        if f["key"] in keys or len(new) >= 2 or len(gate_errors) >= 3: continue
        plan = json.loads(subprocess.run([py, WORKER, "gen", str(seed), str(f["ep"])], env=env, stdout=subprocess.PIPE, text=True).stdout); v = gate(py, env, plan, f["key"], d)
        if v: new.append(v); keys.add(f["key"])
        else: gate_errors.append(f)
    for k in known: print("KNOWN-FINDING: property=%s %s%s" % (prop, known[k], "" if k in seen_known else " (not reached in this run)"))
    tot, shapes, pts, N, capped = {}, set(), set(), 0, False
    for f in glob.glob(d + "/w*.stats"):
        s = json.load(open(f)); N += s["n"]; shapes.update(s["shapes"]); capped |= s["capped"]; pts.update(s["tot"].pop("points"))
        for k, v in s["tot"].items(): tot[k] = tot.get(k, 0) + v
    secs = max(1e-6, time.time() - t1); sample = subprocess.run([py, WORKER, "gen", str(seed), "3"], env=env, stdout=subprocess.PIPE, text=True).stdout
    names = {1: "kill_before_an_operation", 2: "kill_after_an_operation", 3: "kill_inside_a_write", 4: "no_space_once", 5: "io_error_once", 6: "disk_full", 7: "short_write", 8: "interrupted_call", 9: "permission_denied_once", 10: "read_failure", 11: "keyboard_interrupt"}
    cov = dict(evaluations=N, distinct_nontrivial=len(shapes), rule="one evaluation = one simulated history of generator runs (index entries, implementation files present, faults of every run, torn data) drawn from the seed; distinct when entries, files, features or faults differ; every one is non-trivial: it runs the generator at least four times",
        samples=[sample[:2500]], simulated_runs=tot.get("runs", 0), executions_per_hour=int(tot.get("runs", 0) / secs * 3600), seeds_per_hour=int(N / secs * 3600),
        simulated_time={"file_system_operations": tot.get("ops", 0), "unit": "operations changing the tree; the clock the generator reads is simulated"},
        faults_injected=dict({names[k]: tot.get("kind_%d" % k, 0) for k in names}, files_torn_by_power_loss=tot.get("torn", 0)), faults_reached=tot.get("fired", 0),
        outcomes={"killed": tot.get("killed", 0), "ended_with_an_error": tot.get("failed", 0), "completed_despite_faults": tot.get("completed", 0)},
        interleavings_or_states={"measure": "distinct (last operation and kind of file before the run ended, faults planned) pairs", "crash_states": len(pts), "history_shapes": len(shapes)},
        real_components="codegen.py and version.py unmodified, CPython, PyYAML, the kernel's file system below the seam", stubbed_components="git, the clock, failing or torn operations", determinism=det, capped=capped, workers=W, build_s=round(t1 - t0, 2))
    if not N and not new: die("no episode ran")
    return finish(prop, seed, tier, cov, t0, new, gate_errors, ["metadata operations reach the disk in program order; data written since a file's last sync may be lost, cut, zeroed or holed", "git is replaced by a stand-in that renames, removes or fails"])
def replay(plan):
    py, env = setup(); d = os.path.realpath(os.path.join(BUILD, "run")); os.makedirs(d, exist_ok=True); r = evaluate(py, env, plan, d)
    if r["bad"]: print("reproduced: %s %s (execution %s)" % (r["key"], r["detail"], r["hash"])); return 1
    print("not reproduced on this tree"); return 0
