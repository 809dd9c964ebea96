"""Simulated runs of codegen.py (unmodified, real CPython) on a simulated disk.
   cgworker.py run SEED FIRST STEP N CAP DIR W | eval PLAN DIR | gen SEED EP        (LD_PRELOAD = libsimfs.so; TISIM_SRC = directory of the working tree)
A plan is explicit: index entries, implementation files present, and a history of runs with their faults."""
import sys, os, json, random, time, signal, hashlib, shutil, runpy, gc, ctypes, re, traceback
import yaml, argparse                     # warmed up before the forks
SRC = os.environ["TISIM_SRC"]; LIB = ctypes.CDLL(os.environ["LD_PRELOAD"])
LIB.simfs_begin.argtypes = [ctypes.c_char_p] * 3
KILL_BEFORE, KILL_AFTER, KILL_MID, ENOSPC1, EIO1, FULL, SHORT, EINTR, EACC, READ_EIO, INTERRUPT = range(1, 12)
KINDS = {KILL_BEFORE: "kill before an operation", KILL_AFTER: "kill after an operation", KILL_MID: "kill inside a write", ENOSPC1: "no space, once", EIO1: "I/O error, once", FULL: "disk full from here on", SHORT: "short write", EINTR: "interrupted call", EACC: "permission denied, once", READ_EIO: "read failure", INTERRUPT: "keyboard interrupt"}
NOW = 1500000000
INDEX = {}                                # name -> its line in indicators.yaml
for l in open(SRC + "/indicators.yaml", encoding="utf8"):
    m = re.match(r"(\w+): \[", l)
    if m: INDEX[m.group(1)] = l.rstrip("\n")
NAMES = sorted(n for n in INDEX if os.path.exists("%s/indicators/%s.cc" % (SRC, n)) or os.path.exists("%s/indicators/%s.c" % (SRC, n)))
HAND = '/* hand-written, do not lose */\n#include <math.h>\n#include "../indicators.h"\n%s\nint ti_%s_start(TI_REAL const *options) {\n    return (int)options[0]-1; /* caf\u00e9 */\n}\n\nint ti_%s(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {\n    const TI_REAL *in = inputs[0];\n    (void)in; return TI_OKAY;\n}%s'
def gen(seed, ep):
    R = random.Random("%d/%d" % (seed, ep)); ent = []; P = dict(prop="C14", engine="codegen", ep=ep, old=False, tree="fresh" if R.random() < .3 else "built")
    k = len(NAMES) if R.random() < .004 else R.choice([0, 1, 1, 2, 2, 3, 5, 9]); kind = R.random()
    for n in R.sample(NAMES, min(k, len(NAMES))): ent.append(dict(name=n, line=INDEX[n], file="repo"))
    if kind > .15:                         # newly declared indicators and features
        if R.random() < .25: P["old"] = True
        for e in ent:
            if R.random() < (.6 if k < 50 else .02):
                c = R.random(); m = re.match(r"(.*, )\[([^][]*)\](, '.*'\]\s*)$", e["line"]) or re.match(r'(.*, )\[([^][]*)\](, ".*"\]\s*)$', e["line"])
                if P["old"] or c < .45:    # a legacy .c implementation, perhaps with features declared since
                    e["file"] = "c:%d" % R.randrange(7)
                    if m: e["line"] = m.group(1) + R.choice(["[stream]", "[ref]", "[ref, stream]", "[]"]) + m.group(3)
                elif c < .75 and m:        # a feature declared for an existing implementation
                    f = [x for x in m.group(2).replace(" ", "").split(",") if x]; add = [x for x in ("ref", "stream") if x not in f]
                    if add: e["line"] = m.group(1) + "[" + ", ".join(f + R.sample(add, R.randint(1, len(add)))) + "]" + m.group(3)
                    if R.random() < .3: e["file"] = "cc:%d" % R.randrange(7); 
                else: e["file"] = "none"   # declared, not implemented yet
        for j in range(R.choice([0, 1, 1, 2, 4])):
            n = "zz%s%d" % (R.choice("abxyz"), j) if R.random() < .5 else "aa%d" % j
            ins = R.sample(["open", "high", "low", "close", "volume", "series"], R.randint(1, 3)); op = R.sample(["period", "k", "long period", "alpha", "%k"], R.randint(0, 3)); op = [o.replace(" ", "_").replace("%", "") for o in op]
            outs = ["%s%d" % (n, i) for i in range(R.randint(1, 3))] if R.random() < .3 else [n]
            e = dict(name=n, line='%s: ["New %s", %s, [%s], [%s], [%s], [%s], \'-\']' % (n, n, R.choice(["overlay", "indicator", "math", "simple", "comparative"]), ", ".join(ins), ", ".join(op), ", ".join(outs), ", ".join(R.choice([[], ["ref"], ["stream"], ["ref", "stream"], ["stream", "ref"]]))), file="none")
            ent.insert(R.randint(0, len(ent)), e)
        R.shuffle(ent)
    if not ent: e = R.choice(NAMES); ent.append(dict(name=e, line=INDEX[e], file="none"))
    P["entries"] = ent; P["runs"] = []
    for _ in range(R.choice([1, 1, 1, 2, 3])):
        f = []; u = R.random()
        for _ in range(R.choice([1, 1, 2])):
            k = R.choice([KILL_BEFORE, KILL_AFTER, KILL_AFTER, KILL_MID, KILL_MID, KILL_MID, ENOSPC1, EIO1, FULL, SHORT, EINTR, EACC, READ_EIO, INTERRUPT]); f.append([round(R.random(), 6), k, R.randrange(1 << 20)])
        P["runs"].append(dict(faults=f, git=R.choice(["ok", "ok", "fail"]), tear=R.randrange(1, 1 << 30) if R.random() < .5 else 0))
    P["git"] = R.choice(["ok", "ok", "fail"])
    return P
def legacy(name, v):                       # hand-written files of several shapes
    body = HAND % ('#include "../utils/log.h"\n' if v & 1 else "", name, name, "" if v == 2 else "\n")
    if v == 3: body = body.replace("\n", "\r\n")
    if v == 4: body = body.replace('#include <math.h>\n#include "../indicators.h"\n', "")
    if v == 5: body = "\n\n" + body + "\n\n\n" + "/* " + "x" * 9000 + " */\n"
    if v == 6: body = "/* %s: to do */\n" % name
    return body.encode("utf8")
def build(root, P):
    shutil.rmtree(root, ignore_errors=True); os.makedirs(root + "/indicators")
    for f in ("codegen.py", "version.py"): shutil.copy(SRC + "/" + f, root)
    hand = {}
    for e in P["entries"]:
        n = e["name"]
        if e["file"] == "repo": x = ".cc" if os.path.exists("%s/indicators/%s.cc" % (SRC, n)) else ".c"; data = open("%s/indicators/%s%s" % (SRC, n, x), "rb").read()
        elif e["file"] == "none": continue
        else: x, v = e["file"].split(":"); x = "." + x; data = legacy(n, int(v))
        open(root + "/indicators/" + n + x, "wb").write(data); hand[n] = (x, data)
    open(root + "/indicators.yaml", "w", encoding="utf8").write("# index\n\n" + "".join(e["line"] + "\n" for e in P["entries"]))
    if P["tree"] == "built":               # headers of an earlier state, as a previous build left them
        for f in ("indicators.h", "indicators_index.c"): open(root + "/" + f, "w").write("/* earlier state */\n" * 300)
    for d, _, fs in os.walk(root):         # every input is older than anything a run writes; the earlier state is older than the index
        for f in fs: t = NOW - (500 if f.startswith("indicators.h") or f.startswith("indicators_index") else 10 if f == "indicators.yaml" else 1000); os.utime(os.path.join(d, f), (t, t))
    return hand
def run(root, side, faults, old, git, now):
    """one run of the generator; returns exit status (negative: killed)"""
    shutil.rmtree(side, ignore_errors=True); os.makedirs(side); pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.signal(signal.SIGINT, signal.default_int_handler); os.setpgid(0, 0)
            fd = os.open(side + "/out", os.O_WRONLY | os.O_CREAT, 0o600); os.dup2(fd, 1); os.dup2(fd, 2); os.chdir(root)
            os.environ.update(SIMFS_ROOT=root, SIMFS_SIDE=side, SIMFS_FAULTS=faults, SIMFS_GIT=git, SIMFS_TIME=str(now), SIMFS_PID=str(3000 + 7 * (now - NOW)), PATH=os.environ["TISIM_GIT"] + ":" + os.environ["PATH"])
            random.seed(now); LIB.simfs_begin(root.encode(), side.encode(), faults.encode()); sys.argv = [root + "/codegen.py"] + (["--old"] if old else []); sys.path[0] = root; sys.stdin = open("/dev/null"); sys.dont_write_bytecode = True; sys.modules.pop("version", None)
            try: g = runpy.run_path(root + "/codegen.py", run_name="__main__"); code = 0; del g
            except SystemExit as e: code = e.code if isinstance(e.code, int) else (1 if e.code else 0)
            except BaseException as e: traceback.print_exc(); code = 1; e.__traceback__ = None; del e
            gc.collect()
        except BaseException: traceback.print_exc()
        finally:
            try: sys.stdout.flush()
            except BaseException: pass
            os._exit(code)
    t = time.time()
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p: break
        if time.time() - t > 40:
            os.kill(pid, 9); os.waitpid(pid, 0); return 999
        time.sleep(.001)
    try: os.killpg(pid, 9)                 # children of a killed generator do not outlive the simulated machine
    except OSError: pass
    return -os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st)
def journal(side):
    try: return [l.rstrip("\n").split(" ") for l in open(side + "/journal")]
    except OSError: return []
def state(side):
    b = open(side + "/state", "rb").read(40); return int.from_bytes(b[:8], "little"), int.from_bytes(b[24:32], "little")
def tear(root, side, R):
    """power loss: data written since a file was last synced is lost, truncated, zeroed or holed"""
    un = {}; tot = 0
    for j in journal(side):
        op = j[1]
        if op in ("create", "trunc"): un[j[2]] = []
        elif op == "write": un.setdefault(j[2], []).append((int(j[3]), int(j[4])))
        elif op == "sync": un.pop(j[2], None)
        elif op == "rename":
            un.pop(j[3], None)
            if j[2] in un: un[j[3]] = un.pop(j[2])
        elif op == "unlink": un.pop(j[2], None)
    for f in sorted(un):
        if not un[f]: continue
        p = root + "/" + f
        try: data = bytearray(open(p, "rb").read())
        except OSError: continue
        lo = min(a for a, _ in un[f]); hi = min(len(data), max(a + n for a, n in un[f]))
        if hi <= lo: continue
        c = R.randrange(5); cut = R.randint(lo, hi)
        if c == 0: data = data[:lo]
        elif c == 1: data = data[:cut]
        elif c == 2: data[cut:hi] = bytes(hi - cut)
        elif c == 3: a = lo + (cut - lo) // 512 * 512; b = min(hi, a + 512); data[a:b] = bytes(b - a)
        else: continue
        open(p, "wb").write(data); tot += 1
    return tot
def snap(root):
    out = {}
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x != "__pycache__"]
        for f in fs:
            p = os.path.join(d, f); r = os.path.relpath(p, root)
            data = open(p, "rb").read()
            if r in ("indicators.h", "indicators_index.c"): data = re.sub(rb"(#define TI_BUILD )\d+", rb"\1N", data)
            out[r] = data
    return out
def subseq(lines, of):
    it = iter(of); return all(l in it for l in lines)
def lost(root, hand, final):
    """hand-written content must be there at every moment"""
    for n, (x, data) in hand.items():
        ok = False
        for y in (".c", ".cc"):
            try: d = open("%s/indicators/%s%s" % (root, n, y), "rb").read()
            except OSError: continue
            if y == x and (d == data or d.startswith(data)): ok = True
            elif subseq([l for l in data.splitlines()], d.splitlines()): ok = True
            if ok: break
        if not ok: return "hand-written indicators/%s%s is gone or altered %s" % (n, x, "at the end" if final else "after an interrupted run")
    return None
def execute(P, base, stats=None):
    root, side, H = base + "/t", base + "/side", hashlib.sha256(); stats = stats if stats is not None else {}
    def add(k, v=1): stats[k] = stats.get(k, 0) + v
    def res(key=None, detail=""): return dict(bad=bool(key), key=key or "", detail=detail, hash=H.hexdigest()[:16])
    hand = build(root, P); rc = run(root, side, "", P["old"], P["git"], NOW); ref = snap(root); nops, _ = state(side); add("runs"); add("ops", nops)
    if rc != 0: return dict(bad=True, key="uninterrupted-fails", detail="an uninterrupted run exits %d: %s" % (rc, open(side + "/out", errors="replace").read().strip()[-200:]), hash="%d" % rc)
    w = lost(root, hand, True)
    if w: return res("hand-written", w + " of an uninterrupted run")
    for n, (x, data) in hand.items():
        p = "indicators/" + n + x; line = [e["line"] for e in P["entries"] if e["name"] == n][0]; f = re.findall(r"\[([^][]*)\]", line)[-1] if "[" in line else ""
        need = [g for g in ("ref", "stream") if g in [z.strip() for z in f.split(",")] and ("ti_%s_%s" % (n, g)).encode() not in data]
        if not need and ref.get(p) != data: return res("hand-written", "an uninterrupted run alters %s although nothing was declared for it" % p)
    rr = run(root, side, "", P["old"], P["git"], NOW + 1); add("runs")
    if rr != 0: return res("second-run-fails", "a second run on an up-to-date tree exits %d" % rr)
    s2 = snap(root)
    if s2 != ref: return res("not-idempotent", "a second run changes %s" % ", ".join(sorted(k for k in set(s2) | set(ref) if s2.get(k) != ref.get(k))[:4]))
    build(root, P)
    for i, r in enumerate(P["runs"]):
        fl = ";".join("%d:%d:%d" % (int(a * (nops + 1)) if isinstance(a, float) else a, k, arg) for a, k, arg in r["faults"])
        rc = run(root, side, fl, P["old"], r["git"], NOW + 10 + i); n, fired = state(side); add("runs"); add("ops", n); H.update(("%d %d %s" % (rc, n, journal(side))).encode())
        if rc == 999: return res("hang", "a run with a failing disk does not end (faults %s)" % fl)
        add("fired", fired); ks = [k for a, k, g in r["faults"]]
        for k in ks: add("kind_%d" % k)
        if rc < 0: add("killed")
        elif rc > 0: add("failed")
        else: add("completed")
        if rc < 0 and r["tear"]: add("torn", tear(root, side, random.Random(r["tear"])))
        w = lost(root, hand, False)
        if w: return res("hand-written", w + " (run %d, faults %s)" % (i, fl))
        stats.setdefault("points", set()).add("%s@%s" % (journal(side)[-1][1] + (" " + os.path.splitext(journal(side)[-1][2])[1] if len(journal(side)[-1]) > 2 else "") if journal(side) else "start", ",".join(map(str, ks))))
    rc = run(root, side, "", P["old"], P["git"], NOW + 100); add("runs"); out = snap(root); H.update(repr(sorted((k, hashlib.sha256(v).hexdigest()) for k, v in out.items())).encode())
    if rc != 0: return res("rerun-fails", "running the generator again exits %d: %s" % (rc, open(side + "/out", errors="replace").read().strip()[-160:]))
    w = lost(root, hand, True)
    if w: return res("hand-written", w)
    if out != ref:
        d = sorted(k for k in set(out) | set(ref) if out.get(k) != ref.get(k)); k = d[0]
        how = "is left behind" if k not in ref else "is missing" if k not in out else "differs (%d bytes instead of %d)" % (len(out[k]), len(ref[k]))
        return res("not-repaired", "after the interrupted run(s) and a complete one, %s %s (%d files differ)" % (k, how, len(d)))
    return res()
def shape(P): return hashlib.sha256(json.dumps([[(e["name"], e["file"], e["line"].split("[")[-2:]) for e in P["entries"]], P["runs"], P["old"], P["tree"]]).encode()).hexdigest()[:12]
def main():
    a = sys.argv[1:]
    if a[0] == "gen": print(json.dumps(gen(int(a[1]), int(a[2])))); return
    if a[0] == "eval": print(json.dumps(execute(json.load(open(a[1])), a[2]))); return
    seed, first, step, n, cap, d, w = int(a[1]), int(a[2]), int(a[3]), int(a[4]), float(a[5]), a[6], a[7]; t0 = time.time(); st = {}; shapes = []; N = 0; capped = False; base = d + "/t" + w; os.makedirs(base, exist_ok=True)
    found = open(d + "/w%s.found" % w, "a"); bad = 0; log = open(d + "/w%s.log" % w, "w")
    for ep in range(first, n, step):
        if time.time() - t0 > cap: capped = True; break
        P = gen(seed, ep); r = execute(P, base, st); N += 1; shapes.append(shape(P)); log.write("%d %s %s\n" % (ep, r["key"] or "ok", r["hash"]))
        if r["bad"]:
            found.write(json.dumps(dict(ep=ep, key=r["key"], detail=r["detail"])) + "\n"); found.flush(); bad += 1
            if bad >= 6: break
    shutil.rmtree(base, ignore_errors=True); st["points"] = sorted(st.get("points", []))
    json.dump(dict(n=N, shapes=shapes, tot=st, capped=capped), open(d + "/w%s.stats" % w, "w"))
if __name__ == "__main__": main()
