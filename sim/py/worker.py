"""Simulated Python host: real binding, real interpreter, simulated schedule / native allocator / GC points.

worker.py PKGROOT run PROP SEED FROM STEP TO WALL OUTDIR WID   episodes FROM, FROM+STEP, ... < TO
worker.py PKGROOT gen PROP SEED EP                              print the plan
worker.py PKGROOT eval PLANFILE                                 execute one plan, print the verdict
"""
import sys, os, json, random, time, zlib, gc, faulthandler
import _thread, threading, ctypes
import numpy as np
import numpy.ctypeslib
real_alloc = _thread.allocate_lock
ROOT = os.path.abspath(sys.argv[1]); PKG = os.path.join(ROOT, "tindicators")
SCHED = None

class Sched:
    """cooperative scheduler of real threads: exactly one runs; it hands over only at traced lines, native hooks, blocked locks"""
    def __init__(s, n, switches, gcs):
        s.n = n; s.sem = [real_alloc() for _ in range(n)]; [l.acquire() for l in s.sem]; s.alldone = real_alloc(); s.alldone.acquire()
        s.done = [False] * n; s.wait = [None] * n; s.cur = 0; s.step = 0; s.sw = sorted(map(tuple, switches)); s.swi = 0; s.gcs = sorted(gcs); s.gci = 0
        s.crc = 0; s.nsw = 0; s.nat = [[] for _ in range(n)]; s.natsw = 0; s.ngc = 0; s.inter = 0
    def runnable(s): return [t for t in range(s.n) if not s.done[t] and s.wait[t] is None]
    def hand(s, to):
        me = s.cur
        if to == me: return
        s.nsw += 1; s.inter = zlib.crc32(b"%d>%d@%d" % (me, to, s.step), s.inter); s.cur = to; s.sem[to].release()
        if not s.done[me]: s.sem[me].acquire()
    def pick(s, to):
        r = [t for t in s.runnable() if t != s.cur]
        if not r: return s.cur
        return to if to in r else min(r, key=lambda t: (t - s.cur) % s.n)
    def point(s, where):
        s.step += 1; s.crc = zlib.crc32(b"%d %d %d" % (s.cur, s.step, where), s.crc)
        while s.gci < len(s.gcs) and s.step >= s.gcs[s.gci]: s.gci += 1; s.ngc += 1; gc.collect(0 if s.ngc % 4 else 2)
        if s.swi < len(s.sw) and s.step >= s.sw[s.swi][0]:
            to = s.sw[s.swi][1]; s.swi += 1; s.hand(s.pick(to))
    def native(s, steps):
        if steps < 0:
            to = s.pick(-1)
            if to == s.cur: die("deadlock", "a native lock is held by nobody who can run")
            s.hand(to); return -1
        q = s.nat[s.cur]; s.crc = zlib.crc32(b"n%d %d" % (s.cur, steps), s.crc)
        while q and q[0][0] <= steps:
            to = q.pop(0)[1]; s.natsw += 1; s.hand(s.pick(to))
        q = s.nat[s.cur]; return q[0][0] if q else -1
    def block(s, obj):
        s.wait[s.cur] = obj; r = s.runnable()
        if not r: die("deadlock", "every thread waits for a lock")
        s.hand(s.pick(-1))
    def wake(s, obj):
        for t in range(s.n):
            if s.wait[t] is obj: s.wait[t] = None
    def finish(s):
        s.done[s.cur] = True; r = s.runnable()
        if r: s.hand(s.pick(-1))
        elif all(s.done): s.alldone.release()
        else: die("deadlock", "remaining threads wait for a lock")

class SimLock:
    def __init__(s, re=False): s.o = None; s.k = 0; s.re = re
    def acquire(s, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while s.o is not None and not (s.re and s.o == me):
            if not blocking or timeout >= 0: return False
            if SCHED is None: die("deadlock", "lock never released")
            SCHED.block(s)
        s.o = me; s.k += 1; return True
    def release(s):
        if s.o is None: raise RuntimeError("release unlocked lock")
        s.k -= 1
        if s.k <= 0 or not s.re:
            s.o = None; s.k = 0
            if SCHED: SCHED.wake(s)
    def locked(s): return s.o is not None
    def _is_owned(s): return s.o == _thread.get_ident()
    def __enter__(s): s.acquire(); return s
    def __exit__(s, *a): s.release()
threading.Lock = lambda: SimLock(); threading.RLock = lambda: SimLock(True)
sys.path.insert(0, ROOT); sys.dont_write_bytecode = True
EP = [-1]; OUT = [None]
def die(key, detail):
    if OUT[0] is None: print(json.dumps(dict(bad=True, key=key, detail=detail, hash="-"))); sys.stdout.flush()
    else: os.write(OUT[0], (json.dumps(dict(ep=EP[0], bad=True, key=key, detail=detail)) + "\n").encode())
    os._exit(77)

import tindicators as T
LIB = ctypes.CDLL(os.path.join(PKG, "libindicators.so")); ctl = LIB
HT = ctypes.CFUNCTYPE(ctypes.c_long, ctypes.c_long)
def _hook(k): return SCHED.native(k) if SCHED else -1
HOOK = HT(_hook); ctl.pysim_set_hook.argtypes = [HT]; ctl.pysim_set_hook(HOOK)
ctl.pysim_enter.argtypes = [ctypes.c_int] * 3 + [ctypes.c_long]; ctl.pysim_live.restype = ctypes.c_long; ctl.pysim_bad_frees.restype = ctypes.c_long
class CInfo(ctypes.Structure):
    _fields_ = [("name", ctypes.c_char_p), ("full", ctypes.c_char_p), ("start", ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_void_p)), ("run", ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_int, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p)), ("ref", ctypes.c_void_p),
        ("type", ctypes.c_int), ("ni", ctypes.c_int), ("no", ctypes.c_int), ("nout", ctypes.c_int), ("inn", ctypes.c_char_p * 10), ("optn", ctypes.c_char_p * 10), ("outn", ctypes.c_char_p * 10), ("sn", ctypes.c_void_p), ("sr", ctypes.c_void_p), ("sf", ctypes.c_void_p)]
NIND = LIB.ti_indicator_count(); TAB = (CInfo * NIND).in_dll(LIB, "ti_indicators")
nm = lambda b: b.decode().replace(" ", "_").replace("%", "")
CAT = {}
for i in range(NIND):
    c = TAB[i]; CAT[c.name.decode()] = dict(c=c, inputs=[nm(c.inn[k]) for k in range(c.ni)], options=[nm(c.optn[k]) for k in range(c.no)], outputs=[nm(c.outn[k]) for k in range(c.nout)])
NAMES = sorted(CAT)

# ------------------------------------------------------------------ generation
DICT = [int(x) for x in os.environ.get("TISIM_PYDICT", "").split()]
def P(r, lo=1, hi=40):
    u = r.random(); v = r.randint(1, 3) if u < .3 else r.randint(3, 12) if u < .8 else r.randint(13, 40)
    return max(lo, min(hi, v))
def gen_opts(r, n, k):
    if not k: return []
    if n in ("adosc", "kvo", "vosc", "apo", "ppo"): s = P(r, 2, 20); return [s, s + r.randint(1, 15)]
    if n == "macd": s = P(r, 2, 15); return [s, s + r.randint(1, 15), P(r, 1, 12)]
    if n == "vidya": s = P(r, 1, 12); return [s, max(2, s + r.randint(0, 12)), r.choice([.2, 0, 1, .5])]
    if n == "copp": s = P(r, 1, 12); return [s, s + r.randint(0, 9), P(r, 1, 12)]
    if n == "ultosc": s = P(r, 1, 9); m = s + r.randint(1, 9); return [s, m, m + r.randint(1, 9)]
    if n == "kst": a = r.randint(1, 5); b = a + r.randint(1, 4); c = b + r.randint(1, 4); d = c + r.randint(1, 4); return [a, b, c, d] + [P(r, 1, 8) for _ in range(4)]
    if n == "ichi": a = r.randint(1, 8); b = a + r.randint(0, 8); return [a, b, b + r.randint(0, 10)]
    if n in ("bf2", "bf3", "gf1", "gf2", "gf3", "gf4"): return [2 * r.randint(1, 12)]
    if n == "frama": return [2 * r.randint(1, 10), r.randint(2, 30)]
    if n == "rmf": return [P(r, 1, 30), 2 * r.randint(0, 6) + 1]
    if n == "hwma": return [r.randint(7, 13)]
    if n == "swma": return [r.choice([p for p in range(1, 30) if p % 6 and (p + 1) % 6])]
    if n in ("adx", "adxr", "stochrsi", "hurst"): return [P(r, 2, 15)]
    if n == "psar": return [.02, .2]
    if n == "mama": return [.5, .05]
    if n == "edcf": return [r.randint(1, 6)]
    if n in ("idwma", "pwma"): return [P(r, 1, 12), r.randint(1, 2)]
    if n == "lf": return [r.choice([.8, .2, .5])]
    if n == "arsi": return [r.choice([.5, 1.0, .25])]
    if n == "lag": return [r.randint(0, 15)]
    if n == "hf": return [r.randint(1, 10), r.choice([1.0, .5, 2.0])]
    if n in ("hfsma", "hfema"): return [P(r, 1, 20), r.randint(1, 8), r.choice([1.0, .5, 2.0])]
    if n == "mesastoch": return [P(r, 3, 20), r.randint(4, 40)]
    if n in ("evwma", "rema", "kc", "t3", "rmta", "bbands", "ce"): return [P(r), dict(evwma=2.0, rema=.5, kc=1.5, t3=.7, rmta=.9, bbands=2.0, ce=3.0)[n]]
    if n == "zlema": return [P(r, 3)]
    return [P(r, 1, 15 if k > 1 else 40) for _ in range(k)]
BADOPT = ["sma", "ema", "wma", "er", "lma", "roc", "max", "trix", "rsi", "msw", "lag", "hma"]
KINDS = ["list", "tuple", "ndarray", "strided", "array", "ints", "f32", "reversed", "readonly", "column", "npscalars", "i64"]
def vmode(it): return "ints" if it in ("ints", "i64") else "f32" if it == "f32" else ""
def gen_call(r, prop, pool, nser):
    n, o = r.choice(pool)
    if r.random() < .25: o = gen_opts(r, n, len(CAT[n]["options"]))
    op = dict(op="call", ind=n, opts=o, ser=r.randrange(nser), pad=r.random() < .6, style=r.randrange(4), via=r.choice(["attr", "attr", "shared", "shared", "inst2"]), it=r.choice(KINDS), slot=r.randrange(3), nsw=[])
    if r.random() < .5:
        k = 0
        for _ in range(r.randint(1, 3)): k += int(r.choice([3, 40, 300]) * r.random()) + 1; op["nsw"].append([k, r.randrange(3)])
    if r.random() < .15: op["mut"] = 1
    if r.random() < .35: op["live"] = 1; op["it"] = r.choice(["list", "ndarray", "ndarray", op["it"]])
    return op
def gen_plan(prop, seed, ep):
    r = random.Random("%s/%d/%d" % (prop, seed, ep)); nt = r.choice([1, 2, 2, 2, 3, 3]) if prop == "C12" else r.choice([1, 1, 2, 2, 3])
    first = NAMES[(ep * 7919 + seed) % len(NAMES)]
    pool = []
    for n in [first] + [r.choice(NAMES) for _ in range(r.randint(0, 2))]:
        for _ in range(r.randint(1, 2)): pool.append((n, gen_opts(r, n, len(CAT[n]["options"]))))
    sers = [dict(seed=r.randrange(1 << 30), n=r.choice([0, 1, 2, 3, r.randint(4, 20), r.randint(10, 60), r.randint(30, 130)] if (u := r.random()) < .25 else [r.randint(300, 900), r.randint(900, 4200)] if u > .985 else [r.randint(8, 60), r.randint(40, 150)])) for _ in range(r.randint(1, 3))]
    if r.random() < .4: sers.append(dict(r.choice(sers), rev=r.randrange(1 << 16)))
    lits = [x for x in DICT if x <= 5000]
    if lits and r.random() < .05: sers[-1] = dict(sers[-1], n=max(0, r.choice(lits) + r.randint(-1, 1)))   # a length the binding's own sources mention
    if r.random() < .05: sers.append(dict(r.choice(sers), odd=r.randrange(1 << 16)))                       # NaN, infinities, signed zeros and negative values among the bars
    threads = []
    for t in range(nt):
        ops = []
        for _ in range(r.randint(1, 6 if nt < 3 else 4)):
            u = r.random()
            if u < .62 or (t == 0 and not ops): ops.append(gen_call(r, prop, pool, len(sers)))
            elif u < .68: ops.append(dict(op="drop", slot=r.randrange(3)))
            elif u < .75: ops.append(dict(op="write", slot=r.randrange(3)))
            elif u < .81: ops.append(dict(op="gc"))
            elif u < .90: ops.append(dict(op="churn", n=r.randint(1, 160), k=r.randint(1, 12)))
            elif u < .94: ops.append(dict(op="badopt", ind=r.choice(BADOPT), opt=r.choice([-20, 0]), ser=r.randrange(len(sers))))
            elif u < .96: ops.append(dict(op="badname", name=r.choice(["nosuch", "zz", "sma2", "a"])))
            else: ops.append(dict(op="repr", ind=r.choice(pool)[0]))
        if prop == "C13":
            cs = [o for o in ops if o["op"] == "call"]
            if not cs: cs = [gen_call(r, prop, pool, len(sers))]; ops += cs
            for c in cs:
                if r.random() < .7:
                    c["fault"] = [1, r.choice([0, 0, 1, 1, 2, 3, 4, 5, 7, 10])] if r.random() < .75 else [2, r.choice([0, 1, 2, 4])]
                    if r.random() < .7: d = dict(c); d.pop("fault"); d["nsw"] = [list(x) for x in c["nsw"]]; ops.insert(ops.index(c) + 1, d)
        threads.append(ops)
    if r.random() < .012:                     # a crowd: many short calls whose results are all kept
        base = len(sers); sers += [dict(seed=r.randrange(1 << 30), n=r.randint(1, 24)) for _ in range(r.randint(1, 6))]; t = r.randrange(nt); few = [x for x in DICT if 20 <= x <= 600]
        cs = [dict(gen_call(r, prop, pool, 1), ser=base + r.randrange(len(sers) - base), nsw=[], live=0) for _ in range(r.randint(1, 7))]
        for c in cs: c.pop("mut", None)
        threads[t].insert(r.randint(0, len(threads[t])), dict(op="crowd", calls=cs, n=r.choice(few) + r.randint(0, 3) if few and r.random() < .4 else r.choice([70, 140, 270])))
    sw, k = [], 0
    gap = r.choice([3, 12, 40, 150])
    for _ in range(r.randint(0, 40) if nt > 1 else 0): k += 1 + int(r.expovariate(1 / gap)); sw.append([k, r.randrange(nt)])
    gcs = sorted(r.randrange(400) for _ in range(r.choice([0, 0, 1, 2])))
    p = dict(engine="python", prop=prop, seed=seed, episode=ep, series=sers, threads=threads, switches=sw, gcs=gcs, opcodes=r.random() < .15, leak=None)
    if prop == "C13" and r.random() < .12: n, o = r.choice(pool); p["leak"] = dict(ind=n, opts=o, ser=0, fault=[1, r.choice([0, 0, 1, 2])], reps=60)
    return p

_ser = {}
def series(spec):
    key = (spec["seed"], spec["n"], spec.get("rev"), spec.get("odd"))
    if key in _ser: return _ser[key]
    r = random.Random(spec["seed"]); n = spec["n"]; p = 100.0; c = {k: [] for k in ("open", "high", "low", "close", "volume", "s1", "s2")}; flat = r.random() < .1; q = 100.0
    for _ in range(n):
        o = p; p = max(5.0, p + (0 if flat else round(r.uniform(-2, 2) * 8) / 8)); q = max(5.0, q + r.uniform(-1, 1))
        c["open"].append(o); c["close"].append(p); c["high"].append(max(o, p) + (0 if flat else r.randint(0, 8) / 8)); c["low"].append(min(o, p) - (0 if flat else r.randint(0, 8) / 8)); c["volume"].append(float(r.randint(500, 2000))); c["s1"].append(p); c["s2"].append(q)
    if spec.get("rev") is not None and n:    # the same history with one bar revised
        j = spec["rev"] % n
        for k in c: c[k][j] += 1.5
    if spec.get("odd") is not None and n:
        q = random.Random(spec["odd"])
        for _ in range(q.randint(1, 4)): c[q.choice(sorted(c))][q.randrange(n)] = q.choice([float("nan"), float("inf"), float("-inf"), 0.0, -0.0, -7.5, 1e30, 1e-30])
    if len(_ser) > 200: _ser.clear()
    _ser[key] = c; return c
def columns(info, spec, ints=""):
    c = series(spec); out = []; w = 0
    for n in info["inputs"]:
        if n in c: v = c[n]
        else: v = c["s1" if w == 0 else "s2"]; w += 1
        out.append([float(int(x)) if abs(x) < 1e15 else 0.0 for x in v] if ints == "ints" else [float(np.float32(x)) for x in v] if ints == "f32" else list(v))
    return out
def wrap(v, it):
    if it == "tuple": return tuple(v)
    if it == "ndarray": return np.array(v, dtype=float)
    if it == "strided": a = np.full(2 * len(v), 7.5); a[::2] = v; return a[::2]
    if it == "array": import array; return array.array("d", v)
    if it == "ints": return [int(x) for x in v]
    if it == "i64": return np.array(v, dtype=np.int64)
    if it == "f32": return np.array(v, dtype=np.float32)
    if it == "reversed": return np.array(v[::-1], dtype=float)[::-1]
    if it == "readonly": a = np.array(v, dtype=float); a.flags.writeable = False; return a
    if it == "column": a = np.full((len(v), 3), 8.25); a[:, 1] = v; return a[:, 1]
    if it == "npscalars": return [np.float64(x) for x in v]
    return list(v)

def native(ind, opts, cols):
    info = CAT[ind]; c = info["c"]; o = (ctypes.c_double * max(1, len(opts)))(*opts); n = len(cols[0]); s = c.start(ctypes.addressof(o)); m = max(0, n - s)
    ins = [(ctypes.c_double * max(1, n))(*v) for v in cols]; outs = [(ctypes.c_double * max(1, m))() for _ in range(c.nout)]
    ip = (ctypes.c_void_p * len(ins))(*[ctypes.addressof(x) for x in ins]); op = (ctypes.c_void_p * len(outs))(*[ctypes.addressof(x) for x in outs])
    rc = c.run(n, ctypes.addressof(ip), ctypes.addressof(o), ctypes.addressof(op))
    return rc, s, [np.array(list(x)[:m], dtype=float) for x in outs]

def binding_functions():
    import types; out = []; seen = set()
    def look(o):
        if id(o) in seen: return
        seen.add(id(o))
        if isinstance(o, (staticmethod, classmethod)): o = o.__func__
        if isinstance(o, property): [look(x) for x in (o.fget, o.fset, o.fdel) if x]
        elif isinstance(o, types.FunctionType):
            if o.__code__.co_filename.startswith(PKG): out.append(o)
            if getattr(o, "__wrapped__", None): look(o.__wrapped__)
        elif isinstance(o, type) and str(getattr(o, "__module__", "")).startswith("tindicators"): [look(x) for x in vars(o).values()]
    for n, m in list(sys.modules.items()):
        if n.split(".")[0] == "tindicators": [look(x) for x in list(vars(m).values())]
    return out
FUNS = []
def unspecialise():
    """fresh code objects: the interpreter's adaptive specialisation (which changes opcode events) starts over with every plan"""
    C = type(unspecialise.__code__)
    def fresh(c): return c.replace(co_consts=tuple(fresh(x) if isinstance(x, C) else x for x in c.co_consts))
    if not FUNS: FUNS.extend((f, f.__code__) for f in binding_functions())
    for f, c in FUNS: f.__code__ = fresh(c)
def _warm(): # CPython turns opcode events on for the whole process, from the settrace after the first request: request them once, before any plan
    def g(f, e, a): f.f_trace_opcodes = True; return g
    sys.settrace(g); (lambda: 1)(); sys.settrace(None)
_warm()
class Bad(Exception): pass
def same(a, b):
    if a.shape != b.shape or a.dtype != b.dtype: return False
    return bool((((a == b) & (np.signbit(a) == np.signbit(b))) | ((a != a) & (b != b))).all())
class World: pass

def execute(plan):
    global SCHED
    unspecialise(); gc.disable(); W = World(); W.viol = None; W.calls = W.failed = W.oom = W.bars = W.compared = W.churn = W.crowds = W.allocs = W.nsteps = 0; W.kept = {}; W.bufs = {}; W.owner = 0
    inst = [T.ti, T.Indicators(sharedlib_path=os.path.join(PKG, "libindicators.so"))]
    shared = {}
    # expectations, from the native library called directly
    exp = {}
    def expect(ind, opts, ser, ints):
        k = json.dumps([ind, opts, ser, ints])
        if k not in exp: exp[k] = native(ind, opts, columns(CAT[ind], plan["series"][ser], ints))
        return exp[k]
    for ops in plan["threads"]:
        for op in [x for o in ops for x in (o["calls"] if o["op"] == "crowd" else [o])]:
            if op["op"] == "call":
                expect(op["ind"], op["opts"], op["ser"], vmode(op["it"]))
                if op["via"] == "shared" and op["ind"] not in shared: shared[op["ind"]] = getattr(inst[0], op["ind"])
            elif op["op"] == "badopt": expect(op["ind"], [op["opt"]], op["ser"], "")
    live0 = ctl.pysim_live(-1)
    def viol(key, detail):
        if W.viol is None: W.viol = (key, detail)
    def verify(when):
        for (t, s), (arrs, snaps) in list(W.kept.items()):
            for k, (a, b) in enumerate(zip(arrs, snaps)):
                if not same(a, b):
                    j = int(np.argmax(~((a == b) | ((a != a) & (b != b))))) if a.shape == b.shape else -1
                    viol("result-changed", "a result returned to thread %d earlier changed %s: output %d value %d is %r, was %r" % (t, when, k, j, a[j] if j >= 0 else a.shape, b[j] if j >= 0 else b.shape)); W.kept.pop((t, s)); return
    def arrays(op, res, info):
        if len(info["outputs"]) > 1:
            if not isinstance(res, tuple) or len(res) != len(info["outputs"]): raise Bad("wrong-result", "%s: result is %r" % (op["ind"], type(res)))
            for k, f in enumerate(info["outputs"]):
                if getattr(res, f, None) is not res[k]: raise Bad("wrong-result", "%s: field %s is not output %d" % (op["ind"], f, k))
            r = list(res)
        else: r = [res]
        for a in r:
            if not isinstance(a, np.ndarray) or a.ndim != 1 or a.dtype != np.float64: raise Bad("wrong-result", "%s: output is %r" % (op["ind"], type(a)))
        return r
    def call(t, op, loop=False):
        info = CAT[op["ind"]]; ints = vmode(op.get("it")); cols = columns(info, plan["series"][op["ser"]], ints); rc, start, want = expect(op["ind"], op["opts"], op["ser"], ints)
        args = [wrap(c, op.get("it", "list")) for c in cols]
        if op.get("live"):                     # the caller keeps its buffers and updates them in place
            for i, a in enumerate(args):
                if isinstance(a, list) or isinstance(a, np.ndarray) and a.flags.writeable:
                    b = W.bufs.setdefault((t, op["it"], i, len(a)), a); b[:] = a; args[i] = b
        opts = list(op["opts"]); before = [list(a) for a in args]
        f = inst[1] if op.get("via") == "inst2" else inst[0]
        st = op.get("style", 0); kw = {}; pos = list(args)
        if st == 1: kw = dict(zip(info["options"], opts))
        elif st == 3 and len(set(info["inputs"])) == len(info["inputs"]): kw = dict(zip(info["inputs"], args)); kw.update(zip(info["options"], opts)); pos = []
        elif st == 2 and len(opts) > 1: pos += opts[:1]; kw = dict(list(zip(info["options"], opts))[1:])
        else: pos += opts
        if len(set(info["options"] + info["inputs"])) != len(info["options"]) + len(info["inputs"]): kw = {}; pos = list(args) + opts
        fault = op.get("fault") or [0, 0]; W.owner += 1; me = W.owner; W.calls += 1; W.bars += len(cols[0])
        nsw = [list(x) for x in op.get("nsw", [])]
        if SCHED: SCHED.nat[t] = nsw
        ctl.pysim_enter(me, fault[0], fault[1], nsw[0][0] if nsw and SCHED else -1)
        exc = res = None; tr = TRACE[0]
        try:
            if SCHED: sys.settrace(tr)
            try: res = (shared[op["ind"]] if op.get("via") == "shared" else getattr(f, op["ind"]))(*pos, pad=op.get("pad", True), **kw)
            finally: sys.settrace(None)
        except Exception as e: exc = e
        st3 = (ctypes.c_long * 3)(); ctl.pysim_leave(st3); failed = st3[1]; W.failed += failed; W.allocs += st3[0]; W.nsteps += st3[2]
        if SCHED: SCHED.nat[t] = []
        lv = ctl.pysim_live(me)
        ex = repr(exc)[:120] if exc is not None else None; kind = type(exc); exc = None
        if lv: raise Bad("native-leak", "%s: %d native blocks of the call are still allocated after it" % (op["ind"], lv))
        if ctl.pysim_bad_frees(): raise Bad("bad-free", "%s: invalid native free" % op["ind"])
        for a, b in zip(args, before):
            if len(a) != len(b) or any(x != y and (x == x or y == y) for x, y in zip(a, b)): raise Bad("input-modified", "%s: an input was changed by the call" % op["ind"])
        if rc == 1 and not failed:
            if kind is not T.InvalidOption: raise Bad("wrong-exception", "%s %s: native code rejects the options, Python got %s" % (op["ind"], opts, ex or "a result"))
            return None
        if kind is T.OutOfMemory:
            if not failed: raise Bad("spurious-oom", "%s: OutOfMemory without an allocation failure" % op["ind"])
            W.oom += 1; return None
        if kind is not type(None):
            if failed and kind is T.InvalidOption and rc == 1: return None
            raise Bad("wrong-exception", "%s %s (%d bars)%s: %s" % (op["ind"], opts, len(cols[0]), " with a failed allocation" if failed else "", ex))
        r = arrays(op, res, info)
        for k, (a, w) in enumerate(zip(r, want)):
            if op.get("pad", True): w = np.concatenate([np.full(max(0, min(start, len(cols[0]))), np.nan), w])
            W.compared += w.size
            if not same(a, w):
                j = -1 if a.shape != w.shape else int(np.argmax(~((a == w) | ((a != a) & (w != w)))))
                raise Bad("oom-unreported" if failed else "wrong-result", "%s %s pad=%s (%d bars): output %d is %s, a lone native call gives %s" % (op["ind"], opts, op.get("pad", True), len(cols[0]), k, a.shape if j < 0 else "%r at %d" % (float(a[j]), j), w.shape if j < 0 else repr(float(w[j]))))
        if not loop:
            W.kept[(t, op["slot"])] = (r, [a.copy() for a in r])
            if op.get("mut"):
                for a in args:
                    if isinstance(a, list) or isinstance(a, np.ndarray) and a.flags.writeable:
                        for j in range(len(a)): a[j] = -12345.0
        return r
    def body(t):
        SCHED.sem[t].acquire()
        try:
            for op in plan["threads"][t]:
                if W.viol: break
                k = op["op"]
                try:
                    if k == "call": call(t, op)
                    elif k == "crowd":
                        W.crowds += 1
                        for j in range(op["n"]): call(t, dict(op["calls"][j % len(op["calls"])], slot=1000 + j))
                    elif k == "drop": W.kept.pop((t, op["slot"]), None)
                    elif k == "write":
                        e = W.kept.get((t, op["slot"]))
                        if e and all(a.flags.writeable for a in e[0]):
                            for a in e[0]: a[...] = -1e9 - t
                            W.kept[(t, op["slot"])] = (e[0], [a.copy() for a in e[0]])
                    elif k == "gc": gc.collect()
                    elif k == "churn":
                        W.churn += 1; keep = []
                        for j in range(op["k"]): x = (ctypes.c_double * (op["n"] + j))(*([6e66] * (op["n"] + j))); keep.append(x); y = np.full(op["n"] + j, 5e55); keep.append(y if j % 2 else None)
                        del keep
                    elif k == "badopt":
                        call(t, dict(op="call", ind=op["ind"], opts=[op["opt"]], ser=op["ser"], it="list", slot=0, pad=True))
                    elif k == "badname":
                        if op["name"] in CAT: continue
                        sys.settrace(TRACE[0])
                        try: getattr(T.ti, op["name"]); raise Bad("wrong-exception", "unknown indicator %s was found" % op["name"])
                        except (T.NoSuchIndicator, AttributeError): pass
                        finally: sys.settrace(None)
                    elif k == "repr":
                        sys.settrace(TRACE[0])
                        try: i = getattr(T.ti, op["ind"]); repr(i); nf = i.info
                        finally: sys.settrace(None)
                        if list(nf.inputs) != CAT[op["ind"]]["inputs"] or list(nf.options) != CAT[op["ind"]]["options"] or list(nf.outputs) != CAT[op["ind"]]["outputs"]: raise Bad("wrong-info", op["ind"])
                except Bad as b: viol(*b.args)
                verify("after %s by thread %d" % (k, t)); SCHED.point(-1)
        except BaseException as e: viol("harness", repr(e))
        SCHED.finish()
    n = len(plan["threads"]); SCHED = Sched(n, plan["switches"], plan["gcs"])
    opc = plan.get("opcodes")
    def local(frame, event, arg):
        if event == "opcode" or (event == "line" and not opc): SCHED.point(frame.f_lineno or 0)
        return local
    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(PKG):
            if opc: frame.f_trace_opcodes = True; frame.f_trace_lines = False
            return local
        return None
    TRACE[0] = tracer
    for t in range(n): _thread.start_new_thread(body, (t,))
    SCHED.sem[0].release(); SCHED.alldone.acquire(); S = SCHED; SCHED = None
    if W.viol is None: verify("at the end")
    if W.viol is None and plan.get("leak"):
        L = dict(plan["leak"]); L.update(op="call", slot=0, it="list", pad=True)
        try:
            grow = []
            for reps in [300] + [L["reps"]] * 4:   # interpreter tables settle during the first calls; a leak grows in every round
                gc.collect(); a = sys.getallocatedblocks()
                for _ in range(reps): call(0, L, True)
                gc.collect(); grow.append(sys.getallocatedblocks() - a)
            if min(grow[1:]) >= L["reps"]: viol("python-leak", "every failing call of %s leaves interpreter memory behind" % L["ind"])
        except Bad as e: viol(*e.args)
    W.kept.clear(); shared.clear()
    if W.viol and W.viol[0] == "harness": raise SystemExit("harness error: " + W.viol[1])
    key, detail = W.viol or ("", "")
    ind = ""
    h = zlib.crc32(json.dumps([key, detail, S.crc, W.calls, W.oom, W.failed, W.nsteps]).encode())
    return dict(bad=bool(W.viol), key=key, detail=detail, hash="%08x" % h, stats=dict(calls=W.calls, alloc_failures=W.failed, oom_raised=W.oom, bars=W.bars, compared=W.compared, lines=S.step, switches=S.nsw, native_switches=S.natsw, gcs=S.ngc, churn=W.churn, crowds=W.crowds, allocs=W.allocs, native_steps=W.nsteps), inter=S.inter)
TRACE = [None]
def shape(p): return zlib.crc32(json.dumps([[[(o["op"], o.get("ind"), o.get("opts"), o.get("pad"), o.get("style"), o.get("via"), o.get("fault"), o.get("nsw"), o.get("it"), o.get("n")) for o in t] for t in p["threads"]], p["switches"], p["gcs"], [s["n"] for s in p["series"]]]).encode())

def main():
    mode = sys.argv[2]
    if mode == "gen": print(json.dumps(gen_plan(sys.argv[3], int(sys.argv[4]), int(sys.argv[5])))); return
    if mode == "eval":
        faulthandler.dump_traceback_later(60, exit=True)
        r = execute(json.load(open(sys.argv[3]))); r.pop("stats"); print(json.dumps(r)); return
    prop, seed, a, step, b, wall, d, w = sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6]), int(sys.argv[7]), float(sys.argv[8]), sys.argv[9], sys.argv[10]
    OUT[0] = os.open(os.path.join(d, "w%s.found" % w), os.O_WRONLY | os.O_CREAT | os.O_APPEND); prog = os.open(os.path.join(d, "w%s.prog" % w), os.O_WRONLY | os.O_CREAT)
    tot = {}; shapes = set(); inters = set(); t0 = time.time(); nbad = 0; n = 0; capped = False; seen = set(); log = open(os.path.join(d, "w%s.log" % w), "w") if os.environ.get("TISIM_LOG") else None
    def flush(): open(os.path.join(d, "w%s.%d.stats" % (w, a)), "w").write(json.dumps(dict(n=n, tot=tot, shapes=list(shapes), inters=list(inters), capped=capped, inds=sorted(seen))))
    for ep in range(a, b, step):
        if time.time() - t0 > wall or nbad > 20: capped = True; break
        EP[0] = ep; os.pwrite(prog, b"%12d" % ep, 0); faulthandler.dump_traceback_later(90, exit=True, file=open(os.devnull, "w") if False else sys.stderr)
        p = gen_plan(prop, seed, ep); r = execute(p); n += 1
        for k, v in r["stats"].items(): tot[k] = tot.get(k, 0) + v
        if r["stats"]["bars"]: shapes.add(shape(p)); inters.add(r["inter"]); seen.update(o["ind"] for t in p["threads"] for o in t if o["op"] == "call")
        if log: log.write("%d %s %s\n" % (ep, r["key"] or "ok", r["hash"]))
        if r["bad"]: nbad += 1; os.write(OUT[0], (json.dumps(dict(ep=ep, key=r["key"], detail=r["detail"])) + "\n").encode())
        if n % 25 == 0: gc.collect()
        if n % 50 == 0: flush()
    flush(); os.pwrite(prog, b"%12d" % -1, 0)
main()
