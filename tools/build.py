#!/usr/bin/env python3
"""Build the simulated library from /repo's current working tree and link it with the simulator.

The shipped sources are mirrored into a build directory, code generation is run there, every source
is compiled with the shipped flags plus instrumentation, the objects are joined, all symbols that
reach the environment (allocation, memory functions, locks, guards) are redirected to the simulator,
and everything but the ti_* API is made local."""
import os, sys, subprocess, shutil, hashlib, glob, fcntl, json
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TISIM_REPO", "/repo")
BUILD = os.environ.get("TISIM_BUILD", os.path.join(VERIF, "build"))
PYS = ["/opt/vp/venv/bin/python", sys.executable, "/opt/veriftools/pyvenv/bin/python", "python3-vt", "python3"]
INST = "-fsanitize=thread -fsanitize-coverage=trace-pc"
INST_RZ = "-fsanitize=address --param asan-instrumentation-with-call-threshold=0 -fsanitize-recover=address --param asan-use-after-return=0 -fsanitize-coverage=trace-pc"
BASE = "-w -O2 -g1 -fPIC -DNDEBUG -ffast-math -fno-finite-math-only"
REDEF = {"malloc": "sim_malloc", "calloc": "sim_calloc", "free": "sim_free", "realloc": "sim_realloc", "reallocarray": "sim_reallocarray",
    "aligned_alloc": "sim_aligned_alloc", "posix_memalign": "sim_posix_memalign", "memalign": "sim_memalign", "strdup": "sim_strdup", "__strdup": "sim_strdup2",
    "_Znwm": "sim_new", "_Znam": "sim_newa", "_ZnwmRKSt9nothrow_t": "sim_new_nt", "_ZnamRKSt9nothrow_t": "sim_newa_nt",
    "_ZnwmSt11align_val_t": "sim_new_al", "_ZnamSt11align_val_t": "sim_newa_al", "_ZnwmSt11align_val_tRKSt9nothrow_t": "sim_new_al_nt", "_ZnamSt11align_val_tRKSt9nothrow_t": "sim_newa_al_nt",
    "_ZdlPv": "sim_del", "_ZdlPvm": "sim_del_sz", "_ZdaPv": "sim_dela", "_ZdaPvm": "sim_dela_sz", "_ZdlPvRKSt9nothrow_t": "sim_del_nt", "_ZdaPvRKSt9nothrow_t": "sim_dela_nt",
    "_ZdlPvSt11align_val_t": "sim_del_al", "_ZdlPvmSt11align_val_t": "sim_del_sz_al", "_ZdaPvSt11align_val_t": "sim_dela_al", "_ZdaPvmSt11align_val_t": "sim_dela_sz_al",
    "memcpy": "sim_memcpy", "memmove": "sim_memmove", "memset": "sim_memset", "__memcpy_chk": "sim_memcpy_chk", "__memmove_chk": "sim_memmove_chk", "__memset_chk": "sim_memset_chk",
    "rand": "sim_rand", "random": "sim_random", "rand_r": "sim_rand_r", "drand48": "sim_drand48", "srand": "sim_srand", "time": "sim_time", "clock": "sim_clock", "clock_gettime": "sim_clock_gettime", "gettimeofday": "sim_gettimeofday", "getenv": "sim_getenv", "getpid": "sim_getpid",
    "pthread_mutex_lock": "sim_mutex_lock", "pthread_mutex_trylock": "sim_mutex_trylock", "pthread_mutex_unlock": "sim_mutex_unlock", "pthread_mutex_init": "sim_ok2", "pthread_mutex_destroy": "sim_ok1",
    "pthread_spin_lock": "sim_spin_lock", "pthread_spin_trylock": "sim_spin_trylock", "pthread_spin_unlock": "sim_spin_unlock",
    "pthread_rwlock_rdlock": "sim_rdlock", "pthread_rwlock_wrlock": "sim_wrlock", "pthread_rwlock_unlock": "sim_rwunlock", "pthread_once": "sim_once",
    "__cxa_guard_acquire": "sim_guard_acquire", "__cxa_guard_release": "sim_guard_release", "__cxa_guard_abort": "sim_guard_abort"}

class BuildError(Exception): pass
def sh(cmd, **kw):
    r = subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode: raise BuildError("%s\n%s" % (cmd if isinstance(cmd, str) else " ".join(cmd), r.stdout[-4000:]))
    return r.stdout
def find_python(mods="yaml"):
    for p in PYS:
        if subprocess.run([p, "-c", "import " + mods], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0 if (shutil.which(p) or os.path.exists(p)) else False: return p
    raise BuildError("no python with " + mods)
def read(f):
    with open(f, "rb") as h: return h.read()
def mirror():
    """Copy the sources the library is built from into BUILD/tree; returns (treedir, sources)."""
    tree = os.path.join(BUILD, "tree")
    if os.path.isdir(tree): shutil.rmtree(tree)
    os.makedirs(tree)
    for d in ("indicators", "utils"): shutil.copytree(os.path.join(REPO, d), os.path.join(tree, d))
    for f in ("codegen.py", "version.py", "indicators.yaml"): shutil.copy(os.path.join(REPO, f), tree)
    before = set(os.listdir(os.path.join(tree, "indicators")))
    env = dict(os.environ, GIT_DIR="/nonexistent", PYTHONDONTWRITEBYTECODE="1")
    sh([find_python("yaml"), "codegen.py"], cwd=tree, env=env)
    for f in ("indicators.h", "indicators_index.c"):
        if not os.path.exists(os.path.join(tree, f)): raise BuildError("codegen.py did not write " + f)
        # the build stamp is the one varying line: pin it so that object caching works
        t = read(os.path.join(tree, f)).decode(); import re
        open(os.path.join(tree, f), "w").write(re.sub(r"(?m)^#define TI_BUILD .*$", "#define TI_BUILD 1", t))
    src = sorted(glob.glob(os.path.join(tree, "indicators", "*")) + glob.glob(os.path.join(tree, "utils", "*")))
    src = [s for s in src if s.endswith((".c", ".cc", ".cpp", ".cxx"))] + [os.path.join(tree, "indicators_index.c")]
    return tree, src
def literals(text):
    """(integers, reals) written in a source text: the workload generator tries periods, lengths, chunk sizes, call counts and price levels at and around them"""
    import re
    s = re.sub(r'/\*.*?\*/|//[^\n]*|"(?:[^"\\\n]|\\.)*"', " ", text, flags=re.S); s = re.sub(r"(?<=\d)'(?=\d)", "", s); s = re.sub(r"(?m)^\s*#\s*include.*$", " ", s); I, R = set(), set()
    for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?)[uUlLfF]*(?:\s*<<\s*(\d+))?", s):
        t = m.group(1)
        try: x = float(int(t, 16)) if t[:2] in ("0x", "0X") else float(t)
        except (ValueError, OverflowError): continue
        if m.group(2) and int(m.group(2)) < 40: x *= 2.0 ** int(m.group(2))
        if x == int(x) if abs(x) < 1e15 else False:
            if 7 <= x <= 20000: I.add(int(x))
        if 1e-15 < x < 1e15 and not (x == int(x) and x < 7): R.add(x)
    for m in re.finditer(r"(?<![\w.])(\d+)((?:\s*\*\s*\d+)+)(?![\w.])", s): # 64 * 64 and the like
        x = int(m.group(1))
        for y in re.findall(r"\d+", m.group(2)): x *= int(y)
        if 7 <= x <= 20000: I.add(x)
    cut = lambda v, n: v if len(v) <= n else [v[k * len(v) // n] for k in range(n)] # long tables: evenly spread
    return cut(sorted(I), 32), cut(sorted(R), 48)
def dictionary(tree, src):
    """BUILD/dict.txt: one line per source file (name, integers, reals); '*' collects what every indicator shares"""
    L = []; shared = "".join(read(f).decode(errors="replace") for f in sorted(glob.glob(tree + "/indicators/*.h*") + glob.glob(tree + "/utils/*")) if os.path.isfile(f))
    for name, text in [("*", shared)] + [(os.path.basename(f).split(".")[0], read(f).decode(errors="replace")) for f in src if os.path.basename(os.path.dirname(f)) == "indicators"]:
        i, r = literals(text); L.append("%s %d%s %d%s" % (name, len(i), "".join(" %d" % x for x in i), len(r), "".join(" %.17g" % x for x in r)))
    p = os.path.join(BUILD, "dict.txt"); open(p + ".t", "w").write("\n".join(L) + "\n"); os.rename(p + ".t", p)
def compile_all(tree, src, inst, tag):
    cache = os.path.join(BUILD, "obj-" + tag); os.makedirs(cache, exist_ok=True)
    hdr = hashlib.sha256()
    for root, _, fs in sorted(os.walk(tree)):
        for f in sorted(fs):
            if f.endswith((".h", ".hh", ".hpp", ".inc", ".inl", ".tcc")) : hdr.update(f.encode() + b"\0" + read(os.path.join(root, f)))
    # sources included by other sources are rare; hash them all in when any exists
    for s in src:
        if b'.cc"' in read(s) or b'.c"' in read(s): hdr.update(read(s))
    jobs = []
    for s in src:
        cxx = not s.endswith(".c"); std = "-std=c++17 -pedantic" if cxx else "-std=c99 -pedantic"
        cmd = ["g++" if cxx else "gcc"] + (BASE + " " + std + " " + inst).split()
        key = hashlib.sha256(hdr.digest() + read(s) + " ".join(cmd).encode() + os.path.basename(s).encode()).hexdigest()[:24]
        o = os.path.join(cache, os.path.basename(s) + "." + key + ".o")
        jobs.append((s, o, cmd + ["-c", os.path.relpath(s, tree), "-o", o + ".tmp%d" % os.getpid()]))
    def one(j):
        if not os.path.exists(j[1]): sh(j[2], cwd=tree); os.rename(j[2][-1], j[1])
        return j[1]
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex: objs = list(ex.map(one, jobs))
    keep = set(objs)
    for f in glob.glob(os.path.join(cache, "*.o*")):
        if f not in keep: os.unlink(f)
    return objs
def harness(tree):
    S = os.path.join(VERIF, "sim"); cc = sorted(glob.glob(S + "/*.cc")); hs = sorted(glob.glob(S + "/*.h"))
    h = hashlib.sha256(b"".join(read(f) for f in hs) + read(os.path.join(tree, "indicators.h"))).digest()
    ocs = []; jobs = []
    hc = os.path.join(BUILD, "obj-harness"); os.makedirs(hc, exist_ok=True)
    for f in cc:
        o = os.path.join(hc, os.path.basename(f) + "." + hashlib.sha256(h + read(f)).hexdigest()[:24] + ".o"); ocs.append(o)
        if not os.path.exists(o): jobs.append((f, o))
    def one(j): sh(["g++", "-std=c++17", "-O2", "-g1", "-w", "-fno-pie", "-fno-strict-aliasing", "-I", S, "-I", tree, "-c", j[0], "-o", j[1] + ".t"]); os.rename(j[1] + ".t", j[1])
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, jobs))
    for f in glob.glob(hc + "/*"):
        if f not in ocs: os.unlink(f)
    return ocs
def build_sim(quiet=True, redzone=False):
    """the simulator executable; redzone=True gives the second build, which also watches stack and global arrays"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    tree, src = mirror(); dictionary(tree, src); tag = "-rz" if redzone else ""
    objs = compile_all(tree, src, INST_RZ if redzone else INST, "sim" + tag)
    lib = os.path.join(BUILD, "lib%s.o" % tag)
    sh(["ld", "-r", "--force-group-allocation", "-o", lib + ".1"] + objs)
    ren = os.path.join(BUILD, "redef.txt"); open(ren, "w").write("".join("%s %s\n" % kv for kv in REDEF.items()))
    sh(["objcopy", "--redefine-syms=" + ren, "-w", "--keep-global-symbol=ti_*", lib + ".1", lib])
    exe = os.path.join(BUILD, "tisim" + tag)
    sh(["g++", "-no-pie", "-o", exe + ".t"] + harness(tree) + [lib, "-lm", "-lpthread"]); os.rename(exe + ".t", exe)
    return exe
if __name__ == "__main__":
    try: print(build_sim(redzone='--redzone' in sys.argv))
    except BuildError as e: print(e, file=sys.stderr); sys.exit(2)
