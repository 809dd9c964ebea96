"""What the engines share: known findings, replay files, evidence, exit status."""
import os, sys, json, time, hashlib, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ASSUME_SIM = ["bars and options are drawn from the generators described in DESIGN.md (integral periods, finite positive prices except where a property injects corruption)",
    "preemption happens between instrumented memory accesses and basic blocks of library code compiled with gcc -O2 (the shipped flags); libm and kernel code is atomic",
    "values are compared up to a rounding tolerance where the property says so; ill-conditioned comparisons are counted and skipped"]
def die(msg): print("error: " + msg); sys.exit(2)
def load_known(prop):
    """known_findings.txt: 'known: property=<id> key=<key> <what fails>' suppresses exactly that key; 'fixed:' lines suppress nothing"""
    out = {}; f = os.path.join(VERIF, "known_findings.txt")
    for l in open(f) if os.path.exists(f) else []:
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
        if m and m.group(1) == prop: out[m.group(2)] = m.group(3)
    return out
def save_replay(prop, key, text, ext):
    d = os.path.join(VERIF, "build", "replays"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-%s.%s" % (prop, re.sub(r"[^A-Za-z0-9_.-]", "_", key)[:60], hashlib.sha256(text.encode()).hexdigest()[:8], ext))
    open(p, "w").write(text); return p
def finish(prop, seed, tier, cov, t0, new, gate_errors, assume, level="exploration"):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assume, wall_s=round(time.time() - t0, 2), violations=len(new))
    if new: ev["coverage"]["violations_found"] = [dict(key=v["key"], detail=v["detail"], replay=v["replay"]) for v in new]
    p = os.path.join(VERIF, "evidence", prop + ".json"); open(p + ".t", "w").write(json.dumps(ev, indent=1) + "\n"); os.rename(p + ".t", p)
    for v in new:
        print("%s: %s" % (v["key"], v["detail"])); print("VIOLATION property=%s replay=%s" % (prop, v["replay"]), flush=True)
    if new: return 1
    if gate_errors:
        print("error: found but not reproducible: %s" % gate_errors); return 2
    print("%s held on %d evaluations (%d distinct), %.1f s" % (prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0)); return 0
