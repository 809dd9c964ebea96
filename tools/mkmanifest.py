#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "Whole library runs as real code inside one process under a simulator; a clean run is evidence over the sampled schedules and faults, not proof. Trusts the simulator's allocator/scheduler and gcc's instrumentation. "
PY = "Real CPython, ctypes, numpy and the whole native library; switches inside numpy/ctypes C code happen only within the native call. A clean run is evidence over the sampled schedules, not proof."
T = "deterministic simulation with fault injection: "
CL = {
 "C01": (T + "seeded delivery schedules, stream vs batch oracle", SIM + "Rounding differences are separated from real ones by re-executing both sides under the other IEEE rounding modes and under 1e-9 noise."),
 "C02": (T + "seeded delivery schedules, progress/extent model checked after every call", SIM + "Output extent observed on a shadow map of every output cell."),
 "C03": (T + "seeded interleavings of streams and batch calls vs lone executions, bit for bit", SIM),
 "C04": (T + "seeded preemptive scheduler over caller threads at memory-access granularity, streams handed between threads", SIM + "Sequentially consistent interleavings only; no weak-memory effects."),
 "C05": (T + "allocation-failure injection in batch calls", SIM + "Failures by index, by suffix, and total; every allocation entry point of the library is redirected."),
 "C06": (T + "allocation-failure injection in stream creation and runs with bystanders", SIM),
 "C07": (T + "seeded lifecycles with cancellation, allocation ledger as oracle", SIM),
 "C08": (T + "paired executions differing only in ambient state (heap/stack content, addresses, clock, randomness)", SIM),
 "C09": (T + "guarded, moved and revoked caller memory with a shadow map; second build with watched stack and global arrays", SIM + "Option values at and beyond the domain borders included; overruns from one array into another inside one object are not seen. Accesses made inside libc/libm functions are checked at the call boundary (memcpy family) only."),
 "C10": (T + "crash at any bar and rebuild from the bar log; recorded-history oracle over published outputs", SIM),
 "C12": (T + "seeded line-, opcode- and native-level thread schedules, GC points and heap reuse over the real binding, native batch results as oracle", PY),
 "C13": (T + "native allocation failures injected under the real binding, scheduled threads, native ledger and interpreter leak oracle", PY),
 "C14": (T + "crashes, I/O errors, full disks and torn unsynced data at chosen file-system operations of the real generator, uninterrupted run as oracle", "Metadata operations are assumed to persist in order; one generator runs at a time; git is a stand-in."),
 "C11": (T + "bar corruption injection, bounded-steps and containment oracles", SIM),
}
NA = {
 "C15": "A pure function of its input compared with another pure function: no schedule, clock, fault or interleaving for a simulator to decide; it is differential input testing (tests/fuzzer.cc does that).",
 "C16": "Whether an option value is accepted is a pure predicate of the value; no nondeterminism or fault to simulate. (Lifecycles with rejected options are covered under C07.)",
 "C17": "A static table: no schedule, fault or history influences it. (Lookups made while other activity is simulated are covered under C02, C03 and C04.)",
 "C18": "A numerical definition of a pure function; simulation has no oracle or nondeterminism to add to it.",
}
for p in list(CL): NA.pop(p, None)
m = dict(version=1, setup_cmd="./setup.sh",
    hooks=dict(guard="none", enable="No hook is needed in /repo: every seam is made at build time (instrumentation and symbol redirection of objects compiled from /repo's working tree).", source_commits=[]),
    checks=[dict(property=p, quick_cmd="./check %s quick" % p, thorough_cmd="./check %s thorough" % p, evidence_file="evidence/%s.json" % p, technique=t, level="exploration", level_note=n) for p, (t, n) in sorted(CL.items())],
    not_applicable=[dict(property=p, reason=r) for p, r in sorted(NA.items())],
    notes="Replay a violation with ./check replay FILE. Known and fixed findings: known_findings.txt.")
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
