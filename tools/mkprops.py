#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mechanism, observe_at=observe, hook_needed=hook)))

prop("C01", "A stream gives the batch result for every delivery schedule",
 "For every indicator with a streaming implementation, valid options and bar history, the outputs a stream emits, concatenated over its run calls, equal (up to floating-point rounding) the outputs of the plain batch call on the same bars. This holds for every way of cutting the history into run calls, including one bar at a time, everything at once, empty chunks, and cuts at or around the end of the warm-up.",
 ["schedules", "histories", "inputs"],
 "all 55 streaming indicators; all valid options; all bar histories; all partitions of the history into consecutive run calls (chunk lengths >= 0)",
 "benchmark2 compares two fixed partitions (all / one-by-one) on one 400-bar random walk and one hand-picked option curve per indicator; smoke's _stream_1 check compares the wrong array and its _stream_all mismatch does not fail the run.",
 ["indicators/", "utils/ringbuf.hh", "utils/localbuffer.h", "indicators.yaml"],
 [dict(name="state load/store around ti_<name>_stream_run loops", where="indicators/*.cc: ti_*_stream_run"),
  dict(name="ring buffers carrying the look-back window between runs", where="utils/ringbuf.hh; utils/localbuffer.h"),
  dict(name="progress counter selecting warm-up / steady loops", where="indicators/*.cc: stream->progress")],
 ["outputs of ti_stream_run / ti_<name>_stream_run", "outputs of ti_<name>"],
 [dict(name="ti_stream", meaning="per-stream index, progress and indicator state", where="codegen.py (struct ti_stream), indicators/*.cc")])

prop("C02", "Progress always says exactly how much output exists",
 "At every instant between calls, a stream's reported progress equals minus the indicator's start value plus the number of bars delivered so far; each run call writes exactly the outputs whose progress became positive (one value per bar and output array, contiguous from the given pointers) and nothing else, and a batch call writes exactly size minus start values per output, none (successfully) when the history is no longer than the warm-up. A stream's reported indicator info is always the one it was created from, and the generic run/free entry points behave as the indicator's own.",
 ["schedules", "histories", "inputs"],
 "all indicators; all valid options; all history lengths around 0, start-1, start, start+1 and beyond; every prefix of every chunk schedule; generic and direct entry points mixed freely",
 "benchmark2 uses progress only to place one-bar outputs, always 400 bars (> start); fuzzer looks at no values; no test observes progress after each chunk, empty chunks, or unwritten outputs.",
 ["codegen.py", "indicators/", "indicators.yaml", "tests/benchmark2.c"],
 [dict(name="ti_<name>_start", where="indicators/*.cc"), dict(name="progress = -start at creation, ++ per bar", where="indicators/*.cc: ti_*_stream_new/_run"),
  dict(name="ti_stream_run/ti_stream_get_info/ti_stream_get_progress/ti_stream_free dispatch by index", where="codegen.py -> indicators_index.c")],
 ["ti_stream_get_progress", "ti_stream_get_info", "caller output arrays"])

prop("C03", "Streams and calls are isolated from each other",
 "When any number of streams (of the same or different indicators and options) and batch calls are interleaved call by call in any order in one process, with streams created and freed at any point in between, every stream and every call returns bit for bit the results it returns alone in a fresh process.",
 ["schedules", "histories"],
 "all interleavings of create/run/free/batch operations of any set of objects on one thread, for all indicators and options",
 "No test ever has two streams alive, interleaves objects, or reuses memory of a freed stream; every test drives one object at a time from start to end.",
 ["indicators/", "utils/", "codegen.py"],
 [dict(name="all mutable state lives in the stream object or the call frame; file-scope tables are only read", where="indicators/*.cc, utils/*"),
  dict(name="dispatch by stream->index", where="codegen.py -> indicators_index.c")],
 ["outputs and return codes of every call"])

prop("C04", "Concurrent callers do not disturb each other",
 "Threads that at the same time make batch calls or drive their own streams (sharing only read-only input and option arrays; a stream may be handed from one thread to another between two calls), preempted at any instruction boundary inside the library, each obtain bit for bit the results and return codes they obtain running alone.",
 ["schedules"],
 "all preemptive interleavings, at memory-access granularity inside the library, of 2-4 threads working on disjoint streams and output buffers, including streams that change hands between calls, for all indicators",
 "No test is multi-threaded; the Python binding releases the GIL during calls, so Python threads do run the C code concurrently. A shared scratch buffer or lazily filled table passes every sequential test.",
 ["indicators/", "utils/", "codegen.py", "bindings/python/tindicators/impl.py"],
 [dict(name="no mutable static state: scratch memory is per call (heap or frame)", where="indicators/*.cc, utils/buffer.c"),
  dict(name="lookup tables and constants are initialised before any call and then only read", where="indicators/bf2.cc, bf3.cc, gf1-4.cc, hwma.cc, swma.cc, hd.cc, arsi.cc, rmf.cc")],
 ["outputs and return codes of every call"],
 hook="preemption points: compiler-inserted memory-access and basic-block callbacks; no source hook")

prop("C05", "A batch call survives any allocation failure",
 "If any allocation made during a plain batch call (ti_<name>) fails, the call returns the out-of-memory code (or succeeds with the correct result): it never crashes, never lets an exception escape the C interface, never leaks and never modifies its inputs or options. A later call with memory available gives the normal result.",
 ["fault_sequences", "inputs"],
 "all 161 plain batch indicator functions; every allocation site and every subset/position of failing allocations (single, periodic, all from the n-th on), all valid options and histories",
 "The tests never make an allocation fail.",
 ["indicators/", "utils/buffer.c", "utils/ringbuf.hh", "codegen.py", "bindings/python/tindicators/impl.py"],
 [dict(name="function-try-block mapping std::bad_alloc to TI_OUT_OF_MEMORY", where="indicators/*.cc"),
  dict(name="null checks after malloc/calloc/new(nothrow)", where="indicators/*.cc, utils/buffer.c"),
  dict(name="TI_OUT_OF_MEMORY return code", where="codegen.py")],
 ["return code", "allocator ledger", "process state"], hook="allocator seam by link-time symbol redirection; no source hook")

prop("C06", "Stream creation and streaming survive any allocation failure",
 "If an allocation fails while a stream is created, creation returns the out-of-memory code, leaks nothing, and a retry with memory available gives a fully working stream; if one fails while a stream runs, the call returns the out-of-memory code, no exception escapes, the stream can still be freed without leak or crash, and all other streams continue unaffected.",
 ["fault_sequences", "schedules"],
 "all streaming indicators; every position of failing allocations during creation and during any run call of any chunk schedule; other streams alive at the same time",
 "The tests never make an allocation fail; fuzzer and benchmark2 treat creation as infallible.",
 ["indicators/", "utils/ringbuf.hh", "utils/localbuffer.h", "codegen.py"],
 [dict(name="new(std::nothrow) and try/catch around buffer setup, releasing the half-built stream", where="indicators/*.cc: ti_*_stream_new"),
  dict(name="multiset/deque growth during run", where="indicators/hf.cc, hfsma.cc, hfema.cc, rmf.cc and others: ti_*_stream_run")],
 ["return code", "allocator ledger", "outputs of sibling streams"], hook="allocator seam by link-time symbol redirection; no source hook")

prop("C07", "Every lifecycle releases all memory exactly once",
 "Whatever the sequence of batch calls and stream create/run/free operations, including options rejected at creation, streams cancelled by free at any point of their life and histories too short to produce output, all memory the library allocated for a call is released when the call returns and all memory of a stream when it is freed, each block once and through the matching deallocator.",
 ["histories", "schedules", "inputs"],
 "all indicators; all operation sequences with free at an arbitrary bar (never run, during warm-up, at its end, later); all histories lengths including 0 and shorter than start; valid and rejected options",
 "Valgrind in the tests runs without leak checking, and the Debug leak-sanitizer build is not in the stable tests; only full-length runs are followed by free.",
 ["indicators/", "utils/buffer.c", "utils/ringbuf.hh", "codegen.py"],
 [dict(name="paired new/delete, malloc/free and RAII containers", where="indicators/*.cc, utils/*"),
  dict(name="static_cast to the concrete stream type before delete", where="indicators/*.cc: ti_*_stream_free"),
  dict(name="ti_stream_free dispatch by index", where="codegen.py")],
 ["allocator ledger after each call"], hook="allocator seam by link-time symbol redirection; no source hook")

prop("C08", "Results depend on nothing but the arguments",
 "The outputs, progress and return codes of any sequence of calls depend only on the options, bars and chunking passed in: not on the previous content of heap, stack or output memory, on addresses, or on what the process computed before. Two executions that differ only in such ambient state give bit for bit the same results.",
 ["histories", "inputs", "configurations"],
 "all indicators, batch (plain and reference) and stream; all valid options and histories; all contents of recycled heap blocks, dead stack and output arrays; all prior call histories",
 "Each test runs on one ambient state; values read before being written often happen to be zero. valgrind only flags branches on uninitialised data, and one indicator is a known valgrind failure.",
 ["indicators/", "utils/"],
 [dict(name="state and scratch initialised before use (value-initialised stream objects, memset ring buffers)", where="indicators/*.cc, utils/ringbuf.hh, utils/buffer.c")],
 ["outputs, progress and return codes"], hook="allocator seam and stack/output poisoning; no source hook")

prop("C09", "The library touches only memory it was given",
 "For any options the library accepts and any chunk schedule, every access stays inside the caller's arrays for that very call (inputs and options read only, outputs within the promised extent) or inside the library's own live allocations; no pointer to caller arrays is used after the call that received it returns.",
 ["schedules", "inputs", "histories"],
 "all indicators, batch (plain and reference) and stream; all accepted options (including extreme ratios between several period options); all chunk sizes, each chunk in buffers of exactly its size that are revoked after the call",
 "The tests pass long contiguous arrays (reads past a chunk's ends hit neighbouring valid data), one option curve per indicator, and 4 option values in the fuzzer.",
 ["indicators/", "utils/ringbuf.hh", "utils/localbuffer.h", "utils/buffer.h"],
 [dict(name="ring-buffer sizing from options", where="indicators/*.cc: resize/BUFFER_INIT/ti_buffer_new"),
  dict(name="look-back through internal buffers instead of previous chunks", where="indicators/*.cc: ti_*_stream_run")],
 ["every load and store of the library"], hook="compiler-inserted memory-access callbacks checked against a shadow of the simulated heap; no source hook")

prop("C10", "Crash and restart lose nothing; published outputs never change",
 "Each output value depends only on bars up to its own: a client that recomputes with the batch call on any longer history, or that crashes at any bar and rebuilds a stream by replaying the bar log from the start in any chunking, sees every output it had published before unchanged (up to floating-point rounding) and continues as if never interrupted.",
 ["crash_points", "histories", "schedules"],
 "all 161 indicators (batch polling, plain and reference implementations), all streaming indicators (crash/replay); all crash points, growing-history schedules, options and bars",
 "Tests compute one history length per run and never compare results of a prefix with those of the longer history, nor restart a stream.",
 ["indicators/", "CONTRIBUTING.md", "bindings/lean/generate-bindings.py"],
 [dict(name="causal single-pass loops from the start of the history", where="indicators/*.cc"),
  dict(name="fixed start offset independent of the history", where="indicators/*.cc: ti_*_start")],
 ["outputs of batch calls on growing histories", "outputs of replayed streams"])

prop("C11", "Corrupt bars are contained and every call terminates",
 "When bars of a feed are corrupted (NaN, infinities, huge, denormal, negated, zeroed or bit-flipped values) at arbitrary points, the affected calls still return within a number of steps bounded by their size and options, touch no foreign memory and can be freed without leak; outputs of bars before the corruption, other streams, and new streams are unaffected.",
 ["fault_sequences", "histories", "schedules"],
 "all indicators, batch and stream; all positions and kinds of corrupted values; any chunking",
 "The fuzzer feeds only ramps, zeros and plateaus; no test contains a NaN, infinity or outlier, though the Python binding itself pads its results with NaN that users feed into the next indicator.",
 ["indicators/", "utils/ringbuf.hh", "bindings/python/tindicators/impl.py"],
 [dict(name="data-dependent periods and indexes are clamped", where="indicators/hd.cc, mama.cc, arsi.cc, mesastoch.cc, frama.cc, edcf.cc"),
  dict(name="ordered containers keyed by data", where="indicators/hf.cc, hfsma.cc, hfema.cc, rmf.cc"),
  dict(name="max/min searches with comparisons that are false on NaN", where="utils/ringbuf.hh find_max/find_min, indicators/trend.h, max.cc, min.cc")],
 ["step counter", "memory-access shadow", "outputs", "allocator ledger"], hook="as C09")

prop("C12", "Python results are private and survive any later activity",
 "Through the Python binding, any number of threads calling any indicators on one shared object, preempted at any line of the binding, each get the arrays the native batch function computes for the same input (preceded by NaN up to the input length when padding is asked for; a history no longer than the warm-up gives an empty or all-NaN array), in the order the arguments were given; a returned array never changes afterwards, whatever further calls, garbage collections or memory reuse follow, and inputs are never modified.",
 ["schedules", "histories"],
 "all line-level interleavings of 2-3 Python threads making calls (any indicators, pad on/off, positional/keyword arguments) with garbage collection and heap reuse at arbitrary points",
 "The Python tests are single-threaded, check each result immediately, and cover three indicators.",
 ["bindings/python/tindicators/impl.py", "bindings/python/tindicators/__init__.py"],
 [dict(name="per-call ctypes arrays; result arrays own their buffers", where="bindings/python/tindicators/impl.py _Indicator.__call__"),
  dict(name="no state kept on the indicator object between calls", where="bindings/python/tindicators/impl.py _Indicator")],
 ["returned arrays over the whole run"], hook="sys.settrace line scheduler; library path argument of Indicators; no source hook")

prop("C13", "Python turns native failures into exceptions and recovers",
 "When the native library runs out of memory during a call made through Python, the caller gets the OutOfMemory exception and nothing else happens: the interpreter keeps running, inputs are unchanged, earlier results are intact, nothing leaks, and the next call succeeds with the normal result.",
 ["fault_sequences", "histories"],
 "every position of a failing native allocation in any sequence of calls to any indicators from Python",
 "The Python tests never exercise an error other than one invalid option.",
 ["bindings/python/tindicators/impl.py", "indicators/", "codegen.py"],
 [dict(name="ret2exc mapping of return codes", where="bindings/python/tindicators/impl.py"), dict(name="C-level out-of-memory handling", where="indicators/*.cc")],
 ["exception type", "later results", "native allocator ledger"], hook="library path argument of Indicators selects the simulated-allocator build; no source hook")

prop("C14", "Interrupted code generation is repaired by running it again",
 "If code generation is killed, or its disk fills or fails, at any point, running it again to completion leaves exactly the files an uninterrupted run leaves (apart from the build stamp), for an up-to-date tree and for one with newly declared indicators; hand-written implementation files are never lost or altered.",
 ["crash_points", "fault_sequences"],
 "every file-system operation of codegen.py as crash or error point, with un-flushed data lost or torn, on the current index and on indexes extended by new indicators or features",
 "The tests run the generator to completion once.",
 ["codegen.py", "CMakeLists.txt", "indicators.yaml"],
 [dict(name="header and index rewritten on every run; boilerplate only for missing implementations", where="codegen.py")],
 ["files left on the simulated disk"], hook="libc file operations of the unmodified script interposed from outside; no source hook")

# ---- not simulation targets (listed for breadth; see MANIFEST not_applicable)
prop("C15", "Plain and reference implementations agree",
 "For every indicator that has a reference implementation, valid options and history, the plain implementation returns the same values as the reference up to floating-point rounding.",
 ["inputs"], "all indicators with a reference; all valid options and histories",
 "benchmark2 samples one random walk and one option curve.",
 ["indicators/", "tests/benchmark2.c"], [dict(name="ti_<name>_ref", where="indicators/*.cc")], ["outputs"])
prop("C16", "Invalid options are rejected the same way everywhere",
 "Options outside an indicator's domain are rejected with the invalid-option code by the batch call and by stream creation alike, without touching outputs; options inside the domain are accepted by both.",
 ["inputs"], "all option vectors of all indicators", "The fuzzer tries four values per option and ignores the return code.",
 ["indicators/"], [dict(name="option checks at function entry", where="indicators/*.cc")], ["return codes"])
prop("C17", "The runtime catalogue describes every indicator truthfully",
 "Every indicator of the index can be found by name and only those; names, arities, types and function pointers in the catalogue are those of the index, and the Python view repeats them.",
 ["inputs", "programs"], "all names; all index files", "Tests look up a few names.",
 ["codegen.py", "indicators.yaml", "bindings/python/tindicators/impl.py"], [dict(name="sorted table and binary search", where="codegen.py")], ["ti_find_indicator", "ti_indicators", "Indicators.available_indicators"])
prop("C18", "Each indicator computes its published definition",
 "For every indicator, valid options and history, outputs follow the mathematical definition of the cited source.",
 ["inputs"], "all indicators, options and histories", "smoke holds one or a few precomputed examples per indicator.",
 ["indicators/", "tests/smoke-testcases"], [dict(name="indicator formulas", where="indicators/*")], ["outputs"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P:
        jsonschema.validate(p, s); assert len(p["title"]) <= 80
    print("ok", len(P))
except ImportError: print("written", len(P))
