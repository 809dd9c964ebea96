// One execution of a plan in a forked child: the simulated process.
#include "sim.h"
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <fenv.h>
#include <signal.h>
#include <sstream>
#include <algorithm>
using std::string; using std::vector;

Stats ST; std::set<u64> SHAPES;

struct Slot { bool open = false, broken = false; ti_stream* s = nullptr; int obj = -1, pos = 0; };
static const Plan* PL; static const Env* EN; static Slot slots[256];
static const u64 ABS_BUDGET = 400000000ull;
static char* g_marker;
static const int CPU_LIMIT = 15;

static void* user(size_t n, Sh k) { return rt_user_alloc(n ? n : 0, k, EN->shift & 1); }
struct Arrays { vector<std::pair<void*, size_t>> mem; const double** in = nullptr; double** out = nullptr; double* opt = nullptr; };
static double* mk_opts(const Obj& o, Arrays& A) { size_t n = o.opt.size() * 8; double* p = (double*)user(n, SH_IN); for (size_t i = 0; i < o.opt.size(); i++) p[i] = o.opt[i]; A.mem.push_back({p, n}); return A.opt = p; }
static void mk_inputs(const Obj& o, int from, int len, Arrays& A) {
    size_t k = o.in.size(); A.in = (const double**)user(k * 8, SH_IN); A.mem.push_back({A.in, k * 8});
    for (size_t i = 0; i < k; i++) { double* p = (double*)user((size_t)len * 8, SH_IN); for (int j = 0; j < len; j++) p[j] = o.in[i][(size_t)(from + j)]; A.in[i] = p; A.mem.push_back({p, (size_t)len * 8}); }
}
static void mk_outputs(int nout, int cells, Arrays& A) {
    A.out = (double**)user((size_t)nout * 8, SH_IN); A.mem.push_back({A.out, (size_t)nout * 8});
    for (int i = 0; i < nout; i++) { size_t n = (size_t)cells * 8; double* p = (double*)user(n, SH_OUT); rt_fill(p, n, EN->prefill, rt_mix(EN->seed + i + 31)); A.out[i] = p; A.mem.push_back({p, n}); }
}
extern "C" u8 rt_shadow_at(void* p);
static void collect(OpRes& r, const Obj& o, int nout, int cells, int extra, Arrays& A) {
    r.cells = cells; r.written = r.extra = r.hole = 0; r.out_off = SHM->out_used; r.out_n = (u32)(nout * cells);
    if (SHM->out_used + r.out_n > OUT_MAX) { r.out_n = 0; return; }
    for (int i = 0; i < nout; i++) {
        for (int j = 0; j < cells + extra; j++) {
            bool w = rt_shadow_at(A.out[i] + j) == SH_OUTW;
            if (j < cells) { if (w) r.written++; else r.hole = 1; } else if (w) r.extra++;
        }
        memcpy(SHM->out + SHM->out_used, A.out[i], (size_t)cells * 8); SHM->out_used += (u32)cells;
    }
}
static void release(Arrays& A) { for (size_t i = A.mem.size(); i--;) rt_user_revoke(A.mem[i].first, A.mem[i].second); A.mem.clear(); }
static bool same_inputs(const Obj& o, int from, int len, Arrays& A) {
    for (size_t i = 0; i < o.in.size(); i++) if (len && memcmp(A.in[i], &o.in[i][(size_t)from], (size_t)len * 8)) return false; return true; }
static bool same_opts(const Obj& o, Arrays& A) { for (size_t i = 0; i < o.opt.size(); i++) if (memcmp(&A.opt[i], &o.opt[i], 8)) return false; return true; }

struct LibCall {           // bracket around library code
    Ctx* c; OpRes& r;
    LibCall(int op, int owner, const Fault* f, OpRes& r_) : c(CUR), r(r_) {
        sched_point();
        rt_scribble(); rt_unpoison_stack(); c->stack_base = (uintptr_t)__builtin_frame_address(0) & ~(uintptr_t)7;
        c->op = op; c->owner = owner; c->op_allocs = c->op_failed = 0; c->op_steps = 0; c->nglob = 0;
        c->budget = PL->budget ? PL->budget : ABS_BUDGET;
        if (f && f->mode) { c->fault = *f; c->fault_on = true; } else c->fault_on = false;
        static const int rms[4] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
        if (EN->rm) fesetround(rms[EN->rm & 3]);
        c->inlib = true;
    }
    ~LibCall() { c->inlib = false; if (EN->rm) fesetround(FE_TONEAREST); r.allocs += c->op_allocs; r.failed += c->op_failed; r.steps += c->op_steps;
        if (c->nglob) { r.n_global += c->nglob; for (int i = 0; i < 4; i++) r.first_global_step[i] = c->glob[i]; } c->fault_on = false; }
};
template<class F> static void guarded(int opi, F f) {
    try { f(); } catch (...) { CUR->inlib = false; rt_viol(V_EXC, (u64)opi, 0, 0, "C++ exception left the C interface"); }
}

static void do_op(int i) {
    const Op& op = PL->ops[(size_t)i]; OpRes& r = SHM->ops[i]; memset(&r, 0, sizeof r); r.rc = INT_MIN; r.prog_before = r.prog_after = INT_MIN; r.info_ok = 1;
    if (op.k == 'X') { r.done = 2; return; }
    const Obj& o = PL->objs[(size_t)op.obj]; const ti_indicator_info& I = ti_indicators[o.ind];
    Slot& s = slots[op.slot & 255]; Arrays A;
    CUR->op = i;
    switch (op.k) {
    case 'S': { double* opt = mk_opts(o, A); { LibCall L(i, i, nullptr, r); r.start = I.start(opt); } r.done = 1; release(A); return; }
    case 'Q': { // catalogue lookups and constants
        LibCall L(i, i, nullptr, r); const ti_indicator_info* f = ti_find_indicator(I.name); r.info_ok = f == &I; r.rc = ti_indicator_count(); ti_version(); ti_build(); r.done = 1; break; }
    case 'B': {
        int from = op.from, len = op.len; if (from > o.n()) from = o.n(); if (len > o.n() - from) len = o.n() - from; if (len < 0) len = 0;
        double* opt = mk_opts(o, A); mk_inputs(o, from, len, A);
        { LibCall L(i, i, nullptr, r); r.start = I.start(opt); }
        int cells = o.bad == 1 ? 0 : len - r.start; if (cells < 0) cells = 0;
        if (r.start < -1) cells = len;
        mk_outputs(I.outputs, cells + op.extra, A);
        u32 a0 = r.allocs; (void)a0;
        guarded(i, [&] { LibCall L(i, i, &op.f, r); r.rc = (op.ref && I.indicator_ref ? I.indicator_ref : I.indicator)(len, A.in, opt, A.out); });
        CUR->inlib = false;
        if (o.bad == 2 && r.rc == TI_INVALID_OPTION) cells = 0; // options near the border of the domain, refused
        collect(r, o, I.outputs, cells, op.extra, A);
        r.in_mod = !same_inputs(o, from, len, A) || !same_opts(o, A);
        r.leak_blocks = (u32)rt_leaks_of_op(i, &r.leak_bytes);
        if (r.leak_blocks) rt_viol(V_LEAK, 0, 0, r.leak_bytes, "%u block(s) still allocated after the call", r.leak_blocks);
        ST.bars += 0; r.done = 1; release(A); break; }
    case 'N': {
        if (!I.stream_new || s.open) { r.done = 2; return; }
        double* opt = mk_opts(o, A); ti_stream** cell = (ti_stream**)user(8, SH_OUT); A.mem.push_back({cell, 8});
        ti_stream* marker = (ti_stream*)g_marker; memcpy(cell, &marker, 8);
        guarded(i, [&] { LibCall L(i, 1000 + op.slot, &op.f, r); r.rc = I.stream_new(opt, cell); });
        CUR->inlib = false;
        { LibCall L(i, i, nullptr, r); r.start = I.start(opt); }
        ti_stream* got = *cell; r.handle_state = got == marker ? 0 : got ? 2 : 1;
        r.in_mod = !same_opts(o, A);
        if (r.rc == TI_OKAY && r.handle_state == 2) {
            s = Slot{}; s.open = true; s.s = got; s.obj = op.obj;
            LibCall L(i, 1000 + op.slot, nullptr, r);
            r.prog_after = ti_stream_get_progress(s.s); r.info_ok = ti_stream_get_info(s.s) == &ti_indicators[o.ind];
        } else { r.leak_blocks = (u32)rt_leaks_of_op(i, &r.leak_bytes); if (r.leak_blocks) { rt_viol(V_LEAK, 0, 0, r.leak_bytes, "%u block(s) leaked by failed creation", r.leak_blocks); rt_forgive_owner(1000 + op.slot); } }
        r.done = 1; release(A); break; }
    case 'R': {
        if (!s.open || s.broken) { r.done = 2; return; }
        const Obj& so = PL->objs[(size_t)s.obj]; const ti_indicator_info& SI = ti_indicators[so.ind];
        int len = op.len; if (len > so.n() - s.pos) len = so.n() - s.pos; if (len < 0) len = 0;
        { LibCall L(i, i, nullptr, r); double* opt = mk_opts(so, A); r.start = SI.start(opt); }
        release(A);
        int p0 = -r.start + s.pos, p1 = p0 + len, cells = std::max(0, p1) - std::max(0, p0);
        mk_inputs(so, s.pos, len, A); mk_outputs(SI.outputs, cells + op.extra, A);
        guarded(i, [&] { LibCall L(i, 1000 + op.slot, &op.f, r); r.prog_before = ti_stream_get_progress(s.s);
            r.rc = op.gen ? ti_stream_run(s.s, len, A.in, A.out) : SI.stream_run(s.s, len, A.in, A.out);
            r.prog_after = ti_stream_get_progress(s.s); r.info_ok = ti_stream_get_info(s.s) == &SI; });
        CUR->inlib = false;
        if (r.rc != TI_OKAY) s.broken = true;
        s.pos += len;
        collect(r, so, SI.outputs, cells, op.extra, A); r.in_mod = !same_inputs(so, s.pos - len, len, A);
        r.done = 1; release(A); break; }
    case 'F': {
        if (!s.open) { r.done = 2; return; }
        const Obj& so = PL->objs[(size_t)s.obj]; const ti_indicator_info& SI = ti_indicators[so.ind];
        guarded(i, [&] { LibCall L(i, 1000 + op.slot, nullptr, r); if (op.gen) ti_stream_free(s.s); else SI.stream_free(s.s); });
        CUR->inlib = false;
        s.open = false; r.leak_blocks = (u32)rt_leaks_of_owner(1000 + op.slot, &r.leak_bytes);
        if (r.leak_blocks) { rt_viol(V_LEAK, 0, 0, r.leak_bytes, "%u block(s) still allocated after free", r.leak_blocks); rt_forgive_owner(1000 + op.slot); }
        r.done = 1; break; }
    default: r.done = 2;
    }
}
static bool on_stream(const Op& o) { return o.k == 'N' || o.k == 'R' || o.k == 'F'; }
static void body(int task) { // a stream handed from task to task: its operations keep their order, as callers must ensure
    for (size_t i = 0; i < PL->ops.size(); i++) if (PL->ops[i].task == task) {
        if (on_stream(PL->ops[i])) for (size_t j = 0; j < i; j++) if (PL->ops[j].slot == PL->ops[i].slot && PL->ops[j].task != task && on_stream(PL->ops[j])) while (!SHM->ops[j].done) sched_wait(&SHM->ops[j]);
        do_op((int)i); sched_wake(&SHM->ops[i]); } }

static void child(const Plan& p, const Env& e) {
    PL = &p; EN = &e; rt_begin(e); g_marker = (char*)rt_user_alloc(16, SH_RED, 0);
    static Ctx mainctx;
    if (p.ntasks <= 1) { CUR = &mainctx; for (size_t i = 0; i < p.ops.size(); i++) do_op((int)i); SHM->steps = mainctx.steps; }
    else {
        vector<Ctx*> ts; for (int t = 0; t < p.ntasks; t++) { Ctx* c = new Ctx(); c->id = t; for (auto& s : p.sws) if (s.task == t) c->sw.push_back({s.step, s.to}); std::sort(c->sw.begin(), c->sw.end()); ts.push_back(c); }
        sched_run(ts, body, p.quantum); for (auto* c : ts) SHM->steps += c->steps;
    }
    for (u32 i = 0; i < SHM->out_used; i++) { u64 b; memcpy(&b, SHM->out + i, 8); SHM->ev_hash = (SHM->ev_hash ^ b) * 0x100000001b3ull; }
    SHM->state = 1; _exit(0);
}
Run exec_plan(const Plan& p, const Env& e) {
    // header part only: the out[] area is bounded by out_used
    memset((void*)SHM, 0, offsetof(Shared, ops)); SHM->nops = (int)p.ops.size();
    if (p.ops.size() > MAX_OPS) { fprintf(stderr, "plan too long\n"); exit(3); }
    memset((void*)SHM->ops, 0, sizeof(OpRes) * p.ops.size());
    SHM->ev_hash = 1469598103934665603ull; SHM->steps = SHM->switches = SHM->switch_hash = SHM->allocs = SHM->fails = SHM->blocks = SHM->accesses = 0; SHM->out_used = 0;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork(); if (pid < 0) { perror("fork"); exit(3); }
    if (!pid) { // loops in code without instrumentation are bounded by processor time, not by steps
        itimerval lim{}; lim.it_value.tv_sec = CPU_LIMIT; setitimer(ITIMER_VIRTUAL, &lim, nullptr); alarm(600); child(p, e); _exit(9); }
    int st; while (waitpid(pid, &st, 0) < 0) {}
    Run r; r.state = SHM->state; r.sig = SHM->crash_sig; r.pc = SHM->crash_pc; r.addr = SHM->crash_addr; r.crash_op = SHM->crash_op;
    if (r.state != 1) { if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { fprintf(stderr, "simulator error in child\n"); exit(3); }
        if (WIFSIGNALED(st) && !r.sig) r.sig = WTERMSIG(st); if (r.sig == SIGVTALRM) r.sig = -1; if (r.sig == SIGALRM || r.sig == SIGKILL) { fprintf(stderr, "child timed out or was killed (signal %d)\n", r.sig); exit(3); } }
    r.viol.assign(SHM->viol, SHM->viol + SHM->nviol); r.ops.assign(SHM->ops, SHM->ops + p.ops.size()); r.out.assign(SHM->out, SHM->out + SHM->out_used);
    r.hash = SHM->ev_hash; r.steps = SHM->steps; r.switches = SHM->switches; r.sw_hash = SHM->switch_hash; r.allocs = SHM->allocs; r.fails = SHM->fails;
    if (p.prop == "start") return r; ST.execs++; ST.steps += r.steps; ST.switches += r.switches; ST.allocs += r.allocs; ST.fails += r.fails;
    for (size_t i = 0; i < p.ops.size(); i++) { if (r.ops[i].done == 1) { ST.ops++; if (p.ops[i].k == 'R' || p.ops[i].k == 'B') ST.bars += (u64)std::max(0, p.ops[i].len); if (p.ops[i].k == 'R') { ST.chunks++; if (!p.ops[i].len) ST.zero_chunks++; } } else ST.skipped++; }
    return r;
}
// ---------------------------------------------------------------- plan text
static string hexd(double d) { char b[40]; if (d == (double)(long)d && std::fabs(d) < 1e9 && !(d == 0 && std::signbit(d))) snprintf(b, sizeof b, "%ld", (long)d); else if (std::isfinite(d) && std::fabs(d) > 1e-300) snprintf(b, sizeof b, "%a", d); else { u64 u; memcpy(&u, &d, 8); snprintf(b, sizeof b, "#%016lx", (unsigned long)u); } return b; }
static double unhex(const string& s) { if (s[0] == '#') { u64 u = strtoull(s.c_str() + 1, nullptr, 16); double d; memcpy(&d, &u, 8); return d; } return strtod(s.c_str(), nullptr); }
static void env_text(std::ostringstream& o, const char* n, const Env& e) { o << n << " " << e.fill << " " << e.reuse << " " << e.scribble << " " << e.prefill << " " << e.shift << " " << e.rm << " " << e.seed << " " << e.urec << "\n"; }
string plan_text(const Plan& p) {
    std::ostringstream o; o << (rt_asan() ? "build redzone\n" : "") << "prop " << p.prop << "\nseed " << p.seed << "\ntasks " << p.ntasks << " " << p.quantum << "\nmark " << p.mark << "\nbudget " << p.budget << "\n";
    env_text(o, "env", p.env); env_text(o, "env2", p.env2);
    for (size_t i = 0; i < p.objs.size(); i++) { const Obj& b = p.objs[i]; o << "obj " << i << " " << ti_indicators[b.ind].name << " bad " << b.bad << " opts " << b.opt.size(); for (double d : b.opt) o << " " << hexd(d); o << " bars " << b.n() << "\n";
        for (auto& c : b.in) { o << "data"; for (double d : c) o << " " << hexd(d); o << "\n"; } }
    for (auto& x : p.ops) o << "op " << x.k << " task " << x.task << " obj " << x.obj << " slot " << x.slot << " from " << x.from << " len " << x.len << " gen " << x.gen << " extra " << x.extra << " pre " << x.pre << (x.ref ? " ref 1" : "") << " fault " << x.f.mode << " " << x.f.n << " " << x.f.mask << "\n";
    for (auto& s : p.sws) o << "switch " << s.task << " " << s.step << " " << s.to << "\n";
    return o.str();
}
bool plan_parse(const string& s, Plan& p) {
    std::istringstream in(s); string line; p = Plan{};
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue; std::istringstream l(line); string t; l >> t;
        if (t == "prop") l >> p.prop; else if (t == "seed") l >> p.seed; else if (t == "tasks") l >> p.ntasks >> p.quantum; else if (t == "mark") l >> p.mark; else if (t == "budget") l >> p.budget;
        else if (t == "env" || t == "env2") { Env& e = t == "env" ? p.env : p.env2; l >> e.fill >> e.reuse >> e.scribble >> e.prefill >> e.shift >> e.rm >> e.seed >> e.urec; }
        else if (t == "obj") { int i; string nm, w; size_t n; Obj b; l >> i >> nm >> w >> b.bad >> w >> n; for (size_t k = 0; k < n; k++) { l >> w; b.opt.push_back(unhex(w)); }
            b.ind = -1; for (int k = 0; k < TI_INDICATOR_COUNT; k++) if (nm == ti_indicators[k].name) b.ind = k; if (b.ind < 0) return false; p.objs.push_back(b); }
        else if (t == "data") { vector<double> c; string w; while (l >> w) c.push_back(unhex(w)); p.objs.back().in.push_back(c); }
        else if (t == "op") { Op x; string k, w; l >> k >> w >> x.task >> w >> x.obj >> w >> x.slot >> w >> x.from >> w >> x.len >> w >> x.gen >> w >> x.extra >> w >> x.pre >> w; if (w == "ref") l >> x.ref >> w; l >> x.f.mode >> x.f.n >> x.f.mask; x.k = k[0]; p.ops.push_back(x); }
        else if (t == "switch") { Sw s2; l >> s2.task >> s2.step >> s2.to; p.sws.push_back(s2); }
    }
    return !p.prop.empty();
}
