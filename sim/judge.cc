// Oracles: each property's verdict on one explicit plan.
#include "sim.h"
#include <algorithm>
#include <signal.h>
#include <cstdarg>
using std::string; using std::vector;
typedef vector<vector<double>> Cols;

static string iname(const Plan& p, int obj) { return obj >= 0 && obj < (int)p.objs.size() ? ti_indicators[p.objs[(size_t)obj].ind].name : "?"; }
static string fmt(const char* f, ...) { char b[400]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static bool same(double a, double b) { return a == b || (a != a && b != b); }
static string sigstr(const Run& r) { if (r.sig == -1) return "step budget exceeded"; if (r.sig == -2) return "deadlock"; return fmt("signal %d (%s) at address %#lx", r.sig, strsignal(r.sig), (unsigned long)r.addr); }
static string ckind(const Run& r) { return r.sig == -1 ? "unbounded" : r.sig == -2 ? "deadlock" : "crash"; }
static int op_obj(const Plan& p, int i) { // object an op works on (through its slot for R/F)
    const Op& o = p.ops[(size_t)i]; if (o.k == 'R' || o.k == 'F') { for (int j = i; j >= 0; j--) if (p.ops[(size_t)j].k == 'N' && p.ops[(size_t)j].slot == o.slot) return p.ops[(size_t)j].obj; } return o.obj; }
static double* outp(Run& r, int i, int o) { OpRes& x = r.ops[(size_t)i]; return r.out.data() + x.out_off + (size_t)o * x.cells; }
static bool has_out(const OpRes& x) { return x.done == 1 && x.out_n > 0; }
static string opdesc(const Plan& p, int i) { const Op& o = p.ops[(size_t)i]; const char* k = o.k == 'B' ? o.ref ? "batch reference" : "batch" : o.k == 'N' ? "stream_new" : o.k == 'R' ? "stream_run" : o.k == 'F' ? "stream_free" : o.k == 'Q' ? "lookup" : "op"; return fmt("op %d (%s %s, %d bars)", i, iname(p, op_obj(p, i)).c_str(), k, o.len); }
static Verdict V(const string& cls, const string& who, const string& d) { Verdict v; v.bad = true; v.key = cls + ":" + who; v.detail = d; return v; }
static bool memkind(int k) { return k == V_OOB_READ || k == V_OOB_WRITE || k == V_RO_WRITE || k == V_UAF || k == V_STALE; }

static Plan perturbed(const Plan& p, int variant) {
    Plan q = p; for (auto& o : q.objs) for (auto& c : o.in) for (auto& x : c) if (std::isfinite(x)) { u64 b; memcpy(&b, &x, 8); double u = (double)(rt_mix(b ^ (u64)variant * 0x1234567) >> 11) / 9007199254740992.0; x *= 1 + 1e-9 * (2 * u - 1); }
    return q;
}
// A mismatch is real when it cannot be explained by floating-point rounding: it exceeds what the same
// two computations vary by under the other rounding modes, and survives value-preserving-order noise.
typedef std::function<bool(const Plan&, int rm, double& a, double& b)> Eval;
static bool close_(double a, double b, double scale) { if (same(a, b)) return true; if (!std::isfinite(a) || !std::isfinite(b)) return false; double d = std::fabs(a - b); return d <= 1e-7 * std::max(std::fabs(a), std::fabs(b)) + 1e-9 * scale; }
static int vclass(double x) { return std::isfinite(x) ? 0 : std::isnan(x) ? 1 : x > 0 ? 2 : 3; } // an infinity whose sign is decided by a rounding residue is no mismatch
static bool real_mismatch(const Plan& p, double a0, double b0, double scale, const Eval& ev) {
    double sp = 0; bool exact = true, nanflip = false;
    for (int rm = 1; rm <= 3; rm++) { double a, b; if (!ev(p, rm, a, b)) return true;
        if (!same(a, a0) || !same(b, b0)) exact = false;
        if (vclass(a) != vclass(a0) || vclass(b) != vclass(b0)) nanflip = true;
        else { if (std::isfinite(a)) sp = std::max(sp, std::fabs(a - a0)); if (std::isfinite(b)) sp = std::max(sp, std::fabs(b - b0)); }
        if (close_(a, b, scale)) nanflip = true; }
    if (exact) return true;
    if (nanflip) return false;
    if (std::isfinite(a0) && std::isfinite(b0) && std::fabs(a0 - b0) <= 100 * sp) return false;
    int keep = 0; for (int v = 1; v <= 4; v++) { double a, b; if (!ev(perturbed(p, v), 0, a, b)) return true; if (!std::isfinite(a0) || !std::isfinite(b0)) if (vclass(a) != vclass(a0) || vclass(b) != vclass(b0)) return false; if (!close_(a, b, scale)) keep++; }
    return keep >= 3;
}

static Plan plan_with(const Plan& p, const std::function<bool(const Op&, int)>& keep) { Plan q = p; q.ops.clear(); q.sws.clear(); q.ntasks = 1; for (size_t i = 0; i < p.ops.size(); i++) if (keep(p.ops[i], (int)i)) { q.ops.push_back(p.ops[i]); q.ops.back().task = 0; } return q; }

// ---------------------------------------------------------------- C01
struct SlotOut { int obj = -1, total = 0, start = 0; bool ok = true; Cols col; vector<int> ops; int firstop = 0; };
static std::map<int, SlotOut> slot_outputs(const Plan& p, Run& r) { // successive uses of a slot get distinct ids
    std::map<int, SlotOut> m; std::map<int, int> cur; int next = 0;
    for (size_t i = 0; i < p.ops.size(); i++) { const Op& o = p.ops[i]; OpRes& x = r.ops[i]; if (x.done != 1) continue;
        if (o.k == 'N' && x.rc == 0) { cur[o.slot] = next++; SlotOut& s = m[cur[o.slot]]; s.obj = o.obj; s.start = x.start; s.firstop = (int)i; s.col.resize((size_t)ti_indicators[p.objs[(size_t)o.obj].ind].outputs); }
        if (o.k == 'R' && cur.count(o.slot)) { SlotOut& s = m[cur[o.slot]]; if (x.rc != 0) { s.ok = false; continue; } s.ops.push_back((int)i);
            int before = s.total; int len = std::min(o.len, p.objs[(size_t)s.obj].n() - before); s.total += std::max(0, len);
            for (size_t k = 0; k < s.col.size(); k++) { double* q = outp(r, (int)i, (int)k); s.col[k].insert(s.col[k].end(), q, q + x.cells); } } }
    return m;
}
static Verdict judge_C01(const Plan& p0) {
    Plan p = p0; std::map<std::pair<int,int>, int> batch; // (obj,len) -> op
    { std::map<int, std::pair<int,int>> cur; auto flush = [&](int s) { if (cur.count(s)) { auto k = cur[s]; if (!batch.count(k)) { Op b; b.k = 'B'; b.obj = k.first; b.len = k.second; batch[k] = (int)p.ops.size(); p.ops.push_back(b); } cur.erase(s); } };
      size_t n = p.ops.size(); for (size_t i = 0; i < n; i++) { Op o = p.ops[i]; if (o.k == 'N') { flush(o.slot); cur[o.slot] = {o.obj, 0}; } else if (o.k == 'R' && cur.count(o.slot)) { auto& c = cur[o.slot]; c.second = std::min(c.second + o.len, p.objs[(size_t)c.first].n()); } }
      std::set<int> ss; for (auto& c : cur) ss.insert(c.first); for (int s : ss) flush(s); }
    Run r = exec_plan(p, p.env);
    if (r.crashed()) return V(ckind(r), iname(p, op_obj(p, std::max(0, r.crash_op))), sigstr(r) + " in " + opdesc(p, std::max(0, r.crash_op)));
    for (size_t i = 0; i < p.ops.size(); i++) { const Op& o = p.ops[i]; OpRes& x = r.ops[i]; if (x.done != 1) continue;
        if (o.k == 'N' && x.rc != 0) { if (p.objs[(size_t)o.obj].bad == 2 && x.rc == TI_INVALID_OPTION) { ST.rejected++; return {}; } for (auto& b : batch) if (b.first.first == o.obj && r.ops[(size_t)b.second].rc == 0) return V("stream-refused", iname(p, o.obj), fmt("stream_new returned %d for options the batch call accepts", x.rc)); ST.rejected++; return {}; }
        if (o.k == 'R' && x.rc != 0) return V("run-failed", iname(p, op_obj(p, (int)i)), fmt("stream_run returned %d (exception or error) without any fault", x.rc)); }
    auto so = slot_outputs(p, r);
    for (auto& kv : so) { SlotOut& s = kv.second; auto it = batch.find({s.obj, s.total}); if (it == batch.end()) continue; int bi = it->second; OpRes& x = r.ops[(size_t)bi]; string who = iname(p, s.obj);
        if (x.rc != 0) { if (p.objs[(size_t)s.obj].bad == 2 && x.rc == TI_INVALID_OPTION) continue; if (s.total > x.start) return V("batch-refused", who, fmt("batch returned %d where the stream accepted the options", x.rc)); continue; }
        int tested = 0;
        for (size_t k = 0; k < s.col.size(); k++) {
            if ((int)s.col[k].size() != x.cells) return V("count", who, fmt("stream emitted %zu values, batch %d", s.col[k].size(), x.cells));
            double* b = outp(r, bi, (int)k); double scale = 0; for (int j = 0; j < x.cells; j++) if (std::isfinite(b[j])) scale = std::max(scale, std::fabs(b[j]));
            ST.compared += (u64)x.cells;
            for (int j = 0; j < x.cells; j++) if (!close_(s.col[k][(size_t)j], b[j], scale)) {
                if (++tested > 12) break;
                int slot_id = kv.first; Eval ev = [&](const Plan& q, int rm, double& a, double& bb) { Env e = q.env; e.rm = rm; Run rr = exec_plan(q, e); if (rr.crashed()) return false; auto so2 = slot_outputs(q, rr); auto f = so2.find(slot_id); if (f == so2.end() || (int)f->second.col[k].size() <= j || rr.ops[(size_t)bi].cells <= j) return false; a = f->second.col[k][(size_t)j]; bb = outp(rr, bi, (int)k)[j]; return true; };
                if (real_mismatch(p, s.col[k][(size_t)j], b[j], scale, ev)) return V("mismatch", who, fmt("output %zu, bar %d (value %d of %d): stream %.17g, batch %.17g", k, j + x.start, j, x.cells, s.col[k][(size_t)j], b[j]));
                ST.illcond++;
            }
        } }
    return {};
}
// ---------------------------------------------------------------- C02
static Verdict judge_C02(const Plan& p) {
    Run r = exec_plan(p, p.env);
    if (r.crashed()) return V(ckind(r), iname(p, op_obj(p, std::max(0, r.crash_op))), sigstr(r) + " in " + opdesc(p, std::max(0, r.crash_op)));
    std::map<int, int> pos;
    for (size_t i = 0; i < p.ops.size(); i++) { const Op& o = p.ops[i]; OpRes& x = r.ops[i]; if (x.done != 1) continue; int ob = op_obj(p, (int)i); string who = iname(p, ob), at = opdesc(p, (int)i);
        const ti_indicator_info& I = ti_indicators[p.objs[(size_t)ob].ind];
        if (o.k == 'N') { if (x.rc != 0) { ST.rejected++; continue; } pos[o.slot] = 0; if (x.prog_after != -x.start) return V("progress", who, fmt("new stream reports progress %d, start is %d", x.prog_after, x.start)); if (!x.info_ok) return V("info", who, "stream info is not the entry it was created from"); }
        if (o.k == 'R') { if (x.rc != 0) { return V("run-failed", who, fmt("%s returned %d without any fault", at.c_str(), x.rc)); }
            int len = std::max(0, std::min(o.len, p.objs[(size_t)ob].n() - pos[o.slot])); int e0 = -x.start + pos[o.slot], e1 = e0 + len; pos[o.slot] += len;
            if (x.prog_before != e0 || x.prog_after != e1) return V("progress", who, fmt("%s: progress %d -> %d, expected %d -> %d", at.c_str(), x.prog_before, x.prog_after, e0, e1));
            if (!x.info_ok) return V("info", who, at + ": stream info is not the entry it was created from"); }
        if (o.k == 'B' && x.rc == TI_INVALID_OPTION && p.objs[(size_t)ob].bad == 2) { ST.rejected++; continue; }
        if (o.k == 'B' && x.rc != 0) { return V("batch-rc", who, fmt("%s returned %d without any fault (start %d)", at.c_str(), x.rc, x.start)); }
        if (o.k == 'Q' && (!x.info_ok || x.rc != TI_INDICATOR_COUNT)) return V("lookup", who, "catalogue lookup does not lead to the entry");
        if (o.k == 'R' || o.k == 'B') {
            if (x.written != x.cells * I.outputs) return V("short-output", who, fmt("%s: %d of %d promised values written", at.c_str(), x.written, x.cells * I.outputs));
            if (x.extra) return V("extra-output", who, fmt("%s: %d value(s) written beyond the promised extent", at.c_str(), x.extra));
            for (auto& v : r.viol) if (v.op == (int)i && v.kind == V_OOB_WRITE) return V("extra-output", who, at + ": write outside the promised output extent (" + v.what + ")"); }
    }
    return {};
}
// ---------------------------------------------------------------- bit-exact comparison of ops
static string op_diff(const Plan& p, Run& a, int i, const Plan& q, Run& b, int j) {
    OpRes &x = a.ops[(size_t)i], &y = b.ops[(size_t)j];
    if (x.done != y.done) return fmt("executed %d/%d", x.done, y.done);
    if (x.done != 1) return "";
    if (p.ops[(size_t)i].k == 'Q') return x.info_ok == y.info_ok && x.rc == y.rc ? "" : "lookup differs";
    if (x.rc != y.rc) return fmt("return code %d, reference %d", x.rc, y.rc);
    if (x.prog_after != y.prog_after || x.prog_before != y.prog_before) return fmt("progress %d, reference %d", x.prog_after, y.prog_after);
    if (x.info_ok != y.info_ok) return "info differs";
    if (x.cells != y.cells || x.out_n != y.out_n) return "output count differs";
    for (u32 k = 0; k < x.out_n; k++) { double u = a.out[x.out_off + k], v = b.out[y.out_off + k]; if (!same(u, v)) return fmt("output value %u: %.17g, reference %.17g", k, u, v); }
    if (x.written != y.written) return fmt("%d values written, reference %d", x.written, y.written);
    return "";
}
static bool fresh_mem(const Run& r, const Run* base, int& vi) { // memory violation not present (by kind) in base
    for (size_t k = 0; k < r.viol.size(); k++) { if (!memkind(r.viol[k].kind) && r.viol[k].kind != V_BADFREE && r.viol[k].kind != V_EXC) continue; bool in = false; if (base) for (auto& w : base->viol) if (w.kind == r.viol[k].kind) in = true; if (!in) { vi = (int)k; return true; } } return false; }

static Verdict judge_iso(const Plan& p) { // C03 (one task) and C04 (several)
    Run r = exec_plan(p, p.env); bool conc = p.ntasks > 1;
    std::set<int> moved; { std::map<int, int> owner; for (auto& o : p.ops) if (o.k == 'N' || o.k == 'R' || o.k == 'F') { auto it = owner.emplace(o.slot, o.task).first; if (it->second != o.task) moved.insert(o.slot); } } // streams handed from task to task
    std::map<int, vector<int>> groups; // baseline groups: by task, or by slot / single batch op
    int g = 1000; for (size_t i = 0; i < p.ops.size(); i++) { const Op& o = p.ops[i]; if (conc && o.k != 'B' && o.k != 'Q' && moved.count(o.slot)) groups[2000 + o.slot].push_back((int)i); else if (conc) groups[o.task].push_back((int)i); else if (o.k == 'B' || o.k == 'Q') groups[g++].push_back((int)i); else groups[o.slot].push_back((int)i); }
    std::map<std::array<int, 5>, Run> lone; // the same batch call again needs no second lone run
    for (auto& kv : groups) {
        auto& ids = kv.second; Plan q = p; q.ops.clear(); q.sws.clear(); q.ntasks = 1; for (int i : ids) { q.ops.push_back(p.ops[(size_t)i]); q.ops.back().task = 0; }
        const Op& f0 = q.ops[0]; bool single = ids.size() == 1 && (f0.k == 'B' || f0.k == 'Q') && !f0.f.mode; std::array<int, 5> lk{f0.k, f0.obj, f0.len, f0.extra, f0.ref};
        auto li = single ? lone.find(lk) : lone.end(); Run b = li != lone.end() ? li->second : exec_plan(q, p.env); if (single && li == lone.end()) lone[lk] = b;
        if (b.crashed()) { ST.baseline_dead++; continue; }
        for (size_t j = 0; j < ids.size(); j++) { string who = iname(p, op_obj(p, ids[j]));
            if (r.crashed()) { if (r.crash_op == ids[j]) return V(ckind(r), who, sigstr(r) + " in " + opdesc(p, ids[j]) + ", which completes alone"); continue; }
            string d = op_diff(p, r, ids[j], q, b, (int)j); if (!d.empty()) return V("interference", who, opdesc(p, ids[j]) + ": " + d + " (alone)"); ST.compared += r.ops[(size_t)ids[j]].out_n;
            for (auto& v : r.viol) if (v.op == ids[j] && (memkind(v.kind) || v.kind == V_BADFREE || v.kind == V_EXC)) { bool in = false; for (auto& w : b.viol) if (w.op == (int)j && w.kind == v.kind) in = true; if (!in) return V(string("interference-") + vk_name[v.kind], who, opdesc(p, ids[j]) + ": " + v.what + ", which does not happen alone"); } }
    }
    if (r.crashed() && r.crash_op < 0) return V(ckind(r), "?", sigstr(r));
    return {};
}
// ---------------------------------------------------------------- C05 / C06
static Verdict judge_oom(const Plan& p) {
    Run r = exec_plan(p, p.env); bool stream = p.prop == "C06";
    auto faulted = [&](int i) { return p.ops[(size_t)i].f.mode && r.ops[(size_t)i].failed; };
    std::set<int> hurt; // slots whose stream met an allocation failure
    Plan clean = p; for (auto& o : clean.ops) o.f = Fault{};
    // reference: same ops without faults; retries of creation collapse because a slot already open skips N
    if (r.crashed()) { int c = std::max(0, r.crash_op); Run b = exec_plan(clean, p.env); if (b.crashed()) { ST.baseline_dead++; return {}; }
        bool any = false; for (int i = 0; i <= c; i++) if (p.ops[(size_t)i].f.mode && (r.ops[(size_t)i].failed || i == c)) any = true;
        if (!any) { ST.baseline_dead++; return {}; }
        return V(ckind(r), iname(p, op_obj(p, c)), sigstr(r) + " in " + opdesc(p, c) + fmt(" with allocation fault mode %d n %d", p.ops[(size_t)c].f.mode, p.ops[(size_t)c].f.n)); }
    std::map<int, vector<int>> good; // uses without any fault, to compare with clean run alone
    std::map<int, int> first_of_obj; std::map<int, vector<int>> cur;
    for (size_t i = 0; i < p.ops.size(); i++) { const Op& o = p.ops[i]; OpRes& x = r.ops[i]; if (x.done != 1) continue; string who = iname(p, op_obj(p, (int)i)), at = opdesc(p, (int)i); bool f = faulted((int)i);
        string how = fmt(" (allocation fault mode %d n %d, %u of %u failed)", o.f.mode, o.f.n, x.failed, x.allocs);
        if (o.k == 'N') hurt.erase(o.slot);
        if (f && (o.k == 'R')) hurt.insert(o.slot);
        bool relevant = f || (o.k == 'F' && hurt.count(o.slot));
        if (relevant) {
            for (auto& v : r.viol) if (v.op == (int)i) { if (v.kind == V_OOB_READ) continue; if (v.kind == V_LEAK && !(o.k == 'B' || o.k == 'N' || o.k == 'F')) continue; return V(vk_name[v.kind], who, at + ": " + v.what + how); }
            if (x.in_mod) return V("input-modified", who, at + ": inputs or options changed" + how);
        }
        if (f && o.k != 'F') { if (x.rc == INT_MIN) return V("exception-escapes", who, at + how);
            if (x.rc != TI_OUT_OF_MEMORY && x.rc != TI_OKAY) return V("return-code", who, at + fmt(": returned %d", x.rc) + how);
            if (o.k == 'N' && x.rc == TI_OKAY && x.handle_state != 2) return V("return-code", who, at + ": success without a stream" + how); }
        if (o.k == 'B') { if (!f && x.rc == TI_OUT_OF_MEMORY) return V("sticky-failure", who, at + ": out of memory without a failing allocation"); 
            auto it = first_of_obj.find(o.obj * 4096 + o.len); if (it == first_of_obj.end()) { if (!f) first_of_obj[o.obj * 4096 + o.len] = (int)i; }
            else if (x.rc == TI_OKAY || !f) { string d = op_diff(p, r, (int)i, p, r, it->second); if (!d.empty()) return V(f ? "wrong-success" : "not-recovered", who, at + ": " + d + how); } }
        if (o.k == 'N' && x.rc == TI_OUT_OF_MEMORY && !f) return V("sticky-failure", who, at + ": out of memory without a failing allocation");
    }
    if (stream) { // every stream that saw no failure behaves exactly as it does alone without faults
        std::map<int, vector<int>> use; vector<vector<int>> uses; for (size_t i = 0; i < p.ops.size(); i++) { const Op& o = p.ops[i]; if (r.ops[i].done != 1 || o.k == 'B' || o.k == 'Q') continue;
            if (o.k == 'N') { if (r.ops[i].rc == TI_OKAY) use[o.slot] = {(int)i}; continue; } if (use.count(o.slot)) { use[o.slot].push_back((int)i); if (o.k == 'F') { uses.push_back(use[o.slot]); use.erase(o.slot); } } }
        for (auto& kv : use) uses.push_back(kv.second);
        for (auto& u : uses) { Plan q = p; q.ops.clear(); q.sws.clear(); bool any = false; for (int i : u) { Op o = p.ops[(size_t)i]; o.f = Fault{}; q.ops.push_back(o); }
            size_t last = u.size(); for (size_t j = 0; j < u.size(); j++) if (r.ops[(size_t)u[j]].rc == TI_OUT_OF_MEMORY) { last = j; break; } else if (faulted(u[j])) any = true; (void)any;
            Run b = exec_plan(q, p.env); if (b.crashed()) { ST.baseline_dead++; continue; }
            for (size_t j = 0; j < last; j++) { string d = op_diff(p, r, u[j], q, b, (int)j); if (!d.empty()) return V("not-recovered", iname(p, op_obj(p, u[j])), opdesc(p, u[j]) + ": " + d + " (alone, memory available)"); ST.compared += r.ops[(size_t)u[j]].out_n; } } }
    return {};
}
// ---------------------------------------------------------------- C07
static Verdict judge_C07(const Plan& p) {
    Run r = exec_plan(p, p.env);
    for (auto& v : r.viol) if (v.kind == V_LEAK || v.kind == V_BADFREE || v.kind == V_MISMATCH) { int i = std::max(0, v.op); return V(vk_name[v.kind], iname(p, op_obj(p, i)), opdesc(p, i) + ": " + v.what); }
    if (r.crashed()) { int c = std::max(0, r.crash_op); return V(ckind(r), iname(p, op_obj(p, c)), sigstr(r) + " in " + opdesc(p, c)); }
    return {};
}
// ---------------------------------------------------------------- C08
static Verdict judge_C08(const Plan& p) {
    vector<int> ids; for (size_t i = 0; i < p.ops.size(); i++) if (!p.ops[i].pre) ids.push_back((int)i);
    Plan q = plan_with(p, [](const Op& o, int) { return !o.pre; });
    Run a = exec_plan(q, p.env), b = exec_plan(p, p.env2); ST.envs += 2;
    if (a.crashed() && b.crashed()) { ST.baseline_dead++; return {}; }
    if (a.crashed() != b.crashed()) { int c = a.crashed() ? (a.crash_op >= 0 && a.crash_op < (int)ids.size() ? ids[(size_t)a.crash_op] : 0) : std::max(0, b.crash_op); return V("ambient-" + ckind(a.crashed() ? a : b), iname(p, op_obj(p, c)), sigstr(a.crashed() ? a : b) + " under one ambient state only, " + opdesc(p, c)); }
    for (size_t j = 0; j < ids.size(); j++) { OpRes& x = b.ops[(size_t)ids[j]]; if (x.done == 1 && x.out_n && x.rc == 0) { // unwritten cells are C02's business, not evidence of dependence
            if (x.written != (int)x.out_n || a.ops[j].written != (int)a.ops[j].out_n) { if (x.written == a.ops[j].written) continue; } }
        string d = op_diff(p, b, ids[j], q, a, (int)j); if (!d.empty()) return V("ambient", iname(p, op_obj(p, ids[j])), opdesc(p, ids[j]) + ": " + d + " (under another ambient state)"); ST.compared += x.out_n; }
    return {};
}
// ---------------------------------------------------------------- C09
static Verdict judge_C09(const Plan& p) {
    Run r = exec_plan(p, p.env);
    for (auto& v : r.viol) if (memkind(v.kind) || v.kind == V_BADFREE) { int i = std::max(0, v.op); return V(vk_name[v.kind], iname(p, op_obj(p, i)), opdesc(p, i) + fmt(": %s, %u byte(s)", v.what, v.size)); }
    for (size_t i = 0; i < p.ops.size(); i++) if (r.ops[i].done == 1 && r.ops[i].in_mod) return V("ro-write", iname(p, op_obj(p, (int)i)), opdesc(p, (int)i) + ": inputs or options changed");
    if (r.crashed() && r.sig > 0 && r.sig != SIGABRT) { int c = std::max(0, r.crash_op); return V("crash", iname(p, op_obj(p, c)), sigstr(r) + " in " + opdesc(p, c)); }
    return {};
}
// ---------------------------------------------------------------- C10
struct Pub { int op, cell; double v; };
static bool c10_run(const Plan& p, int rm, vector<vector<vector<double>>>& vals /* op -> output -> values */, vector<OpRes>& res, vector<int>& from, int& dead, string& why) {
    vals.assign(p.ops.size(), {}); res.assign(p.ops.size(), OpRes{}); from.assign(p.ops.size(), 0); dead = -1;
    size_t a = 0; while (a <= p.ops.size()) { size_t b = a; while (b < p.ops.size() && p.ops[b].k != 'X') b++;
        if (b > a) { Plan q = p; q.ops.assign(p.ops.begin() + (long)a, p.ops.begin() + (long)b); Env e = p.env; e.rm = rm; e.seed += a; Run r = exec_plan(q, e); ST.crashes++;
            if (r.crashed()) { dead = (int)a + std::max(0, r.crash_op); why = sigstr(r); return false; }
            std::map<int, int> pos; for (size_t i = 0; i < q.ops.size(); i++) { OpRes& x = r.ops[i]; res[a + i] = x; if (x.done != 1) continue; if (q.ops[i].k == 'N') pos[q.ops[i].slot] = 0; int ob = op_obj(q, (int)i);
                if (q.ops[i].k == 'R') { int len = std::max(0, std::min(q.ops[i].len, p.objs[(size_t)ob].n() - pos[q.ops[i].slot])); from[a + i] = std::max(pos[q.ops[i].slot], x.start); pos[q.ops[i].slot] += len; if (x.rc) continue; }
                else if (q.ops[i].k == 'B') { from[a + i] = std::max(0, x.start); if (x.rc) continue; } else continue;
                for (int o = 0; o < ti_indicators[p.objs[(size_t)ob].ind].outputs; o++) { double* z = outp(r, (int)i, o); vals[a + i].push_back(vector<double>(z, z + x.cells)); } } }
        a = b + 1; }
    return true;
}
static Verdict judge_C10(const Plan& p) {
    vector<vector<vector<double>>> vals; vector<OpRes> res; vector<int> from; int dead; string why; 
    if (!c10_run(p, 0, vals, res, from, dead, why)) return V("crash", iname(p, op_obj(p, dead)), why + " in " + opdesc(p, dead));
    std::map<std::array<int, 3>, Pub> pub; double scale = 0; int tested = 0;
    for (auto& v : vals) for (auto& c : v) for (double d : c) if (std::isfinite(d)) scale = std::max(scale, std::fabs(d));
    for (size_t i = 0; i < p.ops.size(); i++) { if (vals[i].empty()) continue; int ob = op_obj(p, (int)i);
        for (size_t o = 0; o < vals[i].size(); o++) for (size_t j = 0; j < vals[i][o].size(); j++) { int bar = from[i] + (int)j; int hist = bar < p.mark ? 0 : ob; double v = vals[i][o][j]; ST.compared++;
            auto key = std::array<int, 3>{hist, (int)o + (p.ops[i].ref ? 100 : 0), bar}; auto it = pub.find(key); if (it == pub.end()) { pub[key] = Pub{(int)i, (int)j, v}; continue; }
            if (close_(v, it->second.v, scale * 1e-3)) continue;
            if (++tested > 12) return {};
            Pub w = it->second; Eval ev = [&](const Plan& q, int rm, double& x, double& y) { vector<vector<vector<double>>> v2; vector<OpRes> r2; vector<int> f2; int d2; string w2; if (!c10_run(q, rm, v2, r2, f2, d2, w2)) return false; if (v2[i].size() <= o || v2[i][o].size() <= j || v2[(size_t)w.op].size() <= o || (int)v2[(size_t)w.op][o].size() <= w.cell) return false; x = v2[i][o][j]; y = v2[(size_t)w.op][o][(size_t)w.cell]; return true; };
            if (real_mismatch(p, v, w.v, scale * 1e-3, ev)) return V("changed-output", iname(p, ob), fmt("output %zu of bar %d: %.17g from %s, but %.17g had been published by %s", o, bar, v, opdesc(p, (int)i).c_str(), w.v, opdesc(p, w.op).c_str()));
            ST.illcond++; } }
    return {};
}
// ---------------------------------------------------------------- C11
static Verdict judge_C11(const Plan& p) { // obj 0 clean, obj 1 = obj 0 with corrupted cells
    if (p.objs.size() < 2) return {};
    Plan c = p; c.objs[1] = p.objs[0]; c.budget = 0; Run a = exec_plan(c, p.env); if (a.crashed()) { ST.baseline_dead++; return {}; }
    Run r = exec_plan(p, p.env);
    if (r.crashed()) { int i = std::max(0, r.crash_op); return V(ckind(r), iname(p, op_obj(p, i)), sigstr(r) + " in " + opdesc(p, i) + " on corrupted bars"); }
    int first = p.objs[0].n(); for (size_t k = 0; k < p.objs[0].in.size(); k++) for (int j = 0; j < p.objs[0].n() && j < p.objs[1].n(); j++) if (memcmp(&p.objs[0].in[k][(size_t)j], &p.objs[1].in[k][(size_t)j], 8)) { first = std::min(first, j); break; }
    for (auto& v : r.viol) { bool in = false; for (auto& w : a.viol) if (w.kind == v.kind && w.op == v.op) in = true; if (in) continue; int i = std::max(0, v.op); if (memkind(v.kind) || v.kind == V_LEAK || v.kind == V_BADFREE || v.kind == V_MISMATCH || v.kind == V_EXC) return V(vk_name[v.kind], iname(p, op_obj(p, i)), opdesc(p, i) + ": " + v.what + " on corrupted bars"); }
    std::map<int, int> pos;
    for (size_t i = 0; i < p.ops.size(); i++) { const Op& o = p.ops[i]; OpRes &x = r.ops[i], &y = a.ops[i]; if (x.done != 1) continue; int ob = op_obj(p, (int)i); string who = iname(p, ob), at = opdesc(p, (int)i); if (o.k == 'N') pos[o.slot] = 0;
        int barfrom = 0; if (o.k == 'R') { barfrom = std::max(pos[o.slot], x.start); pos[o.slot] += std::max(0, std::min(o.len, p.objs[(size_t)ob].n() - pos[o.slot])); } else if (o.k == 'B') barfrom = std::max(0, x.start);
        if (ob != 1) { string d = op_diff(p, r, (int)i, c, a, (int)i); if (!d.empty()) return V("spread", who, at + ": " + d + " (without corruption elsewhere)"); ST.compared += x.out_n; continue; }
        if (x.rc != y.rc) return V("return-code", who, at + fmt(": returned %d on corrupted bars, %d on clean ones", x.rc, y.rc));
        if (x.prog_after != y.prog_after) return V("progress", who, at + fmt(": progress %d, clean %d", x.prog_after, y.prog_after));
        if (o.k == 'R' || o.k == 'B') { if (x.written != y.written) return V("output-extent", who, at + fmt(": %d values written, %d on clean bars", x.written, y.written));
            if (x.rc) continue; for (int k = 0; k < ti_indicators[p.objs[(size_t)ob].ind].outputs; k++) for (int j = 0; j < x.cells; j++) if (barfrom + j < first) { double u = outp(r, (int)i, k)[j], w = outp(a, (int)i, k)[j]; ST.compared++; if (!close_(u, w, 0)) return V("rewrites-past", who, at + fmt(": output %d of bar %d is %.17g, %.17g on clean bars; first corrupted bar is %d", k, barfrom + j, u, w, first)); } } }
    return {};
}
Verdict judge(const Plan& p) {
    const string& n = p.prop;
    if (n == "C01") return judge_C01(p); if (n == "C02") return judge_C02(p); if (n == "C03" || n == "C04") return judge_iso(p);
    if (n == "C05" || n == "C06") return judge_oom(p); if (n == "C07") return judge_C07(p); if (n == "C08") return judge_C08(p);
    if (n == "C09") return judge_C09(p); if (n == "C10") return judge_C10(p); if (n == "C11") return judge_C11(p);
    return {};
}
