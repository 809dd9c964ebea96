// Seeded workload, schedule and fault generation per property, and minimisation.
#include "sim.h"
#include <algorithm>
#include <cfloat>
using std::string; using std::vector;

static bool g_thorough; void set_thorough(bool b) { g_thorough = b; }
static Op mk(char k, int obj, int slot, int len = 0) { Op o; o.k = k; o.obj = obj; o.slot = slot; o.len = len; return o; }
static Env rnd_env(Rng& r) { Env e; e.fill = r.below(6); e.reuse = r.below(3); e.scribble = r.below(6); e.prefill = r.below(6); e.shift = r.below(65536); e.urec = r.below(2); e.seed = r.next() >> 16; return e; }
static int any_ind(Rng& r) { return r.below(TI_INDICATOR_COUNT); }
static int stream_ind(Rng& r) { static vector<int> s; if (s.empty()) for (int i = 0; i < TI_INDICATOR_COUNT; i++) if (is_stream(i)) s.push_back(i); return s[(size_t)r.below((int)s.size())]; }
static bool heavy(int ind) { string n = ti_indicators[ind].name; return n == "edcf" || n == "rmf" || n == "ehma" || n == "mesastoch"; }
static void edge_opts(Rng& r, Obj& o, bool frac);
static Obj mkobj(Rng& r, int ind, int cap = 2000, bool weird_len = true, double edge = .06, bool frac = false) {
    if (getenv("EDGE")) edge = .5, frac = frac || *getenv("EDGE") == '2';
    Obj o; o.ind = ind; o.opt = gen_opts(r, ti_indicators[ind].name, ti_indicators[ind].options); if (edge && !o.opt.empty() && r.chance(edge)) edge_opts(r, o, frac);
    bool far = g_marathon && !heavy(ind); g_marathon = false; if (far) for (int t = 0; t < 40; t++) { o.opt = gen_opts(r, ti_indicators[ind].name, ti_indicators[ind].options); if (t > 30 && !o.opt.empty()) o.opt[0] = std::min(o.opt[0], 30.); o.bad = 0; bool big = false; for (double x : o.opt) big |= x > 40; if (!big) break; }
    const vector<int>& D = dict_ints(ind); int how = -1, c = 0; if (!D.empty() && !far && r.chance(getenv("DICT") ? 1 : .12)) { c = r.pick(D); if (r.chance(.1)) c *= r.range(2, 3); how = r.below(3); g_hint = c; }
    if (how == 0 && !o.opt.empty()) { double& x = o.opt[(size_t)r.below((int)o.opt.size())]; if (x >= 1 && x == std::floor(x) && c <= (heavy(ind) ? 60 : 700)) { x = c + r.range(-1, 1); if (!o.bad) o.bad = 2; } }
    int s = obj_start(o); int n = gen_len(r, s, cap); if (how == 1) n = std::min(12000, (r.chance(.5) ? s : 0) + c + r.range(-1, 2) + (r.chance(.3) ? r.range(0, 200) : 0)); if (how == 2) { g_chunk_hint = c + r.range(-1, 1); n = std::max(n, std::min(12000, s + c + r.range(1, 2 * c))); } if (!weird_len && n < s + 4) n = s + r.range(4, 40); if (cap <= 600 && cap > 160 && r.chance(.008)) n = s + r.range(400, 2600); /* rarely far beyond the usual cap */ if (heavy(ind)) n = std::min(n, s + 80); if (far) n = r.range(65540, 70000);
    Obj q = gen_obj(r, ind, n, r.below(10)); q.opt = o.opt; q.bad = o.bad;
    const vector<double>& L = dict_reals(ind); if (n && !L.empty() && r.chance(.04)) { double f = r.pick(L) * r.pick<double>({1, 1, .1, 10}) / std::max(1e-9, std::fabs(q.in[0][(size_t)n / 2])); bool one = r.chance(.2); for (size_t k = 0; k < q.in.size(); k++) if (!one || k + 1 == q.in.size()) for (double& x : q.in[k]) x *= f; }
    return q;
}
static Obj kin(Rng& r, const Obj& b) { // nearly the same history: a revised bar, a window that moved on, another beginning or another end
    Obj o = b; int n = b.n(); if (n < 2) return o; Obj z = gen_obj(r, b.ind, n, r.below(10)); int c = r.below(6), at = r.below(n), k = r.range(1, std::min(n, 6));
    for (size_t i = 0; i < o.in.size(); i++) { auto &x = o.in[i], &y = z.in[i];
        if (c == 0) x[(size_t)at] = y[(size_t)at];
        else if (c == 1) x[(size_t)n - 1] = y[(size_t)n - 1];
        else if (c == 2) { x.erase(x.begin(), x.begin() + k); x.insert(x.end(), y.begin(), y.begin() + k); }
        else if (c == 3) for (int j = at; j < n; j++) x[(size_t)j] = y[(size_t)j];
        else if (c == 4) for (int j = 0; j < at; j++) x[(size_t)j] = y[(size_t)j];
        else for (int j = at; j < std::min(n, at + k); j++) x[(size_t)j] = y[(size_t)j]; }
    return o;
}
static void near_opts(Rng& r, Obj& o, const Obj& b) { // options that differ from another object's by little: neighbours, fractions, the last digits
    if (b.opt.empty() || o.ind != b.ind) return; o.opt = b.opt; o.bad = 2; double& x = o.opt[(size_t)r.below((int)o.opt.size())]; bool whole = x == std::floor(x);
    int how = r.below(4); if (how == 0) x += r.chance(.5) ? 1 : -1; else if (how == 1) x += r.pick<double>({.5, .25, .75, .9, .1}); else if (how == 2) x *= whole ? 1 + 1e-7 : 1 + 1e-4; else x = whole ? x + 2 : x * 1.25; }
static void add_stream(Rng& r, Plan& p, int obj, int slot, bool free_, int cancel = -1) {
    int n = p.objs[(size_t)obj].n(), s = obj_start(p.objs[(size_t)obj]); p.ops.push_back(mk('N', obj, slot)); int pos = 0; bool g = r.chance(.5);
    for (int c : gen_chunks(r, cancel >= 0 ? std::min(cancel, n) : n, s)) { Op o = mk('R', obj, slot, c); o.gen = g; o.extra = r.chance(.15) ? r.range(1, 3) : 0; p.ops.push_back(o); pos += c; }
    if (free_) { Op f = mk('F', obj, slot); f.gen = r.chance(.5); p.ops.push_back(f); }
}
static void interleave(Rng& r, vector<vector<Op>>& q, vector<Op>& out, size_t cap) { // keep per-queue order
    vector<size_t> at(q.size(), 0); for (;;) { vector<int> live; for (size_t i = 0; i < q.size(); i++) if (at[i] < q[i].size()) live.push_back((int)i); if (live.empty() || out.size() >= cap) break; int k = r.pick(live); int burst = r.chance(.7) ? 1 : r.range(1, 5); while (burst-- && at[(size_t)k] < q[(size_t)k].size()) out.push_back(q[(size_t)k][at[(size_t)k]++]); }
}
static void corrupt(Rng& r, Obj& o, int& count) {
    int n = o.n(); if (!n) return; int bursts = r.range(1, 3);
    static const vector<double> bad = {NAN, -NAN, INFINITY, -INFINITY, 0.0, -0.0, 1e300, -1e300, DBL_MAX, -DBL_MAX, 5e-324, 1e-310, -1, 1e18, -1e18, 4294967296.0, 2147483648.0, -2147483649.0, 1e9};
    for (int b = 0; b < bursts; b++) { int at = r.chance(.15) ? 0 : r.chance(.15) ? n - 1 : r.below(n), len = r.chance(.6) ? 1 : r.range(1, std::max(1, std::min(n - at, 20))); double v = r.pick(bad); int how = r.below(4); bool allc = r.chance(.4); int one = r.below((int)o.in.size());
        for (int j = at; j < std::min(n, at + len); j++) for (size_t k = 0; k < o.in.size(); k++) { if (!allc && (int)k != one) continue; double& x = o.in[k][(size_t)j]; count++;
            switch (how) { case 0: case 1: x = v; break; case 2: { u64 u; memcpy(&u, &x, 8); u ^= 1ull << r.below(64); memcpy(&x, &u, 8); break; } default: x = r.chance(.5) ? -x : x * (r.chance(.5) ? 1e12 : 1e-12); } } }
}
static void unusual(Rng& r, Obj& o) { // finite but odd: zero, negated, spiked or repeated bars
    int n = o.n(); if (!n) return; int times = r.range(1, 4);
    while (times--) { int at = r.chance(.2) ? n - 1 : r.below(n), len = r.chance(.6) ? 1 : r.range(1, 20), how = r.below(6), one = r.chance(.5) ? -1 : r.below((int)o.in.size()); double f = r.pick<double>({10, .1, 100, 2, .5});
        for (int j = at; j < std::min(n, at + len); j++) for (size_t k = 0; k < o.in.size(); k++) if (one < 0 || one == (int)k) { double& x = o.in[k][(size_t)j]; x = how == 0 ? 0 : how == 1 ? -x : how == 2 ? x * f : how == 3 ? -0.0 : how == 4 ? o.in[k][(size_t)at] : o.in[0][(size_t)j]; } }
}
static void bad_opts(Rng& r, Obj& o) { string n = ti_indicators[o.ind].name; if (o.opt.empty()) return; o.bad = 1; // certainly outside every domain
    size_t k = (size_t)r.below((int)o.opt.size()); (void)k; o.opt[0] = r.chance(.5) ? 0 : -r.range(1, 5);
    if (n == "lag" || n == "lf") o.opt[0] = -r.range(1, 4); if (n == "mama") o.opt[0] = 2; if (n == "mgdyn" || n == "decay" || n == "edecay") { o.bad = 0; o.opt[0] = r.range(1, 9); }
    if (r.chance(.3) && (n == "adosc" || n == "macd" || n == "apo" || n == "ppo" || n == "kvo" || n == "vosc")) { o.opt[0] = 20; o.opt[1] = 5; }
}

static int last_border(int ind, size_t k) { // the largest v in 0..64 such that the library treats v and v+1 differently as option k
    static std::map<std::pair<int, size_t>, int> cache; auto key = std::make_pair(ind, k); auto it = cache.find(key); if (it != cache.end()) return it->second;
    Rng c((u64)ind * 77 + 5); Obj o; o.ind = ind; o.opt = gen_opts(c, ti_indicators[ind].name, ti_indicators[ind].options); o.in.assign((size_t)ti_indicators[ind].inputs, {}); int b = 0; Plan p; p.prop = "start";
    for (int v = 0; v <= 65; v++) { o.opt[k] = v; p.objs.push_back(o); p.ops.push_back(mk('B', v, 0, 0)); }
    Run x = exec_plan(p, Env{}); for (size_t v = 1; v < x.ops.size() && !x.crashed(); v++) if (x.ops[v].rc != x.ops[v - 1].rc) b = (int)v - 1;
    return cache[key] = b;
}
static void edge_opts(Rng& r, Obj& o, bool frac) { // anywhere near the borders of the domains: the library decides whether it accepts
    o.bad = 2; int times = r.range(1, 2); while (times--) { size_t k = (size_t)r.below((int)o.opt.size()); double& x = o.opt[k]; double u = r.uni();
        if (r.chance(.25)) { x = last_border(o.ind, k) + r.range(-1, 3); continue; }
        x = u < .35 ? r.range(0, 4) : u < .6 ? r.range(5, 60) : u < .7 ? r.pick<double>({64, 100, 128, 200, 250, 256, 400}) * (heavy(o.ind) ? .25 : 1) : u < .8 ? -r.range(1, 3) : u < .9 || !frac ? x + r.range(-2, 2) : r.pick<double>({0.5, 1.5, 2.5, 40.5, 0.999, 13.5, -0.5}); }
}
static int calls_many(Rng& r, int ind) { const vector<int>& D = dict_ints(ind); if (!D.empty() && r.chance(.5)) { int c = r.pick(D); if (c <= 400) return c + r.range(1, 30); } return r.chance(.5) ? r.range(60, 140) : r.range(140, 420); }
static Plan gen_plan1(const string& prop, u64 seed, int ind) {
    Rng r(seed); Plan p; p.prop = prop; p.seed = seed; bool S = is_stream(ind); g_hint = g_chunk_hint = 0;
    if (prop == "C01") {
        if (!S) ind = stream_ind(r);
        p.objs.push_back(mkobj(r, ind)); if (r.chance(getenv("ODD") ? 1 : .06)) unusual(r, p.objs[0]); p.env.fill = r.below(2) ? 0 : 3; p.env.urec = r.below(2); int k = p.objs[0].n() > 500 ? 1 : r.range(1, 3);
        for (int i = 0; i < k; i++) add_stream(r, p, 0, i, true);
    } else if (prop == "C02") {
        p.objs.push_back(mkobj(r, ind)); int n = p.objs[0].n(), s = obj_start(p.objs[0]); p.env = rnd_env(r); p.env.reuse = 0;
        for (int len : {n, s, s + 1, r.range(0, std::max(0, s)), r.range(0, n), s - 1}) { Op b = mk('B', 0, 0, std::max(0, std::min(len, n))); b.extra = r.chance(.3) ? r.range(1, 4) : 0; p.ops.push_back(b); }
        p.ops.push_back(mk('Q', 0, 0)); if (S) add_stream(r, p, 0, 1, true);
        if (S && r.chance(.5)) add_stream(r, p, 0, 2, true);
    } else if (prop == "C03" && S && r.chance(.012)) { // a crowd: many streams of one indicator alive at once
        p.env = rnd_env(r); int k = r.chance(.5) ? r.range(40, 70) : r.range(70, 140), no = r.range(1, 3); vector<vector<Op>> q;
        for (int i = 0; i < no; i++) { Obj o = mkobj(r, ind, 60, false, .03); int m = std::min(o.n(), obj_start(o) + 20); for (auto& c : o.in) c.resize((size_t)m); p.objs.push_back(o); }
        vector<Op> a, b, c; for (int i = 0; i < k; i++) { int ob = r.below(no), n = p.objs[(size_t)ob].n(), h = r.range(0, n); a.push_back(mk('N', ob, i)); b.push_back(mk('R', ob, i, h)); c.push_back(mk('R', ob, i, n - h)); if (r.chance(.6)) c.push_back(mk('F', ob, i)); }
        for (auto* v : {&a, &b, &c}) { if (v != &c && r.chance(.5)) for (size_t i = v->size(); i > 1; i--) std::swap((*v)[i - 1], (*v)[(size_t)r.below((int)i)]); p.ops.insert(p.ops.end(), v->begin(), v->end()); }
    } else if (prop == "C03" && r.chance(.015)) { // many calls of one indicator before and between others
        p.env = rnd_env(r); int no = r.range(1, 3), k = g_hint = calls_many(r, ind); for (int i = 0; i < no; i++) { Obj o = mkobj(r, ind, 60, false, .03); int m = std::min(o.n(), obj_start(o) + 20); for (auto& c : o.in) c.resize((size_t)m); p.objs.push_back(o); }
        p.objs.push_back(mkobj(r, ind, 200, false, .03)); vector<vector<Op>> q(2); for (int i = 0; i < k; i++) { int ob = r.below(no), n = p.objs[(size_t)ob].n(); q[0].push_back(mk('B', ob, 200, r.chance(.8) ? n : r.range(0, n))); }
        Plan t; t.objs = p.objs; if (S) add_stream(r, t, no, 0, true); t.ops.push_back(mk('B', no, 200, p.objs[(size_t)no].n())); if (t.ops.size() > 40) t.ops.resize(40); q[1] = t.ops; if (r.chance(.5)) { p.ops = q[0]; p.ops.insert(p.ops.end(), q[1].begin(), q[1].end()); } else interleave(r, q, p.ops, 470);
    } else if (prop == "C03" && S && r.chance(.03)) { // one place in memory, many short lives: streams of one indicator with different options abandoned during or after warm-up
        p.env = rnd_env(r); p.env.reuse = r.pick<int>({1, 2}); int no = r.range(2, 4), k = r.range(3, 12); for (int i = 0; i < no; i++) { Obj o = mkobj(r, ind, 60, false, .05); if (i && r.chance(.4)) o = kin(r, p.objs[0]); p.objs.push_back(o); }
        for (int i = 0; i < k; i++) { int ob = r.below(no), n = p.objs[(size_t)ob].n(), s = std::max(0, obj_start(p.objs[(size_t)ob])); Plan t; t.objs = p.objs; add_stream(r, t, ob, i, true, i == k - 1 || r.chance(.2) ? -1 : r.chance(.6) ? r.range(0, std::min(n, s + 1)) : r.range(0, n)); for (auto& o : t.ops) if (p.ops.size() < 300) p.ops.push_back(o); if (r.chance(.3)) p.ops.push_back(mk('B', ob, 200, n)); }
    } else if (prop == "C04" && r.chance(.2)) { // short calls over and over: what one caller leaves behind at the start of a call meets the next call of another
        p.ntasks = r.chance(.8) ? 2 : 3; p.env = rnd_env(r); int no = r.range(2, 3), slot = 0; for (int i = 0; i < no; i++) { Obj o = mkobj(r, ind, 40, false, .03); if (i && r.chance(.3)) near_opts(r, o, p.objs[0]); int m = std::min(o.n(), std::max(0, obj_start(o)) + r.range(1, 12)); for (auto& c : o.in) c.resize((size_t)m); p.objs.push_back(o); }
        for (int t = 0; t < p.ntasks; t++) { int reps = r.range(2, 5), ob = t < no ? t : r.below(no); while (reps--) { if (r.chance(.15)) ob = r.below(no); int n = p.objs[(size_t)ob].n(); vector<Op> v; if (S && r.chance(.5)) { int h = r.range(0, n); v = {mk('N', ob, slot), mk('R', ob, slot, h), mk('R', ob, slot, n - h), mk('F', ob, slot)}; slot++; } else v = {mk('B', ob, 200, n)}; for (auto& o : v) { o.task = t; p.ops.push_back(o); } } }
    } else if (prop == "C03" || prop == "C04") {
        bool conc = prop == "C04"; int nt = conc ? r.range(2, 4) : 1; p.ntasks = nt; p.env = rnd_env(r); int cap = conc ? 160 : 400;
        vector<vector<Op>> q; int slot = 0; int nobj = r.range(2, conc ? 3 : 5); bool same_ind = r.chance(.6), share = conc && r.chance(.35);
        for (int i = 0; i < nobj; i++) { int k = i == 0 || same_ind ? ind : r.chance(.5) && S ? stream_ind(r) : any_ind(r); Obj o = mkobj(r, k, cap); if (i && same_ind && r.chance(.5)) { o.opt = p.objs[0].opt; o.bad = p.objs[0].bad; } else if (i && same_ind && r.chance(getenv("EDGE") ? 1 : .25)) near_opts(r, o, p.objs[0]); if (i && o.ind == p.objs[0].ind && r.chance(.3)) o = kin(r, p.objs[0]); p.objs.push_back(o); }
        int nq = conc ? nt : r.range(2, 6); for (int i = 0; i < nq; i++) { Plan t; t.objs = p.objs; int reps = conc ? r.range(1, 2) : 1;
            while (reps--) { int ob = share ? 0 : r.below(nobj); if (i < nobj && !share) ob = i; if (is_stream(p.objs[(size_t)ob].ind) && r.chance(.6)) add_stream(r, t, ob, slot++, r.chance(.85), r.chance(.15) ? r.below(p.objs[(size_t)ob].n() + 1) : -1); else { t.ops.push_back(mk('B', ob, 200, r.chance(.8) ? p.objs[(size_t)ob].n() : r.range(0, p.objs[(size_t)ob].n()))); if (r.chance(.2)) t.ops.push_back(mk('Q', ob, 200)); if (!conc && r.chance(.4)) t.ops.push_back(mk('B', ob, 200, p.objs[(size_t)ob].n())); } }
            if (conc && t.ops.size() > 40) t.ops.resize(40); for (auto& o : t.ops) o.task = conc ? i : 0; q.push_back(t.ops); }
        if (conc && r.chance(.25)) { // streams change hands between calls
            interleave(r, q, p.ops, 90); std::map<int, int> to; double mv = r.pick<double>({.1, .4, 1}); for (auto& o : p.ops) if (o.k == 'N' || o.k == 'R' || o.k == 'F') { if (!to.count(o.slot)) to[o.slot] = o.task; else if (r.chance(mv)) to[o.slot] = r.below(nt); o.task = to[o.slot]; }
        } else if (conc) for (auto& v : q) for (auto& o : v) p.ops.push_back(o); else interleave(r, q, p.ops, 200);
    } else if (prop == "C05") { p.objs.push_back(mkobj(r, ind, 200, true, .06, true)); p.env = rnd_env(r); p.ops.push_back(mk('B', 0, 0, p.objs[0].n()));
    } else if (prop == "C06") { if (!S) ind = stream_ind(r); p.objs.push_back(mkobj(r, ind, 170, false, .06, true)); p.objs.push_back(mkobj(r, r.chance(.4) ? ind : stream_ind(r), 120, false)); p.env = rnd_env(r);
        p.ops.push_back(mk('N', 0, 0)); int c = 0; for (int x : gen_chunks(r, p.objs[0].n(), obj_start(p.objs[0]))) { if (++c > 12) break; p.ops.push_back(mk('R', 0, 0, x)); } p.ops.push_back(mk('F', 0, 0));
    } else if (prop == "C07") { p.env = rnd_env(r); int nobj = r.range(1, 3); vector<vector<Op>> q; for (int i = 0; i < nobj; i++) { int k = i && r.chance(.6) ? stream_ind(r) : ind; Obj o = mkobj(r, k, 250, true, .2, true); if (o.bad != 2 && r.chance(.3)) bad_opts(r, o); p.objs.push_back(o); }
        int slot = 0; for (int i = 0; i < nobj; i++) { int reps = r.range(1, 3); while (reps--) { Plan t; t.objs = p.objs; Obj& o = p.objs[(size_t)i]; int n = o.n();
            if (is_stream(o.ind) && r.chance(.65)) { if (o.bad == 1) { t.ops.push_back(mk('N', i, slot)); t.ops.push_back(mk('F', i, slot)); } else add_stream(r, t, i, slot, true, r.chance(.5) ? r.below(n + 1) : -1); slot++; } else t.ops.push_back(mk('B', i, 200, r.chance(.4) ? n : r.range(0, n))); q.push_back(t.ops); } } interleave(r, q, p.ops, 200);
    } else if (prop == "C08") { p.env = Env{}; p.env.seed = r.next() >> 16; p.env2 = rnd_env(r); p.env2.fill = r.range(1, 5); p.env2.scribble = r.range(1, 5); p.env2.prefill = r.range(1, 5); p.env2.reuse = r.range(0, 2);
        p.objs.push_back(mkobj(r, ind, 300, true, .06, true)); bool s2 = S; if (s2) add_stream(r, p, 0, 0, true, r.chance(.2) ? r.below(p.objs[0].n() + 1) : -1); Op b = mk('B', 0, 200, r.chance(.8) ? p.objs[0].n() : r.range(0, p.objs[0].n())); if (r.chance(.5)) p.ops.push_back(b); else p.ops.insert(p.ops.begin(), b);
        vector<Op> pre; int np = r.range(0, 4); for (int i = 0; i < np; i++) { int k = r.chance(.6) ? ind : any_ind(r); Obj o = mkobj(r, k, 200); if (k == ind && r.chance(.4)) { o.opt = p.objs[0].opt; o.bad = p.objs[0].bad; } else if (k == ind && r.chance(.25)) near_opts(r, o, p.objs[0]); if (k == ind && r.chance(.4)) { vector<double> op = o.opt; int bd = o.bad; bool keep = r.chance(.3); o = kin(r, p.objs[0]); if (keep) { o.opt = op; o.bad = bd; } } p.objs.push_back(o); int ob = (int)p.objs.size() - 1; Plan t; t.objs = p.objs; if (is_stream(k) && r.chance(.6)) add_stream(r, t, ob, 100 + i, r.chance(.9)); else t.ops.push_back(mk('B', ob, 200, o.n())); for (auto& o2 : t.ops) { o2.pre = 1; if (pre.size() < 150) pre.push_back(o2); } }
        if (r.chance(.012)) { Obj o = mkobj(r, ind, 60, false, .03); int m = std::min(o.n(), obj_start(o) + 20); for (auto& c : o.in) c.resize((size_t)m); p.objs.push_back(o); int k = calls_many(r, ind), ob = (int)p.objs.size() - 1, np2 = r.range(1, k - 1); pre.clear(); for (int i = 0; i < k; i++) { Op c = mk('B', ob, 200, r.chance(.9) ? m : r.range(0, m)); c.pre = i < np2; (c.pre ? pre : p.ops).push_back(c); } }
        if (r.chance(.3)) { vector<vector<Op>> q = {pre, p.ops}; p.ops.clear(); interleave(r, q, p.ops, 400); } else p.ops.insert(p.ops.begin(), pre.begin(), pre.end());
    } else if (prop == "C09") { p.env = rnd_env(r); if (r.chance(.6)) p.env.reuse = 0; Obj o = mkobj(r, ind, 600, true, .3, true);
        p.objs.push_back(o); int n = o.n(), s = obj_start(o);
        if (S) { add_stream(r, p, 0, 0, true); if (r.chance(.3)) add_stream(r, p, 0, 1, true, r.below(n + 1)); }
        for (int len : {n, s, s + 1, s + 2, r.range(0, n), r.range(0, std::min(n, 4))}) if (len <= n && len >= 0) p.ops.push_back(mk('B', 0, 200, len));
    } else if (prop == "C10") { p.env.fill = r.below(2) ? 0 : 3; p.env.urec = r.below(2); Obj o = mkobj(r, ind, r.chance(.02) ? 2000 : 600, false); if (r.chance(getenv("ODD") ? 1 : .06)) unusual(r, o); int n = o.n(), s = obj_start(o); Obj alt = gen_obj(r, ind, n + r.range(0, 40), r.below(10)); alt.opt = o.opt; int mark = n > 20000 && r.chance(.5) ? r.pick<int>({32768, 50000, 65536, r.range(0, n)}) + r.range(-3, 3) : r.chance(.3) ? std::min(n, std::max(0, s + r.range(-2, 3))) : g_hint && n > g_hint && r.chance(.6) ? std::min(n, g_hint + r.range(-3, 3)) : r.range(0, n); 
        for (size_t k = 0; k < alt.in.size(); k++) for (int j = 0; j < mark && j < alt.n(); j++) alt.in[k][(size_t)j] = o.in[k][(size_t)j];
        p.objs = {o, alt}; p.mark = std::min(mark, alt.n()); int inc = n > 20000 ? 2 : r.range(2, 4);
        for (int i = 0; i < inc; i++) { int ob = i && r.chance(.4) ? 1 : 0; int m = p.objs[(size_t)ob].n(); bool st = S && r.chance(.6); int upto = i == inc - 1 ? m : m > 900 && i == 0 && r.chance(.5) ? (int)(m * std::pow(.02, r.uni())) : r.chance(.5) ? std::min(m, std::max(0, mark + r.range(0, 3))) : r.range(0, m);
            if (st) add_stream(r, p, ob, i, false, upto); if (!st || r.chance(.4)) p.ops.push_back(mk('B', ob, 200, r.chance(.3) ? std::min(m, std::max(0, upto - 1)) : upto)); p.ops.push_back(mk('X', 0, 0)); }
    } else if (prop == "C11") { p.env = rnd_env(r); Obj o = mkobj(r, ind, 250, false); Obj c = o; int cnt = 0; corrupt(r, c, cnt); ST.corrupt += (u64)cnt; p.objs = {o, c}; int k = r.chance(.5) && S ? ind : any_ind(r); p.objs.push_back(mkobj(r, k, 150, false));
        vector<vector<Op>> q; Plan t; t.objs = p.objs; if (S) { add_stream(r, t, 1, 0, true); if (t.ops.size() > 60) { Op f = t.ops.back(); t.ops.resize(60); t.ops.push_back(f); } q.push_back(t.ops); t.ops.clear(); } t.ops.push_back(mk('B', 1, 200, o.n())); q.push_back(t.ops); t.ops.clear();
        if (is_stream(k)) add_stream(r, t, 2, 1, true); else t.ops.push_back(mk('B', 2, 200, p.objs[2].n())); q.push_back(t.ops); interleave(r, q, p.ops, 150); t.ops.clear();
        if (S) add_stream(r, t, 0, 2, true); else t.ops.push_back(mk('B', 0, 200, o.n())); if (t.ops.size() > 60) t.ops.resize(60); for (auto& x : t.ops) p.ops.push_back(x);
    }
    return p;
}
Plan gen_plan(const string& prop, u64 seed, int ind) {
    Plan p = gen_plan1(prop, seed, ind); Rng r(seed ^ 0x7eef);
    if (prop != "C01" && prop != "C10" && prop != "C11" && r.chance(getenv("ODD") ? 1 : .08)) { int c = 0; bool all = r.chance(.3); for (auto& o : p.objs) if (all || r.chance(.5)) { if (r.chance(.5)) corrupt(r, o, c); else unusual(r, o); } ST.corrupt += (u64)c; } // the data themselves are nobody's fault here
    static const std::set<string> with_ref = {"C02", "C03", "C04", "C07", "C08", "C09", "C10", "C11"}; // reference implementations: ordinary options
    if (with_ref.count(prop) && r.chance(getenv("REF") ? 1 : .15)) for (auto& o : p.ops) { Obj& b = p.objs[(size_t)o.obj]; if (o.k == 'B' && ti_indicators[b.ind].indicator_ref && !b.bad && r.chance(.7)) o.ref = 1; }
    return p;
}
vector<Plan> expand_plan(const Plan& p) {
    Rng r(p.seed ^ 0x5555); vector<Plan> out;
    if (p.prop == "C05") { Run a = exec_plan(p, p.env); if (a.crashed() || a.ops[0].rc != 0) { ST.rejected++; return {}; } int K = (int)a.ops[0].allocs; if (!K) return {p}; 
        int lim = 14; Plan q = p; auto flush = [&] { q.ops.push_back(p.ops[0]); out.push_back(q); q = p; }; vector<Fault> fs; 
        for (int n = 0; n < std::min(K, 60); n++) fs.push_back(Fault{1, n, 0}); if (K > 60) for (int i = 0; i < 20; i++) fs.push_back(Fault{1, r.range(60, K - 1), 0});
        for (int n = 0; n < std::min(K, 4); n++) fs.push_back(Fault{2, n, 0}); if (K > 4) fs.push_back(Fault{2, r.below(K), 0}); for (int i = 0; i < 2 && K > 1; i++) fs.push_back(Fault{3, 0, r.next() & r.next()});
        int c = 0; for (auto& f : fs) { Op o = p.ops[0]; o.f = f; q.ops.push_back(o); if (++c % lim == 0) flush(); } if (q.ops.size() > 1) flush(); return out; }
    if (p.prop == "C06") { Run a = exec_plan(p, p.env); if (a.crashed()) { ST.baseline_dead++; return {}; } if (a.ops[0].rc != 0) { ST.rejected++; return {}; } int K = (int)a.ops[0].allocs;
        vector<Fault> fs; for (int n = 0; n < std::min(K, 40); n++) fs.push_back(Fault{1, n, 0}); for (int n = 0; n < std::min(K, 3); n++) fs.push_back(Fault{2, n, 0}); if (K > 1) fs.push_back(Fault{3, 0, r.next()});
        Plan q = p; q.ops.clear(); Op bn = p.ops[0]; bn.obj = 1; bn.slot = 9; q.ops.push_back(bn); int half = p.objs[1].n() / 2; Op br = bn; br.k = 'R'; br.len = half; q.ops.push_back(br);
        for (auto& f : fs) { Op o = p.ops[0]; o.f = f; q.ops.push_back(o); } for (auto& o : p.ops) q.ops.push_back(o);
        int slot = 20, made = 0; for (size_t i = 1; i < p.ops.size() && made < 6; i++) if (p.ops[i].k == 'R' && a.ops[i].allocs) { int na = (int)a.ops[i].allocs; for (int rep = 0; rep < 2 && made < 6; rep++, made++) { Fault f{rep ? 2 : 1, r.below(na), 0}; slot++; for (size_t j = 0; j < p.ops.size(); j++) { Op o = p.ops[j]; o.slot = slot; if (j == i) o.f = f; q.ops.push_back(o); } } }
        // sparse faults on runs even where the clean run did not allocate: probes that allocation-free stays allocation-free
        Op b2 = br; b2.len = p.objs[1].n() - half; q.ops.push_back(b2); b2.k = 'F'; q.ops.push_back(b2); if (q.ops.size() > 480) q.ops.resize(480); return {q}; }
    if (p.prop == "C04") { vector<u64> len((size_t)p.ntasks, 0); vector<vector<u64>> hot((size_t)p.ntasks); 
        bool moved = false; { std::map<int, int> ow; for (auto& o : p.ops) if (o.k != 'B' && o.k != 'Q') moved |= ow.emplace(o.slot, o.task).first->second != o.task; }
        if (moved) { Plan q = p; q.ntasks = 1; q.sws.clear(); for (auto& o : q.ops) o.task = 0; Run a = exec_plan(q, p.env); if (a.crashed()) { ST.baseline_dead++; return {}; } u64 base = 0;
            for (size_t i = 0; i < a.ops.size(); i++) { auto& x = a.ops[i]; size_t t = (size_t)p.ops[i].task; for (u32 k = 0; k < std::min(4u, x.n_global); k++) hot[t].push_back(len[t] + (x.first_global_step[k] > base ? x.first_global_step[k] - base : 0)); base += x.steps; len[t] += x.steps; }
        } else for (int t = 0; t < p.ntasks; t++) { Plan q = p; q.ops.clear(); q.ntasks = 1; q.sws.clear(); for (auto& o : p.ops) if (o.task == t) { q.ops.push_back(o); q.ops.back().task = 0; } Run a = exec_plan(q, p.env); if (a.crashed()) { ST.baseline_dead++; return {}; } len[(size_t)t] = a.steps; u64 base = 0; for (auto& x : a.ops) { if (x.n_global) for (u32 k = 0; k < std::min(4u, x.n_global); k++) hot[(size_t)t].push_back(x.first_global_step[k]); base += x.steps; } }
        for (int v = 0; v < 5; v++) { Plan q = p; q.quantum = r.chance(.3) ? (u64)r.range(50, 3000) : 200000; int k = v == 0 ? 1 : r.range(1, 8);
            for (int i = 0; i < k; i++) { int t = r.below(p.ntasks); if (!len[(size_t)t]) continue; u64 at; if (!hot[(size_t)t].empty() && r.chance(.7)) at = r.pick(hot[(size_t)t]) + (u64)r.range(0, r.chance(.5) ? 3 : 12); else at = r.next() % len[(size_t)t]; int to = r.below(p.ntasks); q.sws.push_back(Sw{t, at, to}); }
            if (v == 4) { u64 st = 1 + r.next() % 97; for (u64 s = st; s < len[0] && q.sws.size() < 120; s += 1 + r.next() % (2 * len[0] / 100 + 2)) q.sws.push_back(Sw{0, s, 1}); }
            out.push_back(q); }
        return out; }
    if (p.prop == "C11") { Plan c = p; c.objs[1] = p.objs[0]; Run a = exec_plan(c, p.env); if (a.crashed()) { ST.baseline_dead++; return {}; } u64 m = 0; for (auto& x : a.ops) m = std::max(m, x.steps); Plan q = p; q.budget = m * 50 + 200000; return {q}; }
    return {p};
}
// ---------------------------------------------------------------- minimisation
Plan minimise(const Plan& p0, const string& key, int budget) {
    Plan best = p0; int used = 0; auto ok = [&](const Plan& q) { if (used >= budget) return false; used++; Verdict v = judge(q); return v.bad && v.key == key; };
    auto drop_list = [&](auto get) { bool any = false; auto n = get(best).size(); for (size_t chunk = std::max<size_t>(1, n / 2); ; chunk /= 2) { for (size_t i = 0; i < get(best).size() && used < budget;) { Plan q = best; auto& l = get(q); auto e = std::min(l.size(), i + chunk); l.erase(l.begin() + (long)i, l.begin() + (long)e); if (ok(q)) { best = q; any = true; } else i += chunk; } if (chunk <= 1) break; } return any; };
    for (auto& o : p0.objs) if (o.n() > 20000) budget = std::min(budget, 60);
    for (int round = 0; round < 3 && used < budget; round++) {
        bool any = false;
        any |= drop_list([](Plan& q) -> vector<Sw>& { return q.sws; });
        any |= drop_list([](Plan& q) -> vector<Op>& { return q.ops; });
        for (size_t i = 0; i < best.ops.size(); i++) { Plan q = best; if (q.ops[i].f.mode) { q.ops[i].f = Fault{}; if (ok(q)) { best = q; any = true; } } if (best.ops[i].gen) { q = best; q.ops[i].gen = 0; if (ok(q)) best = q; } if (best.ops[i].extra) { q = best; q.ops[i].extra = 0; if (ok(q)) best = q; } }
        // shorter pieces
        for (size_t i = 0; i < best.ops.size() && used < budget; i++) for (int step = best.ops[i].len; step > 0 && used < budget; step /= 2) while (best.ops[i].len >= step) { Plan q = best; q.ops[i].len -= step; if (ok(q)) { best = q; any = true; } else break; }
        // truncate histories to what is used
        for (size_t b = 0; b < best.objs.size(); b++) for (int step = best.objs[b].n() / 2; step > 0 && used < budget; step /= 2) while (best.objs[b].n() >= step && step > 0) { Plan q = best; int n = q.objs[b].n() - step; for (auto& c : q.objs[b].in) c.resize((size_t)n); if (q.prop == "C11" && b < 2) { size_t ob = 1 - b; for (auto& c : q.objs[ob].in) c.resize(std::min(c.size(), (size_t)n)); } if (ok(q)) { best = q; any = true; } else break; }
        // simpler environment and data
        { Plan q = best; Env e; e.seed = q.env.seed; q.env = e; if (ok(q)) best = q; }
        for (size_t b = 0; b < best.objs.size() && used < budget; b++) for (auto f : {1.0, 1e3}) { Plan q = best; for (auto& c : q.objs[b].in) for (auto& x : c) if (std::isfinite(x) && std::fabs(x) < 1e9) x = std::floor(x * f + .5) / f; if (q.prop == "C10" || q.prop == "C11") for (size_t ob = 0; ob < 2 && ob < q.objs.size(); ob++) for (auto& c : q.objs[ob].in) for (auto& x : c) if (std::isfinite(x) && std::fabs(x) < 1e9) x = std::floor(x * f + .5) / f; if (ok(q)) { best = q; break; } }
        if (!any) break;
    }
    // drop objects nothing refers to (keep indices stable by renumbering), except roles fixed by position
    if (best.prop != "C10" && best.prop != "C11") { std::map<int,int> ren; Plan q = best; q.objs.clear(); for (auto& o : q.ops) { if (!ren.count(o.obj)) { ren[o.obj] = (int)q.objs.size(); q.objs.push_back(best.objs[(size_t)o.obj]); } o.obj = ren[o.obj]; } if (!q.objs.empty() && ok(q)) best = q; else if (!q.objs.empty()) { used = 0; if (ok(q)) best = q; } }
    return best;
}
