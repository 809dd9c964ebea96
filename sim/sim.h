#pragma once
#include "rt.h"
#include <array>
#include <map>
#include <set>
#include <functional>
#include <cmath>
#include <climits>
#include "indicators.h"

struct Rng { u64 s; explicit Rng(u64 x) : s(rt_mix(x)) {} u64 next() { s += 0x9e3779b97f4a7c15ull; return rt_mix(s); }
    int below(int n) { return n <= 0 ? 0 : (int)(next() % (u64)n); } int range(int a, int b) { return a + below(b - a + 1); }
    double uni() { return (double)(next() >> 11) / 9007199254740992.0; } bool chance(double p) { return uni() < p; } 
    template<class T> const T& pick(const std::vector<T>& v) { return v[(size_t)below((int)v.size())]; } };

struct Obj { int ind = 0; int bad = 0; std::vector<double> opt; std::vector<std::vector<double>> in; int n() const { return in.empty() ? 0 : (int)in[0].size(); } };
struct Op { char k = 'B'; int task = 0, obj = 0, slot = 0, len = 0, from = 0; int gen = 0, extra = 0, pre = 0, ref = 0; Fault f; };
struct Sw { int task; u64 step; int to; };
struct Plan { std::string prop; u64 seed = 0; Env env, env2; u64 quantum = 200000; int ntasks = 1; std::vector<Obj> objs; std::vector<Op> ops; std::vector<Sw> sws;
    int mark = 0; u64 budget = 0; std::string note; };

struct Verdict { bool bad = false; std::string key, detail; };

// op kinds: N stream_new, R stream_run, F stream_free, B batch, Q catalogue lookup, X crash
struct Run {             // a copy of one execution's results
    int state = 0, sig = 0; u64 pc = 0, addr = 0; int crash_op = -1; std::vector<Viol> viol; std::vector<OpRes> ops; std::vector<double> out;
    u64 hash = 0, steps = 0, switches = 0, sw_hash = 0, allocs = 0, fails = 0;
    bool crashed() const { return state != 1; }
};
Run exec_plan(const Plan& p, const Env& e);
std::string plan_text(const Plan& p);
bool plan_parse(const std::string& s, Plan& p);
std::vector<double> gen_opts(Rng& r, const std::string& name, int nopt);
Obj gen_obj(Rng& r, int ind, int n, int regime);
int gen_len(Rng& r, int start, int cap);
std::vector<int> gen_chunks(Rng& r, int n, int start);
int obj_start(const Obj& o);
void dict_load(const std::string& file);                 // numbers written in the sources, tried as periods, lengths, chunk sizes, call counts and levels
const std::vector<int>& dict_ints(int ind); const std::vector<double>& dict_reals(int ind);
extern int g_hint, g_chunk_hint;                         // number picked for the plan being generated (0: none)
extern bool g_marathon;                                  // this plan's history passes 65536 bars (counters of narrow types)
bool is_stream(int ind);

Plan gen_plan(const std::string& prop, u64 seed, int ind);
std::vector<Plan> expand_plan(const Plan& p);   // concrete fault variants of a base plan
Verdict judge(const Plan& p);
Plan minimise(const Plan& p, const std::string& key, int budget);

struct Stats { u64 execs = 0, episodes = 0, bars = 0, steps = 0, switches = 0, allocs = 0, fails = 0, crashes = 0, corrupt = 0, ops = 0, illcond = 0, compared = 0, rejected = 0, cancels = 0, chunks = 0, zero_chunks = 0, badopts = 0, envs = 0, skipped = 0, baseline_dead = 0; };
extern Stats ST;
extern std::set<u64> SHAPES;   // distinct non-trivial schedules seen by this worker
