// Driver: seeded batches over worker processes, gating, minimisation, replay.
#include "sim.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <malloc.h>
#include <time.h>
#include <algorithm>
#include <fstream>
#include <sstream>
using std::string; using std::vector;
void set_thorough(bool);
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static string slurp(const string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spit(const string& f, const string& s) { std::ofstream o(f); o << s; }
static u64 hash_str(const string& s) { u64 h = 1469598103934665603ull; for (char c : s) h = (h ^ (u8)c) * 0x100000001b3ull; return h; }
static u64 run_hash(const Plan& p) { Run a = exec_plan(p, p.env); return a.hash ^ rt_mix(a.steps) ^ rt_mix(a.sw_hash + 1) ^ rt_mix((u64)a.sig + 7) ; }
static string js(const string& s) { string o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((u8)c < 32) o += ' '; else o += c; } return o + "\""; }
static u64 shape_of(const Plan& p) { // schedule/fault shape, independent of data values
    std::ostringstream o; for (auto& b : p.objs) { o << b.ind << ","; for (double d : b.opt) o << d << ","; } for (auto& x : p.ops) o << x.k << x.task << x.obj << "." << x.slot << "." << x.len << "." << x.f.mode << x.f.n << ";"; for (auto& s : p.sws) o << s.task << ":" << s.step << ">" << s.to << ";"; o << p.env.fill << p.env.reuse; return hash_str(o.str()); }
static u64 episode_seed(u64 seed, const string& prop, u64 i) { return rt_mix(rt_mix(seed * 1000003 + hash_str(prop)) + i); }
static void write_stats(const string& f, const Stats& s) { std::ofstream o(f, std::ios::binary); o.write((const char*)&s, sizeof s); }
static void setup(bool cov) { rt_init(); SHM = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0); if (cov) g_cov = (u8*)mmap(nullptr, COV_SIZE, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0); if (SHM == MAP_FAILED) { perror("mmap"); exit(3); } }

struct Found { u64 ep; string key, detail, plan; };
static void worker(int w, int W, const string& prop, u64 seed, u64 from, u64 n, double wall, const string& dir, bool log) {
    setup(true); double t0 = now(); std::set<string> seen; std::ofstream out(dir + "/w" + std::to_string(w) + ".found"); u64 last = 0, samples = 0; bool capped = false;
    std::ofstream lg; if (log) lg.open(dir + "/w" + std::to_string(w) + ".log");
    u64 bads = 0, hangs = 0; std::set<string> known; if (const char* k = getenv("TISIM_KNOWN")) { std::istringstream ks(k); string l; while (std::getline(ks, l, ';')) known.insert(l); }
    vector<u64> per(TI_INDICATOR_COUNT, 0);
    vector<int> perm; for (int i = 0; i < TI_INDICATOR_COUNT; i++) perm.push_back(i); { Rng r(seed ^ 99); for (size_t i = perm.size(); i > 1; i--) std::swap(perm[i - 1], perm[(size_t)r.below((int)i)]); }
    if (const char* only = getenv("TISIM_ONLY")) { vector<int> q; for (int i : perm) if (ti_indicators[i].name == string(only)) q.push_back(i); perm = q; } // development aid
    if (prop == "C01" || prop == "C06") { vector<int> q; for (int i : perm) if (is_stream(i)) q.push_back(i); perm = q; }
    if (perm.empty()) { fprintf(stderr, "no such indicator\n"); exit(3); }
    for (u64 i = from + (u64)w; i < from + n; i += (u64)W) {
        if (now() - t0 > wall) { capped = true; break; }
        if (bads >= 40 || hangs >= 2) { capped = true; break; } // enough to report; do not spend the budget on one defect
        int ind = perm[(size_t)((i * 7919) % perm.size())]; if (perm.size() % 7919 == 0) ind = perm[(size_t)(i % perm.size())];
        static const std::set<string> far = {"C01", "C02", "C09", "C10"}; g_marathon = far.count(prop) && i / perm.size() >= 2 && i / perm.size() < (prop == "C01" ? 6u : prop == "C10" ? 4u : 3u); // each indicator in turn
        u64 es = episode_seed(seed, prop, i); Plan p = gen_plan(prop, es, ind); bool was_far = g_marathon || (!p.objs.empty() && p.objs[0].n() > 20000); g_marathon = false; ST.episodes++; per[(size_t)ind]++; last = i;
        for (auto& q : expand_plan(p)) { u64 b0 = ST.bars; Verdict v = judge(q); if (ST.bars > b0) SHAPES.insert(shape_of(q));
            if (log) lg << i << " " << (v.bad ? v.key : "ok") << " " << std::hex << run_hash(q) << std::dec << "\n";
            if (samples < 1 && q.ops.size() < 12 && q.objs[0].n() && q.objs[0].n() < 12) { samples++; spit(dir + "/w" + std::to_string(w) + ".sample", plan_text(q)); }
            if (v.bad && !known.count(prop + " " + v.key)) { bads++; hangs += v.key.rfind("unbounded", 0) == 0; }
            if (v.bad && seen.insert(v.key).second) { string f = dir + "/raw-" + std::to_string(i) + "-" + std::to_string(hash_str(v.key) % 100000) + ".plan"; spit(f, plan_text(q)); out << i << "\t" << v.key << "\t" << v.detail << "\t" << f << std::endl; } }
        if (was_far) malloc_trim(0); // or every later fork copies the page tables of what it needed
    }
    write_stats(dir + "/w" + std::to_string(w) + ".stats", ST);
    { std::ofstream o(dir + "/w" + std::to_string(w) + ".shapes", std::ios::binary); for (u64 h : SHAPES) o.write((const char*)&h, 8); }
    { std::ofstream o(dir + "/w" + std::to_string(w) + ".cov", std::ios::binary); o.write((const char*)g_cov, COV_SIZE); }
    { std::ofstream o(dir + "/w" + std::to_string(w) + ".per", std::ios::binary); o.write((const char*)per.data(), (long)(per.size() * 8)); }
    { std::ofstream o(dir + "/w" + std::to_string(w) + ".done"); o << last << " " << capped << "\n"; }
}
static int cmd_run(int argc, char** argv) { // run PROP SEED FROM N WORKERS WALL DIR [log]
    string prop = argv[2]; u64 seed = strtoull(argv[3], 0, 10), from = strtoull(argv[4], 0, 10), n = strtoull(argv[5], 0, 10); int W = atoi(argv[6]); double wall = atof(argv[7]); string dir = argv[8]; bool log = argc > 9;
    vector<pid_t> ps; for (int w = 0; w < W; w++) { fflush(stdout); pid_t c = fork(); if (!c) { worker(w, W, prop, seed, from, n, wall, dir, log); fflush(stdout); _exit(0); } ps.push_back(c); }
    int bad = 0; for (pid_t c : ps) { int st; waitpid(c, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = 1; }
    if (bad) { fprintf(stderr, "a worker failed\n"); return 3; }
    Stats T; std::set<u64> shapes; vector<u8> cov(COV_SIZE, 0); vector<u64> per(TI_INDICATOR_COUNT, 0); bool capped = false; vector<Found> fs; string sample;
    for (int w = 0; w < W; w++) { string b = dir + "/w" + std::to_string(w); Stats s; { std::ifstream i(b + ".stats", std::ios::binary); i.read((char*)&s, sizeof s); } u64* a = (u64*)&T; u64* c = (u64*)&s; for (size_t k = 0; k < sizeof(Stats) / 8; k++) a[k] += c[k];
        string sh = slurp(b + ".shapes"); for (size_t k = 0; k + 8 <= sh.size(); k += 8) { u64 h; memcpy(&h, sh.data() + k, 8); shapes.insert(h); } string cv = slurp(b + ".cov"); for (size_t k = 0; k < cv.size() && k < COV_SIZE; k++) cov[k] |= (u8)cv[k];
        string pr = slurp(b + ".per"); for (size_t k = 0; k * 8 + 8 <= pr.size(); k++) { u64 h; memcpy(&h, pr.data() + k * 8, 8); per[k] += h; } { std::ifstream i(b + ".done"); u64 l; int cp; i >> l >> cp; if (cp) capped = true; }
        if (sample.empty()) sample = slurp(b + ".sample");
        std::ifstream f(b + ".found"); string line; while (std::getline(f, line)) { std::istringstream l(line); string e; Found x; std::getline(l, e, '\t'); x.ep = strtoull(e.c_str(), 0, 10); std::getline(l, x.key, '\t'); std::getline(l, x.detail, '\t'); std::getline(l, x.plan, '\t'); fs.push_back(x); } }
    std::sort(fs.begin(), fs.end(), [](const Found& a, const Found& b) { return a.ep < b.ep || (a.ep == b.ep && a.key < b.key); });
    u64 covn = 0; for (u8 x : cov) covn += x; u64 inds = 0; for (u64 x : per) inds += x > 0;
    printf("{\"episodes\":%lu,\"execs\":%lu,\"bars\":%lu,\"steps\":%lu,\"ops\":%lu,\"chunks\":%lu,\"zero_chunks\":%lu,\"switches\":%lu,\"allocs\":%lu,\"alloc_failures\":%lu,\"incarnations\":%lu,\"corrupted_cells\":%lu,\"illcond\":%lu,\"compared\":%lu,\"rejected\":%lu,\"env_variants\":%lu,\"skipped_ops\":%lu,\"baseline_dead\":%lu,\"shapes\":%lu,\"blocks_covered\":%lu,\"indicators\":%lu,\"capped\":%s,\"sample\":%s,\"found\":[",
        T.episodes, T.execs, T.bars, T.steps, T.ops, T.chunks, T.zero_chunks, T.switches, T.allocs, T.fails, T.crashes, T.corrupt, T.illcond, T.compared, T.rejected, T.envs, T.skipped, T.baseline_dead, (u64)shapes.size(), covn, inds, capped ? "true" : "false", js(sample).c_str());
    std::set<string> seen; bool first = true; for (auto& f : fs) if (seen.insert(f.key).second) { printf("%s{\"episode\":%lu,\"key\":%s,\"detail\":%s,\"plan\":%s}", first ? "" : ",", f.ep, js(f.key).c_str(), js(f.detail).c_str(), js(f.plan).c_str()); first = false; }
    printf("]}\n"); return 0;
}
int main(int argc, char** argv) {
    if (argc < 3) { fprintf(stderr, "usage: tisim run|replay|min|gen ...\n"); return 2; }
    string c = argv[1]; { string e = argv[0]; size_t k = e.rfind('/'); dict_load((k == string::npos ? string(".") : e.substr(0, k)) + "/dict.txt"); }
    if (c == "run") return cmd_run(argc, argv);
    setup(false);
    if (c == "replay") { Plan p; if (!plan_parse(slurp(argv[2]), p)) { fprintf(stderr, "bad plan\n"); return 2; } Verdict v = judge(p); printf("{\"bad\":%s,\"key\":%s,\"detail\":%s,\"hash\":\"%lx\"}\n", v.bad ? "true" : "false", js(v.key).c_str(), js(v.detail).c_str(), run_hash(p)); return v.bad ? 1 : 0; }
    if (c == "min") { Plan p; if (!plan_parse(slurp(argv[2]), p)) return 2; Verdict v = judge(p); if (!v.bad) { printf("{\"bad\":false}\n"); return 0; } Plan m = minimise(p, v.key, argc > 4 ? atoi(argv[4]) : 400); Verdict w = judge(m); spit(argv[3], "# property " + m.prop + "\n# violation " + w.key + "\n# " + w.detail + "\n" + plan_text(m)); printf("{\"bad\":%s,\"key\":%s,\"detail\":%s,\"hash\":\"%lx\"}\n", w.bad ? "true" : "false", js(w.key).c_str(), js(w.detail).c_str(), run_hash(m)); return 0; }
    if (c == "gen") { Plan p = gen_plan(argv[2], strtoull(argv[3], 0, 10), atoi(argv[4])); for (auto& q : expand_plan(p)) printf("%s----\n", plan_text(q).c_str()); return 0; }
    return 2;
}
