// Seeded generation of options, bar histories and chunk schedules.
#include "sim.h"
#include <algorithm>
#include <fstream>
using std::string; using std::vector;

int g_hint = 0, g_chunk_hint = 0; bool g_marathon = false;
static std::map<string, vector<int>> g_di; static std::map<string, vector<double>> g_dr;
void dict_load(const string& file) { std::ifstream i(file); string n; while (i >> n) { int k; i >> k; vector<int> a((size_t)k); for (auto& x : a) i >> x; i >> k; vector<double> b((size_t)k); for (auto& x : b) i >> x; g_di[n] = a; g_dr[n] = b; } }
template<class M> static const typename M::mapped_type& dict_of(M& m, int ind) { // own numbers and the shared ones
    static std::map<int, typename M::mapped_type> c; auto it = c.find(ind); if (it != c.end()) return it->second; auto v = m[ti_indicators[ind].name]; auto& s = m["*"]; v.insert(v.end(), s.begin(), s.end()); return c[ind] = v; }
const vector<int>& dict_ints(int ind) { return dict_of(g_di, ind); }
const vector<double>& dict_reals(int ind) { return dict_of(g_dr, ind); }

static int P(Rng& r, int lo = 1, int hi = 70) {
    int v; double u = r.uni();
    if (hi >= 70 && r.chance(.015)) return r.pick<int>({64, 65, 100, 127, 128, 129, 200, 250, 256, 257}); if (hi >= 20 && u > 0.985) return r.range(hi, 4 * hi);
    if (u < 0.22) v = r.range(1, 3); else if (u < 0.7) v = r.range(3, 12); else if (u < 0.95) v = r.range(13, 30); else v = r.range(31, 70);
    return std::max(lo, std::min(hi, v));
}
vector<double> gen_opts(Rng& r, const string& n, int nopt) {
    if (!nopt) return {};
    auto is = [&](std::initializer_list<const char*> l) { for (auto s : l) if (n == s) return true; return false; };
    if (is({"adosc","kvo","vosc"})) { int s = P(r, 1, 30); return {(double)s, (double)(s + (r.chance(.2) ? 0 : r.range(1, 20)))}; }
    if (is({"apo","ppo"})) { int s = P(r, 1, 30); return {(double)s, (double)std::max(2, s + (r.chance(.15) ? 0 : r.range(1, 20)))}; }
    if (n == "macd") { int s = P(r, 1, 30); return {(double)s, (double)std::max(2, s + (r.chance(.15) ? 0 : r.range(1, 20))), (double)P(r, 1, 20)}; }
    if (n == "vidya") { int s = P(r, 1, 20); return {(double)s, (double)std::max(2, s + r.range(0, 15)), r.pick<double>({0.2, 0.0, 1.0, 0.5, r.uni()})}; }
    if (n == "copp") { int s = P(r, 1, 20); return {(double)s, (double)(s + r.range(0, 12)), (double)P(r, 1, 20)}; }
    if (n == "ultosc") { int s = P(r, 1, 15), m = s + r.range(0, 10); return {(double)s, (double)m, (double)(m + r.range(0, 12))}; }
    if (n == "kst") { int a = r.range(1, 8); double b = a + r.range(1, 5), c = b + r.range(1, 5), d = c + r.range(1, 5); return {(double)a, b, c, d, (double)P(r, 1, 15), (double)P(r, 1, 15), (double)P(r, 1, 15), (double)P(r, 1, 15)}; }
    if (n == "ichi") { int a = r.range(1, 10), b = a + r.range(0, 12), c = b + r.range(0, 20); return {(double)a, (double)b, (double)c}; }
    if (is({"bf2","bf3","gf1","gf2","gf3","gf4"})) return {(double)(2 * r.range(1, 20))};
    if (n == "frama") return {(double)(2 * r.range(1, 16)), (double)r.range(2, 40)};
    if (n == "rmf") return {(double)P(r, 1, 48), (double)(2 * r.range(0, 8) + 1)};
    if (n == "hwma") return {(double)r.range(7, 13)};
    if (n == "swma") { for (;;) { int p = P(r); if (p % 6 && (p + 1) % 6) return {(double)p}; } }
    if (is({"adx","adxr"})) return {(double)P(r, 2, 20)};
    if (is({"stochrsi","hurst"})) return {(double)P(r, 2, 30)};
    if (n == "psar") { double s = r.pick<double>({0.02, 0.01, 0.05, 0.1}); return {s, s * r.range(2, 12)}; }
    if (n == "mama") { double f = r.pick<double>({0.5, 0.8, 0.3, 1.0}), s = r.pick<double>({0.05, 0.01, 0.1}); return {f, s}; }
    if (n == "edcf") return {(double)r.range(1, 7)};
    if (n == "idwma") return {(double)P(r, 1, 16), (double)r.range(1, 2)};
    if (n == "pwma") return {(double)P(r, 1, 16), (double)r.range(1, 3)};
    if (n == "evwma") return {(double)P(r), r.pick<double>({1.0, 2.0, 0.5, 10.0})};
    if (n == "lf") return {r.pick<double>({0.8, 0.2, 0.5, 0.0, 0.95})};
    if (n == "rema") return {(double)P(r), r.pick<double>({0.5, 0.0, 1.0, 2.0})};
    if (n == "kc") return {(double)P(r), r.pick<double>({1.0, 2.0, 0.0, 1.5})};
    if (n == "t3") return {(double)P(r), r.pick<double>({0.7, 0.77, 0.0, 1.0})};
    if (n == "arsi") return {r.pick<double>({0.5, 1.0, 0.25, 0.8})};
    if (n == "lag") return {(double)r.range(0, 20)};
    if (n == "hf") return {(double)r.range(1, 12), r.pick<double>({1.0, 0.5, 0.0, 3.0, 2.0})};
    if (is({"hfsma","hfema"})) return {(double)P(r, 1, 40), (double)r.range(1, 10), r.pick<double>({1.0, 0.5, 0.0, 3.0, 2.0})};
    if (n == "rmta") return {(double)P(r), r.pick<double>({0.5, 0.9, 0.1, 0.75})};
    if (n == "bbands") return {(double)P(r), r.pick<double>({1.0, 2.0, 2.5})};
    if (n == "ce") return {(double)P(r), r.pick<double>({3.0, 1.0, 2.5})};
    if (n == "mesastoch") return {(double)P(r, 1, 40), (double)r.range(4, 60)};
    if (n == "mgdyn") return {(double)P(r)};
    if (n == "hma") return {(double)P(r)};
    if (n == "mass") return {(double)P(r)};
    if (n == "cvi") return {(double)P(r, 1, 30)};
    vector<double> v; for (int i = 0; i < nopt; i++) v.push_back(P(r, 1, nopt > 1 ? 30 : 70));
    return v;
}
bool is_stream(int ind) { return ti_indicators[ind].stream_new != nullptr; }
// `start` functions are pure; still, never run library code in the driver process: ask a model exec.
int obj_start(const Obj& o) {
    static std::map<std::pair<int, vector<double>>, int> cache;
    auto key = std::make_pair(o.ind, o.opt); auto it = cache.find(key); if (it != cache.end()) return it->second;
    Plan p; p.prop = "start"; p.objs = {o}; p.ops = {Op{}}; p.ops[0].k = 'S'; Run r = exec_plan(p, Env{});
    int s = r.crashed() || r.ops.empty() ? 0 : r.ops[0].start; if (cache.size() > 4000) cache.clear(); cache[key] = s; return s;
}

static double q(double x, double g) { return g > 0 ? std::floor(x / g + 0.5) * g : x; }
Obj gen_obj(Rng& r, int ind, int n, int regime) {
    const ti_indicator_info& I = ti_indicators[ind];
    Obj o; o.ind = ind;
    bool series_only = I.inputs == 1 && string(I.input_names[0]) == "series";
    string nm = I.name;
    if (regime < 0) regime = r.below(10);
    double grid = r.chance(.65) ? r.pick<double>({0.125, 0.25, 0.5, 1.0, 0.0625}) : 0;
    double base = r.pick<double>({100, 50, 20, 1000, 90, 35}), vol = base * r.pick<double>({0.005, 0.01, 0.02, 0.04});
    if (grid) vol = std::max(vol, grid);
    int nseries = 0; for (int k = 0; k < I.inputs; k++) if (string(I.input_names[k]) == "series" || string(I.input_names[k]) == "real") nseries++;
    int walks = std::max(1, nseries);
    // "unit" data for the pure maths entries now and then
    bool unit = series_only && (regime == 8) ;
    std::map<string, vector<double>> col; vector<vector<double>> ser(walks);
    for (int w = 0; w < walks; w++) {
        vector<double> O(n), H(n), L(n), C(n), V(n); double p = base * (w ? 1 + 0.1 * (r.uni() - .5) : 1); int mode = regime; int left = 0; int lv = r.range(2, 4); double drift = 0; double vbase = r.pick<double>({1000, 100, 10000});
        for (int i = 0; i < n; i++) {
            if (regime == 9) { if (left-- <= 0) { mode = r.below(8); left = r.range(3, 30); } }
            double o0 = p, c;
            switch (mode) {
            case 2: c = p; break;
            case 3: if (drift == 0) drift = (r.chance(.5) ? 1 : -1) * (grid ? grid * r.range(1, 2) : vol * .3); c = p + drift; if (c < base * .3 || c > base * 3) { drift = -drift; c = p + drift; } break;
            case 4: c = r.chance(.06) ? p * (r.chance(.5) ? 1.35 : 0.7) : p + vol * (r.uni() * 2 - 1); break;
            case 5: { double g = grid ? grid : vol; c = base + g * r.below(lv); break; }
            default: c = p + vol * (r.uni() * 2 - 1) + vol * .2 * std::sin(i * .3);
            }
            if (c < base * .1) c = base * .5; if (c > base * 20) c = base;
            c = q(c, grid);
            if (mode == 6 && r.chance(.3)) c = o0;
            double o1 = mode == 7 ? c : (r.chance(.3) ? q(o0 + vol * .3 * (r.uni() - .5), grid) : o0);
            o1 = q(o1, grid);
            double hi = std::max(o1, c), lo = std::min(o1, c);
            if (mode != 2 && mode != 7) { if (r.chance(.75)) hi = q(hi + vol * r.uni(), grid); if (r.chance(.75)) lo = q(lo - vol * r.uni(), grid); }
            if (lo <= 0) lo = std::min(o1, c);
            O[i] = o1; H[i] = std::max(hi, std::max(o1, c)); L[i] = std::min(lo, std::min(o1, c)); C[i] = c; p = c;
            V[i] = mode == 6 && r.chance(.4) ? 0 : mode == 2 ? vbase : std::floor(vbase * (0.5 + r.uni()));
        }
        if (unit) for (int i = 0; i < n; i++) C[i] = grid ? q(r.uni() * 2 - 1, 1.0 / 64) : std::sin(i * .37 + w) * (0.2 + .7 * r.uni());
        ser[w] = C; if (!w) { col["open"] = O; col["high"] = H; col["low"] = L; col["close"] = C; col["volume"] = V; }
    }
    int w = 0;
    for (int k = 0; k < I.inputs; k++) { string s = I.input_names[k]; if (col.count(s)) o.in.push_back(col[s]); else { o.in.push_back(ser[std::min(w, walks - 1)]); w++; } }
    return o;
}
int gen_len(Rng& r, int s, int cap) {
    double u = r.uni(); int n;
    if (r.chance(.03)) return r.pick<int>({32, 64, 100, 128, 200, 250, 252, 256, 500, 512}) + (r.chance(.3) ? s : 0) + r.range(-1, 1); // round lengths
    if (cap >= 600 && r.chance(.008)) return s + (r.chance(.5) ? r.pick<int>({1000, 1024, 2000, 2048, 4096, 5000, 8192, 10000}) + r.range(-1, 1) : r.range(1000, 9000)); // long ones
    if (u < .08) n = r.range(0, s + 1); else if (u < .15) n = s + r.range(0, 3); else if (u < .65) n = s + r.range(1, 70); else if (u < .96) n = s + r.range(60, 300); else if (u < .998 || cap < 600) n = s + r.range(300, 1400); else n = s + r.range(1400, 6000);
    if (n < 0) n = 0; return std::min(n, std::max(n > s + 1400 ? 8000 : cap, s + 60));
}
vector<int> gen_chunks(Rng& r, int n, int s) {
    vector<int> c; int st = r.below(8), pos = 0; int fixed = r.chance(.2) ? r.pick<int>({32, 64, 100, 128, 256, 512, 1000, 1024}) + r.range(-1, 1) : r.range(1, 17);
    int hint = g_chunk_hint; g_chunk_hint = 0; if (hint) { st = r.chance(.5) ? 5 : r.range(2, 7); fixed = hint; }
    bool zeros = r.chance(.4);
    if (st == 0 && n > 250) st = 2; if (n > 20000) { st = r.pick<int>({1, 2, 8}); hint = 0; }
    auto put = [&](int k) { if (zeros && r.chance(.15)) c.push_back(0); k = std::max(0, std::min(k, n - pos)); c.push_back(k); pos += k; };
    if (st == 1) put(n);
    if (hint && st != 5) { if (r.chance(.5)) put(r.range(0, s + 2)); put(hint); }
    if (st == 3 || st == 4) { int a = std::max(0, std::min(n, s + r.range(-2, 2))); put(a); if (st == 4) put(1); }
    int guard = 0;
    while (pos < n && guard++ < 400) {
        switch (st) {
        case 0: put(1); break;
        case 1: put(n); break;
        case 2: put(r.range(1, 1 + n / 4)); break;
        case 5: put(fixed); break;
        case 6: put(r.chance(.8) ? r.range(1, 3) : r.range(1, 1 + n / 3)); break;
        case 7: { int k = 1 << r.below(7); put(k); break; }
        default: put(r.range(1, 1 + n / 2)); break;
        }
        if (c.size() > (st == 0 ? 260u : 60u)) put(n - pos);
    }
    if (zeros && r.chance(.3)) c.push_back(0);
    return c;
}
