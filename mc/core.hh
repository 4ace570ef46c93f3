// Shared machinery of the explorers: bar alphabets, bounded-exhaustive word generators, option grids, the Case
// representation, guarded calls into the library, and a fork pool with crash/hang containment.
#pragma once
#include "indicators.h"
#include "model.hh"
#include "alloc.hh"
#include <cstdint>
#include <cinttypes>
#include <cstdarg>
#include <set>
#include <unistd.h>

typedef const ti_indicator_info Ind;
inline std::string strf(const char* f, ...) { char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

// ---- bars -------------------------------------------------------------------------------------------------
// Small integers: rolling sums, (h+l+c)/3 and (h+l)/2 are exact, so zero guards and ties are decided exactly.
struct Sym { double o, h, l, c, v, s, s2; };
static const Sym SYM[] = {
    {10,12, 8,10, 4,  4, 5}, {11,15, 9,12, 8,  5, 4}, { 9,10, 6, 8, 2,  3, 3}, { 9, 9, 9, 9, 0,  0, 0},   // 3: flat, no volume
    {14,16,14,15,16,  8, 1}, { 8,12, 4, 5, 1, -2, 1}, { 7,13, 7,13, 4, .5,-2}, {10,12, 8,10, 0,  4, 4},   // 4: gap up, 5: outside bar, 7 = 0 without volume
    {12,12, 6, 6, 8,  1, 2}, { 3, 4, 2, 3, 3,-3.5,.5}, {16,24,16,20,32, 16, 8}, { 5, 6, 2, 4, 1,  2, 2},
    {9, 9, 9, 9, 2,   4, 4},                                                                              // 12: flat with volume
};
static const int NSYM = sizeof SYM / sizeof SYM[0];
struct Tf { double mul, add; const char* name; bool noisy = false; double slope = 0; }; // noisy: arithmetic on the values is not exact; slope: a trend, so much more per bar // value transform of prices/series (volume: mul only)
static const Tf TFS[] = {{1, 0, "id"}, {1048576, 0, "x2^20"}, {1.0 / 1048576, 0, "x2^-20"}, {1, 65536, "+2^16", true}, {-1, 0, "neg"}, {0.1, 0, "x0.1", true}, {0.7, 100.3, "decimal", true}, {1, 0, "rising", false, 2}, {1, 0, "steep", false, 32}, {1, 8192, "falling", false, -32}, {0x1p-70, 0, "x2^-70"}};
inline double field(Ind* ind, int k, const Sym& y, const Tf& t, int nth_series) {
    const char* nm = ind->input_names[k];
    if (!strcmp(nm, "volume")) return y.v * std::fabs(t.mul);
    double x = !strcmp(nm, "open") ? y.o : !strcmp(nm, "high") ? y.h : !strcmp(nm, "low") ? y.l : !strcmp(nm, "close") ? y.c : nth_series ? y.s2 : y.s;
    if (t.mul < 0) { if (!strcmp(nm, "high")) x = y.l; else if (!strcmp(nm, "low")) x = y.h; }
    return x * t.mul + t.add;
}

// ---- cases ------------------------------------------------------------------------------------------------
struct Case {
    Ind* ind = nullptr; std::vector<double> opt; int n = 0; std::vector<std::vector<double>> in; std::string note; bool noisy = false;
    const double* o() const { return opt.empty() ? nullptr : opt.data(); }
};
inline std::string hexd(double x) { return strf("%a", x); }
inline std::string dump(const Case& c) {
    std::string s = std::string("indicator ") + c.ind->name + "\noptions";
    for (double d : c.opt) s += " " + hexd(d);
    s += strf("\nsize %d\n", c.n);
    for (auto& v : c.in) { s += "input"; for (int i = 0; i < c.n; ++i) s += " " + hexd(v[i]); s += "\n"; }
    if (c.noisy) s += "noisy\n"; if (!c.note.empty()) s += "note " + c.note + "\n";
    return s;
}
inline Case parse(const std::string& path) {
    Case c; FILE* f = fopen(path.c_str(), "r"); if (!f) { perror(path.c_str()); exit(2); }
    static char line[1 << 23];
    while (fgets(line, sizeof line, f)) {
        char* save; char* t = strtok_r(line, " \n", &save); if (!t) continue;
        if (!strcmp(t, "indicator")) c.ind = ti_find_indicator(strtok_r(0, " \n", &save));
        else if (!strcmp(t, "options")) while ((t = strtok_r(0, " \n", &save))) c.opt.push_back(strtod(t, 0));
        else if (!strcmp(t, "size")) c.n = atoi(strtok_r(0, " \n", &save));
        else if (!strcmp(t, "input")) { std::vector<double> v; while ((t = strtok_r(0, " \n", &save))) v.push_back(strtod(t, 0)); c.in.push_back(v); }
        else if (!strcmp(t, "noisy")) c.noisy = true; else if (!strcmp(t, "note")) { c.note = save ? save : ""; while (!c.note.empty() && c.note.back() == '\n') c.note.pop_back(); }
    }
    fclose(f); if (!c.ind) { fprintf(stderr, "bad replay file\n"); exit(2); } return c;
}
inline void fill(Case& c, const uint8_t* w, int n, const Tf& t) {
    c.n = n; c.noisy = t.noisy; c.in.resize(c.ind->inputs);
    for (int k = 0, ns = 0; k < c.ind->inputs; ++k) {
        bool ser = !strcmp(c.ind->input_names[k], "series"), vol = !strcmp(c.ind->input_names[k], "volume"); auto& v = c.in[k]; v.resize(n);
        for (int i = 0; i < n; ++i) v[i] = field(c.ind, k, SYM[w[i]], t, ser ? ns : 0) + (vol ? 0 : t.slope * i);
        if (ser) ++ns;
    }
}

// ---- guarded library calls --------------------------------------------------------------------------------
// EXACT build (sanitizers): every buffer is an exactly-sized heap block.  Plain build: buffers are padded with
// canaries, inputs and options are compared with their originals after the call, the allocation balance is taken.
static const uint64_t SENT = 0x7ff4dead5afe1234ull; // signalling-NaN pattern no computation produces
inline double sent() { double d; memcpy(&d, &SENT, 8); return d; }
inline bool is_sent(const double& d) { uint64_t u; memcpy(&u, &d, 8); return u == SENT; }
enum Fn { PLAIN, REF };
struct Out { int rc = 0; int len = 0; std::vector<std::vector<double>> v; std::string guard; long leak = 0; };
static const int PADW = 8;
struct Bufs {
    std::vector<double*> blk; std::vector<std::vector<double>> pad; const double* ip[TI_MAXINDPARAMS]; double* op[TI_MAXINDPARAMS]; double* o; int n, len, pw; Ind* ind;
    std::vector<double> ib[TI_MAXINDPARAMS], ob[TI_MAXINDPARAMS], optb;
    void set(const Case& c, int from, int n_, int len_) {
        ind = c.ind; n = n_; len = len_;
#ifdef EXACT
        auto alloc = [&](size_t k) { double* p = (double*)malloc(sizeof(double) * k); blk.push_back(p); return p; };
        for (int k = 0; k < ind->inputs; ++k) { double* p = alloc(n); if (n) memcpy(p, c.in[k].data() + from, sizeof(double) * n); ip[k] = p; }
        for (int k = 0; k < ind->outputs; ++k) { double* p = alloc(len); for (int i = 0; i < len; ++i) p[i] = sent(); op[k] = p; }
        o = alloc(c.opt.size()); if (!c.opt.empty()) memcpy(o, c.opt.data(), sizeof(double) * c.opt.size());
#else
        pw = n >= 20000 ? 70000 : PADW; // a counter that wraps reaches far outside
        for (int k = 0; k < ind->inputs; ++k) { auto& b = ib[k]; if ((int)b.size() < n + 2 * pw) b.resize(n + 2 * pw); for (int i = 0; i < pw; ++i) { b[i] = 1e250; b[n + pw + i] = -1e250; } if (n) memcpy(b.data() + pw, c.in[k].data() + from, sizeof(double) * n); ip[k] = b.data() + pw; }
        for (int k = 0; k < ind->outputs; ++k) { auto& b = ob[k]; b.assign(len + 2 * pw, sent()); op[k] = b.data() + pw; }
        optb.assign(c.opt.size() + 2 * PADW, 1e250); for (size_t i = 0; i < c.opt.size(); ++i) optb[PADW + i] = c.opt[i]; o = optb.data() + PADW;
#endif
    }
    void done(const Case& c, int from, Out& r) {
#ifdef EXACT
        for (int k = 0; k < ind->outputs; ++k) r.v[k].insert(r.v[k].end(), op[k], op[k] + len);
        for (int k = 0; k < ind->inputs; ++k) if (n && memcmp(ip[k], c.in[k].data() + from, sizeof(double) * n)) r.guard = strf("input %d was modified", k);
        for (double* p : blk) free(p); blk.clear();
#else
        for (int k = 0; k < ind->outputs; ++k) { r.v[k].insert(r.v[k].end(), op[k], op[k] + len); for (int i = 0; i < pw; ++i) if (!is_sent(ob[k][i]) || !is_sent(ob[k][len + pw + i])) r.guard = strf("output %d (%s): written outside the %d values it may hold", k, ind->output_names[k], len); }
        for (int k = 0; k < ind->inputs; ++k) { bool bad = n && memcmp(ip[k], c.in[k].data() + from, sizeof(double) * n); for (int i = 0; i < pw; ++i) bad |= ib[k][i] != 1e250 || ib[k][n + pw + i] != -1e250; if (bad) r.guard = strf("input %d (%s) was modified", k, ind->input_names[k]); }
        for (size_t i = 0; i < c.opt.size(); ++i) if (memcmp(&optb[PADW + i], &c.opt[i], 8)) r.guard = strf("option %d was modified", (int)i);
#endif
    }
};
inline int out_len(const Case& c, int n) { return std::max(0, n - c.ind->start(c.o())); }
inline void call(const Case& c, Fn fn, Out& r, int n = -1, int lenov = -1) {
    if (n < 0) n = c.n; int len = lenov >= 0 ? lenov : out_len(c, n); static Bufs b;
    r.v.assign(c.ind->outputs, {}); r.len = len; r.guard.clear(); b.set(c, 0, n, len);
    g_alloc.live = g_alloc.count = 0; g_alloc.failed = false; g_alloc.armed = true;
    r.rc = (fn == PLAIN ? c.ind->indicator : c.ind->indicator_ref)(n, b.ip, b.o, b.op);
    g_alloc.armed = false; r.leak = g_alloc.live;
    b.done(c, 0, r);
}
// feed the stream the given chunks; every chunk gets its own buffers
inline void stream_call(const Case& c, const std::vector<int>& chunks, Out& r, bool generic = false) {
    static Bufs b; Ind* ind = c.ind; int st = ind->start(c.o()); r.v.assign(ind->outputs, {}); r.guard.clear(); r.len = 0; ti_stream* s = nullptr;
    g_alloc.live = g_alloc.count = 0; g_alloc.failed = false; g_alloc.armed = true; r.rc = ind->stream_new(c.o(), &s); g_alloc.armed = false;
    if (r.rc) { r.leak = g_alloc.live; if (s) r.guard = "failed stream_new left a stream behind"; return; }
    if (!s) { r.guard = "stream_new succeeded without a stream"; return; }
    int p = -st, fed = 0; std::string g;
    if (ti_stream_get_progress(s) != p) g = strf("a fresh stream reports progress %d, expected %d", ti_stream_get_progress(s), p);
    if (ti_stream_get_info(s) != ind) g = "ti_stream_get_info names another indicator";
    for (int k : chunks) {
        int len = std::max(0, p + k) - std::max(0, p); b.set(c, fed, k, len);
        g_alloc.armed = true; r.rc = generic ? ti_stream_run(s, k, b.ip, b.op) : ind->stream_run(s, k, b.ip, b.op); g_alloc.armed = false;
        b.done(c, fed, r); if (!r.guard.empty() && g.empty()) g = strf("chunk of %d bars after %d bars: ", k, fed) + r.guard;
        r.len += len; p += k; fed += k;
        if (r.rc) { if (g.empty()) g = strf("stream_run returned %d for a chunk of %d bars after %d bars", r.rc, k, fed - k); break; }
        if (ti_stream_get_progress(s) != p && g.empty()) g = strf("progress is %d after %d bars, expected %d", ti_stream_get_progress(s), fed, p);
    }
    g_alloc.armed = true; if (generic) ti_stream_free(s); else ind->stream_free(s); g_alloc.armed = false; r.leak = g_alloc.live; r.guard = g;
}

// ---- option grids -----------------------------------------------------------------------------------------
typedef std::vector<std::vector<double>> Grid;
inline bool has(const char* s, const char* t) { return strstr(s, t) != nullptr; }
inline bool is_period(const char* nm, const char* ind) {
    (void)ind;
    static const char* real[] = {"threshold","gamma","critical_period","fastlimit","slowlimit","lambda","alpha","beta","power","v","exponent","N","stddev","multiple","acceleration factor step","acceleration factor maximum","cycpart","coef","max_cycle_considered",0};
    for (int i = 0; real[i]; ++i) if (!strcmp(nm, real[i])) return false;
    return true;
}
inline std::vector<double> real_values(const char* nm) {
    std::string s = nm;
    if (s == "threshold") return {0, 0.5, 1, 3}; if (s == "gamma") return {0.25, 0.8, 1, 2}; if (s == "critical_period") return {2, 3, 8, 20};
    if (s == "fastlimit") return {0.5, 1, 0}; if (s == "slowlimit") return {0.0625, 0, 1}; if (s == "lambda") return {0, 0.5, 3}; if (s == "alpha") return {0.25, 0, 1};
    if (s == "beta") return {0.5, 0, 0.8, 1}; if (s == "power") return {1, 2, 0, 0.5}; if (s == "v") return {0.75, 0, 1}; if (s == "exponent") return {1, 1.5, 2}; if (s == "N") return {10, 2, 1.5};
    if (s == "stddev") return {2, 0, 1, -1}; if (s == "multiple") return {2, 0, 1.5}; if (s == "acceleration factor step") return {0.02, 0.25, 0.5}; if (s == "acceleration factor maximum") return {0.2, 0.5, 1, 0.5625};
    if (s == "cycpart") return {1, 0.5, 2}; if (s == "coef") return {3, 0, 1, -1}; if (s == "max_cycle_considered") return {48, 10, 3};
    return {1};
}
// all valid option vectors with the period-like options drawn from ps
inline Grid grid(Ind* ind, const std::vector<double>& ps, bool only_valid = true) {
    Grid g{{}};
    if (!strcmp(ind->name, "kst")) { // eight periods: rate-of-change periods strictly increasing
        Grid r; double P = ps.back(); std::set<std::vector<double>> seen;
        for (double b : ps) for (auto& t : Grid{{1,2,3,4,1,2,3,4}, {1,2,3,4,3,1,2,1}, {2,3,5,7,4,3,2,1}, {1,3,4,8,2,2,2,2}, {1,2,3,5,1,1,1,1}}) { auto w = t; for (int i = 0; i < 4; ++i) w[i] += b - 1; (void)P; if (seen.insert(w).second) r.push_back(w); }
        return r;
    }
    for (int k = 0; k < ind->options; ++k) {
        std::vector<double> vals = is_period(ind->option_names[k], ind->name) ? ps : real_values(ind->option_names[k]); Grid h;
        for (auto& x : g) for (double v : vals) { auto y = x; y.push_back(v); h.push_back(y); }
        g = h;
    }
    if (!only_valid) return g;
    auto it = models().find(ind->name); Grid r;
    for (auto& x : g) if (it == models().end() || it->second.valid(x.data())) r.push_back(x);
    return r;
}

// ---- word generators --------------------------------------------------------------------------------------
typedef std::vector<uint8_t> Word;
// every word of length d over the alphabet
template<class F> void all_words(const std::vector<uint8_t>& a, int d, F f) {
    std::vector<int> idx(d, 0); Word w(d, a[0]);
    for (;;) { f(w); int i = d - 1; while (i >= 0 && ++idx[i] == (int)a.size()) { idx[i] = 0; w[i] = a[0]; --i; } if (i < 0) break; w[i] = a[idx[i]]; }
}
// every lasso u.v^omega cut at length L, |u| <= mu, 1 <= |v| <= mv
template<class F> void lassos(const std::vector<uint8_t>& a, int mu, int mv, int L, F f) {
    Word w(L);
    for (int lu = 0; lu <= mu; ++lu) all_words(a, lu, [&](const Word& u) {
        for (int lv = 1; lv <= mv; ++lv) all_words(a, lv, [&](const Word& v) {
            for (int i = 0; i < L; ++i) w[i] = i < lu ? u[i] : v[(i - lu) % lv];
            f(w); }); });
}
// every word that holds a background symbol except for a burst of m letters placed at each position in [p0,p1]
template<class F> void bursts(const std::vector<uint8_t>& a, int m, int L, int p0, int p1, F f) {
    for (uint8_t bg : a) for (int p = p0; p <= p1 && p + m <= L; ++p) all_words(a, m, [&](const Word& u) { Word w(L, bg); for (int i = 0; i < m; ++i) w[p + i] = u[i]; f(w); });
}
// de Bruijn word B(k, m): every m-letter context once (linearised, so length k^m + m - 1)
inline Word debruijn(const std::vector<uint8_t>& a, int m) {
    int k = a.size(); std::vector<int> x(k * m + 1, 0); Word s;
    std::function<void(int, int)> db = [&](int t, int p) { if (t > m) { if (m % p == 0) for (int i = 1; i <= p; ++i) s.push_back(a[x[i]]); } else { x[t] = x[t - p]; db(t + 1, p); for (int j = x[t - p] + 1; j < k; ++j) { x[t] = j; db(t + 1, t); } } };
    db(1, 1); int n = s.size(); for (int i = 0; i < m - 1; ++i) s.push_back(s[i % n]); return s;
}
