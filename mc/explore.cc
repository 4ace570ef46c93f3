// Bounded-exhaustive explorer: explore MODE OUTDIR [tier] [indicator-regexp]  |  explore --replay MODE FILE
#include "pool.hh"
#include <regex>

static bool g_thorough = false; static bool g_replay = false;
#define ST (g_me->st)

// ---- model evaluation -------------------------------------------------------------------------------------
struct MV { std::vector<std::vector<double>> m, tol; };
enum { BY_INDEX = 1, BY_VALUE = 2 };
template<class T> static void eval(const Model& M, const Case& c, Ctx<T>& x, int perturb = 0) {
    x.n = c.n; x.o = c.o(); x.nin = c.ind->inputs; x.start = M.start(c.o()); x.out.clear();
    for (int k = 0; k < x.nin; ++k) {
        double sc = 0; if (perturb) for (int i = 0; i < c.n; ++i) sc = std::max(sc, std::fabs(c.in[k][i]));
        x.in[k] = mk<T>(c.n, 0, [&](int i) { T v = c.in[k][i]; if (perturb) { uint64_t u; memcpy(&u, &c.in[k][i], 8); v += T(1e-13 * sc * nz_unit(perturb == BY_INDEX ? i : int(u ^ u >> 32), k)); } return v; });
    }
}
// m: the value the definition gives (NaN: undecided), tol: how far an implementation may be from it.  The tolerance
// follows the conditioning: the distance between the double and the long double evaluation and - where arithmetic on
// the values is inexact - the effect of perturbing inputs and window sums by 1e-13 of their scale (which also makes
// comparisons that only rounding noise decides undecided).
static void model_eval(const Model& M, const Case& c, MV& r) {
    static const std::set<std::string> MOMENT = {"var","stddev","stderr","bbands","vidya","volatility","emsd"}, DELICATE = {"stochrsi","hurst","volatility","rvi","vidya"}, RATIO = {"smi","tsi","rmi","rsi","stochrsi","cvi","mass","trix","di","dx","adx","adxr","ppo"}; // RATIO: quotients of smoothings that decay below the rounding of the prices
    g_arena.pos = 0; g_nz = Noise(); static Ctx<double> d, e[2]; static Ctx<long double> l; eval(M, c, d); eval(M, c, l); M.fd(d); M.fl(l);
    bool mom = MOMENT.count(M.name), del = DELICATE.count(M.name), nz = c.noisy || !strcmp(M.name, "fosc"); bool rat = RATIO.count(M.name); int np = nz || mom || del || rat ? 2 : 0; double sc0 = 0; if (rat) for (int i = 0; i < c.n; ++i) if (std::isfinite(c.in[0][i])) sc0 = std::max(sc0, std::fabs(c.in[0][i]));
    for (int q = 0; q < np; ++q) { g_nz.seed = q + 1; if (nz) g_nz.sum = 1e-13; if (nz || mom) g_nz.var = 1e-13; g_nz.ema = 1e-15 * sc0; eval(M, c, e[q], nz ? BY_INDEX : del ? BY_VALUE : 0); M.fd(e[q]); }
    g_nz = Noise();
    int st = d.start, len = std::max(0, c.n - st); double in = 0; for (auto& v : c.in) for (int i = 0; i < c.n; ++i) in = std::max(in, std::fabs(v[i]));
    bool msw = !strcmp(M.name, "msw"), cyc = !strcmp(M.family, "cycle"), local = !strcmp(M.family, "window") || !strcmp(M.family, "elementwise");
    r.m.assign(d.out.size(), {}); r.tol.assign(d.out.size(), {});
    for (size_t k = 0; k < d.out.size(); ++k) {
        auto &m = r.m[k], &t = r.tol[k]; m.resize(len); t.resize(len); double big = 0, drift = 0; bool lost = false;
        for (int i = 0; i < len; ++i) { m[i] = (double)l.out[k][st + i]; double md = d.out[k][st + i]; if (std::isnan(md)) m[i] = md; if (std::isfinite(m[i])) big = std::max(big, std::fabs(m[i])); }
        for (int i = 0; i < len; ++i) {
            double dd = 0; if (std::isfinite(m[i])) dd = 1e3 * std::fabs(d.out[k][st + i] - m[i]);
            for (int q = 0; q < np; ++q) { double x = e[q].out[k][st + i]; if (std::isnan(x) && std::isnan(m[i])) continue; dd = std::max(dd, x == m[i] ? 0 : std::isfinite(x) && std::isfinite(m[i]) ? 20 * std::fabs(x - m[i]) : INFINITY); }
            if (!(dd <= (np ? 1e-2 * std::fabs(m[i]) + 1e-5 * big : 1e300))) { m[i] = NAN; lost = true; continue; }
            if (lost && !local) { m[i] = NAN; continue; }
            drift = local ? dd : std::max(drift, dd); t[i] = 1e-9 * big + (msw ? 1e-6 : 0) + drift + 1e-12 * in + 1e-13 * (cyc || !(in > 0) ? 1 : std::min(1., in));
        }
    }
}
static bool elem(const Model& M) { return !strcmp(M.family, "elementwise"); }
static std::string describe(const Case& c) { std::string s = std::string(c.ind->name) + "("; for (size_t i = 0; i < c.opt.size(); ++i) s += strf("%s%g", i ? "," : "", c.opt[i]); return s + strf(") on %d bars", c.n); }
// a: values claimed to be right where mv allows; returns a description of the first disagreement
static std::string cmp_values(const Case& c, const std::vector<std::vector<double>>& want, const std::vector<std::vector<double>>& got, const MV* mv, const char* wname, const char* gname, double rel, bool finite_only = false) {
    for (size_t k = 0; k < want.size(); ++k) {
        if (want[k].size() != got[k].size()) return strf("%s: output %zu has %zu values, %s has %zu", gname, k, got[k].size(), wname, want[k].size());
        double big = 0; for (double x : want[k]) if (std::isfinite(x)) big = std::max(big, std::fabs(x));
        for (size_t i = 0; i < want[k].size(); ++i) {
            double w = want[k][i], g = got[k][i];
            if (is_sent(g)) return strf("%s: output %s never wrote value %zu of %zu", gname, c.ind->output_names[k], i, want[k].size());
            if (mv && std::isnan(mv->m[k][i])) { ++ST.skipped; continue; }
            if (!std::isfinite(w) || (finite_only && !std::isfinite(g))) { ++ST.skipped; continue; }
            double t = rel * big; if (mv) t = std::max(t, mv->tol[k][i]);
            ++ST.outs; if (!(std::fabs(w - g) <= t)) return strf("%s differs from %s at output %s[%zu]: %.17g instead of %.17g (tolerance %.3g)", gname, wname, c.ind->output_names[k], i, g, w, t);
        }
    }
    return "";
}

// ---- checkers: "" or the violation ------------------------------------------------------------------------
static std::string chk_conform(const Case& c) {
    auto it = models().find(c.ind->name); if (it == models().end()) return "";
    const Model& M = it->second; int st = c.ind->start(c.o());
    if (st != M.start(c.o())) return strf("start is %d, the definition needs %d bars of warm-up", st, M.start(c.o()));
    static Out r; call(c, PLAIN, r); ++ST.calls; if (r.rc) return strf("returned %d for valid options", r.rc); if (!r.guard.empty()) return r.guard;
    static MV mv; model_eval(M, c, mv); bool el = elem(M);
    for (size_t k = 0; k < mv.m.size(); ++k) for (int i = 0; i < r.len; ++i) {
        double m = mv.m[k][i], g = r.v[k][i]; if (is_sent(g)) return strf("output %s[%d] was never written", c.ind->output_names[k], i);
        if (el && !c.noisy && !std::isfinite(m)) { if (std::isnan(m) ? !std::isnan(g) : m != g) return strf("output %s[%d] is %.17g, the definition gives %g", c.ind->output_names[k], i, g, m); ++ST.outs; continue; }
        if (!std::isfinite(m)) { ++ST.skipped; continue; }
        ++ST.outs; if (!(std::fabs(m - g) <= mv.tol[k][i])) return strf("output %s[%d] is %.17g, the definition gives %.17g (tolerance %.3g)", c.ind->output_names[k], i, g, m, mv.tol[k][i]);
    }
    return "";
}
static const MV* mv_for(const Case& c) { static MV mv; auto it = models().find(c.ind->name); if (it == models().end() || !it->second.valid(c.o())) return nullptr; model_eval(it->second, c, mv); return &mv; }
static std::vector<int> parse_ints(const char* s) { std::vector<int> r; while (*s) { if (isdigit(*s)) { char* e; r.push_back(strtol(s, &e, 10)); s = e; } else ++s; } return r; }
static std::string join(const std::vector<int>& v) { std::string s; for (int x : v) s += strf(s.empty() ? "%d" : ",%d", x); return s; }
static std::string stream_vs(const Case& c, const Out& plain, const MV* mv, const std::vector<int>& chunks) {
    static Out s; stream_call(c, chunks, s); ++ST.calls; if (s.rc && s.guard.empty()) return strf("stream_new returned %d where the batch call succeeds", s.rc); if (!s.guard.empty()) return "stream: " + s.guard;
    std::string e = cmp_values(c, plain.v, s.v, mv, "the batch result", "the stream", 1e-9); return e.empty() ? e : e + " with chunks " + join(chunks);
}
static std::string chk_stream(const Case& c) {
    static Out p; call(c, PLAIN, p); ++ST.calls; if (p.rc) return strf("returned %d for valid options", p.rc);
    auto ch = parse_ints(c.note.c_str()); if (c.note.compare(0, 10, "chunks of ") == 0 && ch.size() == 1) { int sz = std::max(1, ch[0]); ch.clear(); for (int r = c.n; r > 0; r -= sz) ch.push_back(std::min(r, sz)); }
    return stream_vs(c, p, mv_for(c), ch);
}
static std::string chk_ref(const Case& c) {
    static const std::set<std::string> POSITIVE = {"abands", "copp"}; // the variants document different conventions for prices <= 0
    if (POSITIVE.count(c.ind->name)) for (auto& v : c.in) for (int i = 0; i < c.n; ++i) if (v[i] <= 0) return "";
    static Out p, r; call(c, PLAIN, p); call(c, REF, r); ST.calls += 2; if (p.rc || r.rc) return p.rc == r.rc ? "" : strf("plain returns %d, the reference variant %d", p.rc, r.rc);
    if (!r.guard.empty()) return "reference variant: " + r.guard;
    return cmp_values(c, p.v, r.v, mv_for(c), "the plain result", "the reference variant", 1e-9, true);
}
// prefix stability: outputs on the first k bars are the outputs of the k-bar call
static std::string causal_at(const Case& c, const Out& full, const MV* mv, int k) {
    static Out q; call(c, PLAIN, q, k); ++ST.calls; if (q.rc != full.rc) return strf("returns %d on the first %d bars and %d on all", q.rc, k, full.rc); if (!q.guard.empty()) return q.guard + strf(" (first %d bars)", k);
    for (size_t o = 0; o < q.v.size(); ++o) { double big = 0; for (double x : full.v[o]) if (std::isfinite(x)) big = std::max(big, std::fabs(x));
        for (int i = 0; i < q.len; ++i) { double a = full.v[o][i], b = q.v[o][i]; if (is_sent(b)) return strf("on %d bars output %s[%d] is never written", k, c.ind->output_names[o], i);
            if (mv && std::isnan(mv->m[o][i])) { ++ST.skipped; continue; } ++ST.outs; if (!std::isfinite(a) && !std::isfinite(b)) continue; double t = std::max(1e-9 * big, mv ? mv->tol[o][i] : 0);
            if (!(std::fabs(a - b) <= t)) return strf("output %s[%d] is %.17g with %d bars but %.17g with %d bars", c.ind->output_names[o], i, b, k, a, c.n); } }
    return "";
}
// the bars from k on replaced by something else altogether: nothing before them changes
static const int NFUT = 7;
static std::string future_at(const Case& c, const Out& full, const MV* mv, int k, int kind) {
    static const char* WHAT[NFUT] = {"2^40 times larger", "zero", "negated", "NaN", "replaced by the first bar", "infinite in the last one", "2^-60 times as large"}; Case v = c; static Out q;
    for (auto& x : v.in) for (int i = kind == 5 ? c.n - 1 : k; i < c.n; ++i) x[i] = kind == 0 ? x[i] * 0x1p40 : kind == 1 ? 0. : kind == 2 ? -x[i] : kind == 3 ? NAN : kind == 4 ? x[0] : kind == 5 ? INFINITY : x[i] * 0x1p-60;
    call(v, PLAIN, q); ++ST.calls; if (q.rc != full.rc) return strf("returns %d, and %d when the bars from %d on are %s", full.rc, q.rc, k, WHAT[kind]); if (kind == 5) k = c.n - 1;
    for (size_t o = 0; o < q.v.size(); ++o) { double big = 0; for (double x : full.v[o]) if (std::isfinite(x)) big = std::max(big, std::fabs(x));
        for (int i = 0; i < q.len - (c.n - k); ++i) { double a = full.v[o][i], b = q.v[o][i]; if (mv && std::isnan(mv->m[o][i])) { ++ST.skipped; continue; } ++ST.outs; if (!std::isfinite(a) && !std::isfinite(b)) continue; double t = std::max(1e-9 * big, mv ? mv->tol[o][i] : 0);
            if (!(std::fabs(a - b) <= t)) return strf("output %s[%d] is %.17g, but %.17g when the bars from %d on are %s", c.ind->output_names[o], i, a, b, k, WHAT[kind]); } }
    return "";
}
static std::string chk_causal(const Case& c) { static Out f; call(c, PLAIN, f); ++ST.calls; const MV* mv = mv_for(c); auto ks = parse_ints(c.note.c_str()); if (c.note.compare(0, 6, "future") == 0) return ks.size() < 2 ? "" : future_at(c, f, mv, ks[0], ks[1]); for (int k : ks) { auto e = causal_at(c, f, mv, k); if (!e.empty()) return e; } return ""; }
// exact extent: guards, every value written, no leak, rc
static std::string extent1(const Case& c, Fn fn) {
    static Out r; call(c, fn, r); ++ST.calls; const char* w = fn == PLAIN ? "batch" : "reference variant";
    if (r.rc) return strf("%s returned %d for valid options", w, r.rc); if (!r.guard.empty()) return std::string(w) + ": " + r.guard;
    for (size_t k = 0; k < r.v.size(); ++k) for (int i = 0; i < r.len; ++i) if (is_sent(r.v[k][i])) return strf("%s: output %s[%d] of %d was never written", w, c.ind->output_names[k], i, r.len);
    ST.outs += (long)r.len * r.v.size(); return "";
}
static std::string chk_extent(const Case& c) { std::string e = extent1(c, PLAIN); if (e.empty() && c.ind->indicator_ref) e = extent1(c, REF); return e; }
static std::string chk_leak(const Case& c) {
    static Out r; call(c, PLAIN, r); ++ST.calls; if (r.leak) return strf("batch call leaves %ld allocations behind", r.leak);
    if (c.ind->indicator_ref) { call(c, REF, r); ++ST.calls; if (r.leak) return strf("reference call leaves %ld allocations behind", r.leak); }
    if (c.ind->stream_new) for (int q = 0; q < 3; ++q) { std::vector<int> ch; if (q == 1) ch.assign(c.n, 1); if (q == 2) ch = {c.n / 2, c.n - c.n / 2}; stream_call(c, ch, r, q == 2); ++ST.calls; if (r.leak) return strf("stream life cycle (%zu chunks) leaves %ld allocations behind", ch.size(), r.leak); }
    return "";
}
// run everything the API offers on the case; the sanitizers are the oracle
static std::string chk_memory(const Case& c) {
    static Out r; call(c, PLAIN, r); ++ST.calls; if (!r.guard.empty()) return r.guard; if (c.ind->indicator_ref) { call(c, REF, r); ++ST.calls; if (!r.guard.empty()) return r.guard; }
    if (c.ind->stream_new) { std::vector<int> ch{0, std::min(1, c.n), 0}; if (c.n > 1) { ch.push_back(c.n / 2); ch.push_back(c.n - 1 - c.n / 2); } stream_call(c, ch, r); ++ST.calls; ch.assign(c.n, 1); stream_call(c, ch, r, true); ++ST.calls; ch.assign(1, c.n); stream_call(c, ch, r); ++ST.calls; }
    return "";
}
// bars that are missing or out of range: the note names them as "poison input:bar:kind ..."
static const double POISON[] = {NAN, INFINITY, -INFINITY, 1e308, -1e308, 5e-324};
static std::string chk_nonfinite(const Case& c0) {
    static Case c; c = c0; int first = c.n; const char* s = c.note.c_str() + (c.note.compare(0, 6, "poison") ? c.note.size() : 6);
    for (int k, i, q, m; sscanf(s, " %d:%d:%d%n", &k, &i, &q, &m) == 3; s += m) { if (i >= c.n) continue; for (int j = 0; j < c.ind->inputs; ++j) if (k < 0 || j == k) c.in[j][i] = POISON[q % 6]; first = std::min(first, i); }
    static Out base, r; for (Fn fn : {PLAIN, REF}) { if (fn == REF && !c.ind->indicator_ref) continue; const char* w = fn == PLAIN ? "batch" : "reference variant";
        call(c, fn, r); ++ST.calls; if (r.rc) return strf("%s returned %d", w, r.rc); if (!r.guard.empty()) return std::string(w) + ": " + r.guard; if (first < c.n) { call(c0, fn, base); ++ST.calls; }
        for (size_t k = 0; k < r.v.size(); ++k) { int upto = first - (c.n - r.len); for (int i = 0; i < r.len; ++i) { if (is_sent(r.v[k][i])) return strf("%s: output %s[%d] of %d was never written", w, c.ind->output_names[k], i, r.len);
            if (i < upto && first < c.n) { double a = base.v[k][i], b = r.v[k][i]; ++ST.outs; if (!(a == b || std::isnan(a) && std::isnan(b) || std::fabs(a - b) <= 1e-9 * std::fabs(a))) return strf("%s: output %s[%d] is %.17g with and %.17g without the bar %d that comes after it", w, c.ind->output_names[k], i, b, a, first); } } } }
    if (c.ind->stream_new) for (int q = 0; q < 2; ++q) { std::vector<int> ch; if (q) ch = {c.n / 2, 0, c.n - c.n / 2}; else ch.assign(c.n, 1); stream_call(c, ch, r, q); ++ST.calls; if (r.rc || !r.guard.empty()) return "stream: " + (r.guard.empty() ? strf("returned %d", r.rc) : r.guard); for (size_t k = 0; k < r.v.size(); ++k) for (double x : r.v[k]) if (is_sent(x)) return strf("stream: output %s misses a value", c.ind->output_names[k]); }
    return "";
}
// the stream handle under every cut and every mixture of generic (ti_stream_*) and own calls: "handle m:k m:k ... f", m and f choose
static std::string handle_run(const Case& c, const std::vector<int>& ch, unsigned mask, std::vector<std::vector<double>>& v) {
    static Bufs b; Ind* ind = c.ind; int st = ind->start(c.o()); ti_stream* s = nullptr; v.assign(ind->outputs, {}); int rc = ind->stream_new(c.o(), &s); ++ST.calls; if (rc || !s) return strf("stream_new returned %d", rc);
    std::string e; auto look = [&](int want, const char* at, int fed) { if (!e.empty()) return; if (ti_stream_get_info(s) != ind) e = strf("%s %d bars the handle names another indicator", at, fed); else if (ti_stream_get_progress(s) != want) e = strf("%s %d bars the handle reports progress %d, expected %d", at, fed, ti_stream_get_progress(s), want); };
    look(-st, "after", 0); int fed = 0; Out o; o.v.assign(ind->outputs, {});
    for (size_t i = 0; i < ch.size() && e.empty(); ++i) { int k = ch[i], len = std::max(0, fed + k - st) - std::max(0, fed - st); b.set(c, fed, k, len); bool gen = mask >> (i % 31) & 1; rc = gen ? ti_stream_run(s, k, b.ip, b.op) : ind->stream_run(s, k, b.ip, b.op); ++ST.calls; b.done(c, fed, o); fed += k;
        if (rc) e = strf("%s run of %d bars returned %d", gen ? "generic" : "own", k, rc); else if (!o.guard.empty()) e = strf("%s run of %d bars after %d: ", gen ? "generic" : "own", k, fed - k) + o.guard; look(fed - st, "after", fed); look(fed - st, "asked again after", fed); }
    v = o.v; if (mask >> 31) ti_stream_free(s); else ind->stream_free(s); return e;
}
static std::string handle_pair(const Case& c, const std::vector<int>& ch, unsigned mask) {
    static std::vector<std::vector<double>> a, b; std::string e = handle_run(c, ch, 0, a); if (!e.empty()) return "own calls: " + e; e = handle_run(c, ch, mask, b); if (!e.empty()) return strf("generic calls (mask %x): ", mask) + e;
    for (size_t k = 0; k < a.size(); ++k) for (size_t i = 0; i < a[k].size(); ++i) { ++ST.outs; if (is_sent(b[k][i])) return strf("generic calls (mask %x): output %s[%zu] was never written", mask, c.ind->output_names[k], i); if (memcmp(&a[k][i], &b[k][i], 8) && !(std::isnan(a[k][i]) && std::isnan(b[k][i]))) return strf("output %s[%zu] is %.17g through generic calls (mask %x), %.17g through the indicator's own", c.ind->output_names[k], i, b[k][i], mask, a[k][i]); }
    return "";
}
static std::string chk_handle(const Case& c) { unsigned m = 0; auto ch = parse_ints(c.note.c_str()); if (ch.empty()) return ""; m = (unsigned)ch[0] | (ch.back() ? 1u << 31 : 0); ch.pop_back(); ch.erase(ch.begin()); return handle_pair(c, ch, m); }
static std::string handle_note(const std::vector<int>& ch, unsigned m) { return strf("mask %u chunks ", m & 0x7fffffff) + join(ch) + strf(" free %d", (int)(m >> 31)); }

// work and memory per bar: early and late stretches of one history whose bars repeat with period 66
static const int CYCLE = 66;
static std::string chk_work(const Case& c) {
    int st = c.ind->start(c.o()), mp = st; for (int k = 0; k < c.ind->options; ++k) if (is_period(c.ind->option_names[k], c.ind->name)) mp = std::max(mp, (int)c.opt[k]);
    int A = (st + 2 * mp + 64) / CYCLE * CYCLE + CYCLE, S = (std::max(mp, 264) + CYCLE - 1) / CYCLE * CYCLE, late = A + (c.n - A) / S * S - S; if (late < A + 7 * S) return ""; static Bufs b; static Out o;
    auto seg = [](const char* what, double early, double lat, int bars) { double x = early / bars, y = lat / bars; ++ST.outs; return y > 1.5 * x + 64 ? strf("%s takes %.0f steps per bar early in the history and %.0f late", what, x, y) : std::string(); };
    if (c.ind->stream_new) for (int sz : {1, 6, S}) {
        ti_stream* s = nullptr; g_alloc.live = g_alloc.bytes = g_alloc.peak = 0; g_alloc.armed = true; int rc = c.ind->stream_new(c.o(), &s); g_alloc.armed = false; if (rc) return strf("stream_new returned %d", rc); ++ST.calls;
        int p = -st; long w[2] = {0, 0}, mem[2] = {0, 0}; std::string e;
        auto feed = [&](int from, int k) { int len = std::max(0, p + k) - std::max(0, p); b.set(c, from, k, len); g_alloc.peak = g_alloc.bytes; long w0 = g_work; g_alloc.armed = true; rc = c.ind->stream_run(s, k, b.ip, b.op); g_alloc.armed = false; p += k; o.v.assign(c.ind->outputs, {}); b.done(c, from, o); if (rc && e.empty()) e = strf("stream_run returned %d", rc); return g_work - w0; };
        for (int i = 0; i < A; i += CYCLE) feed(i, CYCLE);
        for (int i = A; i < late + S; ) { int q = i < A + S ? 0 : i >= late ? 1 : -1, k = q < 0 ? (i % S == A % S ? S : CYCLE) : std::min(sz, S); long x = feed(i, k); if (q >= 0) { w[q] += x; mem[q] = std::max(mem[q], g_alloc.peak); } i += k; }
        if (e.empty()) { ++ST.outs; if (mem[1] > mem[0] * 1.25 + 256) e = strf("holds %ld bytes early in the history and %ld late", mem[0], mem[1]); }
        if (e.empty()) e = seg("feeding", w[0], w[1], S);
        if (e.empty()) { long x = feed(0, 0); if (x > 400 + 8 * mp) e = strf("an empty feed takes %ld steps", x); }
        g_alloc.armed = true; c.ind->stream_free(s); g_alloc.armed = false; if (!e.empty()) return strf("a stream fed %d bars at a time: ", sz) + e;
    }
    for (int f = 0; f < 2; ++f) { if (f && !c.ind->indicator_ref) continue; long w[4]; int ns[4] = {A, A + S, late, late + S}; for (int q = 0; q < 4; ++q) { long w0 = g_work; call(c, f ? REF : PLAIN, o, ns[q]); ++ST.calls; w[q] = g_work - w0; if (o.rc) return strf("returned %d", o.rc); }
        std::string e = seg(f ? "the reference variant" : "the batch call", w[1] - w[0], w[3] - w[2], S); if (!e.empty()) return e; }
    return "";
}
static std::vector<double> P_SMALL = {1,2,3,4,5,6,7,8}, P_BIG = {9,10,12,14,16,20,26,34,50,64,100,128,150,151,200,256,300};
static int nper(Ind* ind) { int n = 0; for (int k = 0; k < ind->options; ++k) n += is_period(ind->option_names[k], ind->name); return n; }
// option vectors of an indicator: small periods combined exhaustively, large ones singly and in pairs with small ones
static Grid opt_space(Ind* ind, bool rich) {
    int np = nper(ind); std::vector<double> s; Grid g;
    if (np <= 1) s = P_SMALL; else if (np == 2) s = rich ? std::vector<double>{1,2,3,4,5,7} : std::vector<double>{1,2,3,5}; else if (np == 3) s = rich ? std::vector<double>{1,2,3,5} : std::vector<double>{1,2,4}; else s = {1,2,4};
    g = grid(ind, s); std::set<std::vector<double>> seen(g.begin(), g.end());
    auto add = [&](const std::vector<double>& ps, size_t cap) { auto h = grid(ind, ps); size_t n = 0; for (auto& x : h) { if (n >= cap) break; if (seen.insert(x).second) { g.push_back(x); ++n; } } };
    if (!np) return g;
    if (np == 1) { int reals = ind->options - np; for (double p : P_BIG) add({p}, reals ? 3 : 1); }
    else { for (double p : P_BIG) { add({p}, 2); if (p == 9 || p == 20 || p == 50 || p == 150) { add({3, p}, 4); add({p, 3}, 4); } } add({12, 26}, 4); add({10, 14, 21}, 3); }
    static const std::set<std::string> SLOW = {"edcf","hf","hfsma","hfema"}; // quadratic (or sorting) per bar: the largest windows are left to the thorough tier
    if (!g_thorough && SLOW.count(ind->name)) { Grid h; for (auto& x : g) if (*std::max_element(x.begin(), x.end()) <= 50) h.push_back(x); g = h; }
    if (!strcmp(ind->name, "macd")) { auto v = std::vector<double>{12, 26, 9}; if (seen.insert(v).second) g.push_back(v); v = {12, 26, 3}; g.push_back(v); v = {12, 27, 9}; g.push_back(v); }
    return g;
}
static Grid opt_space_fwd(Ind* ind) { return opt_space(ind, false); }
// a handful of valid option vectors: small, mixed, larger
static Grid small_opts(Ind* ind) {
    Grid g = opt_space(ind, false), r; if (g.empty()) return r; size_t n = g.size(); std::set<std::vector<double>> seen;
    for (size_t q : {n / 3, (size_t)0, n - 1 - n / 5, n / 2}) if (q < n && seen.insert(g[q]).second && ind->start(g[q].data()) < 60) r.push_back(g[q]);
    if (r.empty()) r.push_back(g[0]); return r;
}
#include "relations.hh"
#include "identity.hh"
typedef std::string (*Checker)(const Case&);
static const std::map<std::string, Checker> CHECKERS = {{"conform", chk_conform}, {"stream", chk_stream}, {"ref", chk_ref}, {"causal", chk_causal}, {"extent", chk_extent}, {"memory", chk_memory}, {"leak", chk_leak}, {"nonfinite", chk_nonfinite}, {"handle", chk_handle}, {"work", chk_work}, {"identity", chk_identity},
    {"range", chk_range}, {"scale", chk_scale}, {"forget", chk_forget}, {"options", chk_options}, {"oom", chk_oom}, {"purity", chk_purity}, {"isolate", chk_isolate}};

// ---- exploration ------------------------------------------------------------------------------------------
static const std::vector<std::vector<uint8_t>> A3 = {{0,1,2},{0,3,5},{4,2,7},{6,8,1},{3,7,9},{0,1,10},{5,12,3}};
static const std::vector<std::vector<uint8_t>> A4 = {{0,1,2,3},{5,6,7,8},{3,4,9,10},{2,12,11,4}};
struct Item { Ind* ind; std::vector<double> opt; int part; int huge = 0; }; // huge: 1 one huge option vector or a long history, 2 the option sweep of the indicator
static const int STEEP = 8; // the transform under which every bar is a new high
static Word g_prev; // for counting distinct history prefixes within one enumeration
static void node(const uint8_t* w, int n) { int k = 0; while (k < n && k < (int)g_prev.size() && g_prev[k] == w[k]) ++k; ST.states += n - k; ST.transitions += n; ++ST.cases; g_prev.assign(w, w + n); }
static Case g_case;
static const Case& mkcase(const Item& it, const uint8_t* w, int n, int tf, const char* note = "") { set_cur(it.ind, it.opt, w, n, tf, note); g_case.ind = it.ind; g_case.opt = it.opt; fill(g_case, w, n, TFS[tf]); g_case.note = note; return g_case; }
static int maxp(const Item& it) { double m = 1; for (size_t k = 0; k < it.opt.size(); ++k) if (is_period(it.ind->option_names[k], it.ind->name)) m = std::max(m, it.opt[k]); return (int)m; }
static int ipow(int a, int b) { int r = 1; while (b--) r *= a; return r; }

// Indicators that a reader would also count into another family are explored with that one too.
static bool in_family(const char* name, const char* family, const std::string& want) {
    static const std::map<std::string, std::set<std::string>> ALSO = {
        {"elementwise", {"tr","marketfi"}},
        {"window", {"stoch","willr","cci","atr","mfi","vi","pc","cmf","edcf","hf","hfsma","er","abands","bbands","rmf","lag"}},
        {"recursive", {"decay","edecay","emsd","adosc","kvo","kc","hfema","rmi","tsi","smi","frama","mama","atr","mass","cvi","fi","evwma","lf","ssmooth"}},
        {"oscillator", {"mom","roc","rocr","bop","fosc","qstick","dpo","vosc","vhf","ao","trix","apo","ppo","macd","vi","aroon","aroonosc","cmi","mass","dx","adosc","kvo","cmf","fi","arsi","mesastoch","emv","cvi","volatility"}},
        {"trend", {"max","min","bbands","volatility","vhf","ao","ultosc","willr","stoch","stddev","hd","msw","posc","rvi"}},
        {"volume", {"vwma","vosc","mfi","vwap"}},
        {"filter", {"edcf","fisher","decay","edecay","hwma","swma","pwma","t3","zlema","kama","hd","dwma","idwma"}},
        {"cycle", {"kama","vidya","er","pfe","edcf","mgdyn","ahma","roof","ssmooth","fisher","ehma","cmi","dpo"}}};
    if (want == family) return true; auto f = ALSO.find(want); return f != ALSO.end() && f->second.count(name);
}
// The standard word space of one option vector; `budget` bounds the number of bars fed.
static bool g_light = false; // fewer letters and no value transforms: for checkers that run several calls per word
template<class F> static void word_space(const Item& it, double budget, F f) {
    int st = it.ind->start(it.opt.data()); if (st < 0) st = 0; int mp = maxp(it); double unit = budget / 10; // bars per block
    auto go = [&](const Word& w, int tf) { node(w.data(), w.size()); f(w, tf); };
    auto depth = [&](double bars, int k, int cap) { int d = 1; while (d < cap && std::pow(k, d + 1) * (d + 1) <= bars) ++d; return d; };
    // (1) every word
    for (size_t a = 0; a < A3.size(); ++a) { if (g_light && a > 3) break; int d = depth(unit / (a ? 4 : 1), 3, 12); g_prev.clear(); if (d > st) all_words(A3[a], d, [&](const Word& w) { go(w, 0); }); }
    for (size_t a = 0; a < A4.size(); ++a) { if (g_light) break; int d = depth(unit / 4, 4, 8); g_prev.clear(); if (d > st) all_words(A4[a], d, [&](const Word& w) { go(w, 0); }); }
    for (int tf = 1; tf < (int)(sizeof TFS / sizeof *TFS) && !g_light; ++tf) { int d = depth(unit / 8, 3, 8); g_prev.clear(); if (d > st) all_words(A3[tf % 3], d, [&](const Word& w) { go(w, tf); }); }
    // (2) lassos
    { int L = st + std::max(12, std::min(2 * mp + 4, 60)); for (size_t a = 0; a < A3.size(); ++a) { if (g_light && a > 1) break; int mu = 2, mv = 3; if (507.0 * L > unit / (g_light ? 1 : 4)) { mu = 1; mv = 2; } g_prev.clear(); if ((mu == 1 ? 48.0 : 507.0) * L <= unit || a == 0) lassos(A3[a], mu, mv, L, [&](const Word& w) { go(w, a % 2 ? 0 : (int)(a / 2) % 7); }); } }
    // (3) bursts at every position
    { int L = st + std::min(mp, 64) + 8; for (size_t a = 0; a < (g_light ? 1 : 4); ++a) { int m = 3 * 9.0 * L * L <= unit ? 2 : 1; if (9.0 * L * L > unit * 2 && (a || g_light)) break; g_prev.clear(); bursts(A3[a], m, L, std::max(0, L - 400), L - m, [&](const Word& w) { go(w, 0); }); } }
    // (4) every m-letter context once, under every value transform
    for (int tf = 0; tf < (int)(sizeof TFS / sizeof *TFS); ++tf) for (size_t a = 0; a < A4.size(); ++a) { if (g_light && tf && (tf != STEEP || a)) continue; g_prev.clear(); Word w = debruijn(A4[a], budget > 2e6 || a == 0 ? 4 : 3); if (st + 40 > (int)w.size()) { Word v; while ((int)v.size() < st + 120 + mp) v.insert(v.end(), w.begin(), w.end()); w = v; } go(w, tf); }
    // every pair and triple of all the letters
    { std::vector<uint8_t> all; for (int i = 0; i < NSYM; ++i) all.push_back(i); for (int m = 2; m < 4; ++m) { if (m == 3 && budget < 2e4) break; g_prev.clear(); Word w = debruijn(all, m), v; while ((int)v.size() < st + 120) v.insert(v.end(), w.begin(), w.end()); go(v, 0); if (!g_light && m == 2) for (int tf : {4, 8, 9}) { g_prev.clear(); go(v, tf); } } }
    // (5) long histories
    if (!g_light) { g_prev.clear(); Word w = debruijn(A3[0], 7); while ((int)w.size() < 3 * st) w.insert(w.end(), w.begin(), w.end()); go(w, 0); g_prev.clear(); w = debruijn(A4[1], 5); Word v; while ((int)v.size() < st + 40) v.insert(v.end(), w.begin(), w.end()); go(v.size() > w.size() ? v : w, 0);
      g_prev.clear(); w = debruijn(A4[0], 5); v.clear(); while ((int)v.size() < st + 40) v.insert(v.end(), w.begin(), w.end()); go(v, 0); }
}
static void all_compositions(int n, const std::function<void(const std::vector<int>&)>& f) { std::vector<int> c; for (int m = 0; m < (1 << (n - 1)); ++m) { c.clear(); int run = 1; for (int i = 0; i < n - 1; ++i) if (m >> i & 1) { c.push_back(run); run = 1; } else ++run; c.push_back(run); f(c); } }

static Checker g_check; static std::string g_modename; static std::vector<Item> g_items; static double g_budget = 1e6;
static Word cyc(const std::vector<uint8_t>& a, int m, int len) { Word w = debruijn(a, m), v; while ((int)v.size() < len) v.insert(v.end(), w.begin(), w.end()); v.resize(len); return v; }

// Periods far above anything a table-driven test uses, and histories long enough for counters and drift to matter.
static const std::set<std::string> QUADRATIC = {"edcf","hf","hfsma","hfema","hurst","swma"};
static Grid huge_opts(Ind* ind) {
    Grid r; auto m = models().find(ind->name); if (m == models().end() || !nper(ind)) return r; bool q = QUADRATIC.count(ind->name); std::set<std::vector<double>> seen;
    Grid base = grid(ind, {4}); if (base.empty()) base = grid(ind, {2, 4}); if (base.empty()) return r;
    auto put = [&](std::vector<double> v) { if (m->second.valid(v.data()) && m->second.start(v.data()) < 130000 && seen.insert(v).second) r.push_back(v); };
    std::vector<double> b = base[0]; std::vector<double> ps; if (!strcmp(ind->name, "edcf")) ps = {160}; else if (q) ps = {700}; else ps = {1500, 5000, 50000};
    for (double p : ps) { std::vector<double> all = b; int left = nper(ind); for (int k = 0; k < ind->options; ++k) if (is_period(ind->option_names[k], ind->name)) { auto v = b; v[k] = p; put(v); all[k] = p - --left; } if (p < 5000) put(all); }
    return r;
}
// Every combination of moderate option values, each on a few words: thresholds and special cases hidden in the options.
static Grid sweep_opts(Ind* ind) {
    Grid r; auto m = models().find(ind->name); int np = nper(ind); if (m == models().end() || !ind->options) return r; bool q = QUADRATIC.count(ind->name); std::set<std::vector<double>> seen;
    auto put = [&](const std::vector<double>& v) { if (m->second.valid(v.data()) && seen.insert(v).second) r.push_back(v); };
    Grid base = grid(ind, {3}); if (base.empty()) base = grid(ind, {2, 4}); if (base.empty()) return r; std::vector<int> ix; for (int k = 0; k < ind->options; ++k) if (is_period(ind->option_names[k], ind->name)) ix.push_back(k);
    int nr = ind->options - np; size_t step = std::max<size_t>(1, base.size() / 3); auto T = [&](int x) { return g_thorough ? 2 * x : x; };
    for (size_t b = 0; b < base.size(); b += step) { auto v = base[b];
        if (np == 1) { for (int p = 1; p <= (q ? 40 : T(200)); ++p) { v[ix[0]] = p; put(v); } }
        else if (np == 2) { for (int p = 1; p <= T(q ? 12 : 30); ++p) for (int p2 = 1; p2 <= T(q ? 12 : 30); ++p2) { v[ix[0]] = p; v[ix[1]] = p2; put(v); } }
        else if (np == 3) { std::vector<double> g = {1,2,3,4,5,6,9,12,14,26}; if (g_thorough) g = {1,2,3,4,5,6,7,8,9,10,12,13,14,16,20,21,26,30}; for (double x : g) for (double y : g) for (double z : g) { v[ix[0]] = x; v[ix[1]] = y; v[ix[2]] = z; put(v); } }
        else for (int a = 0; a < np; ++a) for (int c = 0; c < a; ++c) for (int p = 1; p <= T(10); ++p) for (int p2 = 1; p2 <= T(10); ++p2) { auto w = v; w[ix[a]] = p; w[ix[c]] = p2; put(w); } }
    // the real-valued options on a fine grid
    for (int k = 0; k < ind->options; ++k) if (!is_period(ind->option_names[k], ind->name)) for (size_t b = 0; b < base.size(); b += std::max<size_t>(1, base.size() / 6)) for (double x : {-2., -1., -0.5, 0., 0.0005, 0.001, 0.005, 0.01, 0.02, 0.05, 0.1, 0.2, 0.25, 0.3, 0.4, 0.5, 0.6, 0.7, 0.75, 0.8, 0.9, 0.95, 0.99, 1., 1.25, 1.5, 2., 2.5, 3., 4., 5., 6., 8., 10., 14., 25., 48., 60., 100.}) { auto v = base[b]; v[k] = x; put(v); }
    (void)nr; return r;
}
static const int LONG = 70000;
static const int ROUND[] = {31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 10000, 16384, 32768, 65535, 65536, 65537}; // lengths at which blocks and counters end
template<class F> static void huge_words(const Item& it, int st, F f) {
    int mp = maxp(it); g_prev.clear();
    if (it.opt != small_opts(it.ind)[0] && mp >= 160) { int n = st + (mp >= 5000 ? 40 : 150); f(cyc(A4[0], 4, n), 0); f(cyc(A3[1], 3, n), 0); if (mp < 5000 || g_thorough) { f(cyc(A4[1], 4, n), 0); f(cyc(A4[3], 3, n), 2); Word w(n, 8); for (int i = 0; i < n; ++i) if (i % 97 == 5) w[i] = 1; f(w, 0); } }
    else if (g_modename == "scale") f(cyc(A4[0], 5, 4000), 0); // rounding drift of a rolling sum at a price level of 2^20 is not a change of units
    else { f(cyc(A4[0], 5, LONG), 0); for (int m : ROUND) if (m > st) f(cyc(A4[0], 5, m), 0); if (g_thorough) { f(cyc(A4[3], 4, LONG), 0); f(cyc(A4[1], 4, 120000), 1); } }
}
static Case std_case(Ind* ind, int variant, const std::vector<double>* opt) {
    Grid g = small_opts(ind); std::vector<double> o = opt ? *opt : g[0]; if (variant == 2) { for (auto& x : g) if (x != o) { o = x; break; } } int st = std::max(0, ind->start(o.data()));
    Case c = with(ind, o, variant == 1 ? 7 : 0, variant == 3 ? std::min(st, 2) : st + (variant == 2 ? 11 : 9)); if (variant == 4) for (double& x : c.opt) x = -1; return c;
}
// run f in a child of this (library-virgin) process; a crash of the child is a crash of the worker
template<class F> static void pristine(F f) {
    fflush(0); pid_t p = fork(); if (p == 0) { try { f(); } catch (Stop&) {} _exit(0); } int st; waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); } if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
}
static void run_item(int k) {
    const Item& it = g_items[k]; int st = it.ind->start(it.opt.data()), mp = maxp(it);
    auto one = [&](const uint8_t* w, int n, int tf, const char* note = "") { const Case& c = mkcase(it, w, n, tf, note); std::string e = g_check(c); if (!e.empty()) violation(c, describe(c) + ": " + e); };
    auto& M = g_modename;
    if (it.huge == 2) {
        for (auto& o : sweep_opts(it.ind)) { Item s{it.ind, o, it.part}; int st = it.ind->start(o.data()); g_prev.clear();
            for (int q = 0; q < (M == "conform" && it.ind->options ? 5 : 3); ++q) { Word w = q == 0 ? cyc(A4[0], 4, st + 40) : q == 1 ? cyc(A4[1], 3, st + 25) : q == 2 ? cyc(A3[1], 3, st + 31) : cyc(A4[0], 4, st + 700); int n = w.size(); node(w.data(), n); ++ST.nontrivial; std::string e; const Case& c = mkcase(s, w.data(), n, q < 3 ? 0 : q == 3 ? STEEP : STEEP + 1, M == "stream" ? "chunks of 5" : "");
                e = g_check(c); if (!e.empty()) violation(c, describe(c) + ": " + e); if (M == "stream") { const Case& d = mkcase(s, w.data(), n, 0, "chunks of 1"); e = g_check(d); if (!e.empty()) violation(d, describe(d) + ": " + e); } } }
        return;
    }
    if (it.huge) {
        auto lens = [&](const Word& w) { int n = w.size(); return n >= LONG || st >= n ? std::vector<int>{n} : std::vector<int>{st, st + 1, n}; };
        huge_words(it, st, [&](const Word& w, int tf) { int n = w.size(); node(w.data(), n); if (n > st) ++ST.nontrivial;
            if (M == "stream") { const Case c = mkcase(it, w.data(), n, tf); static Out p; call(c, PLAIN, p); static MV mv; const MV* q = mv_for(c); if (q) mv = *q, q = &mv;
                int h = std::max(1, n - 3000); for (auto& pre : std::vector<std::vector<int>>{{n}, {st, 1, n - st - 1}, {h, (n - h) / 2, n - h - (n - h) / 2}}) { if (*std::min_element(pre.begin(), pre.end()) < 0) continue; set_note(("chunks " + join(pre)).c_str()); auto e = stream_vs(c, p, q, pre); if (!e.empty()) { Case v = c; v.note = "chunks " + join(pre); violation(v, describe(c) + ": " + e); } }
                for (int sz : {1, 2, 13, 64, 100, 256, 1000, 1024, 4096, 32768, 65536}) { if (n < LONG && sz > 1) continue; std::vector<int> ch; for (int r = n; r > 0; r -= sz) ch.push_back(std::min(r, sz)); set_note(strf("chunks of %d", sz).c_str()); auto e = stream_vs(c, p, q, ch); if (!e.empty()) { Case v = c; v.note = "chunks " + join(ch); violation(v, describe(c) + ": a stream fed " + strf("%d bars at a time: ", sz) + e.substr(0, 300)); } } }
            else if (M == "causal") { const Case c = mkcase(it, w.data(), n, tf); static Out f; call(c, PLAIN, f); const MV* mv = mv_for(c); for (int k2 : {n - 1, n - 29, st + 1, (st + n) / 2}) if (k2 > 0 && k2 < n) { set_note(strf("prefix %d", k2).c_str()); auto e = causal_at(c, f, mv, k2); if (!e.empty()) { Case v = c; v.note = strf("prefix %d", k2); violation(v, describe(c) + ": " + e); } } }
            else if (M == "extent" || M == "leak" || M == "memory") for (int m : lens(w)) one(w.data(), m, tf);
            else one(w.data(), n, tf); });
        return;
    }
    if (M == "conform" || M == "range" || M == "scale" || M == "forget" || M == "identity") word_space(it, g_budget, [&](const Word& w, int tf) { if ((int)w.size() > st) ++ST.nontrivial; one(w.data(), w.size(), tf); });
    else if (M == "ref") word_space(it, g_budget, [&](const Word& w, int tf) { if ((int)w.size() > st) ++ST.nontrivial; one(w.data(), w.size(), tf); });
    else if (M == "stream") {
        auto vs = [&](const Case& c, const Out& p, const MV* mv, const std::vector<int>& ch) { set_note(strf("chunks %s", join(ch).c_str()).c_str()); auto e = stream_vs(c, p, mv, ch); if (!e.empty()) { Case v = c; v.note = "chunks " + join(ch); violation(v, describe(c) + ": " + e); } };
        // every composition of every short word
        int d = g_thorough ? 9 : 6; static Out p;
        if (st < d) for (size_t a = 0; a < 3; ++a) { g_prev.clear(); int dd = st <= 3 ? d - 1 : d; all_words(a == 0 ? A3[0] : a == 1 ? std::vector<uint8_t>{3, 5} : std::vector<uint8_t>{4, 9}, a == 0 ? std::min(dd, 6) : dd, [&](const Word& w) { node(w.data(), w.size()); const Case& c = mkcase(it, w.data(), w.size(), 0); call(c, PLAIN, p); const MV* mv = mv_for(c); all_compositions(w.size(), [&](const std::vector<int>& ch) { ++ST.nontrivial; vs(c, p, mv, ch); }); }); }
        // every two-cut split, every constant chunk size, every single cut with empty chunks around it
        int L = st + std::min(mp, 40) + 14; for (size_t a = 0; a < A4.size(); ++a) { Word w = cyc(A4[a], 3, L); int tf = a; node(w.data(), L); const Case c = mkcase(it, w.data(), L, tf); call(c, PLAIN, p); static MV mv; const MV* q = mv_for(c); if (q) mv = *q, q = &mv;
            for (int s = 1; s <= L; ++s) { std::vector<int> ch; for (int r = L; r > 0; r -= s) ch.push_back(std::min(r, s)); vs(c, p, q, ch); }
            if (L <= 120 || a == 0) for (int x = 0; x <= L; ++x) vs(c, p, q, {0, x, 0, L - x, 0});
            if (L <= (g_thorough ? 64 : a ? 24 : 36)) for (int x = 1; x < L; ++x) for (int y = x + 1; y < L; ++y) vs(c, p, q, {x, y - x, L - y}); }
        word_space(it, g_budget, [&](const Word& w, int tf) { int n = w.size(); if (n > st) ++ST.nontrivial; const Case& c = mkcase(it, w.data(), n, tf); call(c, PLAIN, p); const MV* mv = mv_for(c); vs(c, p, mv, {n}); if (n <= 64) vs(c, p, mv, std::vector<int>(n, 1)); else { std::vector<int> ch; int r = n, s = 1; while (r > 0) { int t = std::min(r, s); ch.push_back(t); r -= t; s = s % 7 + 1; } set_note("chunks cyc7"); auto e = stream_vs(c, p, mv, ch); if (!e.empty()) { Case v = c; v.note = "chunks " + join(ch); violation(v, describe(c) + ": " + e); } } });
    }
    else if (M == "causal") {
        auto full = [&](const Word& w, int tf, int lo) { int n = w.size(); if (n > st) ++ST.nontrivial; node(w.data(), n); const Case& c = mkcase(it, w.data(), n, tf); static Out f; call(c, PLAIN, f); const MV* mv = mv_for(c);
            for (int k2 = lo; k2 < n; ++k2) { set_note(strf("prefix %d", k2).c_str()); auto e = causal_at(c, f, mv, k2); if (!e.empty()) { Case v = c; v.note = strf("prefix %d", k2); violation(v, describe(c) + ": " + e); } } };
        auto futures = [&](const Word& w, int tf) { int n = w.size(); const Case& c = mkcase(it, w.data(), n, tf); static Out f; call(c, PLAIN, f); static MV mv; const MV* q = mv_for(c); if (q) mv = *q, q = &mv; std::set<int> ks = {1, st, st + 1, st + 2, st + 3, (st + n) / 2, n - 2, n - 1};
            for (int k : ks) if (k > 0 && k < n) for (int z = 0; z < NFUT; ++z) { set_note(strf("future %d %d", k, z).c_str()); auto e = future_at(c, f, q, k, z); if (!e.empty()) { Case v = c; v.note = strf("future %d %d", k, z); violation(v, describe(c) + ": " + e); } } };
        int d = 1; while (std::pow(3, d + 1) * (d + 1) * (d + 1) < g_budget / 4) ++d;
        if (d > st) for (size_t a = 0; a < 3; ++a) { g_prev.clear(); all_words(A3[a], d, [&](const Word& w) { full(w, 0, 0); }); }
        for (size_t a = 0; a < A4.size(); ++a) for (int tf = 0; tf < (a ? 1 : 4); ++tf) { g_prev.clear(); Word w = cyc(A4[a], 3, st + std::min(mp, 64) + 30); full(w, tf, 0); futures(w, tf); w.resize(st + 6); futures(w, tf); }
        { g_prev.clear(); full(cyc(A4[0], 5, std::max(700, st + 300)), 0, std::max(0, std::max(700, st + 300) - 70)); }
    }
    else if (M == "extent" || M == "memory" || M == "leak") {
        bool mem = M == "memory"; int top = std::max(0, st) + (mem && !g_thorough ? std::min(mp, 12) + 6 : std::min(mp, 40) + 12);
        for (size_t a = 0; a < (mem && g_thorough ? A4.size() : 2); ++a) { Word w = cyc(A4[a], 3, std::max(top, 8)); for (int n = 0; n <= top; ++n) { if (top > 100 && n > 16 && n < st - 5 && n % (a ? 29 : 11)) continue; if (mem && !g_thorough && a && n > 8 && (n < st || n > st + 3)) continue; node(w.data(), n); if (n > st) ++ST.nontrivial; one(w.data(), n, a == 1 ? 4 : 0); } }
        for (int tf : mem && !g_thorough ? std::vector<int>{0, 3, 6, 8} : std::vector<int>{0, 1, 2, 3, 4, 5, 6, 8, 9}) { Word w = cyc(A4[tf % 4], 4, (mem && !g_thorough ? 90 + mp : 260) + std::max(0, st)); node(w.data(), w.size()); one(w.data(), w.size(), tf); }
        if (it.part == 0 || (!mem && it.part < 4)) { Word w = cyc(A4[0], 4, 4100 + std::max(0, st)); for (int n = 0; n <= (mem ? 70 : 300); ++n) { node(w.data(), n); one(w.data(), n, 0); } for (int n : ROUND) for (int d : {0, std::max(0, st)}) if (n < 4100) { node(w.data(), n + d); one(w.data(), n + d, 0); } }
        if (mem) { int d = 1; while (std::pow(3, d + 1) * (d + 1) < (g_thorough ? g_budget / 20 : 300)) ++d; for (size_t a = 0; a < (g_thorough ? A3.size() : 3); ++a) { g_prev.clear(); if (d > st) all_words(A3[a], d, [&](const Word& w) { node(w.data(), w.size()); one(w.data(), w.size(), 0); }); } }
    }
    else if (M == "nonfinite") {
        int L = std::max(0, st) + std::min(mp, 12) + 8, lo = L > 80 ? L - 40 : 0; Word w = cyc(A4[0], 3, L); auto go = [&](const std::string& note) { node(w.data(), L); ++ST.nontrivial; one(w.data(), L, 0, note.c_str()); };
        for (int i = 0; i < L; i = i == 2 && lo > 3 ? lo : i + 1) for (int k = -1; k < it.ind->inputs; ++k) { if (k == 0 && it.ind->inputs == 1) continue; for (int q = 0; q < 6; ++q) go(strf("poison %d:%d:%d", k, i, q)); }
        for (int q = 0; q < 6; ++q) for (int q2 = 0; q2 < 6; ++q2) { std::string s = "poison"; for (int i = 0; i < L && s.size() < 900; ++i) s += strf(" -1:%d:%d", i, i % 2 ? q : q2); if (L <= 90) go(s); } // every bar, two kinds in turn
        if (L <= (g_thorough ? 40 : 20)) for (int i = 0; i < L; ++i) for (int j = i + 1; j < L; ++j) for (int q = 0; q < 3; ++q) for (int q2 = 0; q2 < 3; ++q2) go(strf("poison -1:%d:%d -1:%d:%d", i, q, j, q2));
    }
    else if (M == "handle") {
        auto hp = [&](const Case& c, const std::vector<int>& ch, unsigned m) { set_note(handle_note(ch, m).c_str()); ++ST.nontrivial; auto e = handle_pair(c, ch, m); if (!e.empty()) { Case v = c; v.note = handle_note(ch, m); violation(v, describe(c) + ": " + e); } };
        static const unsigned MASKS[] = {0u, 0xffffffffu, 0x55555555u, 0xaaaaaaaau, 0x80000000u, 0x7fffffffu};
        int d = g_thorough ? 9 : 7; for (size_t a = 0; a < 2; ++a) { Word w = cyc(A4[a], 3, d); node(w.data(), d); const Case c = mkcase(it, w.data(), d, 0); all_compositions(d, [&](const std::vector<int>& ch) { for (unsigned m : MASKS) hp(c, ch, m); }); }
        // every assignment of generic and own calls to the calls around the end of the warm-up, empty calls between
        int L = st + 8; Word w = cyc(A4[2], 3, L); node(w.data(), L); const Case c = mkcase(it, w.data(), L, 1); int h = std::max(0, st - 2); std::vector<int> ch{h, 0, 1, 1, 0, 1, 0, L - h - 3}; for (unsigned m = 0; m < 256; ++m) hp(c, ch, m | (m & 1) << 31);
        for (int x = 0; x <= L; ++x) { hp(c, {x, L - x}, 1); hp(c, {0, x, 0, L - x, 0}, 0x80000000u | 10); } for (int s = 1; s <= L; s += L > 100 ? 7 : 1) { std::vector<int> k; for (int r = L; r > 0; r -= s) k.push_back(std::min(r, s)); hp(c, k, 0x55555555u); hp(c, k, 0x80000000u); }
    }
    else if (M == "work") {
        int mx = st; for (size_t k = 0; k < it.opt.size(); ++k) if (is_period(it.ind->option_names[k], it.ind->name)) mx = std::max(mx, (int)it.opt[k]); int A = (st + 2 * mx + 64) / CYCLE * CYCLE + CYCLE, S = (std::max(mx, 264) + CYCLE - 1) / CYCLE * CYCLE;
        static const std::vector<uint8_t> FLAT{3}, TWO{10, 9}; // also no movement at all, and one extreme after the other
        for (size_t a = 0; a < A4.size() + 2; ++a) { if (!g_thorough && (a == 1 || a == 3)) continue; Word w(A + (g_thorough ? 40 : 10) * S), u = cyc(a < A4.size() ? A4[a] : a == A4.size() ? FLAT : TWO, a < A4.size() ? 3 : 1, CYCLE); for (size_t i = 0; i < w.size(); ++i) w[i] = u[i % CYCLE]; if (w.size() > sizeof g_me->w) continue; node(w.data(), w.size()); ++ST.nontrivial; one(w.data(), w.size(), 0); }
    }
    else if (M == "purity") {
        Word w = cyc(A4[0], 3, std::max(0, st) + 10); Word w2 = cyc(A4[2], 3, std::max(0, st) + 14);
        for (auto& u : {w, w2}) { node(u.data(), u.size()); pristine([&] { one(u.data(), u.size(), 0); }); }
        if (it.part == 0) pristine([&] { one(w.data(), w.size(), 0, "tour"); });
        if (it.part == 0) { // every other indicator first, from a pristine process
            static Out* base = (Out*)0; (void)base; Case c = mkcase(it, w.data(), w.size(), 0, "pairs"); size_t cap = 4096; double* sh = (double*)mmap(0, cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            auto pack = [&](const Out& r, double* d) { size_t q = 0; d[q++] = r.rc; for (auto& v : r.v) for (double x : v) if (q < cap) d[q++] = x; return q; };
            for (int api : {0, 2}) if (has_api(it.ind, api)) { pristine([&] { static Out r; api_call(c, api, r); pack(r, sh); });
                for (int j = 0; j < ti_indicator_count(); ++j) { Ind* J = ti_indicators + j; if (J == it.ind || (api && !J->stream_new)) continue; ++ST.transitions; ++ST.states; ++ST.nontrivial; set_note(strf("after %s", J->name).c_str());
                    pristine([&] { Case d = std_case(J, 0); static Out r, z; if (models().at(J->name).valid(d.o())) api_call(d, api, r); api_call(c, api, z); static double buf[4096]; size_t q = pack(z, buf); for (size_t i = 0; i < q; ++i) { double a = sh[i], b = buf[i]; ++ST.outs; if (!(a == b || std::isnan(a) && std::isnan(b) || std::fabs(a - b) <= 1e-9 * std::fabs(a))) { Case v = c; v.note = std::string("after ") + J->name; violation(v, describe(c) + ": " + API[api] + " gives another result after a call of " + J->name); } } }); } }
            // the same indicator with other arguments first: every ordered pair of a set of calls that differ in one thing
            Grid vs{it.opt}; std::set<std::vector<double>> seen(vs.begin(), vs.end()); auto& V = models().at(it.ind->name);
            for (int k2 = 0; k2 < it.ind->options; ++k2) for (double dd : {1., 2., -1., 0.5, 9.}) { auto v = it.opt; v[k2] += dd; if (V.valid(v.data()) && V.start(v.data()) < 200 && seen.insert(v).second) vs.push_back(v); if (vs.size() > 12) break; }
            for (auto& v : small_opts(it.ind)) if (seen.insert(v).second) vs.push_back(v);
            std::vector<Case> cs; for (auto& v : vs) for (int q = 0; q < 2; ++q) { Item i2{it.ind, v, 0}; Word u = cyc(A4[q], 3, std::max(0, it.ind->start(v.data())) + (q ? 17 : 10)); cs.push_back(mkcase(i2, u.data(), u.size(), 0)); }
            if (!g_thorough && cs.size() > 20) cs.resize(20); sh = (double*)mmap(0, cs.size() * cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            for (int api : {0, 1, 2}) if (has_api(it.ind, api)) {
                for (size_t b = 0; b < cs.size(); ++b) pristine([&] { static Out r; api_call(cs[b], api, r); pack(r, sh + b * cap); });
                for (size_t a = 0; a < cs.size(); ++a) for (size_t b = 0; b < cs.size(); ++b) { ++ST.transitions; ++ST.states; ++ST.nontrivial; set_cur(it.ind, cs[b].opt, w.data(), w.size(), 0, "itself first");
                    pristine([&] { static Out r, z; api_call(cs[a], api, r); api_call(cs[b], api, z); static double buf[4096]; size_t q = pack(z, buf); for (size_t i = 0; i < q; ++i) { double x = sh[b * cap + i], y = buf[i]; ++ST.outs; if (!(x == y || std::isnan(x) && std::isnan(y) || std::fabs(x - y) <= 1e-9 * std::fabs(x))) { Case v = cs[b]; v.note = "itself"; for (double o : cs[a].opt) v.note += " " + hexd(o); v.note += strf(" : %d %d", (int)(a % 2), cs[a].n); violation(v, describe(v) + ": " + API[api] + " gives another result after " + describe(cs[a])); } } }); } }
            munmap(sh, cs.size() * cap * 8); }
    }
    else if (M == "oom") { for (int n : {std::max(0, st) + 1, std::max(0, st) + 9, 3, 0}) { Word w = cyc(A4[0], 3, std::max(n, 1)); node(w.data(), n); one(w.data(), n, 0); } }
    else if (M == "isolate") { Word w = cyc(A4[0], 3, 1); node(w.data(), 1); pristine([&] { one(w.data(), 1, 0); }); }
    else if (M == "options") { Word w = cyc(A4[0], 3, 40); for (int n : {0, 1, 2, 3, 5, 12, 40}) { node(w.data(), n); ++ST.nontrivial; one(w.data(), n, 0); } }
    for (int q = 0; q < 3; ++q) if (k == (int)(g_items.size() - 1) * q / 2 && g_case.ind) { FILE* f = fopen(strf("%s/sample%d.txt", g_outdir.c_str(), q).c_str(), "w"); if (f) { fputs(dump(g_case).c_str(), f); fclose(f); } } // written out for the evidence
}

#ifndef NO_MAIN
static const std::set<std::string> SWEEP_MODES = {"conform","stream","ref","extent","leak","identity"};
static const std::set<std::string> HUGE_MODES = {"conform","stream","ref","causal","extent","memory","leak","range","scale","forget","identity"};
int main(int argc, char** argv) {
    if (argc >= 4 && !strcmp(argv[1], "--replay")) {
        pool_init(argv[2], "/tmp"); Case c = parse(argv[3]); g_replay = true; auto it = CHECKERS.find(argv[2]); if (it == CHECKERS.end()) return 2;
        std::string e;
        if (!strcmp(argv[2], "purity") && !strncmp(c.note.c_str(), "after ", 6)) { Ind* J = ti_find_indicator(c.note.c_str() + 6); for (int api : {0, 2}) { if (!has_api(c.ind, api) || (api && !J->stream_new)) continue; char* sh = (char*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); static Out a, b; static double v[2][8192]; double* s2 = (double*)mmap(0, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); (void)sh; (void)v;
            auto pack = [&](const Out& r, double* d) { size_t q = 0; d[q++] = r.rc; for (auto& x : r.v) for (double y : x) d[q++] = y; return q; }; static size_t q; pristine([&] { api_call(c, api, a); pack(a, s2); }); Case d = std_case(J, 0); api_call(d, api, b); api_call(c, api, b); static double w[8192]; q = pack(b, w); for (size_t i = 0; i < q; ++i) if (!(s2[i] == w[i] || std::isnan(s2[i]) && std::isnan(w[i]) || std::fabs(s2[i] - w[i]) <= 1e-9 * std::fabs(s2[i]))) e = std::string(API[api]) + " gives another result after a call of " + J->name; } }
        else if (!strcmp(argv[2], "purity") && !strncmp(c.note.c_str(), "itself", 6)) { std::vector<double> o; int q = 0, n = 0; { std::string t = c.note.substr(6); char* p = &t[0]; while (true) { while (*p == ' ') ++p; if (*p == ':' || !*p) break; o.push_back(strtod(p, &p)); } if (*p == ':') sscanf(p + 1, "%d %d", &q, &n); }
            Item i2{c.ind, o, 0}; Word u = cyc(A4[q], 3, n); const Case d = mkcase(i2, u.data(), n, 0); for (int api : {0, 1, 2}) { if (!has_api(c.ind, api)) continue; double* s2 = (double*)mmap(0, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); static Out a, b; auto flat = [&](const Out& r) { std::vector<double> v{(double)r.rc}; for (auto& x : r.v) v.insert(v.end(), x.begin(), x.end()); return v; };
                pristine([&] { api_call(c, api, a); auto v = flat(a); memcpy(s2, v.data(), v.size() * 8); }); api_call(d, api, b); api_call(c, api, b); auto w = flat(b); for (size_t i = 0; i < w.size(); ++i) if (!(s2[i] == w[i] || std::isnan(s2[i]) && std::isnan(w[i]) || std::fabs(s2[i] - w[i]) <= 1e-9 * std::fabs(s2[i]))) e = std::string(API[api]) + " gives another result after " + describe(d); } }
        else e = it->second(c); if (e.empty()) { puts("holds"); return 0; } printf("violated: %s: %s\n", describe(c).c_str(), e.c_str()); return 1;
    }
    if (argc < 3) return 2;
    g_modename = argv[1]; g_check = CHECKERS.at(g_modename); pool_init(argv[1], argv[2]); g_thorough = argc > 3 && !strcmp(argv[3], "thorough"); std::regex re(argc > 4 ? argv[4] : ".*");
    if (getenv("MC_MAXPER")) g_maxper = atoi(getenv("MC_MAXPER"));
    double total = getenv("MC_BUDGET") ? atof(getenv("MC_BUDGET")) : g_thorough ? 3e9 : 4e8; std::string fam = getenv("MC_FAMILY") ? getenv("MC_FAMILY") : "";
    int inds = 0; bool only = getenv("MC_ONLYHUGE"); 
    for (int i = 0; i < ti_indicator_count(); ++i) {
        Ind* ind = ti_indicators + i; if (!std::regex_match(ind->name, re)) continue; auto m = models().find(ind->name);
        if (!fam.empty() && (m == models().end() || !in_family(ind->name, m->second.family, fam))) continue;
        if ((g_modename == "stream" || g_modename == "isolate" || g_modename == "handle") && !ind->stream_new) continue; if (g_modename == "ref" && !ind->indicator_ref) continue;
        if (g_modename == "range" && !has_range(ind->name)) continue; if (g_modename == "scale" && !has_scale(ind->name)) continue; if (g_modename == "identity" && !has_identity(ind->name)) continue; if (g_modename == "forget" && (m == models().end() || !has_window(ind->name))) continue;
        Grid g; if (g_modename == "options") g = option_probes(ind); else if (g_modename == "purity" || g_modename == "isolate") { g = small_opts(ind); if (g_thorough) { Grid h = opt_space(ind, false); for (size_t q = 0; q < h.size(); q += 1 + h.size() / 12) if (ind->start(h[q].data()) < 60) g.push_back(h[q]); } } else if (g_modename == "oom") { g = opt_space(ind, g_thorough); if (!g_thorough && g.size() > 24) { Grid h; for (size_t q = 0; q < g.size(); q += 1 + g.size() / 24) h.push_back(g[q]); g = h; } for (auto& x : memory_probes(ind)) if (g.size() < 40) g.push_back(x); } else if (g_modename == "memory" || g_modename == "extent" || g_modename == "leak") { g = opt_space(ind, g_thorough); for (auto& x : memory_probes(ind)) g.push_back(x); } else g = opt_space(ind, g_thorough);
        ++inds; int part = 0; if (!only) for (auto& o : g) g_items.push_back({ind, o, part++});
        if (HUGE_MODES.count(g_modename)) { for (auto& o : huge_opts(ind)) g_items.push_back({ind, o, part++, 1}); auto sm = small_opts(ind); if (SWEEP_MODES.count(g_modename) && ind->options) g_items.push_back({ind, sm[0], part++, 2}); for (auto& o : sm) { g_items.push_back({ind, o, part++, 1}); if (!g_thorough) break; } }
    }
    if (g_items.empty()) { fprintf(stderr, "nothing to explore\n"); return 2; }
    g_light = !g_thorough && (g_modename == "scale" || g_modename == "stream" || g_modename == "identity"); size_t reg = 0; for (auto& i : g_items) reg += !i.huge && (fam.empty() || fam == models().at(i.ind->name).family); g_budget = total / std::max<size_t>(1, reg); if (getenv("MC_ITEMS")) fprintf(stderr, "%zu items, budget %g bars each\n", g_items.size(), g_budget);
    // heaviest (largest periods) first
    std::stable_sort(g_items.begin(), g_items.end(), [](const Item& a, const Item& b) { return maxp(a) > maxp(b); });
    run_pool(g_items.size(), getenv("MC_JOBS") ? atoi(getenv("MC_JOBS")) : 8, 60, run_item);
    Stats t = pool_stats();
    FILE* f = fopen((g_outdir + "/stats.json").c_str(), "w");
    fprintf(f, "{\"indicators\": %d, \"option_vectors\": %zu, \"traces\": %ld, \"states\": %ld, \"transitions\": %ld, \"calls\": %ld, \"values_compared\": %ld, \"values_undecided\": %ld, \"nontrivial_traces\": %ld, \"seconds\": %.1f}\n", inds, g_items.size(), t.cases, t.states, t.transitions, t.calls, t.outs, t.skipped, t.nontrivial, now() - g_t0); fclose(f);
    int nv = std::min(4096, (int)g_sh->nviol); for (int i = 0; i < nv; ++i) printf("FOUND %s/v%04d.case %s\n", g_outdir.c_str(), i, g_sh->viol[i].text);
    return nv ? 1 : 0;
}
#endif
