// Properties stated as relations between calls, or as bounds on results; and the option/fault/history/life-cycle
// explorations.  Each checker takes a Case and explores everything that is quantified inside the case.
#pragma once
struct Rng { const char* name; int out; double lo, hi; };
static const Rng RANGES[] = {
    {"rsi",0,0,100},{"stochrsi",0,0,1},{"cmo",0,-100,100},{"stoch",-1,0,100},{"willr",0,-100,0},{"aroon",-1,0,100},{"aroonosc",0,-100,100},
    {"adx",0,0,100},{"adxr",0,0,100},{"dx",0,0,100},{"di",-1,0,100},{"mfi",0,0,100},{"ultosc",0,0,100},{"rmi",0,0,100},{"cmf",0,-1,1},{"bop",0,-1,1},
    {"er",0,0,1},{"smi",0,-100,100},{"tsi",0,-100,100},{"crossany",0,0,1},{"crossover",0,0,1},{"vhf",0,0,1e300},{"tr",0,0,1e300},{"atr",0,0,1e300},
    {"stddev",0,0,1e300},{"var",0,0,1e300},{"stderr",0,0,1e300},{"md",0,0,1e300},{"volatility",0,0,1e300},{"emsd",0,0,1e300},{"dm",-1,0,1e300},{"mass",0,0,1e300},{"vi",-1,0,1e300},
    {"sin",0,-1,1},{"cos",0,-1,1},{"tanh",0,-1,1},{"abs",0,0,1e300},{"msw",-1,-1,1},{"rvi",0,0,100}};
struct Ord { const char* name; int lo, hi; }; // output lo <= output hi, bar by bar
static const Ord ORDERS[] = {{"bbands",0,1},{"bbands",1,2},{"kc",0,1},{"kc",1,2},{"pc",0,1},{"pbands",0,1}};
// outputs that stay within the hull of what the averaged input has shown (so far / in its window)
struct Hull { const char* name; int out; };
static const Hull HULLS[] = {{"sma",0},{"ema",0},{"wma",0},{"trima",0},{"wilders",0},{"vwma",0},{"kama",0},{"dwma",0},{"idwma",0},{"pwma",0},{"min",0},{"max",0},{"lag",0},
    {"medprice",0},{"avgprice",0},{"typprice",0},{"wcprice",0},{"mhlma",-1},{"vwap",0},{"hfsma",0},{"hfema",0},{"frama",0},{"pc",-1},{"hf",0},{"lf",0},{"bbands",1}};
template<class A> static bool named(const A& a, const char* n) { for (auto& x : a) if (!strcmp(x.name, n)) return true; return false; }
static bool has_range(const char* n) { return named(RANGES, n) || named(ORDERS, n) || named(HULLS, n); }
static double optn(const Case& c, const char* nm) { for (int k = 0; k < c.ind->options; ++k) if (!strcmp(c.ind->option_names[k], nm)) return c.opt[k]; return NAN; }
static std::string chk_range(const Case& c) {
    static Out r; const char* nm = c.ind->name; double in = 0, vol = 0, lo = INFINITY, hi = -INFINITY; bool positive = true, tiny = false;
    for (int k = 0; k < c.ind->inputs; ++k) for (int i = 0; i < c.n; ++i) { double x = c.in[k][i]; if (!strcmp(c.ind->input_names[k], "volume")) { vol = std::max(vol, x); continue; } in = std::max(in, std::fabs(x)); if (x <= 0) positive = false; lo = std::min(lo, x); hi = std::max(hi, x); }
    (void)positive; (void)tiny;
    call(c, PLAIN, r); ++ST.calls; if (r.rc) return strf("returned %d for valid options", r.rc);
    const MV* mv = c.noisy ? mv_for(c) : nullptr; // rounding noise: the definition's conditioning decides how much slack is fair
    auto slack = [&](size_t k, int i, double base) { double t = 1e-9 * std::max(1., std::fabs(base)); if (mv) { if (std::isnan(mv->m[k][i])) return -1.; t = std::max(t, mv->tol[k][i]); } return t; };
    for (auto& R : RANGES) if (!strcmp(R.name, nm)) for (size_t k = 0; k < r.v.size(); ++k) if (R.out < 0 || R.out == (int)k) for (int i = 0; i < r.len; ++i) {
        double x = r.v[k][i]; if (std::isnan(x)) { ++ST.skipped; continue; } double t = slack(k, i, R.hi > 1e299 ? 0 : R.hi - R.lo); if (t < 0) { ++ST.skipped; continue; } if (R.lo == 0 && R.hi > 1e299) t = std::max(mv ? t : 0, 1e-12 * (!strcmp(nm, "var") ? in * in : in)); // a rounding step below zero is not a negative value ++ST.outs;
        if (!(x >= R.lo - t && x <= R.hi + t)) return strf("output %s[%d] is %.17g, outside [%g, %g]", c.ind->output_names[k], i, x, R.lo, R.hi); }
    for (auto& R : ORDERS) if (!strcmp(R.name, nm)) { if (!strcmp(nm, "bbands") && optn(c, "stddev") < 0) continue; if (!strcmp(nm, "kc") && c.opt.back() < 0) continue;
        for (int i = 0; i < r.len; ++i) { double a = r.v[R.lo][i], b = r.v[R.hi][i], t = slack(R.lo, i, in); if (std::isnan(a) || std::isnan(b) || t < 0) { ++ST.skipped; continue; } ++ST.outs;
            if (!(a <= b + t)) return strf("%s[%d] = %.17g exceeds %s[%d] = %.17g", c.ind->output_names[R.lo], i, a, c.ind->output_names[R.hi], i, b); } }
    for (auto& R : HULLS) if (!strcmp(R.name, nm)) { if (!strcmp(nm, "lf") && c.opt[0] > 1) continue;
        for (size_t k = 0; k < r.v.size(); ++k) if (R.out < 0 || R.out == (int)k) for (int i = 0; i < r.len; ++i) {
            double x = r.v[k][i], t = slack(k, i, 0); if (std::isnan(x) || t < 0) { ++ST.skipped; continue; } t = std::max(t, 1e-9 * in); if (!strcmp(nm, "lf") || !strcmp(nm, "vwap") || !strcmp(nm, "vwma")) { lo = std::min(lo, 0.); hi = std::max(hi, 0.); } ++ST.outs;
            if (!(x >= lo - t && x <= hi + t)) return strf("output %s[%d] is %.17g, outside what the inputs span: [%.17g, %.17g]", c.ind->output_names[k], i, x, lo, hi); } }
    return "";
}
// Degrees: prices scaled by s multiply the output by s^p, volumes scaled by s by s^v; shift: prices moved by d move the output by 0 or d.
struct Deg { const char* names; int p, v, shift; }; // v: 0 where there is no volume; shift: -1 no claim
static const Deg DEGS[] = {
    {"abands hmax", 1, 0, -1}, {"abs add div0 lf mama mgdyn rmta roof ssmooth sum todeg torad bf2 bf3 gf1 gf2 gf3 gf4 hwma", 1, 0, -1}, {"mul", 2, 0, -1},
    {"ahma avgprice bbands ce dema dwma ehma ema frama hf hfema hfsma hma ichi idwma kama kc lag linreg linregintercept lma max medprice mhlma min pbands pc psar pwma rema rmf shmma sma swma t3 tema trima tsf typprice vidya wcprice wilders wma zlema", 1, 0, 1},
    {"evwma", 1, 0, 1}, {"vwap vwma edcf edecay", 1, 0, -1}, {"ao apo atr dm dpo emsd linregslope macd md mom qstick stddev stderr sub tr wad", 1, 0, 0}, {"var", 2, 0, 0}, {"fi", 1, 1, 0}, {"emv", 2, -1, 0}, {"marketfi", 1, -1, 0},
    {"ad adosc kvo obv", 0, 1, 0}, {"pvt", 0, 1, -1}, {"cmf vosc", 0, 0, 0}, {"mfi nvi pvi", 0, 0, -1},
    {"adx adxr aroon aroonosc bop cci cmi cmo crossany crossover cvi di dx er fisher mass mesastoch posc rmi rsi rvi smi stoch stochrsi tsi ultosc vhf vi willr", 0, 0, 0},
    {"copp div fosc hurst kst natr ppo roc rocr trix volatility arsi hd", 0, 0, -1}};
static const Deg* deg(const char* n) { std::string w = std::string(" ") + n + " "; for (auto& d : DEGS) if ((std::string(" ") + d.names + " ").find(w) != std::string::npos) return &d; return nullptr; }
static bool has_scale(const char* n) { return deg(n) != nullptr; }
static std::string chk_scale(const Case& c) {
    const Deg* d = deg(c.ind->name); if (!d) return ""; static Out a, b; call(c, PLAIN, a); ++ST.calls; if (a.rc) return strf("returned %d for valid options", a.rc);
    const MV* mvp = mv_for(c); static MV mv; if (mvp) { mv = *mvp; mvp = &mv; } bool vol = false; for (int k = 0; k < c.ind->inputs; ++k) vol |= !strcmp(c.ind->input_names[k], "volume");
    static Case t; static const double PM[] = {1024, 1. / (1 << 30), 1, 1, 1, 1, 0x1p60, 0x1p-90, 1, 1}, VM[] = {1, 1, 4096, 1. / 1024, 1, 1, 1, 1, 0x1p60, 0x1p-70}, ADD[] = {0, 0, 0, 0, 1 << 20, -(1 << 12), 0, 0, 0, 0};
    for (int q = 0; q < 10; ++q) {
        double pm = PM[q], vm = VM[q], add = ADD[q];
        if (vm != 1 && !vol) continue; if (add != 0 && (d->shift < 0 || c.noisy)) continue; if (add != 0) for (size_t k = 0; k < c.opt.size(); ++k) if (!strcmp(c.ind->option_names[k], "gamma")) add = add; 
        t = c; for (int k = 0; k < c.ind->inputs; ++k) for (double& x : t.in[k]) x = !strcmp(c.ind->input_names[k], "volume") ? x * vm : x * pm + add;
        call(t, PLAIN, b); ++ST.calls; if (b.rc) return strf("returned %d on scaled inputs", b.rc); double f = std::pow(pm, d->p) * std::pow(vm, d->v);
        const MV* m2 = add != 0 ? (t.noisy = true, mv_for(t)) : nullptr;
        for (size_t k = 0; k < a.v.size(); ++k) { double big = 0; for (double x : a.v[k]) if (std::isfinite(x)) big = std::max(big, std::fabs(x));
            for (int i = 0; i < a.len; ++i) { double x = a.v[k][i], want = x * f + add * d->shift, got = b.v[k][i]; if (mvp && std::isnan(mvp->m[k][i]) || m2 && std::isnan(m2->m[k][i])) { ++ST.skipped; continue; }
                if (!std::isfinite(x) && !std::isfinite(got)) continue; double tol = f * (1e-9 * big + 1e-290); if (mvp && c.noisy) tol = std::max(tol, f * mvp->tol[k][i]); if (add != 0) { tol += 1e-9 * std::fabs(add); if (m2) tol = std::max(tol, m2->tol[k][i]); }
                ++ST.outs; if (!(std::fabs(want - got) <= tol)) return strf("with %s output %s[%d] is %.17g, expected %.17g (it was %.17g)", add != 0 ? strf("prices moved by %g", add).c_str() : pm != 1 ? strf("prices x %g", pm).c_str() : strf("volumes x %g", vm).c_str(), c.ind->output_names[k], i, got, want, x); } }
    }
    return "";
}
// indicators whose value depends on nothing older than start+1 (+extra) bars
static int window_extra(const char* n) {
    static const std::string W = " abands abs acos add ao aroon aroonosc asin atan avgprice bbands bop cci ceil cmf cmo copp cos cosh crossany crossover div dpo dwma edcf emsd emv er exp floor fosc hf hfsma hma hurst hwma ichi idwma lag linreg linregintercept linregslope lma ln log10 marketfi max md medprice mfi min mom msw mul pbands pc pwma qstick roc rocr round shmma sin sinh sma sqrt stddev stderr stoch sub sum swma tan tanh todeg torad trima trunc tsf typprice ultosc var vhf vi volatility vosc vwap vwma wcprice willr wma ";
    if (!strcmp(n, "cmi") || !strcmp(n, "tr")) return 1; return W.find(std::string(" ") + n + " ") != std::string::npos ? 0 : -1;
}
static bool has_window(const char* n) { return window_extra(n) >= 0; }
static std::string chk_forget(const Case& c) {
    int ex = window_extra(c.ind->name), st = c.ind->start(c.o()), W = st + 1 + ex; if (ex < 0 || c.n <= W) return ""; static Out a, b; call(c, PLAIN, a); ++ST.calls; if (a.rc) return strf("returned %d for valid options", a.rc);
    const MV* mv = mv_for(c); static Case t; t.ind = c.ind; t.opt = c.opt; t.n = W; t.in.resize(c.ind->inputs);
    for (int e = c.n; e > W; e -= c.n > 700 ? c.n / 100 | 1 : c.n > 48 ? 7 : c.n) { // the window ending just before bar e
        for (int k = 0; k < c.ind->inputs; ++k) t.in[k].assign(c.in[k].begin() + e - W, c.in[k].begin() + e);
        call(t, PLAIN, b); ++ST.calls; if (b.rc) return strf("returned %d on the last %d bars alone", b.rc, W);
        for (size_t k = 0; k < a.v.size(); ++k) { int i = e - 1 - st; double x = a.v[k][i], y = b.v[k].back(); if (mv && std::isnan(mv->m[k][i])) { ++ST.skipped; continue; } if (!std::isfinite(x) && !std::isfinite(y)) continue;
            double big = 0; for (int j = 0; j <= i; ++j) if (std::isfinite(a.v[k][j])) big = std::max(big, std::fabs(a.v[k][j])); double t2 = std::max(1e-9 * big, mv ? mv->tol[k][i] : 0); ++ST.outs;
            if (!(std::fabs(x - y) <= t2)) return strf("output %s[%d] is %.17g, but %.17g from its window of %d bars alone", c.ind->output_names[k], i, x, y, W); }
    }
    return "";
}
// ---- options ----------------------------------------------------------------------------------------------
static std::string chk_options(const Case& c) {
    auto& M = models().at(c.ind->name); bool ok = M.valid(c.o()); static Out r; const char* names[] = {"batch", "reference variant"};
    for (int f = 0; f < 2; ++f) { if (f && !c.ind->indicator_ref) continue; call(c, f ? REF : PLAIN, r, -1, ok ? -1 : c.n + 8); ++ST.calls; if (r.rc != (ok ? TI_OKAY : TI_INVALID_OPTION)) return strf("%s returned %d, expected %d", names[f], r.rc, ok ? TI_OKAY : TI_INVALID_OPTION);
        if (!r.guard.empty()) return r.guard; if (r.leak) return strf("%s leaves %ld allocations behind", names[f], r.leak);
        if (!ok) for (size_t k = 0; k < r.v.size(); ++k) for (double x : r.v[k]) if (!is_sent(x)) return strf("%s wrote to an output although it rejects the options", names[f]); }
    if (c.ind->stream_new) { ti_stream* s = nullptr; g_alloc.live = g_alloc.count = 0; g_alloc.armed = true; int rc = c.ind->stream_new(c.o(), &s); g_alloc.armed = false; ++ST.calls;
        if (rc != (ok ? TI_OKAY : TI_INVALID_OPTION)) return strf("stream_new returned %d, expected %d", rc, ok ? TI_OKAY : TI_INVALID_OPTION);
        if (!ok && s) return "stream_new rejects the options but hands out a stream"; if (!ok && g_alloc.live) return "stream_new rejects the options but keeps memory";
        if (ok) { g_alloc.armed = true; ti_stream_free(s); g_alloc.armed = false; if (g_alloc.live) return "creating and freeing a stream leaves memory behind"; } }
    return "";
}
static Grid option_probes(Ind* ind) {
    Grid r; std::set<std::vector<double>> seen; int n = ind->options; if (!n) return {{}};
    auto put = [&](const std::vector<double>& v) { if (seen.insert(v).second) r.push_back(v); };
    std::vector<double> V = n <= 2 ? std::vector<double>{-20,-2,-1,-0.5,-0.01,0,0.01,0.25,0.5,0.99,0.999,1,1.001,1.01,1.5,1.99,2,2.01,3,4,5,6,7,8,9,12,13,14,20,30,31,38,39,40,41,42,60} : n == 3 ? std::vector<double>{-1,0,0.5,1,2,3,5,12} : n == 4 ? std::vector<double>{-1,0,1,2,5} : std::vector<double>{};
    if (n <= 4) { Grid g{{}}; for (int k = 0; k < n; ++k) { Grid h; for (auto& x : g) for (double v : V) { auto y = x; y.push_back(v); h.push_back(y); } g = h; } for (auto& x : g) put(x); }
    for (auto& b : opt_space_fwd(ind)) { put(b); for (int k = 0; k < n; ++k) for (double v : {-1., 0., 0.5, 1., 2., b[k] - 1, b[k] + 1}) { auto y = b; y[k] = v; put(y); for (int j = k + 1; j < n; ++j) for (double u : {-1., 0., 1., b[k]}) { auto z = y; z[j] = u; if (n > 2) put(z); } } }
    for (auto& b : small_opts(ind)) for (int k = 0; k < n; ++k) for (double v : {-1e9, -1000., -100., -10., -1e-9, 1e-9, 1 - 1e-9, 1 + 1e-9, 2 - 1e-9, 100., 101., 127., 128., 255., 256., 365., 500., 999., 1000., 1001., 1023., 1024., 1025., 4096., 10000., 32767., 32768., 65535., 65536., 100000.}) { auto y = b; y[k] = v; put(y); }
    for (auto& b : opt_space_fwd(ind)) for (int k = 0; k < n; ++k) for (int j = 0; j < n; ++j) for (double d : {-1., -0.5, -0.01, 0., 0.01, 0.5, 0.99}) { auto y = b; y[k] = b[j] + d; put(y); if (d > 0) { y[j] += 0.75; put(y); } } // one option next to another
    return r;
}
// option vectors outside the integer grid that the API accepts: fractional periods, other reals
static Grid memory_probes(Ind* ind) {
    Grid r; std::set<std::vector<double>> seen; int np = 0; for (int k = 0; k < ind->options; ++k) np += is_period(ind->option_names[k], ind->name);
    Grid base = grid(ind, np > 2 ? std::vector<double>{2, 4} : std::vector<double>{1, 2, 3, 6, 11});
    for (auto& b : base) for (int k = 0; k < ind->options; ++k) for (double d : {0.3, 0.5, 0.99}) { auto x = b; x[k] += d; if (models().at(ind->name).valid(x.data()) && seen.insert(x).second) r.push_back(x); }
    return r;
}
// ---- helpers for exact comparison of repeated calls -------------------------------------------------------
static std::string same(const Out& a, const Out& b, const char* what, Ind* ind, const MV* mv = nullptr) {
    if (a.rc != b.rc) return strf("%s: returns %d instead of %d", what, b.rc, a.rc); if (!b.guard.empty() && a.guard.empty()) return std::string(what) + ": " + b.guard;
    for (size_t k = 0; k < a.v.size(); ++k) { if (a.v[k].size() != b.v[k].size()) return strf("%s: output %zu has another length", what, k); double big = 0; for (double x : a.v[k]) if (std::isfinite(x)) big = std::max(big, std::fabs(x));
        for (size_t i = 0; i < a.v[k].size(); ++i) { double x = a.v[k][i], y = b.v[k][i]; if (mv && i < mv->m[k].size() && std::isnan(mv->m[k][i])) { ++ST.skipped; continue; } ++ST.outs; if (x == y || std::isnan(x) && std::isnan(y) && is_sent(x) == is_sent(y)) continue; if (!(std::fabs(x - y) <= 1e-9 * big + (mv && i < mv->tol[k].size() ? mv->tol[k][i] : 0))) return strf("%s: output %s[%zu] is %.17g instead of %.17g", what, ind->output_names[k], i, y, x); } }
    return "";
}
static __attribute__((noinline)) void poison_stack(int byte) { volatile char b[49152]; memset((void*)b, byte, sizeof b); asm volatile("" ::: "memory"); }
static std::string api_call(const Case& c, int api, Out& r) { // 0 batch, 1 reference, 2 stream in chunks, 3 stream at once through the generic calls
    ++ST.calls; if (api == 0) call(c, PLAIN, r); else if (api == 1) call(c, REF, r); else if (api == 2) stream_call(c, {0, (c.n + 1) / 3, c.n - (c.n + 1) / 3}, r); else stream_call(c, {c.n}, r, true); return r.guard;
}
static bool has_api(Ind* i, int api) { return api == 0 || (api == 1 ? i->indicator_ref != 0 : i->stream_new != 0); }
static const char* API[] = {"batch call", "reference call", "chunked stream", "whole stream"};
// a fixed case of an indicator: variant 0..: the target, other data, other options, too short, rejected options
static Case std_case(Ind* ind, int variant, const std::vector<double>* opt = nullptr);

// ---- memory exhaustion ------------------------------------------------------------------------------------
static std::string chk_oom(const Case& c) {
    for (int api = 0; api < 4; ++api) { if (!has_api(c.ind, api)) continue; static Out base, r; api_call(c, api, base); if (base.rc || !base.guard.empty()) return strf("%s fails without a fault: %d %s", API[api], base.rc, base.guard.c_str());
        for (int stage = 0; stage < (api >= 2 ? 2 : 1); ++stage) for (int all = 0; all < 2; ++all) for (int k = 1; k < 400; ++k) { // stage 1: faults counted from the end of stream_new
            set_note(strf("%s, allocation %d%s%s fails", API[api], k, stage ? " after creation" : "", all ? " and every later one" : "").c_str()); std::string at = strf("%s, allocation %d%s%s fails: ", API[api], k, stage ? " after creation" : "", all ? " and every later one" : "");
            long n0 = 0; r = Out(); r.v.assign(c.ind->outputs, {});
            if (api < 2) { g_alloc.fail_at = k; g_alloc.fail_after = all; try { call(c, api ? REF : PLAIN, r); } catch (...) { g_alloc.armed = false; g_alloc.fail_at = -1; return at + "an exception escapes"; } g_alloc.fail_at = -1; }
            else { // create, run in two chunks, free; count faults per stage
                ti_stream* s = nullptr; static Bufs b; int half = c.n / 2, st = c.ind->start(c.o()); bool hit = false; r.leak = 0;
                try {
                    g_alloc.live = g_alloc.count = 0; g_alloc.failed = false; if (!stage) { g_alloc.fail_at = k; g_alloc.fail_after = all; } g_alloc.armed = true; r.rc = c.ind->stream_new(c.o(), &s); g_alloc.armed = false; hit = g_alloc.failed; if (!stage) { g_alloc.fail_at = -1; }
                    long live0 = g_alloc.live; if (r.rc) { r.leak = live0; } else {
                        int p = -st, fed = 0; g_alloc.count = 0; g_alloc.failed = false; if (stage) { g_alloc.fail_at = k; g_alloc.fail_after = all; }
                        for (int z = 0; z < 2 && !r.rc; ++z) { int m = z ? c.n - half : half, len = std::max(0, p + m) - std::max(0, p); b.set(c, fed, m, len); g_alloc.armed = true; r.rc = api == 3 ? ti_stream_run(s, m, b.ip, b.op) : c.ind->stream_run(s, m, b.ip, b.op); g_alloc.armed = false; b.done(c, fed, r); p += m; fed += m; }
                        if (stage) hit = g_alloc.failed; g_alloc.fail_at = -1; g_alloc.armed = true; ti_stream_free(s); g_alloc.armed = false; r.leak = g_alloc.live; }
                } catch (...) { g_alloc.armed = false; g_alloc.fail_at = -1; return at + "an exception escapes"; }
                g_alloc.failed = hit; ++ST.calls; }
            (void)n0; if (!g_alloc.failed) break; // fewer than k allocations: every fault point has been visited
            ++ST.nontrivial; ++ST.transitions;
            if (!r.guard.empty()) return at + r.guard; if (r.leak) return at + strf("%ld allocations are left behind", r.leak);
            if (r.rc != TI_OUT_OF_MEMORY) { if (r.rc) return at + strf("returns %d", r.rc); std::string e = same(base, r, "returns success", c.ind); if (!e.empty()) return at + e; }
            if (k <= 4) { api_call(c, api, r); std::string e = same(base, r, "the next call", c.ind); if (!e.empty()) return at + e; } } }
    set_note(""); return "";
}
// ---- purity -----------------------------------------------------------------------------------------------
// The caller is a process that has not called the library before (see run_item), so the first call is the baseline.
// A tour over many option vectors, there and back and there again: what is remembered of earlier ones does not show.
// The baseline of every stop comes from a process of its own.
static Case with(Ind* ind, const std::vector<double>& o, int shift, int n);
static std::string tour(Ind* ind) {
    std::vector<Case> ts; Grid g = opt_space_fwd(ind); size_t want = std::min<size_t>(g_thorough ? 400 : 48, g.size()); for (size_t q = 0; q < want; ++q) { auto& o = g[q * g.size() / want]; if (ind->start(o.data()) < 400) ts.push_back(with(ind, o, ts.size(), std::max(0, ind->start(o.data())) + 5)); }
    int T = ts.size(); const size_t CAP = 256; size_t bytes = T * 3 * CAP * 8; double* sh = (double*)mmap(0, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); static Out r; std::string e;
    auto pack = [&](const Out& o, double* d) { size_t q = 0; d[q++] = o.rc; for (auto& v : o.v) for (double x : v) if (q < CAP) d[q++] = x; return q; };
    for (int k = 0; k < T; ++k) for (int api = 0; api < 3; ++api) { if (!has_api(ind, api)) continue; fflush(0); pid_t p = fork(); if (!p) { api_call(ts[k], api, r); pack(r, sh + (k * 3 + api) * CAP); _exit(0); } int st; waitpid(p, &st, 0); if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); } }
    static double buf[CAP];
    for (int pass = 0; pass < 3 && e.empty(); ++pass) for (int q = 0; q < T && e.empty(); ++q) { int k = pass == 1 ? T - 1 - q : q; for (int api = 0; api < 3 && e.empty(); ++api) if (has_api(ind, api)) { ++ST.states; ++ST.transitions; api_call(ts[k], api, r); std::string what = strf("%s of %s, in a tour over %d option vectors", API[api], describe(ts[k]).c_str(), T);
        size_t n = pack(r, buf); double* b = sh + (k * 3 + api) * CAP; double big = 0; for (size_t i = 0; i < n; ++i) if (std::isfinite(b[i])) big = std::max(big, std::fabs(b[i])); for (size_t i = 0; i < n && e.empty(); ++i) { ++ST.outs; if (!(b[i] == buf[i] || std::isnan(b[i]) && std::isnan(buf[i]) || std::fabs(b[i] - buf[i]) <= 1e-9 * big)) e = what + strf(": value %zu is %.17g instead of the %.17g it gives in a process of its own", i, buf[i], b[i]); } } }
    munmap(sh, bytes); return e;
}
static std::string chk_purity(const Case& c) {
    if (c.note == "tour") return tour(c.ind);
    static Out base[4], r; const MV* mvp = mv_for(c); static MV mv; const MV* mq = nullptr; if (mvp) { mv = *mvp; mq = &mv; } (void)mq;
    for (int api = 0; api < 4; ++api) if (has_api(c.ind, api)) { std::string e = api_call(c, api, base[api]); if (!e.empty()) return e; }
    // what uninitialised heap and stack memory holds
    for (int byte : {0x00, 0xff, 0x40, 0xc1, 0x7f, 0xa5}) { for (int api = 0; api < 4; ++api) if (has_api(c.ind, api)) { g_alloc.fill = byte; poison_stack(byte); api_call(c, api, r); g_alloc.fill = -1; std::string e = same(base[api], r, strf("%s with fresh memory holding 0x%02x", API[api], byte).c_str(), c.ind); if (!e.empty()) return e; } }
    // the same call over and over: nothing accumulates
    for (int rep = 2; rep <= (g_thorough ? 5000 : 600); ++rep) for (int api = 0; api < 4; ++api) if (has_api(c.ind, api)) { ++ST.states; api_call(c, api, r); std::string e = same(base[api], r, strf("%s for the %dth time", API[api], rep).c_str(), c.ind); if (!e.empty()) return e; }
    // every history of up to 3 calls of the same indicator
    static std::vector<Case> cs; cs.clear(); for (int v = 1; v < 5; ++v) cs.push_back(std_case(c.ind, v, &c.opt)); std::vector<std::pair<int, int>> ev; for (int v = 0; v < 4; ++v) for (int api : {0, 1, 2}) if (has_api(c.ind, api) && (api == 0 || v != 2 || true)) ev.push_back({v, api});
    auto fire = [&](int e) { Case& k = cs[ev[e].first]; if (ev[e].first == 3) { static double out[64]; static const double in[8] = {1,2,3,4,5,6,7,8}; const double* ip[10]; double* op[10]; for (int q = 0; q < 10; ++q) { ip[q] = in; op[q] = out; }
            if (models().at(c.ind->name).valid(k.o())) return; ++ST.calls; if (ev[e].second == 0) c.ind->indicator(0, ip, k.o(), op); else if (ev[e].second == 1) c.ind->indicator_ref(0, ip, k.o(), op); else { ti_stream* s = 0; if (!c.ind->stream_new(k.o(), &s) && s) ti_stream_free(s); } return; }
        static Out o; api_call(k, ev[e].second, o); };
    int depth = ev.size() > 8 ? 2 : 3; if (g_thorough) ++depth;
    std::vector<uint8_t> al; for (size_t i = 0; i < ev.size(); ++i) al.push_back(i);
    std::string bad; for (int d = 1; d <= depth && bad.empty(); ++d) all_words(al, d, [&](const Word& w) { if (!bad.empty()) return; ++ST.states; for (uint8_t e : w) { fire(e); ++ST.transitions; }
        for (int api = 0; api < 4; ++api) if (has_api(c.ind, api)) { api_call(c, api, r); ++ST.nontrivial; bad = same(base[api], r, strf("%s after %d other calls", API[api], d).c_str(), c.ind); if (!bad.empty()) return; } });
    return bad;
}
// ---- stream life cycles -----------------------------------------------------------------------------------
struct Live { const Case* c; ti_stream* s = nullptr; int p = 0, fed = 0; Out out; };
// one step of a stream's script: new, run.., free
static std::string sstep(Live& L, int op, const std::vector<int>& ch, int id) {
    static Bufs b; Ind* I = L.c->ind; ++ST.transitions;
    if (op == 0) { L.out = Out(); L.out.v.assign(I->outputs, {}); L.s = nullptr; L.p = -I->start(L.c->o()); L.fed = 0; g_alloc.armed = true; int rc = I->stream_new(L.c->o(), &L.s); g_alloc.armed = false; if (rc || !L.s) return strf("stream_new returned %d", rc); if (ti_stream_get_info(L.s) != I) return "ti_stream_get_info names another indicator"; }
    else if (op <= (int)ch.size()) { int k = ch[op - 1], len = std::max(0, L.p + k) - std::max(0, L.p); b.set(*L.c, L.fed, k, len); L.out.guard.clear(); g_alloc.armed = true; int rc = op & 1 ? ti_stream_run(L.s, k, b.ip, b.op) : I->stream_run(L.s, k, b.ip, b.op); g_alloc.armed = false; b.done(*L.c, L.fed, L.out); if (!L.out.guard.empty()) return L.out.guard; L.p += k; L.fed += k; if (rc) return strf("stream_run returned %d", rc); }
    else { g_alloc.armed = true; if (id & 1) I->stream_free(L.s); else ti_stream_free(L.s); g_alloc.armed = false; L.s = nullptr; return ""; }
    if (ti_stream_get_progress(L.s) != L.p) return strf("progress is %d after %d bars, expected %d", ti_stream_get_progress(L.s), L.fed, L.p); return "";
}
// every interleaving of the scripts of several streams; each must produce what it produces alone
static std::string interleave(const std::vector<Case>& cs, const std::vector<std::vector<int>>& ch) {
    int n = cs.size(); std::vector<Out> solo(n); for (int i = 0; i < n; ++i) { stream_call(cs[i], ch[i], solo[i], true); ++ST.calls; if (solo[i].rc || !solo[i].guard.empty()) return "alone: " + solo[i].guard + strf(" (%d)", solo[i].rc); }
    std::vector<int> left(n); for (int i = 0; i < n; ++i) left[i] = ch[i].size() + 2; std::vector<int> sched; std::string bad; int leaks = 0;
    std::function<void()> go = [&]() { if (!bad.empty()) return; bool any = false; for (int i = 0; i < n; ++i) if (left[i]) { any = true; --left[i]; sched.push_back(i); go(); sched.pop_back(); ++left[i]; }
        if (any) return; std::vector<Live> L(n); std::vector<int> pc(n, 0); for (int i = 0; i < n; ++i) L[i].c = &cs[i]; ++ST.states; ++ST.calls; ++ST.nontrivial;
        std::string tr; for (int i : sched) tr += 'A' + i; set_note(tr.c_str()); g_alloc.fill = 0xa5; g_alloc.live = 0; g_alloc.count = 0;
        for (int i : sched) { std::string e = sstep(L[i], pc[i]++, ch[i], i); if (!e.empty()) { bad = strf("schedule %s, stream %c: ", tr.c_str(), 'A' + i) + e; g_alloc.fill = -1; return; } }
        g_alloc.fill = -1; for (int i = 0; i < n; ++i) { std::string e = same(solo[i], L[i].out, strf("schedule %s, stream %c", tr.c_str(), 'A' + i).c_str(), cs[i].ind); if (!e.empty()) { bad = e; return; } }
        leaks = g_alloc.live ? leaks + 1 : 0; if (leaks == 3) bad = strf("schedule %s: %ld blocks are still allocated when every stream has been freed, as after the two schedules before", tr.c_str(), g_alloc.live); };
    go(); return bad;
}
static Case with(Ind* ind, const std::vector<double>& o, int shift, int n) { Case c; c.ind = ind; c.opt = o; Word w = debruijn({0,1,2,3,4,6}, 2), v; for (int i = 0; i < n; ++i) v.push_back(w[(i + shift) % w.size()]); fill(c, v.data(), n, TFS[0]); return c; }
// many streams at once, one bar each in turn, freed in another order than made
static std::string crowd(const Case& c0, int K, int again = 2) {
    Ind* I = c0.ind; Grid g = small_opts(I); std::vector<Case> cs; std::vector<Out> solo(K); int most = 0;
    for (int i = 0; i < K; ++i) { auto& o = i % 3 ? g[i % g.size()] : c0.opt; cs.push_back(with(I, o, i, std::max(0, I->start(o.data())) + 4)); stream_call(cs[i], std::vector<int>(cs[i].n, 1), solo[i], true); ++ST.calls; most = std::max(most, cs[i].n); }
    std::vector<Live> L(K); g_alloc.fill = 0xa5; g_alloc.live = g_alloc.count = 0; std::string e; ++ST.states; ++ST.nontrivial; set_note(strf("crowd of %d", K).c_str());
    std::vector<std::vector<int>> ch; for (int i = 0; i < K; ++i) { L[i].c = &cs[i]; ch.push_back(std::vector<int>(cs[i].n, 1)); }
    auto step = [&](int i, int op) { if (e.empty()) { e = sstep(L[i], op, ch[i], i); if (!e.empty()) e = strf("stream %d of %d: ", i, K) + e; } };
    for (int i = 0; i < K; ++i) step(i, 0);
    for (int t = 0; t < most; ++t) for (int i = 0; i < K; ++i) if (t < cs[i].n) step(i, t + 1);
    for (int i = 0; i < K; ++i) step((i * 7 + 3) % K, cs[(i * 7 + 3) % K].n + 1);
    g_alloc.fill = -1; if (!e.empty()) return e;
    for (int i = 0; i < K; ++i) { e = same(solo[i], L[i].out, strf("stream %d of %d fed in turn", i, K).c_str(), I); if (!e.empty()) return e; }
    if (g_alloc.live && again) return crowd(c0, K, again - 1); if (g_alloc.live) return strf("%ld blocks are still allocated when all %d streams have been freed, each of three times", g_alloc.live, K); return "";
}
static std::string chk_isolate(const Case& c0) {
    Ind* I = c0.ind; int st = I->start(c0.o()), n = std::max(st, 0) + 7; Grid g = small_opts(I); std::string note = c0.note, e; Case c = with(I, c0.opt, 0, n);
    auto chunks = [](int n, int parts) { std::vector<int> r; for (int q = 0; q < parts; ++q) { int k = n / (parts - q); r.push_back(k); n -= k; } return r; };
    // the same indicator: other options, other data
    for (auto& o : g) { Case d = with(I, o, 5, std::max(0, I->start(o.data())) + 6); e = interleave({c, d}, {chunks(c.n, 3), chunks(d.n, 3)}); if (!e.empty()) return describe(d) + " beside it: " + e; }
    { Case d = with(I, c0.opt, 9, n), f = with(I, g.back(), 3, std::max(0, I->start(g.back().data())) + 5); e = interleave({c, d, f}, {chunks(n, 2), chunks(n, 1), chunks(f.n, 1)}); if (!e.empty()) return "three streams: " + e; }
    // lives that end early, at every point of the warm-up and just after it, before or beside the stream
    { size_t k = 0; for (auto& o : g) { int so = std::max(0, I->start(o.data())); for (int m = 0; m <= so + 2; m += so > 24 && m > 3 && m < so - 3 ? 5 : 1) for (int parts = 1; parts < 3; ++parts) { Case d = with(I, o, 5, m); e = interleave({d, c}, {chunks(m, parts), chunks(n, 2)}); if (!e.empty()) return describe(d) + " (stream B after or beside one freed early) : " + e; if (parts == 1 && m) { e = interleave({d, d, c}, {{m}, {m - 1}, {n}}); if (!e.empty()) return describe(d) + " twice, freed early: " + e; } } if (++k == 2 && !g_thorough) break; } }
    for (int K : {5, 40, g_thorough ? 1500 : 300}) { if (K > 40 && c0.opt != g[0]) break; e = crowd(c, K); if (!e.empty()) return e; }
    // every other streaming indicator
    if (c0.opt == small_opts(I)[0]) for (int i = 0; i < ti_indicator_count(); ++i) { Ind* J = ti_indicators + i; if (!J->stream_new || J == I) continue; auto o = small_opts(J).back(); Case d = with(J, o, 4, std::max(0, J->start(o.data())) + 4); e = interleave({c, d}, {chunks(c.n, 2), chunks(d.n, 2)}); if (!e.empty()) return describe(d) + " beside it: " + e; }
    return "";
}
