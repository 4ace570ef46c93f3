// Indicators that are defined through others: each is recomputed by calling the others through the public API and
// compared, bar by bar.  Nothing here repeats an indicator's own formula where another indicator offers it.
#pragma once
struct Ser { std::vector<double> v; int from = 0; bool claim = true; double operator[](int i) const { return v[i]; } }; // value per bar, valid from `from`
static int g_idn; // bars of the history under comparison
static Ser none() { Ser s; s.claim = false; return s; }
template<class F> static Ser each(int from, F f) { Ser s; s.from = std::max(0, from); s.v.assign(g_idn, NAN); for (int i = s.from; i < g_idn; ++i) s.v[i] = f(i); return s; }
static Ser from(Ser s, int f) { s.from = std::max(s.from, f); return s; }
struct Refused { std::string what; };
// one output of another indicator on series that may start late
static Ser lib(const char* name, std::vector<double> opt, const std::vector<Ser>& in, int out = 0) {
    Ind* ind = ti_find_indicator(name); if (!ind || ind->inputs != (int)in.size() || ind->options != (int)opt.size() || out >= ind->outputs) throw Refused{strf("no indicator %s with %zu inputs and %zu options", name, in.size(), opt.size())};
    int f = 0; for (auto& s : in) f = std::max(f, s.from); int n = std::max(0, g_idn - f), st = ind->start(opt.data()), len = std::max(0, n - st); Ser r; r.from = f + st; r.v.assign(g_idn, NAN); if (!len) return r;
    std::vector<const double*> ip; for (auto& s : in) ip.push_back(s.v.data() + f); std::vector<std::vector<double>> o(ind->outputs, std::vector<double>(len, sent())); std::vector<double*> op; for (auto& v : o) op.push_back(v.data()); opt.push_back(0);
    int rc = ind->indicator(n, ip.data(), opt.data(), op.data()); ++ST.calls; if (rc) throw Refused{strf("%s returned %d", name, rc)}; std::copy(o[out].begin(), o[out].end(), r.v.begin() + r.from); return r;
}
#define EACH(F, X) each(F, [&](int i) -> double { (void)i; return (X); })
static Ser fold(int f, const std::function<double(int, double)>& step) { double e = 0; return each(f, [&](int i) { return e = step(i, e); }); }
typedef std::vector<Ser> Outs;
typedef std::function<Outs(const Case&, const std::vector<Ser>&, const double*)> Ident;
static const std::map<std::string, Ident>& identities() {
    static std::map<std::string, Ident> m; if (!m.empty()) return m;
    #define ID(NAME, ...) m[#NAME] = [](const Case& c, const std::vector<Ser>& in, const double* o) -> Outs { (void)c; (void)in; (void)o; __VA_ARGS__ };
    #define X (in[0])
    static const double PI = 3.14159265358979323846; auto abs1 = 0; (void)abs1;
    static auto ema = [](double p, const Ser& x) { return lib("ema", {p}, {x}); }; static auto sma = [](double p, const Ser& x) { return lib("sma", {p}, {x}); }; static auto sum = [](double p, const Ser& x) { return lib("sum", {p}, {x}); }; static auto wma = [](double p, const Ser& x) { return lib("wma", {p}, {x}); };
    static auto mx = [](double p, const Ser& x) { return lib("max", {p}, {x}); }; static auto mn = [](double p, const Ser& x) { return lib("min", {p}, {x}); }; static auto mom = [](double p, const Ser& x) { return lib("mom", {p}, {x}); }; static auto absv = [](const Ser& x) { return lib("abs", {}, {x}); };
    static auto neg = [](const Ser& x) { return EACH(x.from, -x[i]); }; static auto whole = [](double x) { return x == std::floor(x); };
    // element-wise
    ID(add, auto n = neg(in[1]); return {lib("sub", {}, {X, n})};) ID(sub, auto n = neg(in[1]); return {lib("add", {}, {X, n})};) ID(mul, auto r = EACH(0, 1 / in[1][i]); return {EACH(0, in[1][i] != 0 ? X[i] / r[i] : X[i] * in[1][i])};)
    ID(abs, auto s = lib("mul", {}, {X, X}); return {lib("sqrt", {}, {s})};) ID(tan, auto a = lib("sin", {}, {X}), b = lib("cos", {}, {X}); return {lib("div", {}, {a, b})};) ID(tanh, auto a = lib("sinh", {}, {X}), b = lib("cosh", {}, {X}); return {EACH(0, std::isfinite(a[i]) && std::isfinite(b[i]) ? a[i] / b[i] : NAN)};)
    ID(log10, auto a = lib("ln", {}, {X}); return {EACH(0, a[i] / std::log(10.))};) ID(ceil, auto a = lib("floor", {}, {neg(X)}); return {neg(a)};) ID(floor, auto a = lib("ceil", {}, {neg(X)}); return {neg(a)};) ID(round, auto h = EACH(0, X[i] + 0.5); return {lib("floor", {}, {h})};)
    ID(trunc, auto a = lib("floor", {}, {X}), b = lib("ceil", {}, {X}); return {EACH(0, X[i] >= 0 ? a[i] : b[i])};) ID(acos, auto a = lib("asin", {}, {X}); return {EACH(0, PI / 2 - a[i])};) ID(asin, auto a = lib("acos", {}, {X}); return {EACH(0, PI / 2 - a[i])};)
    ID(todeg, auto a = lib("torad", {}, {X}); return {EACH(0, a[i] * (180 / PI) * (180 / PI))};) ID(torad, auto a = lib("todeg", {}, {X}); return {EACH(0, a[i] * (PI / 180) * (PI / 180))};) ID(sqrt, auto l = lib("ln", {}, {X}); auto h = EACH(0, l[i] / 2); return {lib("exp", {}, {h})};)
    ID(cosh, auto a = lib("exp", {}, {X}), b = lib("exp", {}, {neg(X)}); return {EACH(0, (a[i] + b[i]) / 2)};) ID(sinh, auto a = lib("exp", {}, {X}), b = lib("exp", {}, {neg(X)}); return {EACH(0, (a[i] - b[i]) / 2)};) ID(sin, auto s = EACH(0, PI / 2 - X[i]); return {lib("cos", {}, {s})};) ID(cos, auto s = EACH(0, PI / 2 - X[i]); return {lib("sin", {}, {s})};)
    ID(medprice, auto s = lib("add", {}, {X, in[1]}); return {EACH(0, s[i] / 2)};) ID(avgprice, auto a = lib("medprice", {}, {X, in[3]}), b = lib("medprice", {}, {in[1], in[2]}); return {lib("medprice", {}, {a, b})};) ID(wcprice, auto a = lib("medprice", {}, {X, in[1]}); return {lib("medprice", {}, {a, in[2]})};) ID(typprice, auto a = lib("wcprice", {}, {X, in[1], in[2]}); return {EACH(0, (4 * a[i] - in[2][i]) / 3)};)
    ID(crossany, auto a = lib("crossover", {}, {X, in[1]}), b = lib("crossover", {}, {in[1], X}); return {lib("add", {}, {a, b})};) ID(crossover, auto a = lib("crossany", {}, {X, in[1]}); return {EACH(a.from, X[i] > in[1][i] ? a[i] : 0)};)
    ID(lag, if (o[0] < 1) return {X}; auto d = mom(o[0], X); return {EACH(d.from, X[i] - d[i])};) ID(mom, auto l = lib("lag", {o[0]}, {X}); return {lib("sub", {}, {X, l})};) ID(roc, auto d = mom(o[0], X), l = lib("lag", {o[0]}, {X}); return {EACH(d.from, l[i] != 0 ? d[i] / l[i] : 0)};) ID(rocr, auto r = lib("roc", {o[0]}, {X}), l = lib("lag", {o[0]}, {X}); return {EACH(r.from, l[i] != 0 ? r[i] + 1 : 0)};)
    // windows
    ID(sum, auto a = sma(o[0], X); return {EACH(a.from, a[i] * o[0])};) ID(sma, auto a = sum(o[0], X); return {EACH(a.from, a[i] / o[0])};) ID(max, return {neg(mn(o[0], neg(X)))};) ID(min, return {neg(mx(o[0], neg(X)))};) ID(wma, auto a = lib("pwma", {o[0], 1}, {X}); return {a};)
    ID(stddev, auto v = lib("var", {o[0]}, {X}); return {EACH(v.from, v[i] > 0 ? std::sqrt(v[i]) : 0)};) ID(var, auto v = lib("stddev", {o[0]}, {X}); return {lib("mul", {}, {v, v})};) ID(stderr, auto v = lib("stddev", {o[0]}, {X}); return {EACH(v.from, v[i] / std::sqrt(o[0]))};) ID(emsd, auto v = lib("stddev", {o[0]}, {X}); return {v};)
    ID(md, auto a = sma(o[0], X); int p = o[0]; return {EACH(a.from, ([&]{ double s = 0; for (int j = 0; j < p; ++j) s += std::fabs(X[i-j] - a[i]); return s / p; }()))};)
    ID(bbands, auto a = sma(o[0], X), s = lib("stddev", {o[0]}, {X}); return {EACH(a.from, a[i] - o[1] * s[i]), a, EACH(a.from, a[i] + o[1] * s[i])};) ID(trima, int p = o[0]; if (p <= 2) return {sma(p, X)}; int a = p % 2 ? p / 2 + 1 : p / 2, b = p / 2 + 1; return {sma(a, sma(b, X))};)
    ID(hma, int p = o[0]; auto a = wma(std::max(1, p / 2), X), b = wma(p, X); auto d = EACH(b.from, 2 * a[i] - b[i]); return {wma((int)std::sqrt((double)p), d)};) ID(dwma, return {wma(o[0], wma(o[0], X))};) ID(lma, auto a = wma(o[0], X), b = sma(o[0], X); return {EACH(a.from, 2 * a[i] - b[i])};) ID(shmma, return {lib("linreg", {o[0]}, {X})};)
    ID(linreg, if (o[0] < 2) return {none()}; auto a = wma(o[0], X), b = sma(o[0], X); return {EACH(a.from, 3 * a[i] - 2 * b[i])};) ID(tsf, if (o[0] < 2) return {none()}; auto a = lib("linreg", {o[0]}, {X}), b = lib("linregslope", {o[0]}, {X}); return {EACH(a.from, a[i] + b[i])};) ID(linregintercept, if (o[0] < 2) return {none()}; auto a = lib("linreg", {o[0]}, {X}), b = lib("linregslope", {o[0]}, {X}); return {EACH(a.from, a[i] - (o[0] - 1) * b[i])};) ID(linregslope, if (o[0] < 2) return {none()}; auto a = lib("linreg", {o[0]}, {X}), b = lib("linregintercept", {o[0]}, {X}); return {EACH(a.from, (a[i] - b[i]) / (o[0] - 1))};)
    ID(fosc, if (o[0] < 2) return {none()}; auto t = lib("tsf", {o[0]}, {X}); return {EACH(t.from + 1, X[i] != t[i-1] ? 100 * (X[i] - t[i-1]) / X[i] : 0)};) ID(pwma, if (o[1] == 0) return {sma(o[0], X)}; if (o[1] == 1) return {wma(o[0], X)}; return {none()};)
    ID(vwma, auto p = lib("mul", {}, {X, in[1]}); auto a = sum(o[0], p), b = sum(o[0], in[1]); return {EACH(a.from, a[i] != 0 ? a[i] / b[i] : 0)};) ID(vwap, auto t = lib("typprice", {}, {X, in[1], in[2]}); return {lib("vwma", {o[0]}, {t, in[3]})};) ID(volatility, auto r = lib("roc", {1}, {X}); auto s = lib("stddev", {o[0]}, {r}); return {EACH(s.from, s[i] * std::sqrt(252.))};)
    ID(qstick, auto d = lib("sub", {}, {in[1], X}); return {sma(o[0], d)};) ID(dpo, auto a = sma(o[0], X), l = lib("lag", {std::floor(o[0] / 2) + 1}, {X}); return {lib("sub", {}, {l, a})};) ID(vosc, auto a = sma(o[0], X), b = sma(o[1], X); return {EACH(b.from, a[i] != b[i] ? 100 * (a[i] - b[i]) / b[i] : 0)};)
    ID(vhf, auto h = mx(o[0], X), l = mn(o[0], X), s = sum(o[0], absv(mom(1, X))); return {EACH(s.from, h[i] != l[i] ? (h[i] - l[i]) / s[i] : 0)};) ID(ao, auto q = lib("medprice", {}, {X, in[1]}); auto a = sma(5, q), b = sma(34, q); return {EACH(b.from, a[i] - b[i])};)
    ID(pc, return {mn(o[0], in[1]), mx(o[0], X)};) ID(ichi, auto mid = [&](double p) { auto h = mx(p, in[0]), l = mn(p, in[1]); return lib("medprice", {}, {h, l}); }; auto t = mid(o[0]), k = mid(o[1]), b = mid(o[2]); auto ab = lib("medprice", {}, {t, k}); int st = c.ind->start(o); return {from(t, st), from(k, st), from(lib("lag", {o[1]}, {ab}), st), from(lib("lag", {o[1]}, {b}), st)};)
    // smoothings
    ID(apo, auto a = ema(o[0], X), b = ema(o[1], X); return {EACH(1, a[i] - b[i])};) ID(ppo, auto a = lib("apo", {o[0], o[1]}, {X}), b = ema(o[1], X); return {EACH(1, a[i] != 0 ? 100 * a[i] / b[i] : 0)};)
    ID(macd, auto a = ema(o[0], X), b = ema(o[1], X); bool classic = o[0] == 12 && o[1] == 26; auto r = lib("macd", {o[0], o[1], o[2]}, {X}); auto d = classic ? r : EACH(o[1] - 1, a[i] - b[i]); auto s = ema(o[2], d); return {classic ? none() : d, s, EACH(d.from, d[i] - s[i])};)
    ID(dema, int p = o[0]; auto a = ema(p, X), b = ema(p, from(a, p - 1)); return {EACH(2 * (p - 1), 2 * a[i] - b[i])};) ID(tema, int p = o[0]; auto a = ema(p, X), b = ema(p, from(a, p - 1)), d = ema(p, from(b, 2 * (p - 1))); return {EACH(3 * (p - 1), 3 * a[i] - 3 * b[i] + d[i])};) ID(trix, int p = o[0]; auto a = ema(p, X), b = ema(p, from(a, p - 1)), d = ema(p, from(b, 2 * (p - 1))); return {EACH(3 * (p - 1) + 1, d[i] != 0 ? 100 * (d[i] - d[i-1]) / d[i] : 0)};)
    ID(t3, if (!whole(o[0])) return {none()}; double v = o[1]; auto gd = [&](const Ser& x) { auto a = ema(o[0], x), b = ema(o[0], a); return EACH(0, a[i] * (1 + v) - b[i] * v); }; return {gd(gd(gd(X)))};) ID(rema, if (!whole(o[0]) || o[1] != 0) return {none()}; return {ema(o[0], X)};) ID(ehma, int p = o[0], r = std::lround(std::sqrt((double)p)); if (p % 2 || r * r != p) return {none()}; auto a = ema(p / 2, X), b = ema(p, X); auto d = EACH(0, 2 * a[i] - b[i]); return {ema(r, d)};)
    ID(zlema, int p = o[0], g = (p - 1) / 2, s = std::max(0, g - 1); if (s >= c.n) return {none()}; auto l = lib("lag", {(double)g}, {X}); auto d = EACH(s, i == s ? X[i] : 2 * X[i] - l[i]); return {ema(p, d)};)
    ID(wilders, if (o[0] != 1) return {none()}; return {X};) ID(kama, int p = o[0]; auto e = lib("er", {o[0]}, {X}), s = sum(p, absv(mom(1, X))); return {fold(p - 1, [&](int i, double k) { if (i == p - 1) return X[i]; double r = s[i] != 0 ? e[i] : 1, a = r * (2. / 3 - 2. / 31) + 2. / 31; return k + a * a * (X[i] - k); })};)
    ID(vidya, auto a = lib("stddev", {o[0]}, {X}), b = lib("stddev", {o[1]}, {X}); int s = o[1] - 2; return {fold(s, [&](int i, double e) { return i == s ? X[i] : e + (a[i] != 0 ? a[i] / b[i] : 0) * o[2] * (X[i] - e); })};)
    ID(mhlma, auto q = EACH(0, ([&]{ double a = X[i], b = X[i]; for (int j = std::max(0, i - (int)o[0] + 1); j <= i; ++j) a = std::max(a, X[j]), b = std::min(b, X[j]); return (a + b) / 2; }())); return {sma(o[1], q), from(ema(o[1], q), o[1] - 1)};)
    // oscillators
    #define UPDN auto d1 = mom(1, X); auto up = EACH(1, std::max(d1[i], 0.)), dn = EACH(1, std::max(-d1[i], 0.));
    ID(rsi, UPDN auto a = lib("wilders", {o[0]}, {up}), b = lib("wilders", {o[0]}, {dn}); return {EACH(a.from, a[i] != 0 ? 100 * a[i] / (a[i] + b[i]) : 0)};) ID(stochrsi, auto r = lib("rsi", {o[0]}, {X}); auto h = mx(o[0], r), l = mn(o[0], r); return {EACH(h.from, h[i] != l[i] ? (r[i] - l[i]) / (h[i] - l[i]) : 0)};)
    ID(cmo, UPDN auto a = sum(o[0], up), b = sum(o[0], dn); return {EACH(a.from, a[i] + b[i] != 0 ? 100 * (a[i] - b[i]) / (a[i] + b[i]) : 0)};) ID(rmi, if (!whole(o[0])) return {none()}; auto d = mom(o[1], X); auto up = EACH(d.from, std::max(d[i], 0.)), dn = EACH(d.from, std::max(-d[i], 0.)); auto a = ema(o[0], up), b = ema(o[0], dn); return {EACH(a.from, a[i] != 0 ? 100 * a[i] / (a[i] + b[i]) : 0)};)
    ID(stoch, auto h = mx(o[0], X), l = mn(o[0], in[1]); auto f = EACH(h.from, h[i] != l[i] ? 100 * (in[2][i] - l[i]) / (h[i] - l[i]) : 0); auto k = sma(o[1], f); return {from(k, c.ind->start(o)), sma(o[2], k)};) ID(willr, auto h = mx(o[0], X), l = mn(o[0], in[1]); return {EACH(h.from, h[i] != l[i] ? -100 * (h[i] - in[2][i]) / (h[i] - l[i]) : 0)};)
    ID(cci, auto t = lib("typprice", {}, {X, in[1], in[2]}); auto a = sma(o[0], t), d = lib("md", {o[0]}, {t}); return {EACH(2 * (o[0] - 1), d[i] != 0 ? (t[i] - a[i]) / (0.015 * d[i]) : 0)};)
    ID(ultosc, auto& k = in[2]; auto bp = EACH(1, k[i] - std::min(in[1][i], k[i-1])), t = from(lib("tr", {}, {X, in[1], in[2]}), 1); auto q = [&](double p) { auto a = sum(p, bp), b = sum(p, t); return EACH(a.from, a[i] != 0 ? a[i] / b[i] : 0); }; auto a = q(o[0]), b = q(o[1]), d = q(o[2]); return {EACH(d.from, 100 * (4 * a[i] + 2 * b[i] + d[i]) / 7)};)
    ID(mfi, auto t = lib("typprice", {}, {X, in[1], in[2]}); auto d = mom(1, t), f = lib("mul", {}, {t, in[3]}); auto u = EACH(1, d[i] > 0 ? f[i] : 0), w = EACH(1, d[i] < 0 ? f[i] : 0); auto a = sum(o[0], u), b = sum(o[0], w); return {EACH(a.from, a[i] != 0 ? 100 * a[i] / (a[i] + b[i]) : 0)};)
    ID(er, auto d = mom(o[0], X), s = sum(o[0], absv(mom(1, X))); return {EACH(d.from, d[i] != 0 ? std::fabs(d[i]) / s[i] : 0)};) ID(pfe, auto d = mom(o[0], X), e = mom(1, X); auto l = EACH(1, std::sqrt(e[i] * e[i] + 1)); auto s = sum(o[0], l); auto r = EACH(s.from, (d[i] > 0 ? 100 : -100) * std::sqrt(d[i] * d[i] + 100) / s[i]); return {ema(o[1], r)};)
    ID(kst, Ser e[4]; for (int q = 0; q < 4; ++q) { int r = o[q]; for (int i = 0; i < c.n; ++i) if (X[i] == 0) return {none(), none()}; e[q] = ema((int)o[4 + q], lib("roc", {(double)r}, {X})); } int s = o[3]; auto k = EACH(s, (e[0][i] + 2 * e[1][i] + 3 * e[2][i] + 4 * e[3][i]) / 10); return {k, ema(9, k)};)
    ID(copp, int p = o[0], q = o[1]; auto a = lib("roc", {(double)p}, {X}), b = lib("roc", {(double)q}, {X}); auto r = EACH(q, X[i-p] != 0 && X[i-q] != 0 ? 50 * (a[i] + b[i]) : 0); return {wma((int)o[2], r)};)
    ID(smi, if (!whole(o[1]) || !whole(o[2])) return {none()}; auto h = mx(o[0], X), l = mn(o[0], in[1]), q = lib("medprice", {}, {h, l}); auto a = EACH(q.from, in[2][i] - q[i]), b = EACH(q.from, h[i] - l[i]); auto s = ema(o[2], ema(o[1], a)), d = ema(o[2], ema(o[1], b)); return {EACH(q.from, d[i] != 0 ? 200 * s[i] / d[i] : 0)};)
    ID(tsi, if (!whole(o[0]) || !whole(o[1])) return {none()}; auto d = mom(1, X); auto s = ema(o[1], ema(o[0], d)), t = ema(o[1], ema(o[0], absv(d))); return {EACH(1, t[i] != 0 ? 100 * s[i] / t[i] : 0)};) ID(posc, auto l = lib("pbands", {o[0]}, {X, in[1], in[2]}, 0), u = lib("pbands", {o[0]}, {X, in[1], in[2]}, 1); auto r = EACH(l.from, in[2][i] != l[i] ? 100 * (in[2][i] - l[i]) / (u[i] - l[i]) : 0); return {ema(o[1], r)};)
    ID(fisher, auto f = lib("fisher", {o[0]}, {X, in[1]}); return {none(), EACH(f.from, i > f.from ? f[i-1] : 0)};) ID(arsi, auto h = lib("hd", {}, {X}); UPDN return {EACH(h.from, ([&]{ double u = 0, d = 0; int k = (int)(o[0] * h[i]); for (int q = 0; q < k && q < i; ++q) u += up[i-q], d += dn[i-q]; return u + d != 0 ? 100 * u / (u + d) : 0; }()))};) ID(hurst, auto h = lib("hurst", {o[0]}, {X}, 0); return {none(), EACH(h.from, 2 - h[i])};)
    // trend and volatility
    ID(tr, auto& k = in[2]; auto l = lib("lag", {1}, {k}); return {EACH(0, i ? std::max(X[i], l[i]) - std::min(in[1][i], l[i]) : X[0] - in[1][0])};) ID(atr, return {lib("wilders", {o[0]}, {lib("tr", {}, {X, in[1], in[2]})})};) ID(natr, auto a = lib("atr", {o[0]}, {X, in[1], in[2]}); return {EACH(a.from, a[i] != 0 ? 100 * a[i] / in[2][i] : 0)};)
    ID(dx, auto p = lib("dm", {o[0]}, {X, in[1]}, 0), q = lib("dm", {o[0]}, {X, in[1]}, 1); return {EACH(p.from, p[i] + q[i] != 0 ? 100 * std::fabs(p[i] - q[i]) / (p[i] + q[i]) : 0)};) ID(adx, return {lib("wilders", {o[0]}, {lib("dx", {o[0]}, {X, in[1]})})};) ID(adxr, auto a = lib("adx", {o[0]}, {X, in[1]}); return {lib("medprice", {}, {a, lib("lag", {o[0] - 1}, {a})})};)
    ID(di, auto p = lib("dm", {o[0]}, {X, in[1]}, 0), q = lib("dm", {o[0]}, {X, in[1]}, 1); auto t = lib("tr", {}, {X, in[1], in[2]}); int w = o[0]; auto s = fold(1, [&](int i, double e) { return i < w ? e + t[i] : e * (w - 1) / w + t[i]; }); return {EACH(p.from, p[i] != 0 ? 100 * p[i] / s[i] : 0), EACH(p.from, q[i] != 0 ? 100 * q[i] / s[i] : 0)};)
    ID(aroonosc, auto d = lib("aroon", {o[0]}, {X, in[1]}, 0), u = lib("aroon", {o[0]}, {X, in[1]}, 1); return {lib("sub", {}, {u, d})};) ID(ce, auto a = lib("atr", {o[0]}, {X, in[1], in[2]}), h = mx(o[0], X), l = mn(o[0], in[1]); return {EACH(a.from, h[i] - o[1] * a[i]), EACH(a.from, l[i] + o[1] * a[i])};)
    ID(kc, if (!whole(o[0])) return {none(), none(), none()}; auto e = ema(o[0], in[2]), r = ema(o[0], lib("tr", {}, {X, in[1], in[2]})); return {EACH(0, e[i] - o[1] * r[i]), e, EACH(0, e[i] + o[1] * r[i])};) ID(abands, return {none(), none(), sma(o[0], in[2])};) ID(mass, auto d = lib("sub", {}, {X, in[1]}); auto a = ema(9, d), b = ema(9, from(a, 8)); auto r = EACH(16, a[i] != 0 ? a[i] / b[i] : 0); return {sum(o[0], r)};)
    ID(cvi, int p = o[0]; auto e = ema(p, lib("sub", {}, {X, in[1]})); return {EACH(2 * p - 1, e[i] != e[i-p] ? 100 * (e[i] - e[i-p]) / e[i-p] : 0)};) ID(vi, auto t = from(lib("tr", {}, {X, in[1], in[2]}), 1), a = absv(lib("sub", {}, {X, lib("lag", {1}, {in[1]})})), b = absv(lib("sub", {}, {in[1], lib("lag", {1}, {X})})); auto s = sum(o[0], t), u = sum(o[0], a), d = sum(o[0], b); return {EACH(s.from, u[i] != 0 ? u[i] / s[i] : 0), EACH(s.from, d[i] != 0 ? d[i] / s[i] : 0)};)
    ID(cmi, int p = o[0]; if (p < 2) return {none()}; auto t = lib("tr", {}, {X, in[1], in[2]}); auto s = sum(p, t), h = mx(p, t), l = mn(p, t); return {EACH(s.from, 100 * std::log((h[i] - l[i]) / s[i]) / std::log((double)p))};)
    // volume
    ID(adosc, auto a = lib("ad", {}, {X, in[1], in[2], in[3]}); auto s = ema(o[0], a), l = ema(o[1], a); return {EACH(o[1] - 1, s[i] - l[i])};) ID(fi, if (!whole(o[0])) return {none()}; return {ema(o[0], lib("mul", {}, {mom(1, X), in[1]}))};) ID(marketfi, auto d = lib("sub", {}, {X, in[1]}); return {EACH(0, in[2][i] != 0 ? d[i] / in[2][i] : 0)};)
    ID(cmf, if (c.noisy) return {none()}; auto a = lib("ad", {}, {X, in[1], in[2], in[3]}); auto f = EACH(0, i ? a[i] - a[i-1] : a[i]); auto s = sum(o[0], f), v = sum(o[0], in[3]); return {EACH(s.from, v[i] != 0 ? s[i] / v[i] : 0)};) ID(emv, auto q = mom(1, lib("medprice", {}, {X, in[1]})); auto d = lib("marketfi", {}, {X, in[1], in[2]}); return {EACH(1, in[2][i] == 0 ? NAN : q[i] != 0 ? q[i] * d[i] * 10000 : 0)};)
    ID(pvt, auto r = lib("roc", {1}, {X}); for (int i = 0; i < c.n; ++i) if (X[i] == 0) return {none()}; return {fold(1, [&](int i, double s) { return (i == 1 ? in[1][0] : s) + in[1][i] * r[i]; })};)
    return m;
}
static bool has_identity(const char* n) { return identities().count(n); }
static std::string chk_identity(const Case& c) {
    static Out r; call(c, PLAIN, r); ++ST.calls; if (r.rc) return strf("returned %d for valid options", r.rc); int st = c.ind->start(c.o()); if (c.n <= st) return ""; const MV* mv = mv_for(c); if (!mv) return "";
    double in = 0; std::vector<Ser> x(c.ind->inputs); for (int k = 0; k < c.ind->inputs; ++k) { x[k].v.assign(c.in[k].begin(), c.in[k].begin() + c.n); for (double d : x[k].v) in = std::max(in, std::fabs(d)); } g_idn = c.n; Outs w;
    try { w = identities().at(c.ind->name)(c, x, c.o()); } catch (Refused& e) { return "an indicator it is made of fails: " + e.what; }
    for (size_t k = 0; k < w.size(); ++k) { if (!w[k].claim) continue; double big = 0; for (int i = std::max(st, w[k].from); i < c.n; ++i) if (std::isfinite(w[k][i])) big = std::max(big, std::fabs(w[k][i]));
        if (w[k].from > st) return strf("output %s starts at bar %d, the indicators it is made of allow %d", c.ind->output_names[k], st, w[k].from);
        for (int i = st; i < c.n; ++i) { double a = w[k][i], b = r.v[k][i - st]; if (is_sent(b)) return strf("output %s[%d] was never written", c.ind->output_names[k], i - st); if (!std::isfinite(a) || !std::isfinite(mv->m[k][i - st])) { ++ST.skipped; continue; }
            double t = std::max(1e-9 * big + 1e-11 * in, 3 * mv->tol[k][i - st] + 1e-13); ++ST.outs; if (!(std::fabs(a - b) <= t)) return strf("output %s[%d] is %.17g, but %.17g from the indicators it is made of (tolerance %.3g)", c.ind->output_names[k], i - st, b, a, t); } }
    return "";
}
