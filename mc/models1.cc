// Elementwise functions, price averages, lags, crossings, rolling-window statistics, basic moving averages,
// classic oscillators.  Written from the definitions (window sums are recomputed from scratch at every bar).
#include "model.hh"
#define EL1(NAME, EXPR) MODEL(NAME, "elementwise", true, 0, { auto x = c.x(0); c.emit(F_(0, EXPR)); })
#define EL2(NAME, EXPR) MODEL(NAME, "elementwise", true, 0, { auto x = c.x(0), y = c.x(1); c.emit(F_(0, EXPR)); })
static const long double PI_ = 3.14159265358979323846264338327950288L;
EL1(abs, std::fabs(x[i])) EL1(acos, std::acos(x[i])) EL1(asin, std::asin(x[i])) EL1(atan, std::atan(x[i]))
EL1(ceil, std::ceil(x[i])) EL1(cos, std::cos(x[i])) EL1(cosh, std::cosh(x[i])) EL1(exp, std::exp(x[i]))
EL1(floor, std::floor(x[i])) EL1(ln, std::log(x[i])) EL1(log10, std::log10(x[i]))
EL1(round, std::floor(x[i] + T(0.5))) // half up
EL1(sin, std::sin(x[i])) EL1(sinh, std::sinh(x[i])) EL1(sqrt, std::sqrt(x[i])) EL1(tan, std::tan(x[i])) EL1(tanh, std::tanh(x[i]))
EL1(todeg, x[i] * T(180) / T(PI_)) EL1(torad, x[i] * T(PI_) / T(180)) EL1(trunc, std::trunc(x[i]))
EL2(add, x[i] + y[i]) EL2(sub, x[i] - y[i]) EL2(mul, x[i] * y[i]) EL2(div, x[i] / y[i])

MODEL(avgprice, "elementwise", true, 0, { auto a = c.x(0), b = c.x(1), d = c.x(2), e = c.x(3); c.emit(F_(0, (a[i] + b[i] + d[i] + e[i]) / 4)); })
MODEL(medprice, "elementwise", true, 0, { auto h = c.x(0), l = c.x(1); c.emit(F_(0, (h[i] + l[i]) / 2)); })
MODEL(typprice, "elementwise", true, 0, { auto h = c.x(0), l = c.x(1), k = c.x(2); c.emit(F_(0, (h[i] + l[i] + k[i]) / 3)); })
MODEL(wcprice, "elementwise", true, 0, { auto h = c.x(0), l = c.x(1), k = c.x(2); c.emit(F_(0, (h[i] + l[i] + 2 * k[i]) / 4)); })
MODEL(bop, "elementwise", true, 0, { auto p = c.x(0), h = c.x(1), l = c.x(2), k = c.x(3); c.emit(F_(0, h[i] - l[i] <= 0 ? T(0) : (k[i] - p[i]) / (h[i] - l[i]))); })
MODEL(crossany, "elementwise", true, 1, { auto a = c.x(0), b = c.x(1); c.emit(F_(1, ((a[i] > b[i] && a[i-1] <= b[i-1]) || (a[i] < b[i] && a[i-1] >= b[i-1])) ? T(1) : T(0))); })
MODEL(crossover, "elementwise", true, 1, { auto a = c.x(0), b = c.x(1); c.emit(F_(1, (a[i] > b[i] && a[i-1] <= b[i-1]) ? T(1) : T(0))); })
MODEL(lag, "elementwise", P(0) >= 0, P(0), { auto x = c.x(0); c.emit(lagv(x, P(0))); })
MODEL(mom, "elementwise", P(0) >= 1, P(0), { auto x = c.x(0); int p = P(0); c.emit(F_(p, x[i] - x[i-p])); })
MODEL(roc, "elementwise", P(0) >= 1, P(0), { auto x = c.x(0); int p = P(0); c.emit(F_(p, x[i-p] != 0 ? (x[i] - x[i-p]) / x[i-p] : T(0))); })
MODEL(rocr, "elementwise", P(0) >= 1, P(0), { auto x = c.x(0); int p = P(0); c.emit(F_(p, x[i-p] != 0 ? x[i] / x[i-p] : T(0))); })
MODEL(decay, "elementwise", P(0) >= 1, 0, { auto x = c.x(0); T s = T(1) / P(0), d = 0; c.emit(F_(0, d = (i ? std::max<T>(x[i], d - s) : x[i]))); })
MODEL(edecay, "elementwise", P(0) >= 1, 0, { auto x = c.x(0); T s = T(1) - T(1) / P(0), d = 0; c.emit(F_(0, d = (i ? std::max<T>(x[i], d * s) : x[i]))); })

// ---- windows ----------------------------------------------------------------------------------------------
#define WIN1(NAME, EXPR) MODEL(NAME, "window", P(0) >= 1, P(0) - 1, { auto x = c.x(0); int p = P(0); (void)p; c.emit(EXPR); })
WIN1(sma, sma(x, p)) WIN1(sum, wsum(x, p)) WIN1(wma, wma(x, p)) WIN1(max, maxw(x, p)) WIN1(min, minw(x, p))
WIN1(var, varw(x, p))
static inline long double sq_(long double v) { return v > 0 ? sqrtl(v) : 0; }
static inline double sq_(double v) { return v > 0 ? sqrt(v) : 0; }
MODEL(stddev, "window", P(0) >= 1, P(0) - 1, { auto v = varw(c.x(0), P(0)); c.emit(F_(v.from, sq_(v[i]))); })
MODEL(stderr, "window", P(0) >= 1, P(0) - 1, { auto v = varw(c.x(0), P(0)); int p = P(0); c.emit(F_(v.from, sq_(v[i]) / sq_(T(p)))); })
MODEL(md, "window", P(0) >= 1, P(0) - 1, { auto x = c.x(0); int p = P(0); auto a = sma(x, p); c.emit(F_(a.from, ([&]{ T s = 0; for (int j = 0; j < p; ++j) s += std::fabs(x[i-j] - a[i]); return s / p; }()))); })
MODEL(bbands, "window", P(0) >= 1, P(0) - 1, { auto v = varw(c.x(0), P(0)); auto m = sma(c.x(0), P(0)); T k = o[1]; c.emit(F_(m.from, m[i] - k * sq_(v[i]))); c.emit(m); c.emit(F_(m.from, m[i] + k * sq_(v[i]))); })
MODEL(trima, "window", P(0) >= 1, P(0) - 1, { // triangular weights = an SMA of an SMA
    auto x = c.x(0); int p = P(0); if (p <= 2) { c.emit(sma(x, p)); } else { int a = p % 2 ? p / 2 + 1 : p / 2, b = p % 2 ? p / 2 + 1 : p / 2 + 1; c.emit(sma(sma(x, a), b)); } })
MODEL(hma, "window", P(0) >= 1, P(0) + (int)std::sqrt((double)P(0)) - 2, { // WMA(2*WMA(n/2) - WMA(n), sqrt n)
    auto x = c.x(0); int p = P(0), h = std::max(1, p / 2), s = (int)std::sqrt((double)p); auto a = wma(x, h), b = wma(x, p); auto d = F_(b.from, 2 * a[i] - b[i]); c.emit(wma(d, s)); })
MODEL(vwma, "window", P(0) >= 1, P(0) - 1, { auto x = c.x(0), v = c.x(1); auto xv = F_(0, x[i] * v[i]); auto s = wsum(xv, P(0)), w = wsum(v, P(0)); c.emit(F_(s.from, s[i] != 0 ? s[i] / w[i] : T(0))); })
// least squares over the window, x = 1..p
template<class T> struct LR { T a, b; };
template<class T> LR<T> lr(V<T> x, int i, int p) {
    T mx = 0, my = 0; for (int j = 1; j <= p; ++j) { mx += j; my += x[i - p + j]; } mx /= p; my /= p;
    T sxy = 0, sxx = 0; for (int j = 1; j <= p; ++j) { sxy += (j - mx) * (x[i - p + j] - my); sxx += (j - mx) * (j - mx); }
    T b = sxy / sxx; return {my - b * mx, b};
}
#define LRG(NAME, EXPR) MODEL(NAME, "window", P(0) >= 1, P(0) - 1, { auto x = c.x(0); int p = P(0); c.emit(F_(p - 1, ([&]{ auto r = lr(x, i, p); return (EXPR); }()))); })
LRG(linreg, r.a + r.b * p) LRG(linregintercept, r.a + r.b) LRG(linregslope, r.b) LRG(tsf, r.a + r.b * (p + 1))
MODEL(fosc, "window", P(0) >= 1, P(0), { auto x = c.x(0); int p = P(0); c.emit(F_(p, ([&]{ auto r = lr(x, i - 1, p); T f = r.a + r.b * (p + 1), d = x[i] - f; return d != 0 ? 100 * d / x[i] : T(0); }()))); })
MODEL(volatility, "window", P(0) >= 1, P(0), { auto x = c.x(0); auto ch = F_(1, x[i-1] != 0 ? x[i] / x[i-1] - 1 : T(0)); auto v = varw(ch, P(0)); c.emit(F_(v.from, sq_(v[i]) * sq_(T(252)))); })
MODEL(qstick, "window", P(0) >= 1, P(0) - 1, { auto a = c.x(0), b = c.x(1); auto d = F_(0, b[i] - a[i]); c.emit(sma(d, P(0))); })
MODEL(dpo, "window", P(0) >= 1, std::max(P(0) - 1, P(0) / 2 + 1), { auto x = c.x(0); auto m = sma(x, P(0)); int back = P(0) / 2 + 1; c.emit(F_(std::max(m.from, back), x[i - back] - m[i])); })
MODEL(vosc, "window", P(0) >= 1 && P(1) >= P(0), P(1) - 1, { auto v = c.x(0); auto s = sma(v, P(0)), l = sma(v, P(1)); c.emit(F_(l.from, s[i] - l[i] != 0 ? 100 * (s[i] - l[i]) / l[i] : T(0))); })
MODEL(vhf, "window", P(0) >= 1, P(0), { auto x = c.x(0); int p = P(0); auto d = F_(1, std::fabs(x[i] - x[i-1])); auto s = wsum(d, p);
    // highest and lowest over the last p closes
    auto h = maxw(x, p), l = minw(x, p); c.emit(F_(p, h[i] - l[i] != 0 ? (h[i] - l[i]) / s[i] : T(0))); })
MODEL(ao, "window", true, 33, { auto h = c.x(0), l = c.x(1); auto m = F_(0, (h[i] + l[i]) / 2); auto a = sma(m, 5), b = sma(m, 34); c.emit(F_(33, a[i] - b[i])); })

// ---- recursive averages -----------------------------------------------------------------------------------
MODEL(ema, "recursive", P(0) >= 1, 0, { c.emit(ema(c.x(0), P(0))); })
// stages of the cascade start at (p-1), 2(p-1) with their first input
template<class T> V<T> ema_next(V<T> x, int p, int at) { return ema(cut(x, at), p); }
MODEL(dema, "recursive", P(0) >= 1, (P(0) - 1) * 2, { int p = P(0); auto a = ema(c.x(0), p), b = ema_next(a, p, p - 1); c.emit(F_(c.start, 2 * a[i] - b[i])); })
MODEL(tema, "recursive", P(0) >= 1, (P(0) - 1) * 3, { int p = P(0); auto a = ema(c.x(0), p), b = ema_next(a, p, p - 1), d = ema_next(b, p, 2 * (p - 1)); c.emit(F_(c.start, 3 * a[i] - 3 * b[i] + d[i])); })
MODEL(trix, "recursive", P(0) >= 1, (P(0) - 1) * 3 + 1, { int p = P(0); auto a = ema(c.x(0), p), b = ema_next(a, p, p - 1), d = ema_next(b, p, 2 * (p - 1)); c.emit(F_(c.start, d[i] != 0 ? (d[i] - d[i-1]) / d[i] * 100 : T(0))); })
MODEL(wilders, "recursive", P(0) >= 1, P(0) - 1, { c.emit(wilder(c.x(0), P(0))); })
MODEL(zlema, "recursive", P(0) >= 1, std::max(0, (P(0) - 1) / 2 - 1), { auto x = c.x(0); int p = P(0), lag = (p - 1) / 2, s = std::max(0, lag - 1); T e = 0, k = T(2) / (p + 1);
    c.emit(F_(s, e = (i == s ? x[i] : e + k * (2 * x[i] - x[i-lag] - e)))); })
MODEL(apo, "recursive", P(0) >= 1 && P(1) >= 2 && P(1) >= P(0), 1, { auto a = ema(c.x(0), P(0)), b = ema(c.x(0), P(1)); c.emit(F_(1, a[i] - b[i])); })
MODEL(ppo, "recursive", P(0) >= 1 && P(1) >= 2 && P(1) >= P(0), 1, { auto a = ema(c.x(0), P(0)), b = ema(c.x(0), P(1)); c.emit(F_(1, a[i] - b[i] != 0 ? 100 * (a[i] - b[i]) / b[i] : T(0))); })
MODEL(macd, "recursive", P(0) >= 1 && P(1) >= 2 && P(1) >= P(0) && P(2) >= 1, P(1) - 1, {
    bool classic = P(0) == 12 && P(1) == 26; // 0.15 / 0.075 by convention
    auto a = emaA<T>(c.x(0), classic ? T(0.15) : T(2) / (P(0) + 1)), b = emaA<T>(c.x(0), classic ? T(0.075) : T(2) / (P(1) + 1));
    auto m = F_(P(1) - 1, a[i] - b[i]); auto s = ema(m, P(2)); c.emit(m); c.emit(s); c.emit(F_(m.from, m[i] - s[i])); })
MODEL(kama, "recursive", P(0) >= 1, P(0) - 1, { auto x = c.x(0); int p = P(0); auto d = F_(1, std::fabs(x[i] - x[i-1])); auto s = wsum(d, p); T k = 0;
    c.emit(F_(p - 1, ([&]{ if (i == p - 1) return k = x[i]; T er = s[i] != 0 ? std::fabs(x[i] - x[i-p]) / s[i] : T(1); T a = er * (T(2) / 3 - T(2) / 31) + T(2) / 31; return k += a * a * (x[i] - k); }()))); })
MODEL(vidya, "recursive", P(0) >= 1 && P(1) >= P(0) && P(1) >= 2 && !(o[2] < 0) && !(o[2] > 1), P(1) - 2, { auto x = c.x(0); auto vs = varw(x, P(0)), vl = varw(x, P(1)); T e = 0; int s = P(1) - 2;
    c.emit(F_(s, ([&]{ if (i == s) return e = x[i]; T a = sq_(vs[i]), b = sq_(vl[i]); T k = a != 0 ? a / b : T(0); return e += k * T(o[2]) * (x[i] - e); }()))); })

// ---- oscillators ------------------------------------------------------------------------------------------
#define UPDN auto up = F_(1, std::max<T>(x[i] - x[i-1], 0)), dn = F_(1, std::max<T>(x[i-1] - x[i], 0));
MODEL(rsi, "oscillator", P(0) >= 1, P(0), { auto x = c.x(0); UPDN auto a = wilder(up, P(0)), b = wilder(dn, P(0)); c.emit(F_(a.from, a[i] != 0 ? 100 * a[i] / (a[i] + b[i]) : T(0))); })
MODEL(stochrsi, "oscillator", P(0) >= 2, 2 * P(0) - 1, { auto x = c.x(0); UPDN auto a = wilder(up, P(0)), b = wilder(dn, P(0)); auto r = F_(a.from, a[i] != 0 ? 100 * a[i] / (a[i] + b[i]) : T(0));
    auto h = maxw(r, P(0)), l = minw(r, P(0)); c.emit(F_(h.from, h[i] - l[i] > T(1e-9) ? (r[i] - l[i]) / (h[i] - l[i]) : h[i] == 0 ? T(0) : T(NAN))); })
MODEL(cmo, "oscillator", P(0) >= 1, P(0), { auto x = c.x(0); UPDN auto a = wsum(up, P(0)), b = wsum(dn, P(0)); c.emit(F_(a.from, a[i] + b[i] != 0 ? 100 * (a[i] - b[i]) / (a[i] + b[i]) : T(0))); })
MODEL(stoch, "oscillator", P(0) >= 1 && P(1) >= 1 && P(2) >= 1, P(0) + P(1) + P(2) - 3, { auto h = maxw(c.x(0), P(0)), l = minw(c.x(1), P(0)), k = c.x(2);
    auto f = F_(h.from, h[i] - l[i] != 0 ? 100 * (k[i] - l[i]) / (h[i] - l[i]) : T(0)); auto s = sma(f, P(1)); c.emit(s); c.emit(sma(s, P(2))); })
MODEL(willr, "oscillator", P(0) >= 1, P(0) - 1, { auto h = maxw(c.x(0), P(0)), l = minw(c.x(1), P(0)), k = c.x(2); c.emit(F_(h.from, h[i] - l[i] != 0 ? -100 * (h[i] - k[i]) / (h[i] - l[i]) : T(0))); })
MODEL(cci, "oscillator", P(0) >= 1, 2 * (P(0) - 1), { auto h = c.x(0), l = c.x(1), k = c.x(2); int p = P(0); auto t = F_(0, (h[i] + l[i] + k[i]) / 3); auto a = sma(t, p);
    c.emit(F_(2 * (p - 1), ([&]{ T s = 0; for (int j = 0; j < p; ++j) s += std::fabs(t[i-j] - a[i]); s = s / p * T(.015L); return s != 0 ? (t[i] - a[i]) / s : T(0); }()))); })
MODEL(ultosc, "oscillator", P(0) >= 1 && P(1) >= P(0) && P(2) >= P(1), P(2), { auto h = c.x(0), l = c.x(1), k = c.x(2);
    auto bp = F_(1, k[i] - std::min(l[i], k[i-1])), r = F_(1, std::max(h[i], k[i-1]) - std::min(l[i], k[i-1]));
    auto q = [&](int p) { auto a = wsum(bp, p), b = wsum(r, p); return F_(a.from, a[i] != 0 ? a[i] / b[i] : T(0)); };
    auto a = q(P(0)), b = q(P(1)), d = q(P(2)); c.emit(F_(P(2), 100 * (4 * a[i] + 2 * b[i] + d[i]) / 7)); })
MODEL(mfi, "oscillator", P(0) >= 1, P(0), { auto h = c.x(0), l = c.x(1), k = c.x(2), v = c.x(3); auto t = F_(0, (h[i] + l[i] + k[i]) / 3);
    auto u = F_(1, t[i] > t[i-1] ? t[i] * v[i] : T(0)), d = F_(1, t[i] < t[i-1] ? t[i] * v[i] : T(0)); auto a = wsum(u, P(0)), b = wsum(d, P(0)); c.emit(F_(a.from, a[i] != 0 ? 100 * a[i] / (a[i] + b[i]) : T(0))); })

// ---- ranges, direction, trend -----------------------------------------------------------------------------
MODEL(tr, "trend", true, 0, { auto h = c.x(0), l = c.x(1), k = c.x(2); c.emit(F_(0, i ? std::max(h[i] - l[i], std::max(std::fabs(h[i] - k[i-1]), std::fabs(l[i] - k[i-1]))) : h[i] - l[i])); })
template<class T> V<T> tr0(V<T> h, V<T> l, V<T> k) { auto t = truerange(h, l, k); return mk<T>(h.n, 0, [&](int i) { return i ? t[i] : h[0] - l[0]; }); }
MODEL(atr, "trend", P(0) >= 1, P(0) - 1, { c.emit(wilder(tr0(c.x(0), c.x(1), c.x(2)), P(0))); })
MODEL(natr, "trend", P(0) >= 1, P(0) - 1, { auto a = wilder(tr0(c.x(0), c.x(1), c.x(2)), P(0)); auto k = c.x(2); c.emit(F_(a.from, a[i] != 0 ? 100 * a[i] / k[i] : T(0))); })
// Wilder's directional movement: only the larger of the two moves counts, an inside bar counts for neither,
// and equal moves cancel nothing (both are kept).
template<class T> V<T> dmp(V<T> h, V<T> l, bool plus) {
    return mk<T>(h.n, 1, [&](int i) { T u = std::max<T>(h[i] - h[i-1], 0), d = std::max<T>(l[i-1] - l[i], 0); if (plus) return u >= d ? u : T(0); return d >= u ? d : T(0); });
}
// Wilder accumulation: the sum of the first q values, then s*(p-1)/p + x
template<class T> V<T> wacc(V<T> x, int p, int q) {
    T s = 0; int s0 = x.from + q - 1; auto r = mk<T>(x.n, std::max(s0, 0), [&](int i) { if (i == s0) { s = 0; for (int j = x.from; j <= i; ++j) s += x[j]; } else s = s * (p - 1) / p + x[i]; if (g_nz.ema > 0 && s != 0) s += T(g_nz.ema * nz_unit(i, 41)); return s; }); return r;
}
MODEL(dm, "trend", P(0) >= 1, P(0) - 1, { c.emit(wacc(dmp(c.x(0), c.x(1), true), P(0), P(0) - 1)); c.emit(wacc(dmp(c.x(0), c.x(1), false), P(0), P(0) - 1)); })
MODEL(di, "trend", P(0) >= 1, P(0) - 1, { int p = P(0); auto u = wacc(dmp(c.x(0), c.x(1), true), p, p - 1), d = wacc(dmp(c.x(0), c.x(1), false), p, p - 1), t = wacc(truerange(c.x(0), c.x(1), c.x(2)), p, p - 1);
    c.emit(F_(u.from, u[i] != 0 ? 100 * u[i] / t[i] : T(0))); c.emit(F_(u.from, d[i] != 0 ? 100 * d[i] / t[i] : T(0))); })
template<class T> V<T> dxv(V<T> h, V<T> l, int p) { auto u = wacc(dmp(h, l, true), p, p - 1), d = wacc(dmp(h, l, false), p, p - 1); return mk<T>(h.n, u.from, [&](int i) { return u[i] + d[i] != 0 ? 100 * std::fabs(u[i] - d[i]) / (u[i] + d[i]) : T(0); }); }
MODEL(dx, "trend", P(0) >= 1, P(0) - 1, { c.emit(dxv(c.x(0), c.x(1), P(0))); })
template<class T> V<T> adxv(V<T> h, V<T> l, int p) { auto d = dxv(h, l, p); auto a = wacc(d, p, p); return mk<T>(h.n, a.from, [&](int i) { return a[i] / p; }); }
MODEL(adx, "trend", P(0) >= 2, (P(0) - 1) * 2, { c.emit(adxv(c.x(0), c.x(1), P(0))); })
MODEL(adxr, "trend", P(0) >= 2, (P(0) - 1) * 3, { auto a = adxv(c.x(0), c.x(1), P(0)); int k = P(0) - 1; c.emit(F_(3 * k, (a[i] + a[i-k]) / 2)); })
// bars since the most recent extreme of the last p+1 bars
template<class T> int since(V<T> x, int i, int p, bool mx) { int b = i; for (int j = i; j >= i - p; --j) if (mx ? x[j] > x[b] : x[j] < x[b]) b = j; return i - b; }
MODEL(aroon, "trend", P(0) >= 1, P(0), { int p = P(0); auto h = c.x(0), l = c.x(1); c.emit(F_(p, T(100) * (p - since(l, i, p, false)) / p)); c.emit(F_(p, T(100) * (p - since(h, i, p, true)) / p)); })
MODEL(aroonosc, "trend", P(0) >= 1, P(0), { int p = P(0); auto h = c.x(0), l = c.x(1); c.emit(F_(p, T(100) * (since(l, i, p, false) - since(h, i, p, true)) / p)); })
MODEL(psar, "trend", !(o[0] <= 0) && !(o[1] <= o[0]), 1, { // Wilder's parabolic stop-and-reverse
    auto h = c.x(0), l = c.x(1); bool lng = false; T sar = 0, ep = 0, af = 0, step = o[0], mx = o[1];
    c.emit(F_(1, ([&]{
        if (i == 1) { lng = h[0] + l[0] <= h[1] + l[1]; ep = lng ? h[0] : l[0]; sar = lng ? l[0] : h[0]; af = step; }
        sar += (ep - sar) * af;
        if (lng) { sar = std::min(sar, l[i-1]); if (i >= 2) sar = std::min(sar, l[i-2]); if (h[i] > ep) { af = std::min<T>(af + step, mx); ep = h[i]; } }
        else { sar = std::max(sar, h[i-1]); if (i >= 2) sar = std::max(sar, h[i-2]); if (l[i] < ep) { af = std::min<T>(af + step, mx); ep = l[i]; } }
        if (lng ? l[i] < sar : h[i] > sar) { af = step; sar = ep; lng = !lng; ep = lng ? h[i] : l[i]; }
        return sar; }()))); })

// ---- volume -----------------------------------------------------------------------------------------------
template<class T> V<T> clv(V<T> h, V<T> l, V<T> k, V<T> v) { return mk<T>(h.n, 0, [&](int i) { return h[i] - l[i] != 0 ? ((k[i] - l[i]) - (h[i] - k[i])) / (h[i] - l[i]) * v[i] : T(0); }); }
template<class T> V<T> cum(V<T> x) { T s = 0; return noisy<T>(mk<T>(x.n, x.from, [&](int i) { return s += x[i]; }), vscale(x), g_nz.sum, 3); }
MODEL(ad, "volume", true, 0, { c.emit(cum(clv(c.x(0), c.x(1), c.x(2), c.x(3)))); })
MODEL(adosc, "volume", P(0) >= 1 && P(1) >= P(0), P(1) - 1, { auto a = cum(clv(c.x(0), c.x(1), c.x(2), c.x(3))); auto s = ema(a, P(0)), l = ema(a, P(1)); c.emit(F_(P(1) - 1, s[i] - l[i])); })
MODEL(cmf, "volume", P(0) >= 1, P(0) - 1, { auto a = wsum(clv(c.x(0), c.x(1), c.x(2), c.x(3)), P(0)), v = wsum(c.x(3), P(0)); c.emit(F_(a.from, v[i] != 0 ? a[i] / v[i] : T(0))); })
MODEL(emv, "volume", true, 1, { auto h = c.x(0), l = c.x(1), v = c.x(2); c.emit(F_(1, ([&]{ T d = (h[i] + l[i] - h[i-1] - l[i-1]) / 2; return d != 0 ? d / (v[i] / 10000 / (h[i] - l[i])) : T(0); }()))); })
