// Volume, trend, band, oscillator models that are specific to tindicators; adaptive averages, filters, cycle tools.
#include "model.hh"
#include "tables.hh"
#include <limits>
static const long double PI_ = 3.14159265358979323846264338327950288L;
static inline long double sq_(long double v) { return v > 0 ? sqrtl(v) : 0; }
static inline double sq_(double v) { return v > 0 ? sqrt(v) : 0; }
template<class T> T dontcare() { return std::numeric_limits<T>::quiet_NaN(); }
template<class T> V<T> tr0(V<T> h, V<T> l, V<T> k) { auto t = truerange(h, l, k); return mk<T>(h.n, 0, [&](int i) { return i ? t[i] : h[0] - l[0]; }); }
template<class T> V<T> emaR(V<T> x, double p) { return emaA<T>(x, T(2) / (T(p) + 1)); } // real-valued period

// ---- volume -----------------------------------------------------------------------------------------------
MODEL(evwma, "volume", P(0) >= 1 && o[1] > 0, P(0) - 1, { auto k = c.x(0), v = c.x(1); auto w = wsum(v, P(0)); T f = 0, g = o[1]; int s = P(0) - 1;
    c.emit(F_(s, ([&]{ if (i == s) return f = k[i]; T a = v[i] / (g * w[i]); return w[i] != 0 ? f = f * (1 - a) + a * k[i] : f; }()))); })
MODEL(fi, "volume", o[0] >= 1, 1, { auto k = c.x(0), v = c.x(1); auto f = F_(1, v[i] * (k[i] - k[i-1])); c.emit(emaR(f, o[0])); })
MODEL(kvo, "volume", P(0) >= 1 && P(1) >= P(0), 1, { auto h = c.x(0), l = c.x(1), k = c.x(2), v = c.x(3); T cm = 0; int tr = -1;
    auto vf = F_(1, ([&]{ T a = h[i] + l[i] + k[i], b = h[i-1] + l[i-1] + k[i-1], d = h[i] - l[i];
        if (a > b && tr != 1) { tr = 1; cm = h[i-1] - l[i-1]; } else if (a < b && tr != 0) { tr = 0; cm = h[i-1] - l[i-1]; }
        cm += d; return d != 0 ? v[i] * std::fabs(2 * d / cm - 1) * 100 * (tr ? 1 : -1) : T(0); }()));
    auto a = ema(vf, P(0)), b = ema(vf, P(1)); c.emit(F_(1, a[i] - b[i])); })
MODEL(marketfi, "volume", true, 0, { auto h = c.x(0), l = c.x(1), v = c.x(2); c.emit(F_(0, v[i] != 0 ? (h[i] - l[i]) / v[i] : T(0))); })
MODEL(nvi, "volume", true, 0, { auto k = c.x(0), v = c.x(1); T s = 1000; c.emit(F_(0, ([&]{ if (i && v[i] < v[i-1]) s *= k[i] / k[i-1]; return s; }()))); })
MODEL(pvi, "volume", true, 0, { auto k = c.x(0), v = c.x(1); T s = 1000; c.emit(F_(0, ([&]{ if (i && v[i] > v[i-1] && v[i-1] > 0) s *= k[i] / k[i-1]; return s; }()))); })
MODEL(obv, "volume", true, 0, { auto k = c.x(0), v = c.x(1); T s = 0; c.emit(F_(0, ([&]{ if (i) { if (k[i] > k[i-1]) s += v[i]; else if (k[i] < k[i-1]) s -= v[i]; } return s; }()))); })
MODEL(pvt, "volume", true, 1, { auto k = c.x(0), v = c.x(1); T s = 0; c.emit(F_(1, ([&]{ if (i == 1) s = v[0]; s += v[i] * (k[i] - k[i-1]) / k[i-1]; return s; }()))); })
MODEL(vwap, "volume", P(0) >= 1, P(0) - 1, { auto h = c.x(0), l = c.x(1), k = c.x(2), v = c.x(3); auto t = F_(0, (h[i] + l[i] + k[i]) / 3 * v[i]); auto a = wsum(t, P(0)), b = wsum(v, P(0)); c.emit(F_(a.from, a[i] != 0 ? a[i] / b[i] : T(0))); })
MODEL(wad, "volume", true, 1, { auto h = c.x(0), l = c.x(1), k = c.x(2); T s = 0; c.emit(F_(1, ([&]{ if (k[i] > k[i-1]) s += k[i] - std::min(k[i-1], l[i]); else if (k[i] < k[i-1]) s += k[i] - std::max(k[i-1], h[i]); return s; }()))); })

// ---- trend / range / bands --------------------------------------------------------------------------------
MODEL(mass, "trend", P(0) >= 1, 15 + P(0), { auto h = c.x(0), l = c.x(1); auto d = F_(0, h[i] - l[i]); auto a = ema(d, 9), b = ema(cut(a, 8), 9); auto r = F_(16, a[i] != 0 ? a[i] / b[i] : T(0)); c.emit(wsum(r, P(0))); })
MODEL(cvi, "trend", P(0) >= 1, 2 * P(0) - 1, { auto h = c.x(0), l = c.x(1); int p = P(0); auto d = F_(0, h[i] - l[i]); auto e = ema(d, p); c.emit(F_(2 * p - 1, e[i] - e[i-p] != 0 ? 100 * (e[i] - e[i-p]) / e[i-p] : T(0))); })
MODEL(vi, "trend", P(0) >= 1, P(0), { auto h = c.x(0), l = c.x(1), k = c.x(2); auto a = F_(1, std::fabs(h[i] - l[i-1])), b = F_(1, std::fabs(l[i] - h[i-1])); auto t = wsum(truerange(h, l, k), P(0)), u = wsum(a, P(0)), d = wsum(b, P(0));
    c.emit(F_(u.from, u[i] != 0 ? u[i] / t[i] : T(0))); c.emit(F_(u.from, d[i] != 0 ? d[i] / t[i] : T(0))); })
MODEL(ce, "trend", P(0) >= 1, P(0) - 1, { auto h = c.x(0), l = c.x(1), k = c.x(2); auto a = wilder(tr0(h, l, k), P(0)), x = maxw(h, P(0)), y = minw(l, P(0)); T m = o[1]; c.emit(F_(a.from, x[i] - m * a[i])); c.emit(F_(a.from, y[i] + m * a[i])); })
MODEL(abands, "trend", P(0) >= 1, P(0) - 1, { auto h = c.x(0), l = c.x(1), k = c.x(2); auto m = F_(0, h[i] + l[i] > 0 ? 4 * (h[i] - l[i]) / (h[i] + l[i]) : T(0)); auto lo = F_(0, (1 - m[i]) * l[i]), up = F_(0, (1 + m[i]) * h[i]);
    c.emit(sma(lo, P(0))); c.emit(sma(up, P(0))); c.emit(sma(k, P(0))); })
MODEL(kc, "trend", o[0] >= 1 && !(o[1] < 0), 0, { auto h = c.x(0), l = c.x(1), k = c.x(2); auto m = emaR(k, o[0]), r = emaR(tr0(h, l, k), o[0]); T q = o[1]; c.emit(F_(0, m[i] - q * r[i])); c.emit(m); c.emit(F_(0, m[i] + q * r[i])); })
MODEL(pc, "trend", P(0) >= 1, P(0) - 1, { c.emit(minw(c.x(1), P(0))); c.emit(maxw(c.x(0), P(0))); })
MODEL(cmi, "trend", P(0) >= 1, P(0) - 1, { auto t = tr0(c.x(0), c.x(1), c.x(2)); int p = P(0); auto s = wsum(t, p), x = maxw(t, p), y = minw(t, p); c.emit(F_(s.from, p > 1 ? std::log((x[i] - y[i]) / s[i]) / std::log(T(p)) * 100 : dontcare<T>())); })
template<class T> T slope(V<T> x, int i, int p) { T mx = 0, my = 0; for (int j = 1; j <= p; ++j) { mx += j; my += x[i - p + j]; } mx /= p; my /= p; T a = 0, b = 0; for (int j = 1; j <= p; ++j) { a += (j - mx) * (x[i - p + j] - my); b += (j - mx) * (j - mx); } return p > 1 ? a / b : T(0); }
// extremes of the window after sliding every bar along the regression slope to the current bar
template<class T> V<T> pband(V<T> h, V<T> k, int p, bool mx) { return mk<T>(h.n, p - 1, [&](int i) { T b = slope(k, i, p), m = h[i]; for (int j = 1; j < p; ++j) m = mx ? std::max<T>(m, h[i-j] + j * b) : std::min<T>(m, h[i-j] + j * b); return m; }); }
MODEL(pbands, "trend", P(0) >= 1, P(0) - 1, { c.emit(pband(c.x(1), c.x(2), P(0), false)); c.emit(pband(c.x(0), c.x(2), P(0), true)); })
MODEL(ichi, "trend", P(0) >= 1 && P(1) >= P(0) && P(2) >= P(1), P(2) - 1 + P(1), { auto h = c.x(0), l = c.x(1); auto mid = [&](int p) { auto x = maxw(h, p), y = minw(l, p); return F_(p - 1, (x[i] + y[i]) / 2); };
    auto t = mid(P(0)), k = mid(P(1)), b = mid(P(2)); int s = c.start, d = P(1); c.emit(F_(s, t[i])); c.emit(F_(s, k[i])); c.emit(F_(s, (t[i-d] + k[i-d]) / 2)); c.emit(F_(s, b[i-d])); })

// ---- oscillators ------------------------------------------------------------------------------------------
MODEL(fisher, "oscillator", P(0) >= 1, P(0) - 1, { auto h = c.x(0), l = c.x(1); auto m = F_(0, (h[i] + l[i]) / 2); auto x = maxw(m, P(0)), y = minw(m, P(0)); T v = 0, f = 0, prev = 0; bool bad = false;
    auto sig = mk<T>(n, P(0) - 1, [&](int) { return T(0); });
    auto fi = F_(P(0) - 1, ([&]{ T w = x[i] - y[i]; if (w == 0) w = T(0.001); v = T(0.66) * ((m[i] - y[i]) / w - T(0.5)) + T(0.67) * v; if (std::fabs(std::fabs(v) - T(0.99)) < T(1e-9)) bad = true;
        if (v > T(0.99)) v = T(0.999); if (v < T(-0.99)) v = T(-0.999); prev = f; sig.p[i] = bad ? dontcare<T>() : prev; f = T(0.5) * std::log((1 + v) / (1 - v)) + T(0.5) * f; return bad ? dontcare<T>() : f; }()));
    c.emit(fi); c.emit(sig); })
MODEL(kst, "oscillator", ([&]{ for (int i = 0; i < 8; ++i) if (o[i] < 1) return false; return P(0) < P(1) && P(1) < P(2) && P(2) < P(3); }()), P(3), { auto x = c.x(0); V<T> e[4];
    for (int q = 0; q < 4; ++q) { int r = P(q); auto a = F_(r, (x[i] - x[i-r]) / x[i-r]); e[q] = ema(a, P(4 + q)); }
    auto k = F_(P(3), (e[0][i] + 2 * e[1][i] + 3 * e[2][i] + 4 * e[3][i]) / 10); c.emit(k); c.emit(ema(k, 9)); })
MODEL(copp, "oscillator", o[0] >= 1 && o[1] >= 1 && o[2] >= 1 && P(1) >= P(0), P(1) + P(2) - 1, { auto x = c.x(0); int a = P(0), b = P(1);
    auto r = F_(b, x[i-a] != 0 && x[i-b] != 0 ? ((x[i] / x[i-a] - 1) + (x[i] / x[i-b] - 1)) / 2 * 100 : T(0)); c.emit(wma(r, P(2))); })
MODEL(er, "oscillator", P(0) >= 1, P(0), { auto x = c.x(0); int p = P(0); auto d = F_(1, std::fabs(x[i] - x[i-1])); auto s = wsum(d, p); c.emit(F_(p, x[i] != x[i-p] ? std::fabs(x[i] - x[i-p]) / s[i] : T(0))); })
MODEL(pfe, "oscillator", P(0) >= 1 && P(1) >= 1, P(0), { auto x = c.x(0); int p = P(0); auto d = F_(1, sq_((x[i] - x[i-1]) * (x[i] - x[i-1]) + 1)); auto s = wsum(d, p);
    auto r = F_(p, (x[i] > x[i-p] ? 1 : -1) * 100 * sq_((x[i] - x[i-p]) * (x[i] - x[i-p]) + 100) / s[i]); c.emit(ema(r, P(1))); })
MODEL(posc, "oscillator", P(0) >= 1 && P(1) >= 1, P(0) - 1, { auto h = c.x(0), l = c.x(1), k = c.x(2); auto x = pband(h, k, P(0), true), y = pband(l, k, P(0), false);
    bool bad = false; auto r = F_(P(0) - 1, ([&]{ T d = k[i] - y[i]; if (std::fabs(d) < T(1e-9) && x[i] - y[i] < T(1e-9)) bad = true; return d != 0 ? d / (x[i] - y[i]) * 100 : T(0); }())); auto e = ema(r, P(1)); c.emit(F_(P(0) - 1, bad ? dontcare<T>() : e[i])); })
MODEL(rmi, "oscillator", o[0] >= 1 && P(1) >= 1, P(1), { auto x = c.x(0); int k = P(1); auto u = F_(k, std::max<T>(x[i] - x[i-k], 0)), d = F_(k, std::max<T>(x[i-k] - x[i], 0)); auto a = emaR(u, o[0]), b = emaR(d, o[0]); c.emit(F_(k, a[i] != 0 ? a[i] / (a[i] + b[i]) * 100 : T(0))); })
MODEL(rvi, "oscillator", P(0) >= 1 && P(1) >= 1, P(1) - 1, { auto x = c.x(0); int p = P(1), e = P(0); T u = 0, d = 0, sc = vscale(x); bool bad = p < 3; // residual of the newest bar against the window's regression line
    c.emit(F_(p - 1, ([&]{ if (bad) return dontcare<T>(); T b = slope(x, i, p), m = 0; for (int j = 0; j < p; ++j) m += x[i-j]; m /= p; T r = x[i] - (m + b * T(p - 1) / 2);
        if (std::fabs(r) <= T(1e-11) * p * sc) { bad = true; return dontcare<T>(); } // above or below the line is decided by rounding
        if (r > 0) u += (r * r / p - u) * 2 / (e + 1); else d += (r * r / p - d) * 2 / (e + 1);
        return u != 0 ? u / (u + d) * 100 : T(50); }()))); })
MODEL(smi, "oscillator", o[0] >= 1 && o[1] >= 1 && o[2] >= 1, P(0) - 1, { auto h = maxw(c.x(0), P(0)), l = minw(c.x(1), P(0)), k = c.x(2); auto a = F_(h.from, k[i] - (h[i] + l[i]) / 2), b = F_(h.from, h[i] - l[i]);
    auto s = emaR(emaR(a, o[1]), o[2]), d = emaR(emaR(b, o[1]), o[2]); c.emit(F_(h.from, d[i] != 0 ? 100 * s[i] / (d[i] / 2) : T(0))); })
MODEL(tsi, "oscillator", o[0] >= 1 && o[1] >= 1, 1, { auto x = c.x(0); auto a = F_(1, x[i] - x[i-1]), b = F_(1, std::fabs(x[i] - x[i-1])); auto s = emaR(emaR(a, o[0]), o[1]), d = emaR(emaR(b, o[0]), o[1]); c.emit(F_(1, d[i] != 0 ? 100 * s[i] / d[i] : T(0))); })

// ---- further moving averages ------------------------------------------------------------------------------
MODEL(dwma, "window", P(0) >= 1, 2 * (P(0) - 1), { c.emit(wma(wma(c.x(0), P(0)), P(0))); })
MODEL(lma, "window", P(0) >= 1, P(0) - 1, { auto a = wma(c.x(0), P(0)), b = sma(c.x(0), P(0)); c.emit(F_(a.from, 2 * a[i] - b[i])); })
template<class T, class W> V<T> fir(V<T> x, int p, W w, bool norm = true) { return mk<T>(x.n, x.from + p - 1, [&](int i) { T s = 0, d = 0; for (int j = 0; j < p; ++j) { T q = w(j); s += q * x[i-j]; d += q; } return norm ? s / d : s; }); } // w(j): weight of the bar j back
MODEL(pwma, "window", P(0) >= 1, P(0) - 1, { int p = P(0); T e = o[1]; c.emit(fir(c.x(0), p, [&](int j) { return std::pow(T(p - j), e); })); })
MODEL(swma, "window", P(0) >= 1 && P(0) % 6 != 0 && P(0) % 6 != 5, P(0) - 1, { c.emit(fir(c.x(0), P(0), [&](int j) { return T(std::sin((j + 1) * PI_ / 6)); })); })
MODEL(shmma, "window", P(0) >= 1, P(0) - 1, { int p = P(0); auto a = sma(c.x(0), p); auto b = fir(c.x(0), p, [&](int j) { return (p - (2 * j + T(1))) / 2; }, false); c.emit(F_(p - 1, a[i] + 6 * b[i] / ((T(p) + 1) * p))); })
MODEL(idwma, "window", P(0) >= 1 && !(o[1] < 1) && !(o[1] > 2), P(0) - 1, { T e = o[1]; c.emit(fir(c.x(0), P(0), [&](int j) { return 1 / std::pow(T(j + 1), e); })); })
static const double HEND[7][13] = { // Henderson end-point weights, oldest bar first, right-aligned
    {0,0,0,0,0,0,-0.092,-0.058,0.012,0.12,0.244,0.353,0.421}, {0,0,0,0,0,-0.043,-0.038,0.002,0.08,0.174,0.254,0.292,0.279}, {0,0,0,0,-0.016,-0.025,0.003,0.068,0.149,0.216,0.241,0.216,0.148},
    {0,0,0,-0.009,-0.022,0.004,0.066,0.145,0.208,0.23,0.201,0.131,0.046}, {0,0,-0.011,-0.022,0.003,0.067,0.145,0.21,0.235,0.205,0.136,0.05,-0.018}, {0,-0.017,-0.025,0.001,0.066,0.147,0.213,0.238,0.212,0.144,0.061,-0.006,-0.034},
    {-0.019,-0.028,0,0.066,0.147,0.214,0.24,0.214,0.147,0.066,0,-0.028,-0.019} };
MODEL(hwma, "window", P(0) >= 7 && P(0) <= 13, P(0) - 1, { int p = P(0); c.emit(fir(c.x(0), p, [&](int j) { return T(HEND[p - 7][12 - j]); }, false)); })
MODEL(emsd, "window", P(0) >= 1 && P(1) >= 1, P(0) - 1, { auto v = varw(c.x(0), P(0)); c.emit(F_(v.from, sq_(v[i]))); })
MODEL(mhlma, "window", P(0) >= 1 && P(1) >= 1, P(1) - 1, { auto x = c.x(0); int p = P(0); auto m = F_(0, ([&]{ T a = x[i], b = x[i]; for (int j = std::max(0, i - p + 1); j <= i; ++j) { a = std::max(a, x[j]); b = std::min(b, x[j]); } return (a + b) / 2; }())); c.emit(sma(m, P(1))); c.emit(ema(m, P(1))); })
MODEL(ehma, "recursive", P(0) >= 1, 0, { auto x = c.x(0); auto a = emaA<T>(x, T(2) / (T(P(0)) / 2 + 1)), b = ema(x, P(0)); auto d = F_(0, 2 * a[i] - b[i]); c.emit(emaA<T>(d, T(2) / (sq_(T(P(0))) + 1))); })
MODEL(ahma, "recursive", P(0) >= 1, 0, { auto x = c.x(0); int p = P(0); V<T> r; r.n = n; r.p = g_arena.get<T>(n + 1); for (int i = 0; i < n; ++i) r.p[i] = i < p ? x[i] : r.p[i-1] + (x[i] - (r.p[i-1] + r.p[i-p]) / 2) / p; c.emit(r); })
MODEL(t3, "recursive", o[0] >= 1 && !(o[1] < 0), 0, { T v = o[1]; auto gd = [&](V<T> x) { auto a = emaR(x, o[0]), b = emaR(a, o[0]); return F_(0, a[i] * (1 + v) - b[i] * v); }; c.emit(gd(gd(gd(c.x(0))))); })
MODEL(mgdyn, "recursive", true, 0, { auto x = c.x(0); T f = 0; c.emit(F_(0, ([&]{ if (!i) return f = x[0]; T q = x[i] / f; return f += (x[i] - f) / (T(o[0]) * q * q * q * q); }()))); })
MODEL(rmta, "recursive", P(0) >= 1, P(0) - 1, { auto x = c.x(0); T be = o[1], al = 1 - be, b = 0, r = 0;
    auto f = F_(0, ([&]{ if (!i) { b = be * x[0] + x[0]; r = be * x[0] + al * (x[0] + b); return r; } T nb = be * b + x[i]; r = be * r + al * (x[i] + nb - b); b = nb; return r; }())); c.emit(cut(f, P(0) - 1)); })
MODEL(rema, "recursive", o[0] >= 1 && !(o[1] < 0), 0, { auto x = c.x(0); T a = T(2) / (1 + T(o[0])), la = o[1], r = 0, r1 = 0;
    c.emit(F_(0, ([&]{ if (!i) return r = x[0]; T nr = i == 1 ? r + a * (x[i] - r) : (r * (1 + 2 * la) + a * (x[i] - r) - la * r1) / (1 + la); r1 = r; return r = nr; }()))); })

// ---- filters ----------------------------------------------------------------------------------------------
MODEL(lf, "filter", !(o[0] < 0), 0, { auto x = c.x(0); T g = o[0], a = 0, b = 0, d = 0, e = 0; // Laguerre
    c.emit(F_(0, ([&]{ T a1 = (1 - g) * x[i] + g * a, b1 = -g * a1 + a + g * b, d1 = -g * b1 + b + g * d, e1 = -g * d1 + d + g * e; a = a1; b = b1; d = d1; e = e1; return (a + 2 * b + 2 * d + e) / 6; }()))); })
template<class T> T median(V<T> x, int i, int k) { std::vector<T> v; for (int j = 0; j < k; ++j) v.push_back(x[i-j]); std::sort(v.begin(), v.end()); return v[k / 2]; }
MODEL(rmf, "filter", !(o[1] < 1) && !(o[0] < 1) && P(1) % 2 == 1, P(1) - 1, { auto x = c.x(0); T w = 2 * T(PI_) / T(o[0]), a = (std::cos(w) + std::sin(w) - 1) / std::cos(w), r = 0; int s = P(1) - 1;
    c.emit(F_(s, ([&]{ T m = median(x, i, P(1)); return r = i == s ? m : a * m + (1 - a) * r; }()))); })
// Hampel: the candidate survives when it lies within thr*1.4826*MAD of the window median
template<class T> V<T> hampel(V<T> x, int k, double thr, int lagc, bool strict) { return mk<T>(x.n, x.from + 2 * k, [&](int i) { T m = median(x, i, 2 * k + 1); std::vector<T> d; for (int j = 0; j <= 2 * k; ++j) d.push_back(std::fabs(x[i-j] - m)); std::sort(d.begin(), d.end());
    T lim = T(thr) * T(1.4826) * d[k], dev = std::fabs(x[i-lagc] - m); if (std::fabs(dev - lim) < T(1e-9) && dev > T(1e-9)) return dontcare<T>(); return (strict ? dev < lim : dev <= lim) ? x[i-lagc] : m; }); }
MODEL(hf, "filter", P(0) >= 1 && !(o[1] < 0), 2 * P(0), { c.emit(hampel(c.x(0), P(0), o[1], 0, true)); })
MODEL(hfsma, "filter", P(0) >= 1 && P(1) >= 1 && !(o[2] < 0), P(0) - 1 + 2 * P(1), { c.emit(hampel(sma(c.x(0), P(0)), P(1), o[2], P(1), false)); })
MODEL(hfema, "filter", P(0) >= 1 && P(1) >= 1 && !(o[2] < 0), 2 * P(1), { c.emit(hampel(ema(c.x(0), P(0)), P(1), o[2], P(1), false)); })
#define EVEN40 (P(0) >= 1 && P(0) % 2 == 0 && P(0) <= 40)
#define TB(t) T(t[P(0) / 2 - 1])
template<class T> V<T> pole(V<T> x, std::vector<T> b, std::vector<T> a, int warm) { // f[i] = sum b_k x[i-k] + sum a_k f[i-k]; zero history; the first `warm` values pass through
    V<T> r; r.n = x.n; r.p = g_arena.get<T>(x.n + 1); for (int i = 0; i < x.n; ++i) { T s = 0; for (size_t k = 0; k < b.size(); ++k) if (i >= (int)k) s += b[k] * x[i-k]; for (size_t k = 1; k <= a.size(); ++k) if (i >= (int)k) s += a[k-1] * r.p[i-k]; r.p[i] = i < warm ? x[i] : s; } return r; }
template<class T> V<T> gauss(V<T> x, T b0, std::vector<T> a, int warm) { T s = b0; for (T q : a) s += q; for (T& q : a) q /= s; return pole<T>(x, {b0 / s}, a, warm); } // unit DC gain
MODEL(gf1, "filter", EVEN40, 0, { c.emit(gauss<T>(c.x(0), TB(gf1_B0), {TB(gf1_A1)}, 0)); })
MODEL(gf2, "filter", EVEN40, 0, { c.emit(gauss<T>(c.x(0), TB(gf2_B0), {TB(gf2_A1), TB(gf2_A2)}, 0)); })
MODEL(gf3, "filter", EVEN40, 0, { c.emit(gauss<T>(c.x(0), TB(gf3_B0), {TB(gf3_A1), TB(gf3_A2), TB(gf3_A3)}, 0)); })
MODEL(gf4, "filter", EVEN40, 0, { c.emit(gauss<T>(c.x(0), TB(gf4_B0), {TB(gf4_A1), TB(gf4_A2), TB(gf4_A3), TB(gf4_A4)}, 5)); })
MODEL(bf2, "filter", EVEN40, (int)std::ceil(2 * o[0] / (3.1415 * 3.1415)), { c.emit(cut(pole<T>(c.x(0), {TB(bf2_B0), TB(bf2_B1), TB(bf2_B2)}, {TB(bf2_A1), TB(bf2_A2)}, 0), c.start)); })
MODEL(bf3, "filter", EVEN40, (int)std::ceil(3 * o[0] / (3.1415 * 3.1415)), { c.emit(cut(pole<T>(c.x(0), {TB(bf3_B0), TB(bf3_B1), TB(bf3_B2), TB(bf3_B3)}, {TB(bf3_A1), TB(bf3_A2), TB(bf3_A3)}, 0), c.start)); })
template<class T> void ss(T pi, T& c1, T& c2, T& c3) { T a1 = std::exp(-T(1.414) * pi / 10); c2 = 2 * a1 * std::cos(T(1.414) * T(3.14159) / 10); c3 = -a1 * a1; c1 = 1 - c2 - c3; }
MODEL(ssmooth, "filter", true, 0, { T c1, c2, c3; ss<T>(T(3.14159), c1, c2, c3); c.emit(pole<T>(c.x(0), {c1 / 2, c1 / 2}, {c2, c3}, 0)); })
template<class T> V<T> highpass(V<T> x, T ang) { T a = (std::cos(ang) + std::sin(ang) - 1) / std::cos(ang); T g = (1 - a / 2) * (1 - a / 2); return pole<T>(x, {g, -2 * g, g}, {2 * (1 - a), -(1 - a) * (1 - a)}, 0); }
MODEL(roof, "filter", true, 0, { T c1, c2, c3; ss<T>(T(3.14159), c1, c2, c3); auto h = highpass<T>(c.x(0), T(.707) * 2 * T(3.14159) / 48); c.emit(pole<T>(h, {c1 / 2, c1 / 2}, {c2, c3}, 0)); })
MODEL(edcf, "filter", !(o[0] < 1), 2 * P(0) - 1, { auto x = c.x(0); int L = P(0); c.emit(F_(2 * L - 1, ([&]{ T s = 0, w = 0; for (int q = 0; q < L; ++q) { T d = 0; for (int j = 1; j < L; ++j) d += (x[i-q] - x[i-q-j]) * (x[i-q] - x[i-q-j]); s += d * x[i-q]; w += d; } return w != 0 ? s / w : T(0); }()))); })

// ---- adaptive and cycle tools -----------------------------------------------------------------------------
MODEL(frama, "cycle", o[0] >= 1 && o[1] >= 2 && P(0) % 2 == 0, 0, { auto h = c.x(0), l = c.x(1); int p = P(0), q = p / 2; T w = std::log(T(2) / (1 + T(o[1]))), f = 0;
    auto ext = [&](int a, int b) { T x = h[a], y = l[a]; for (int j = a; j < b; ++j) { x = std::max(x, h[j]); y = std::min(y, l[j]); } return x - y; };
    c.emit(F_(0, ([&]{ T m = (h[i] + l[i]) / 2; if (i < p) return f = m; int s = i - p + 1; T n3 = ext(s, i + 1) / p, n2 = ext(s, s + q) / q, n1 = ext(s + q, i + 1) / q, d = 0;
        if (n1 > 0 && n2 > 0 && n3 > 0) d = std::log((n1 + n2) / n3) / std::log(T(2)); T a = std::exp(w * (d - 1)); a = std::min<T>(std::max<T>(a, T(0.01)), 1); return f = a * m + (1 - a) * f; }()))); })
// Ehlers' homodyne discriminator: x is the price, s0 the first bar processed, `turn` the full circle used for the
// period (2*pi, or 360 as in the published MAMA).  hist: whether bars before s0 count in the price smoothing.
template<class T> struct Cyc { std::vector<T> period, smooth, phase; int bad; };
template<class T> Cyc<T> homodyne(V<T> x, int n, int s0, T turn) {
    std::vector<T> S(n + 8), D(n + 8), I(n + 8), Q(n + 8), I2(n + 8), Q2(n + 8), R(n + 8), M(n + 8); Cyc<T> r; r.period.assign(n + 8, 0); r.smooth.assign(n + 8, 0); r.phase.assign(n + 8, 0); r.bad = n;
    auto at = [&](std::vector<T>& v, int i) -> T { return i >= 0 ? v[i] : T(0); };
    for (int i = s0; i < n; ++i) {
        T p1 = at(r.period, i - 1), adj = T(.075) * p1 + T(.54);
        auto hil = [&](std::vector<T>& v) { return (T(.0962) * at(v, i) + T(.5769) * at(v, i - 2) - T(.5769) * at(v, i - 4) - T(.0962) * at(v, i - 6)) * adj; };
        S[i] = (4 * x[i] + 3 * x[i-1] + 2 * x[i-2] + x[i-3]) / 10; D[i] = hil(S); Q[i] = hil(D); I[i] = at(D, i - 3);
        T jI = hil(I), jQ = hil(Q); I2[i] = T(.2) * (I[i] - jQ) + T(.8) * at(I2, i - 1); Q2[i] = T(.2) * (Q[i] + jI) + T(.8) * at(Q2, i - 1);
        R[i] = T(.2) * (I2[i] * at(I2, i - 1) + Q2[i] * at(Q2, i - 1)) + T(.8) * at(R, i - 1); M[i] = T(.2) * (I2[i] * at(Q2, i - 1) - Q2[i] * at(I2, i - 1)) + T(.8) * at(M, i - 1);
        T p = p1; // no measurable rotation: keep the running period
        T mag = std::fabs(R[i]) + std::fabs(M[i]), scale = I2[i] * I2[i] + Q2[i] * Q2[i];
        bool mz = std::fabs(M[i]) <= T(1e-13) * (mag + scale), rz = std::fabs(R[i]) <= T(1e-13) * (mag + scale);
        if (mz || rz) { if (std::max(p1, at(r.period, i - 2)) > 6 || scale > 0 || mag > 0) r.bad = std::min(r.bad, i); } // undecided branch: stop comparing here
        else p = turn / std::atan(M[i] / R[i]);
        p = std::min<T>(p, T(1.5) * p1); p = std::max<T>(p, T(.67) * p1); p = std::max<T>(p, 6); p = std::min<T>(p, 50);
        r.period[i] = T(.2) * p + T(.8) * p1; r.smooth[i] = T(.33) * r.period[i] + T(.67) * at(r.smooth, i - 1);
        T ph = 0; if (I[i] != 0) { if (std::fabs(I[i]) < T(1e-12) * (std::fabs(S[i]) + 1)) r.bad = std::min(r.bad, i); ph = std::atan(Q[i] / I[i]); } else if (Q[i] != 0) r.bad = std::min(r.bad, i); r.phase[i] = ph;
    }
    return r;
}
MODEL(hd, "cycle", true, 5, { auto y = homodyne<T>(c.x(0), n, 5, 2 * T(PI_)); c.emit(F_(5, i < y.bad ? y.smooth[i] : dontcare<T>())); })
MODEL(arsi, "cycle", !(o[0] <= 0), 5, { auto x = c.x(0); auto y = homodyne<T>(x, n, 5, 2 * T(PI_)); c.emit(F_(5, ([&]{ T u = 0, d = 0, w = T(o[0]) * y.smooth[i]; if (i >= y.bad || std::fabs(w - std::round(w)) < T(1e-7)) return dontcare<T>();
    for (int q = 0; q < (int)w && q < i; ++q) { u += std::max<T>(0, x[i-q] - x[i-q-1]); d += std::max<T>(0, x[i-q-1] - x[i-q]); } return u + d != 0 ? 100 * u / (u + d) : T(0); }()))); })
MODEL(mama, "cycle", o[0] >= 0 && o[0] <= 1 && o[1] >= 0 && o[1] <= 1, 6, { auto x = c.x(0); auto y = homodyne<T>(x, n, 6, T(360)); T m = 0, f = 0; auto fam = mk<T>(n, 6, [&](int) { return T(0); });
    auto ma = F_(6, ([&]{ T dp = std::max<T>(1, y.phase[i-1] - y.phase[i]), a = std::max<T>(T(o[1]), T(o[0]) / dp); m = a * x[i] + (1 - a) * m; f = a / 2 * m + (1 - a / 2) * f; fam.p[i] = i < y.bad ? f : dontcare<T>(); return i < y.bad ? m : dontcare<T>(); }())); c.emit(ma); c.emit(fam); })
MODEL(mesastoch, "cycle", P(0) >= 1 && P(1) >= 1, P(0) + 2, { auto x = c.x(0); int p = P(0); T ang = T(.707) * 360 / P(1) * T(3.141592) / 180, a = (std::cos(ang) + std::sin(ang) - 1) / std::cos(ang), g = (1 - a / 2) * (1 - a / 2);
    T a1 = std::exp(-T(1.414) * T(3.141459) / 10), c2 = 2 * a1 * std::cos(T(1.414) * 18 * T(3.141592) / 180), c3 = -a1 * a1, c1 = 1 - c2 - c3; bool bad = false; T mx = vscale(x);
    V<T> H = mk<T>(n, 0, [](int) { return T(0); }), F = mk<T>(n, 0, [](int) { return T(0); }), S = mk<T>(n, 0, [](int) { return T(0); }), R = mk<T>(n, 0, [](int) { return T(0); }); auto at = [](V<T>& v, int i) { return i >= 0 ? v.p[i] : T(0); };
    for (int i = 2; i < n; ++i) { H.p[i] = g * (x[i] - 2 * x[i-1] + x[i-2]) + 2 * (1 - a) * H.p[i-1] - (1 - a) * (1 - a) * H.p[i-2]; F.p[i] = c1 * (H.p[i] + H.p[i-1]) / 2 + c2 * F.p[i-1] + c3 * F.p[i-2]; }
    for (int i = p + 2; i < n; ++i) { T hi = F.p[i], lo = F.p[i], mg = 0; for (int j = 0; j < p; ++j) { hi = std::max(hi, F.p[i-j]); lo = std::min(lo, F.p[i-j]); mg = std::max(mg, std::fabs(F.p[i-j])); }
        if (hi - lo < T(1e-12) * std::max(T(1), mx) && (hi != lo || (mg != 0 && hi != 0)) && p > 1) bad = true; S.p[i] = F.p[i] - lo != 0 ? (F.p[i] - lo) / (hi - lo) : T(0);
        R.p[i] = bad ? dontcare<T>() : c1 * (S.p[i] + (i > p + 2 ? S.p[i-1] : T(0))) / 2 + c2 * (i > p + 2 ? R.p[i-1] : T(0)) + c3 * (i > p + 3 ? R.p[i-2] : T(0)); }
    c.emit(cut(R, p + 2)); })
MODEL(msw, "cycle", P(0) >= 1, P(0), { auto x = c.x(0); int p = P(0); T pi = T(3.1415926), tpi = 2 * pi; auto ph = F_(p, ([&]{ T r = 0, m = 0; for (int j = 0; j < p; ++j) { r += std::cos(tpi * j / p) * x[i-j]; m += std::sin(tpi * j / p) * x[i-j]; }
        if (std::fabs(std::fabs(r) - T(.001)) < T(1e-5)) return dontcare<T>(); T f; if (std::fabs(r) > T(.001)) f = std::atan(m / r); else { if (std::fabs(m) < T(1e-5) && p > 1) return dontcare<T>(); f = m < 0 ? -pi : pi; } if (r < 0) f += pi; if (std::fabs(r) <= T(.001) && r != 0 && std::fabs(r) < T(1e-5)) return dontcare<T>(); return f + pi / 2; }()));
    c.emit(F_(p, std::sin(ph[i]))); c.emit(F_(p, std::sin(ph[i] + pi / 4))); })
MODEL(hurst, "cycle", !(o[0] < 2), P(0), { auto x = c.x(0); int p = P(0); auto r = F_(1, x[i] != 0 && x[i-1] != 0 ? std::log(x[i] / x[i-1]) : T(0));
    bool bad = false; auto h = F_(p, ([&]{ T m = 0; if (i == p) { for (int j = 1; j <= p; ++j) bad |= !std::isfinite(r[j]); } bad |= !std::isfinite(r[i]); if (bad) return dontcare<T>(); for (int j = 0; j < p; ++j) m += r[i-j]; m /= p; T s = 0, hi = 0, lo = 0, v = 0; for (int j = 0; j < p; ++j) { T d = r[i-j] - m; s += d; v += d * d; if (!j) hi = lo = s; hi = std::max(hi, s); lo = std::min(lo, s); } T R = hi - lo; if (R < T(1e-9)) return dontcare<T>(); return std::log(R / sq_(v / p)) / std::log(T(p)); }()));
    c.emit(h); c.emit(F_(p, 2 - h[i])); })
