// Reference-model framework: every indicator is specified once, definitionally, as a template over the number
// type.  It is evaluated in double and in long double; the distance between the two evaluations is the
// conditioning estimate that the comparison oracle uses (see compare() in core.hh).
#pragma once
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <vector>
#include <string>
#include <map>
#include <functional>
#include <algorithm>
#include <numeric>
#include <complex>
#include <cstdint>

struct Arena {
    size_t size = 512u << 20, pos = 0; char* buf; // untouched pages cost nothing
    Arena() : buf((char*)malloc(size)) {}
    template<class T> T* get(size_t n) {
        pos = (pos + 15) & ~size_t(15);
        if (pos + n * sizeof(T) > size) { fprintf(stderr, "arena exhausted\n"); exit(2); }
        T* p = (T*)(buf + pos); pos += n * sizeof(T); return p;
    }
};
extern Arena g_arena;

// Noise injection (see model_eval in explore.cc): > 0 makes the building blocks return values that are off by about
// g_noise of the scale of what they accumulate, the way a rolling implementation is.
struct Noise { double sum = 0, var = 0, ema = 0; unsigned seed = 1; }; // ema: absolute rounding noise of a smoothing step
extern Noise g_nz;
inline double nz_unit(int i, unsigned salt) { uint32_t h = (i * 2654435761u) ^ (salt * 2246822519u + g_nz.seed * 97u); h ^= h >> 13; h *= 2246822519u; h ^= h >> 16; return (h & 1 ? 1 : -1) * (0.5 + (h >> 8 & 255) / 512.0); }

// A value per bar index; defined for from <= i < n.
template<class T> struct V {
    T* p = nullptr; int n = 0, from = 0;
    T operator[](int i) const {
        if (i < from || i >= n) { fprintf(stderr, "model bug: index %d outside [%d,%d)\n", i, from, n); abort(); }
        return p[i];
    }
};
template<class T, class F> V<T> mk(int n, int from, F f) {
    V<T> v; v.n = n; v.from = std::max(0, from); v.p = g_arena.get<T>(n > 0 ? n : 1);
    for (int i = v.from; i < n; ++i) v.p[i] = f(i);
    return v;
}

template<class T> struct Ctx {
    int n; const double* o; int nin; V<T> in[10]; int start; std::vector<V<T>> out;
    V<T> x(int k) const { return in[k]; }
    void emit(V<T> v) {
        if (v.from > start && start < n) { fprintf(stderr, "model bug: emit from %d > start %d\n", v.from, start); abort(); }
        out.push_back(v);
    }
};

struct Model {
    const char *name, *family;
    bool (*valid)(const double* o);
    int (*start)(const double* o);
    void (*fd)(Ctx<double>&);
    void (*fl)(Ctx<long double>&);
};
std::map<std::string, Model>& models();
struct RegModel { RegModel(Model m) { models()[m.name] = m; } };

#define P(i) ((int)o[i])
#define MODEL(NAME, FAM, VALID, START, ...) \
    static bool valid_##NAME(const double* o) { (void)o; return VALID; } \
    static int start_##NAME(const double* o) { (void)o; return START; } \
    template<class T> static void m_##NAME(Ctx<T>& c) { const double* o = c.o; (void)o; const int n = c.n; (void)n; __VA_ARGS__ } \
    static RegModel reg_##NAME({#NAME, FAM, valid_##NAME, start_##NAME, m_##NAME<double>, m_##NAME<long double>});

// ---- definitional building blocks -------------------------------------------------------------------------
#define F_(FROM, EXPR) mk<T>(n, FROM, [&](int i) -> T { (void)i; return EXPR; })

template<class T> T vscale(V<T> x) { T m = 0; for (int i = x.from; i < x.n; ++i) { T a = std::fabs(x.p[i]); if (a < 1e300L) m = std::max(m, a); } return m; }
template<class T> V<T> noisy(V<T> r, T scale, double rel, unsigned salt) { if (rel > 0) for (int i = r.from; i < r.n; ++i) r.p[i] += scale * T(rel * nz_unit(i, salt)); return r; }
template<class T> V<T> wsum(V<T> x, int p) {
    return noisy<T>(mk<T>(x.n, x.from + p - 1, [&](int i) { T s = 0; for (int j = i - p + 1; j <= i; ++j) s += x[j]; return s; }), g_nz.sum > 0 ? vscale(x) * p : T(0), g_nz.sum, p);
}
template<class T> V<T> sma(V<T> x, int p) { V<T> s = wsum(x, p); return mk<T>(x.n, s.from, [&](int i) { return s[i] / p; }); }
// weights 1..p, the newest bar weighs p
template<class T> V<T> wma(V<T> x, int p) {
    return noisy<T>(mk<T>(x.n, x.from + p - 1, [&](int i) { T s = 0, w = 0; for (int j = 0; j < p; ++j) { s += x[i - p + 1 + j] * (j + 1); w += j + 1; } return s / w; }), g_nz.sum > 0 ? vscale(x) : T(0), g_nz.sum, p + 7);
}
template<class T> V<T> emaA(V<T> x, T alpha) {
    T e = 0; bool live = false; return mk<T>(x.n, x.from, [&](int i) { e = i == x.from ? x[i] : e + alpha * (x[i] - e); live |= x[i] != 0; if (g_nz.ema > 0 && live) e += T(g_nz.ema * nz_unit(i, 31)); return e; });
}
template<class T> V<T> ema(V<T> x, int p) { return emaA<T>(x, T(2) / (p + 1)); }
// Wilder: the mean of the first p values, then alpha = 1/p
template<class T> V<T> wilder(V<T> x, int p) {
    T e = 0; int s0 = x.from + p - 1;
    return mk<T>(x.n, s0, [&](int i) { if (i == s0) { e = 0; for (int j = i - p + 1; j <= i; ++j) e += x[j]; e /= p; } else e += (x[i] - e) / p; if (g_nz.ema > 0 && e != 0) e += T(g_nz.ema * nz_unit(i, 37)); return e; });
}
template<class T> V<T> lagv(V<T> x, int k) { return mk<T>(x.n, x.from + k, [&](int i) { return x[i - k]; }); }
// the same values, declared valid only from bar f on
template<class T> V<T> cut(V<T> x, int f) { V<T> r = x; r.from = std::max(x.from, f); return r; }
template<class T> V<T> maxw(V<T> x, int p) { return mk<T>(x.n, x.from + p - 1, [&](int i) { T m = x[i]; for (int j = i - p + 1; j <= i; ++j) m = std::max(m, x[j]); return m; }); }
template<class T> V<T> minw(V<T> x, int p) { return mk<T>(x.n, x.from + p - 1, [&](int i) { T m = x[i]; for (int j = i - p + 1; j <= i; ++j) m = std::min(m, x[j]); return m; }); }
// population variance over a window, two-pass
template<class T> V<T> varw(V<T> x, int p) {
    T sc = g_nz.var > 0 ? vscale(x) : T(0); double rel = g_nz.var;
    return mk<T>(x.n, x.from + p - 1, [&](int i) { T a = 0; for (int j = i - p + 1; j <= i; ++j) a += x[j]; a /= p; T s = 0; for (int j = i - p + 1; j <= i; ++j) s += (x[j] - a) * (x[j] - a); return s / p + (rel > 0 ? sc * sc * T(rel * std::fabs(nz_unit(i, p + 13))) : T(0)); });
}
template<class T> V<T> truerange(V<T> h, V<T> l, V<T> c) { // from bar 1
    return mk<T>(h.n, 1, [&](int i) { return std::max(h[i] - l[i], std::max(std::fabs(h[i] - c[i - 1]), std::fabs(l[i] - c[i - 1]))); });
}
