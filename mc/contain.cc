// State-space explorer for the history containers of utils/: breadth-first search over the reachable states of the real
// objects, every operation applied in every state, every answer compared with a list of the last N values.
// The reachable sets are finite (values from a small alphabet), so the search covers operation sequences of any length.
//   contain OUTDIR tier | contain --replay FILE
#include "utils/ringbuf.hh"
#include "utils/buffer.h"
#include "utils/localbuffer.h"
#include <vector>
#include <string>
#include <set>
#include <deque>
#include <map>
#include <cstdio>
#include <cstdarg>
#include <chrono>
#include <type_traits>
#include <sys/wait.h>
#include <unistd.h>
typedef std::vector<double> L; static long g_states, g_trans, g_queries, g_paths; static std::string g_bad; static std::string g_what;
static std::string strf(const char* f, ...) { char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static const double VAL[] = {-1.5, 0, 2, 2.5};
static bool bad(const std::string& hist, const std::string& msg) { if (g_bad.empty()) g_bad = g_what + " after [" + hist + "]: " + msg; return false; }
// ---- ring buffers -----------------------------------------------------------------------------------------
// an operation is step, "= v" (write the current value), or "step; = v" (the usual push)
template<class B> static L content(B& b, int n) { L r; const B& cb = b; for (int i = 0; i < n; ++i) r.push_back(cb[i]); return r; }
template<class T> static auto writable(T& b, int) -> decltype(b[0] = 1.0, true) { return true; } template<class T> static bool writable(T&, long) { return false; }
template<class T> static auto setat(T& b, int i, double v, int) -> decltype((void)(b[i] = v)) { b[i] = v; } template<class T> static void setat(T&, int, double, long) {}
template<class T> struct can_write { template<class U> static auto t(int) -> decltype((void)(&std::declval<U&>()[0]), std::true_type()); template<class U> static std::false_type t(...); static const bool v = decltype(t<T>(0))::value; };
template<class B> static bool judge(B& b, const L& m, const std::string& h) {
    int n = m.size(); const B& cb = b; ++g_queries; if ((double)cb != m[0]) return bad(h, strf("the current value is %g, not %g", (double)cb, m[0]));
    for (int i = 0; i < n; ++i) if (cb[i] != m[i]) return bad(h, strf("value [%d] is %g, not %g", i, cb[i], m[i]));
    for (int p = 1; p <= n; ++p) for (int mx = 0; mx < 2; ++mx) { double w = m[0]; for (int i = 1; i < p; ++i) w = mx ? std::max(w, m[i]) : std::min(w, m[i]); TI_REAL* it = mx ? b.find_max(p) : b.find_min(p); ++g_queries; int age = b.iterator_to_age(it);
        if (age < 0 || age >= p) return bad(h, strf("find_%s(%d) points at age %d", mx ? "max" : "min", p, age)); if (*it != w) return bad(h, strf("find_%s(%d) is %g, not %g", mx ? "max" : "min", p, *it, w)); if (m[age] != *it) return bad(h, strf("iterator_to_age gives %d, where the value is %g, not %g", age, m[age], *it)); }
    std::multiset<double> a(b.phbegin(), b.phend()), e(m.begin(), m.end()); if (a != e) return bad(h, "the physical range does not hold the values"); 
    std::set<int> ages; for (TI_REAL* q = b.phbegin(); q != b.phend(); ++q) { int g = b.iterator_to_age(q); if (g < 0 || g >= n || m[g] != *q) return bad(h, strf("iterator_to_age gives %d for an element holding %g", g, *q)); ages.insert(g); } if ((int)ages.size() != n) return bad(h, "two elements have the same age");
    return true;
}
static L stepped(L m) { m.insert(m.begin(), m.back()); m.pop_back(); return m; }
struct Op { int kind, i; double v; std::string s; };
static std::vector<Op> ops(int n, int vals, bool at) { std::vector<Op> r{{0, 0, 0, "step"}}; for (int v = 0; v < vals; ++v) { r.push_back({1, 0, VAL[v], strf("=%g", VAL[v])}); r.push_back({2, 0, VAL[v], strf("step;=%g", VAL[v])}); if (at) for (int i = 0; i < n; ++i) r.push_back({3, i, VAL[v], strf("[%d]=%g", i, VAL[v])}); } return r; }
template<class B> static void apply(B& b, L& m, const Op& o) { if (o.kind == 0) { b.step(); m = stepped(m); } else if (o.kind == 1) { b = o.v; m[0] = o.v; } else if (o.kind == 2) { step(b); b = o.v; m = stepped(m); m[0] = o.v; } else { setat(b, o.i, o.v, 0); m[o.i] = o.v; } }
// key: model plus the concrete layout (which physical slot has which age)
template<class B> static std::vector<double> key(B& b, int n, const L& m) { std::vector<double> k(m); for (TI_REAL* q = b.phbegin(); q != b.phend(); ++q) k.push_back(b.iterator_to_age(q)); k.push_back(n); return k; }
template<int N> static bool ring(int vals, long cap) {
    typedef ringbuf<N> B; g_what = strf("ringbuf<%d>", N); struct S { B b; L m; std::string h; }; std::deque<S> q; std::set<std::vector<double>> seen; auto os = ops(N, vals, can_write<B>::v);
    S s0; s0.m.assign(N, 0); if (!judge(s0.b, s0.m, "")) return false; q.push_back(s0); seen.insert(key(s0.b, N, s0.m)); ++g_states;
    while (!q.empty()) { S s = q.front(); q.pop_front(); for (auto& o : os) { S t = s; apply(t.b, t.m, o); ++g_trans; std::string h = s.h.size() > 200 ? "... " + o.s : s.h + (s.h.empty() ? "" : ", ") + o.s; if (!judge(t.b, t.m, h)) return false; if ((long)seen.size() < cap && seen.insert(key(t.b, N, t.m)).second) { t.h = h; q.push_back(t); ++g_states; } } }
    return true;
}
typedef ringbuf<0> H;
// the heap variant is movable but not copyable: a state is rebuilt by repeating the operations that led to it
static H redo(int M, const std::vector<Op>& os, const std::vector<uint8_t>& h) { H b(M); L m(M, 0); for (int o : h) apply(b, m, os[o]); return b; }
static bool heap(int M, int vals, long cap) {
    g_what = strf("ringbuf<0>(%d)", M); struct S { std::vector<uint8_t> h; L m; std::string s; }; std::deque<S> q; std::set<std::vector<double>> seen; auto os = ops(M, vals, false);
    { H d; d.resize(M); L z(M, 0); if (!judge(d, z, "resize")) return false; }
    { H b(M); L z(M, 0); if (!judge(b, z, "")) return false; seen.insert(key(b, M, z)); q.push_back({{}, z, ""}); ++g_states; }
    while (!q.empty()) { S s = std::move(q.front()); q.pop_front();
        for (size_t o = 0; o < os.size(); ++o) { H b = redo(M, os, s.h); L m = s.m; apply(b, m, os[o]); ++g_trans; std::string h = s.s + (s.s.empty() ? "" : ", ") + os[o].s; if (!judge(b, m, h)) return false; if ((long)seen.size() < cap && seen.insert(key(b, M, m)).second) { auto v = s.h; v.push_back(o); q.push_back({v, m, h}); ++g_states; } }
        for (int M2 = 1; M2 <= M + 1; ++M2) { H t = redo(M, os, s.h); t.resize(M2); ++g_trans; L z(M2, 0); if (!judge(t, z, s.s + strf(", resize(%d)", M2))) return false; H u = std::move(t); if (!judge(u, z, s.s + strf(", resize(%d), move", M2))) return false; } }
    return true;
}
// every operation sequence to a depth, from the initial state, on one object (no state copying)
template<class F> static void seqs(int k, int depth, F f) { std::vector<int> s; for (int d = 0; d <= depth; ++d) { s.assign(d, 0); for (;;) { f(s); int i = d - 1; while (i >= 0 && ++s[i] == k) s[i--] = 0; if (i < 0) break; } } }
template<class Mk> static bool paths(int n, int depth, Mk mk, bool at) { auto os = ops(n, 2, at); bool ok = true; seqs(os.size(), depth, [&](const std::vector<int>& s) { if (!ok) return; auto b = mk(); L m(n, 0); std::string h; for (int o : s) { apply(b, m, os[o]); ++g_trans; h += (h.empty() ? "" : ", ") + os[o].s; } ++g_paths; ok = judge(b, m, h); }); return ok; }
// step(a, b, c) steps every argument
static bool many() { g_what = "step(a,b,c)"; for (int k = 1; k <= 12; ++k) { ringbuf<3> a; ringbuf<2> b; ringbuf<5> c; ringbuf<0> d(4); L ma(3, 0), mb(2, 0), mc(5, 0), md(4, 0); for (int i = 1; i <= k; ++i) { step(a, b, c, d); a = i; b = 10 * i; c = -i; d = 3 * i; ma = stepped(ma); ma[0] = i; mb = stepped(mb); mb[0] = 10 * i; mc = stepped(mc); mc[0] = -i; md = stepped(md); md[0] = 3 * i; ++g_trans; }
    if (!judge(a, ma, strf("%d pushes", k)) || !judge(b, mb, strf("%d pushes", k)) || !judge(c, mc, strf("%d pushes", k)) || !judge(d, md, strf("%d pushes", k))) return false; ++g_paths; } return true; }
// ---- ti_buffer --------------------------------------------------------------------------------------------
static bool tibuf(int n, int vals, int depth, bool sum) { // all push sequences; the pushed values' window and its running sum
    g_what = strf("ti_buffer(%d), %s", n, sum ? "push" : "qpush"); bool ok = true;
    seqs(vals, depth, [&](const std::vector<int>& s) { if (!ok) return; ti_buffer* b = ti_buffer_new(n); L m; std::string h; for (int v : s) { if (sum) ti_buffer_push(b, VAL[v]); else ti_buffer_qpush(b, VAL[v]); m.insert(m.begin(), VAL[v]); if ((int)m.size() > n) m.pop_back(); h += strf(" %g", VAL[v]); ++g_trans; }
        ++g_paths; ++g_states; double t = 0; for (double x : m) t += x; if (sum && b->sum != t) ok = bad(h, strf("sum is %g, not %g", b->sum, t)); if (b->size != n) ok = bad(h, "size changed");
        for (int i = 0; i < (int)m.size() && ok; ++i) { ++g_queries; double g = ti_buffer_get(b, -i); if (g != m[i]) ok = bad(h, strf("get(%d) is %g, not %g", -i, g, m[i])); } ti_buffer_free(b); });
    return ok;
}
// ---- BUFFERS of a stream ----------------------------------------------------------------------------------
struct LB { int index, progress; BUFFERS(BUFFER(a) BUFFER(b) BUFFER(c)) };
static bool local(int na, int nb, int nc, int depth) {
    g_what = strf("BUFFERS(a[%d] b[%d] c[%d])", na, nb, nc); bool ok = true; int n[3] = {na, nb, nc};
    seqs(6, depth, [&](const std::vector<int>& s) { if (!ok) return; LB* p = (LB*)calloc(1, sizeof(LB)); BUFFER_INIT(p, a, na); BUFFER_INIT(p, b, nb); BUFFER_INIT(p, c, nc); int sz = BUFFERS_SIZE(p); if (sz != na + nb + nc) { ok = bad("", strf("BUFFERS_SIZE is %d", sz)); free(p); return; } p = (LB*)realloc(p, sizeof(LB) + sizeof(TI_REAL) * sz);
        L m[3]; std::string h; int t = 0; for (int o : s) { double v = ++t * 1.25 * (o < 3 ? 1 : -1); int w = o % 3; if (w == 0) BUFFER_PUSH(p, a, v) else if (w == 1) BUFFER_PUSH(p, b, v) else BUFFER_PUSH(p, c, v) m[w].insert(m[w].begin(), v); if ((int)m[w].size() > n[w]) m[w].pop_back(); h += strf(" %c=%g", 'a' + w, v); ++g_trans; }
        ++g_paths; ++g_states; for (int w = 0; w < 3; ++w) for (int i = 0; i < (int)m[w].size() && ok; ++i) { double g, g2; if (w == 0) { g = BUFFER_AT1(p, a, -i); BUFFER_AT(g2, p, a, -i) } else if (w == 1) { g = BUFFER_AT1(p, b, -i); BUFFER_AT(g2, p, b, -i) } else { g = BUFFER_AT1(p, c, -i); BUFFER_AT(g2, p, c, -i) } ++g_queries; if (g != m[w][i] || g2 != m[w][i]) ok = bad(h, strf("value %d back in %c is %g / %g, not %g", i, 'a' + w, g, g2, m[w][i]));
            if ((int)m[w].size() == n[w] && ok) { double o; if (w == 0) BUFFER_AT(o, p, a, 1) else if (w == 1) BUFFER_AT(o, p, b, 1) else BUFFER_AT(o, p, c, 1) if (o != m[w].back()) ok = bad(h, strf("the oldest value of %c is %g, not %g", 'a' + w, o, m[w].back())); } }
        free(p); });
    return ok;
}
static std::string run_all(bool th) {
    bool ok = ring<1>(4, 100000) && ring<2>(4, 100000) && ring<3>(4, 200000) && ring<4>(4, 200000) && ring<5>(3, 200000) && ring<6>(3, 200000) && ring<7>(th ? 3 : 2, 200000) && ring<8>(2, 200000);
    for (int M = 1; M <= (th ? 8 : 7) && ok; ++M) ok = heap(M, M <= 4 ? 4 : M <= 5 ? 3 : 2, 200000);
    int D = th ? 6 : 5; g_what = "ringbuf<1>"; ok = ok && paths(1, D, [] { return ringbuf<1>(); }, true); g_what = "ringbuf<2>"; ok = ok && paths(2, D, [] { return ringbuf<2>(); }, true); g_what = "ringbuf<3>"; ok = ok && paths(3, D, [] { return ringbuf<3>(); }, true); g_what = "ringbuf<4>"; ok = ok && paths(4, D - 1, [] { return ringbuf<4>(); }, true);
    for (int M = 1; M <= 5 && ok; ++M) { g_what = strf("ringbuf<0>(%d)", M); ok = paths(M, D + 2, [=] { return H(M); }, false); }
    ok = ok && many(); for (int n = 1; n <= 6 && ok; ++n) for (int s = 0; s < 2 && ok; ++s) ok = tibuf(n, 4, th ? 9 : 8, s) && tibuf(n, 2, th ? 17 : 14, s);
    for (int a = 1; a <= 3 && ok; ++a) for (int b = 1; b <= 3 && ok; ++b) for (int c = 1; c <= 3 && ok; ++c) ok = local(a, b, c, th ? 6 : 5);
    return g_bad;
}
int main(int argc, char** argv) {
    auto t0 = std::chrono::steady_clock::now(); bool replay = argc > 2 && !strcmp(argv[1], "--replay"); bool th = argc > 2 && !strcmp(argv[2], "thorough");
    int fd[2]; pipe(fd); pid_t pid = fork(); if (!pid) { close(fd[0]); alarm(800); std::string e = run_all(th); FILE* f = fdopen(fd[1], "w"); fprintf(f, "%ld %ld %ld %ld\n%s", g_states, g_trans, g_queries, g_paths, e.c_str()); fclose(f); _exit(0); }
    close(fd[1]); std::string all; char buf[4096]; ssize_t r; while ((r = read(fd[0], buf, sizeof buf)) > 0) all.append(buf, r); int st; waitpid(pid, &st, 0);
    std::string msg; size_t nl = all.find('\n'); long s = 0, t = 0, q = 0, p = 0; if (st) msg = strf("the explored container ended the process (status 0x%x)", st); else { sscanf(all.c_str(), "%ld %ld %ld %ld", &s, &t, &q, &p); msg = all.substr(nl + 1); }
    if (replay) { puts(msg.empty() ? "holds" : ("violated: " + msg).c_str()); return msg.empty() ? 0 : 1; }
    std::string out = argv[1]; FILE* f = fopen((out + "/stats.json").c_str(), "w"); fprintf(f, "{\"states\": %ld, \"transitions\": %ld, \"queries\": %ld, \"sequences\": %ld, \"seconds\": %.1f}\n", s, t, q, p, std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count()); fclose(f);
    if (!msg.empty()) { std::string c = out + "/v0000.case"; f = fopen(c.c_str(), "w"); fprintf(f, "containers\n%s\n", msg.c_str()); fclose(f); printf("FOUND %s %s\n", c.c_str(), msg.c_str()); return 1; }
    return 0;
}
