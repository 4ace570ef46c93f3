// Schedule explorer: runs two library calls on two threads under a controlled scheduler and explores every
// interleaving of their conflicting memory accesses up to a preemption bound.
//
// The library is compiled with -fsanitize=thread, but the __tsan_* entry points are defined here: every load, store
// and atomic operation of library code arrives in access().  Accesses to the thread's own stack and to memory it
// allocated itself are invisible; everything else is a visible transition.  Two calls whose visible access sets do
// not conflict are independent: all their interleavings are one Mazurkiewicz trace, and the sequential run covers
// them (that is the partial-order reduction).  For conflicting pairs the schedules are enumerated (stateless search,
// one forked process per execution), preempting only at conflicting accesses.
//   sched OUTDIR tier | sched --replay FILE
#define NO_MAIN
#include "explore.cc"
#include "toy.h"
#include <pthread.h>
#include <semaphore.h>
#include <link.h>
#include <unordered_map>
#include <unordered_set>

enum { NT = 2 };
struct Arena2 { char* base; size_t pos; }; static const size_t ASZ = 48u << 20; static Arena2 g_ar[NT];
static uintptr_t g_wlo, g_whi;                  // writable segment of the library under test
static __thread int t_id = -1;                  // >= 0 while a controlled thread executes library code
static __thread int t_in = 0;                   // inside the runtime itself
struct Range { uintptr_t lo, hi; }; static Range g_stack[NT];
static bool g_ctl = false;                      // two threads under the scheduler (false: solo, recording)
struct Acc { uintptr_t a; uint8_t w; };
struct Ev { uintptr_t cell; int dec; uint8_t thr, w; }; enum { NEV = 1 << 17 }; // a conflicting access, in execution order; dec: the decision taken just before it
// shared with the parent process
struct Sh { int naccs; Acc accs[1 << 16]; int nconf; int nev; Ev ev[NEV]; int ndec; uint8_t dec[4096]; uint8_t en[4096]; uint8_t cur[4096]; int status; double out[NT][4096]; int nout[NT]; long visible, total; char msg[200]; };
static Sh* sh;
static std::unordered_map<uintptr_t, int>* g_seen; // solo: 8-byte cells -> 1 read, 2 written
static std::unordered_set<uintptr_t>* g_conf;      // cells in conflict
static sem_t g_sem[NT]; static bool g_done[NT]; static const void* g_blocked[NT]; static int g_turn; static const uint8_t* g_plan; static int g_nplan; static pthread_mutex_t g_dead;

static void hand(int to) { int me = t_id; g_turn = to; sem_post(&g_sem[to]); if (!g_done[me]) sem_wait(&g_sem[me]); }
// a scheduling point: may the other thread run now?  Decisions come from the plan, then "stay".
static int point() { // returns the index of the decision, or -1
    if (!g_ctl || t_in) return -1; int r = -1; ++t_in; int me = t_id, ot = 1 - me;
    bool other = !g_done[ot] && !g_blocked[ot]; if (other && sh->ndec < 4096) { int k = r = sh->ndec++; uint8_t d = k < g_nplan ? g_plan[k] : 0; sh->dec[k] = d; sh->en[k] = 1; if (d) hand(ot); }
    --t_in; return r;
}
static void block_on(const void* obj) { // the current thread cannot proceed until obj is released
    int me = t_id, ot = 1 - me; ++t_in; if (g_done[ot] || g_blocked[ot]) { snprintf(sh->msg, sizeof sh->msg, "deadlock"); _exit(7); } g_blocked[me] = obj; hand(ot); --t_in; }
static void release(const void* obj) { for (int i = 0; i < NT; ++i) if (g_blocked[i] == obj) g_blocked[i] = nullptr; }

static inline bool mine(uintptr_t a) { int me = t_id; return (a >= g_stack[me].lo && a < g_stack[me].hi) || (a >= (uintptr_t)g_ar[me].base && a < (uintptr_t)g_ar[me].base + ASZ); }
static void access(const void* p, size_t n, bool w) {
    if (t_id < 0 || t_in) return; uintptr_t a = (uintptr_t)p; ++sh->total; if (mine(a)) return;
    ++t_in; ++sh->visible; bool conf = false; for (uintptr_t c = a >> 3; c <= (a + (n ? n - 1 : 0)) >> 3; ++c) { if (!g_ctl) (*g_seen)[c] |= w ? 2 : 1; else if (g_conf->count(c)) conf = true; } --t_in;
    if (conf) { int k = point(); if (g_ctl) { ++t_in; for (uintptr_t c = a >> 3; c <= (a + (n ? n - 1 : 0)) >> 3; ++c) if (g_conf->count(c)) { if (sh->nev < NEV) sh->ev[sh->nev] = {c, k, (uint8_t)t_id, w}; ++sh->nev; } --t_in; } }
}
#define AC(N) extern "C" void __tsan_read##N(void* p) { access(p, N, false); } extern "C" void __tsan_write##N(void* p) { access(p, N, true); } \
  extern "C" void __tsan_unaligned_read##N(void* p) { access(p, N, false); } extern "C" void __tsan_unaligned_write##N(void* p) { access(p, N, true); } \
  extern "C" void __tsan_read##N##_pc(void* p, void*) { access(p, N, false); } extern "C" void __tsan_write##N##_pc(void* p, void*) { access(p, N, true); } \
  extern "C" void __tsan_volatile_read##N(void* p) { access(p, N, false); } extern "C" void __tsan_volatile_write##N(void* p) { access(p, N, true); }
AC(1) AC(2) AC(4) AC(8) AC(16)
extern "C" void __tsan_init() {} extern "C" void __tsan_func_entry(void*) {} extern "C" void __tsan_func_exit() {} extern "C" void __tsan_vptr_update(void** p, void*) { access(p, 8, true); } extern "C" void __tsan_vptr_read(void** p) { access(p, 8, false); }
extern "C" void __tsan_read_range(void* p, size_t n) { access(p, n, false); } extern "C" void __tsan_write_range(void* p, size_t n) { access(p, n, true); }
#define AT(B, T) \
  extern "C" T __tsan_atomic##B##_load(const volatile T* p, int) { access((void*)p, sizeof(T), false); return __atomic_load_n(p, 5); } \
  extern "C" void __tsan_atomic##B##_store(volatile T* p, T v, int) { access((void*)p, sizeof(T), true); __atomic_store_n(p, v, 5); } \
  extern "C" T __tsan_atomic##B##_exchange(volatile T* p, T v, int) { access((void*)p, sizeof(T), true); return __atomic_exchange_n(p, v, 5); } \
  extern "C" T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int) { access((void*)p, sizeof(T), true); return __atomic_fetch_add(p, v, 5); } \
  extern "C" T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int) { access((void*)p, sizeof(T), true); return __atomic_fetch_sub(p, v, 5); } \
  extern "C" T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int) { access((void*)p, sizeof(T), true); return __atomic_fetch_and(p, v, 5); } \
  extern "C" T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int) { access((void*)p, sizeof(T), true); return __atomic_fetch_or(p, v, 5); } \
  extern "C" T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int) { access((void*)p, sizeof(T), true); return __atomic_fetch_xor(p, v, 5); } \
  extern "C" int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { access((void*)p, sizeof(T), true); return __atomic_compare_exchange_n(p, e, v, false, 5, 5); } \
  extern "C" int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { access((void*)p, sizeof(T), true); return __atomic_compare_exchange_n(p, e, v, false, 5, 5); } \
  extern "C" T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int, int) { access((void*)p, sizeof(T), true); __atomic_compare_exchange_n(p, &e, v, false, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
extern "C" void __tsan_atomic_thread_fence(int) {} extern "C" void __tsan_atomic_signal_fence(int) {}

// ---- seams: allocation, memory functions, locks (linked with --wrap) --------------------------------------
static void* aalloc(size_t n) { Arena2& A = g_ar[t_id]; size_t need = (n + 15 & ~size_t(15)) + 16; if (A.pos + need > ASZ) { snprintf(sh->msg, sizeof sh->msg, "arena exhausted"); _exit(8); } char* p = A.base + A.pos; *(size_t*)p = n; A.pos += need; return p + 16; }
static bool arena(void* p) { for (auto& A : g_ar) if ((char*)p >= A.base && (char*)p < A.base + ASZ) return true; return false; }
extern "C" void* __wrap_malloc(size_t n) { return t_id < 0 ? malloc(n) : aalloc(n); }
extern "C" void* __wrap_calloc(size_t a, size_t b) { if (t_id < 0) return calloc(a, b); void* p = aalloc(a * b); memset(p, 0, a * b); return p; }
extern "C" void* __wrap_realloc(void* q, size_t n) { if (t_id < 0) return realloc(q, n); void* p = aalloc(n); if (q) memcpy(p, q, std::min(n, ((size_t*)q)[-2])); return p; }
extern "C" void __wrap_free(void* p) { if (p && !arena(p)) free(p); }
void* operator new(size_t n) { if (t_id >= 0 && !t_in) return aalloc(n); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return operator new(n); } void* operator new[](size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void operator delete(void* p) noexcept { if (p && !arena(p)) free(p); } void operator delete[](void* p) noexcept { operator delete(p); } void operator delete(void* p, size_t) noexcept { operator delete(p); } void operator delete[](void* p, size_t) noexcept { operator delete(p); }
extern "C" void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, false); access(d, n, true); return memcpy(d, s, n); }
extern "C" void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, false); access(d, n, true); return memmove(d, s, n); }
extern "C" void* __wrap_memset(void* d, int c, size_t n) { access(d, n, true); return memset(d, c, n); }
static long g_hidden[8];
extern "C" int __wrap_rand() { access(&g_hidden[0], 8, true); return rand(); } extern "C" void __wrap_srand(unsigned s) { access(&g_hidden[0], 8, true); srand(s); }
extern "C" long __wrap_random() { access(&g_hidden[0], 8, true); return random(); } extern "C" double __wrap_drand48() { access(&g_hidden[0], 8, true); return drand48(); }
extern "C" int __cxa_guard_acquire(long long* g) { char* b = (char*)g; if (t_id < 0 || !g_ctl) { if (t_id >= 0) access(g, 1, true); return !b[0]; } for (;;) { access(g, 1, true); if (b[0]) return 0; if (!b[1]) { b[1] = 1; return 1; } block_on(g); } }
extern "C" void __cxa_guard_release(long long* g) { char* b = (char*)g; b[0] = 1; b[1] = 0; release(g); if (t_id >= 0) access(g, 1, true); } extern "C" void __cxa_guard_abort(long long* g) { ((char*)g)[1] = 0; release(g); }
static std::map<const void*, int>* g_held;
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (t_id < 0) return 0; access(m, 1, true); if (!g_ctl) return 0; for (;;) { ++t_in; bool free_ = !g_held->count(m); if (free_) (*g_held)[m] = t_id; --t_in; if (free_) return 0; block_on(m); } }
extern "C" int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (t_id < 0 || !g_ctl) return 0; access(m, 1, true); ++t_in; bool f = !g_held->count(m); if (f) (*g_held)[m] = t_id; --t_in; return f ? 0 : 16; }
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (t_id < 0 || !g_ctl) return 0; ++t_in; g_held->erase(m); --t_in; release(m); access(m, 1, true); return 0; }
extern "C" int __wrap_pthread_once(pthread_once_t* o, void (*f)()) { // states: 0 fresh, 1 running, 2 done
    volatile int* s = (volatile int*)o; for (;;) { if (t_id >= 0) access(o, 4, true); if (*s == 2) return 0; if (*s == 0) { *s = 1; f(); *s = 2; release(o); return 0; } block_on(o); } }

// ---- programs ---------------------------------------------------------------------------------------------
struct Prog { Case c; int api = 0; double (*toy)(double) = nullptr; double arg = 0; std::string name; std::vector<const char*> look; };
static const char* nm(const Prog& p) { return p.look.empty() ? p.c.ind->name : "lookups"; }
static const char* APIN[] = {"batch", "ref", "stream"};
// inputs and options live in memory that every thread may share; outputs and the stream belong to the thread
struct Io { const double* ip[10]; const double* o; };
static Io* g_io;
static Io* share(const Prog& p) { Io* s = new Io; if (p.toy || !p.look.empty()) return s; for (int k = 0; k < p.c.ind->inputs; ++k) { double* v = (double*)malloc(8 * (p.c.n + 1)); memcpy(v, p.c.in[k].data(), 8 * p.c.n); s->ip[k] = v; } double* o = (double*)malloc(8 * 16); for (size_t i = 0; i < p.c.opt.size(); ++i) o[i] = p.c.opt[i]; s->o = o; return s; }
static void run_prog(const Prog& p, const Io* io, int me) { // executes on thread `me`, leaves results in sh->out
    double* out = sh->out[me]; int& q = sh->nout[me]; q = 0; if (p.toy) { t_id = me; double r = p.toy(p.arg); t_id = -1; out[q++] = r; return; }
    if (!p.look.empty()) { for (const char* l : p.look) { t_id = me; Ind* r = ti_find_indicator(l); t_id = -1; out[q++] = r ? r - ti_indicators : -1; } t_id = me; double v[3] = {(double)ti_indicator_count(), (double)ti_build(), (double)strlen(ti_version())}; t_id = -1; for (double x : v) out[q++] = x; return; }
    Ind* I = p.c.ind; int n = p.c.n; t_id = me; int st = I->start(io->o); t_id = -1; int len = std::max(0, n - st); double* op[10]; char* ob = g_ar[me].base + g_ar[me].pos; for (int k = 0; k < I->outputs; ++k) { op[k] = (double*)ob + (size_t)k * (len + 1); for (int i = 0; i <= len; ++i) op[k][i] = sent(); } g_ar[me].pos += I->outputs * (len + 1) * 8 + 16;
    int rc; ti_stream* s = nullptr; t_id = me;
    if (p.api == 0) rc = I->indicator(n, io->ip, io->o, op); else if (p.api == 1) rc = I->indicator_ref(n, io->ip, io->o, op);
    else { rc = I->stream_new(io->o, &s); if (!rc) { int a = n / 2; const double* ip2[10]; double* op2[10]; rc = ti_stream_run(s, a, io->ip, op); for (int k = 0; k < I->inputs; ++k) ip2[k] = io->ip[k] + a; for (int k = 0; k < I->outputs; ++k) op2[k] = op[k] + std::max(0, a - st); if (!rc) rc = ti_stream_run(s, n - a, ip2, op2); ti_stream_free(s); } }
    t_id = -1; out[q++] = rc; for (int k = 0; k < I->outputs; ++k) for (int i = 0; i <= len && q < 4096; ++i) out[q++] = op[k][i];
}
struct Sets { std::vector<Acc> acc; std::vector<double> out; long visible = 0, total = 0; std::string err; };
static std::string why(int st) { return WIFSIGNALED(st) ? strf("died with signal %d", WTERMSIG(st)) : strf("exited with %d (%s)", WEXITSTATUS(st), sh->msg); }
static void here_stack(int me) { pthread_attr_t a; void* b; size_t z; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &b, &z); g_stack[me] = {(uintptr_t)b, (uintptr_t)b + z}; pthread_attr_destroy(&a); }
static Sets solo(const Prog& p, const Io* io) {
    Sets r; sh->naccs = 0; sh->visible = sh->total = 0; sh->msg[0] = 0; pid_t pid = fork();
    if (!pid) { alarm(20); g_seen = new std::unordered_map<uintptr_t, int>; here_stack(0); g_ctl = false; run_prog(p, io, 0); for (auto& x : *g_seen) if (sh->naccs < (1 << 16)) sh->accs[sh->naccs++] = {x.first, (uint8_t)x.second}; _exit(0); }
    int st; waitpid(pid, &st, 0); if (st) { r.err = "alone it " + why(st); return r; } r.acc.assign(sh->accs, sh->accs + sh->naccs); r.out.assign(sh->out[0], sh->out[0] + sh->nout[0]); r.visible = sh->visible; r.total = sh->total; return r;
}
static const Prog* g_prog[NT]; static const Io* g_pio[NT];
static void* tmain(void* v) { int me = (int)(long)v; here_stack(me); sem_wait(&g_sem[me]); run_prog(*g_prog[me], g_pio[me], me); g_done[me] = true; int ot = 1 - me; if (!g_done[ot]) { if (g_blocked[ot]) { snprintf(sh->msg, sizeof sh->msg, "deadlock"); _exit(7); } g_turn = ot; sem_post(&g_sem[ot]); } return 0; }
// one execution under a plan
static int execute(const std::unordered_set<uintptr_t>& conf, int first, const std::vector<uint8_t>& plan) {
    sh->ndec = sh->nev = 0; sh->visible = sh->total = 0; sh->msg[0] = 0; pid_t pid = fork();
    if (!pid) { alarm(20); g_conf = new std::unordered_set<uintptr_t>(conf); g_held = new std::map<const void*, int>; g_ctl = true; g_plan = plan.data(); g_nplan = plan.size(); pthread_t t[NT]; for (int i = 0; i < NT; ++i) sem_init(&g_sem[i], 0, 0); for (long i = 0; i < NT; ++i) pthread_create(&t[i], 0, tmain, (void*)i); sem_post(&g_sem[first]); for (int i = 0; i < NT; ++i) pthread_join(t[i], 0); _exit(0); }
    int st; waitpid(pid, &st, 0); return st;
}
static bool eq(const double* a, const std::vector<double>& b, int n) { if (n != (int)b.size()) return false; for (int i = 0; i < n; ++i) if (!(a[i] == b[i] || std::isnan(a[i]) && std::isnan(b[i]) || std::fabs(a[i] - b[i]) <= 1e-9 * std::fabs(b[i]))) return false; return true; }
static std::unordered_set<uintptr_t> conflicts(const Sets& a, const Sets& b) { std::unordered_map<uintptr_t, int> m; std::unordered_set<uintptr_t> r; for (auto& x : a.acc) m[x.a] = x.w; for (auto& x : b.acc) { auto it = m.find(x.a); if (it != m.end() && ((it->second | x.w) & 2)) r.insert(x.a); } return r; }
struct Count { long pairs, execs, trans, conflicting, capped; }; static Count g_cnt; static double g_limit = 300; // seconds after which conflicting pairs get the short treatment
// every schedule of the pair with at most `bound` preemptions; "" or the description of a bad one
static std::string explore_pair(const Prog& A, const Io* ia, const Sets& sa, const Prog& B, const Io* ib, const Sets& sb, int bound, long cap = 20000) {
    auto conf = conflicts(sa, sb); ++g_cnt.pairs; if (conf.empty()) { ++g_cnt.execs; g_cnt.trans += sa.visible + sb.visible; return ""; }
    ++g_cnt.conflicting; g_prog[0] = &A; g_prog[1] = &B; g_pio[0] = ia; g_pio[1] = ib; long used = 0;
    if (now() - g_t0 > g_limit) { bound = std::min(bound, 1); cap = std::min(cap, 6L); }
    for (int first = 0; first < NT; ++first) { std::vector<std::pair<std::vector<uint8_t>, int>> todo{{{}, 0}}; std::set<std::vector<uint8_t>> seen; // plan, preemptions in it
        while (!todo.empty()) { auto [plan, pre] = todo.back(); todo.pop_back(); if (++used > cap) { ++g_cnt.capped; return ""; } int st = execute(conf, first, plan); ++g_cnt.execs; g_cnt.trans += sh->ndec;
            std::string sch = strf("thread %c first, preempted at", 'A' + first); for (size_t i = 0; i < plan.size(); ++i) if (plan[i]) sch += strf(" %zu", i); if (pre == 0) sch = strf("thread %c runs first, then the other", 'A' + first);
            if (st) return sch + ": the process " + why(st); for (int t = 0; t < NT; ++t) if (!eq(sh->out[t], t ? sb.out : sa.out, sh->nout[t])) return sch + strf(": thread %c returns another result than alone", 'A' + t);
            // Preempting before an access that nothing the other thread does afterwards conflicts with is the same trace as
            // preempting after it, so (dynamic partial-order reduction) the other thread is tried earlier exactly at the
            // accesses in a race with a later one of it; this looks at the whole trace, prefix of the plan included.
            std::vector<char> race(sh->ndec, sh->nev > NEV); std::unordered_map<uintptr_t, int> later[NT]; // cell -> 1 read, 2 written by that thread later in the trace
            for (int e = std::min<int>(sh->nev, NEV) - 1; e >= 0; --e) { const Ev& x = sh->ev[e]; auto& o = later[1 - x.thr]; auto it = o.find(x.cell); if (it != o.end() && ((it->second & 2) || x.w) && x.dec >= 0) race[x.dec] = 1; later[x.thr][x.cell] |= x.w ? 2 : 1; }
            int p = 0; std::vector<uint8_t> pre_; for (int k = 0; k < sh->ndec; ++k) { if (race[k] && !sh->dec[k] && p < bound) { auto p2 = pre_; p2.push_back(1); if (seen.insert(p2).second) todo.push_back({p2, p + 1}); } pre_.push_back(sh->dec[k]); p += sh->dec[k]; } } }
    return "";
}
static int find_seg(dl_phdr_info* i, size_t, void*) { if (!strstr(i->dlpi_name, "libti-sched")) return 0; for (int k = 0; k < i->dlpi_phnum; ++k) { auto& p = i->dlpi_phdr[k]; if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) { g_wlo = i->dlpi_addr + p.p_vaddr; g_whi = g_wlo + p.p_memsz; } } return 0; }
static Prog mkp(Ind* I, const std::vector<double>& o, int shift, int api, int extra = 8) { Prog p; p.c = with(I, o, shift, std::max(0, I->start(o.data())) + extra); p.api = api; p.name = describe(p.c) + " " + APIN[api]; return p; }
static void init() {
    for (auto& A : g_ar) { A.base = (char*)mmap(0, ASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); A.pos = 0; }
    sh = (Sh*)mmap(0, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); dl_iterate_phdr(find_seg, 0); if (!g_wlo) { fprintf(stderr, "library segment not found\n"); exit(2); }
}
static bool selftest() { // the explorer finds the two races, and is quiet on the correct sharing
    struct { double (*f)(double); bool bad; const char* n; } T[] = {{toy_scratch, true, "scratch"}, {toy_early_flag, true, "early flag"}, {toy_magic, false, "magic static"}, {toy_mutex, false, "mutex"}, {toy_atomic, false, "atomic"}};
    for (auto& t : T) { Prog a, b; a.toy = b.toy = t.f; a.arg = 2; b.arg = 5; Io io; Sets sa = solo(a, &io), sb = solo(b, &io); std::string e = explore_pair(a, &io, sa, b, &io, sb, 2); if (e.empty() == t.bad) { fprintf(stderr, "self-test %s failed: %s\n", t.n, e.c_str()); return false; } }
    return true;
}
int main(int argc, char** argv) {
    init(); if (!selftest()) return 2; Count self = g_cnt; g_cnt = Count{};
    bool replay = argc > 2 && !strcmp(argv[1], "--replay"); std::string out = argc > 1 ? argv[1] : "/tmp"; bool thorough = argc > 2 && !strcmp(argv[2], "thorough"); int bound = thorough ? 3 : 2; if (thorough) g_limit = 3000; std::set<std::string> only; std::string ra, rb;
    if (replay) { FILE* f = fopen(argv[2], "r"); if (!f) return 2; char a[256], b[256]; if (fscanf(f, "pair %255s %255s", a, b) != 2) return 2; fclose(f); ra = a; rb = b; bound = 2; }
    // 8 workers, one slice of the indicators each
    struct Res { Count c; int nbad; char bad[64][2][600]; long visible, total, wr; }; int W = 8; Res* res = (Res*)mmap(0, sizeof(Res) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); int N = ti_indicator_count();
    pid_t pid[8]; for (int w = 0; w < W; ++w) if (!(pid[w] = fork())) {
        sh = (Sh*)mmap(0, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); Res& R = res[w]; g_cnt = Count{};
        auto bad = [&](const Prog& a, const Prog& b, const std::string& e) { if (R.nbad < 64) { snprintf(R.bad[R.nbad][0], 600, "%s %s", nm(a), nm(b)); snprintf(R.bad[R.nbad][1], 600, "%s || %s: %s", a.name.c_str(), b.name.c_str(), e.c_str()); ++R.nbad; } };
        // the same indicator: other data, other options, shared inputs; every pair of entry points
        for (int i = w; i < N; i += W) { Ind* I = ti_indicators + i; if (replay && (ra != I->name || rb != I->name)) continue; auto g = opt_space(I, thorough); std::vector<Prog> ps; size_t many = thorough ? g.size() : std::min<size_t>(g.size(), 60), nfew = 0;
            auto small = small_opts(I); for (auto& o : small) for (int d = 0; d < 2; ++d) for (int api = 0; api < 3; ++api) if (has_api(I, api)) ps.push_back(mkp(I, o, d * 7, api)); nfew = ps.size();
            for (size_t q = 0; q < many; ++q) { auto& o = g[q * g.size() / many]; if (I->start(o.data()) > 320) continue; for (int d = 0; d < 2; ++d) for (int api = 0; api < 3; ++api) if (has_api(I, api)) ps.push_back(mkp(I, o, d * 5, api, d ? 70 : 3)); }
            std::vector<Io*> io; std::vector<Sets> ss; std::vector<char> wr; bool ok = true; for (auto& p : ps) { io.push_back(share(p)); ss.push_back(solo(p, io.back())); R.visible += ss.back().visible; R.total += ss.back().total; char w_ = 0; for (auto& x : ss.back().acc) if (x.w & 2) w_ = 1; wr.push_back(w_); if (!ss.back().err.empty()) { bad(p, p, ss.back().err); ok = false; break; } } if (!ok) continue;
            // two programs that write nothing shared cannot conflict; otherwise every schedule of the pair
            int found = 0; for (size_t a = 0; a < ps.size() && found < 2; ++a) for (size_t b = a; b < ps.size() && found < 2; ++b) { if (!wr[a] && !wr[b]) { ++g_cnt.pairs; ++g_cnt.execs; g_cnt.trans += ss[a].visible + ss[b].visible; continue; } if (b >= nfew && b > a + 6 && found == 0 && a >= nfew) continue; std::string e = explore_pair(ps[a], io[a], ss[a], ps[b], io[b], ss[b], bound, 3000); if (!e.empty()) { bad(ps[a], ps[b], e); ++found; } } }
        // one representative program per indicator and entry point for the cross pairs
        std::vector<Prog> rep; std::vector<Io*> rio; std::vector<Sets> rs;
        for (int i = 0; i < N; ++i) { Ind* I = ti_indicators + i; auto g = small_opts(I); for (int api = 0; api < 3; ++api) if (has_api(I, api)) { rep.push_back(mkp(I, g[0], 0, api)); rio.push_back(share(rep.back())); } }
        // lookups of names that exist and names that do not, in two orders
        { Prog p; p.c.ind = ti_indicators; p.name = "lookups"; for (int i = 0; i < N; i += 23) p.look.push_back(ti_indicators[i].name); for (const char* x : {"", "nosuch", "sm", "smaa", "zzz"}) p.look.push_back(x); p.look.push_back(ti_indicators[N - 1].name); rep.push_back(p); rio.push_back(share(p)); std::reverse(p.look.begin(), p.look.end()); p.name = "lookups the other way round"; rep.push_back(p); rio.push_back(share(p)); }
        rs.resize(rep.size()); for (size_t q = 0; q < rep.size(); ++q) { rs[q] = solo(rep[q], rio[q]); if (!rs[q].err.empty()) { if ((int)(rep[q].c.ind - ti_indicators) % W == w) bad(rep[q], rep[q], rs[q].err); continue; } }
        for (size_t q = 0; q < rep.size(); ++q) { int i = rep[q].c.ind - ti_indicators; if (i % W != w || !rs[q].err.empty()) continue; R.visible += rs[q].visible; R.total += rs[q].total; for (auto& x : rs[q].acc) if (x.w & 2) ++R.wr;
            if (!replay || ra == nm(rep[q])) for (size_t z = q; z < rep.size(); ++z) { if (!rs[z].err.empty() || (replay && rb != nm(rep[z]))) continue; std::string e = explore_pair(rep[q], rio[q], rs[q], rep[z], rio[z], rs[z], bound); if (!e.empty()) bad(rep[q], rep[z], e); } }
        R.c = g_cnt; _exit(0); }
    bool err = false; for (int w = 0; w < W; ++w) { int st; waitpid(pid[w], &st, 0); if (st) { fprintf(stderr, "worker %d: %s\n", w, why(st).c_str()); err = true; } }
    if (err) return 2; Count t{}; long vis = 0, tot = 0, wr = 0; int nb = 0; std::set<std::string> once;
    for (int w = 0; w < W; ++w) { auto& R = res[w]; t.pairs += R.c.pairs; t.execs += R.c.execs; t.trans += R.c.trans; t.conflicting += R.c.conflicting; t.capped += R.c.capped; vis += R.visible; tot += R.total; wr += R.wr;
        for (int k = 0; k < R.nbad; ++k) { if (replay) { printf("violated: %s\n", R.bad[k][1]); return 1; } if (!once.insert(R.bad[k][0]).second) continue; std::string p = strf("%s/v%04d.case", out.c_str(), nb++); FILE* f = fopen(p.c_str(), "w"); if (f) { fprintf(f, "pair %s\n%s\n", R.bad[k][0], R.bad[k][1]); fclose(f); } printf("FOUND %s %s\n", p.c_str(), R.bad[k][1]); } }
    if (replay) { puts("holds"); return 0; }
    FILE* f = fopen((out + "/stats.json").c_str(), "w"); fprintf(f, "{\"pairs\": %ld, \"executions\": %ld, \"transitions\": %ld, \"conflicting_pairs\": %ld, \"capped_pairs\": %ld, \"memory_accesses_monitored\": %ld, \"visible_accesses\": %ld, \"shared_cells_written\": %ld, \"selftest_executions\": %ld, \"selftest_transitions\": %ld, \"preemption_bound\": %d, \"seconds\": %.1f}\n", t.pairs, t.execs, t.trans, t.conflicting, t.capped, tot, vis, wr, self.execs, self.trans, bound, now() - g_t0); fclose(f);
    return nb ? 1 : 0;
}
