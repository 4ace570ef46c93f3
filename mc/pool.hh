// Fork pool: workers take items from a shared counter; a worker that dies or stops making progress turns the case it
// was evaluating into a violation and is replaced.  Violations are written out as replayable case files.
#pragma once
#include "core.hh"
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
#include <time.h>
#include <atomic>

struct Stats { long cases, states, transitions, calls, outs, skipped, nontrivial; };
struct Slot {
    volatile pid_t pid; volatile long beat; volatile int item; volatile bool busy; Stats st;
    // the case under evaluation
    int ind, nopt, n, tf; double opt[TI_MAXINDPARAMS]; uint8_t w[131072]; char note[2048];
};
struct Shared {
    std::atomic<int> next, nviol; std::atomic<int> per_ind[512]; Slot slot[64];
    struct { int ind; char text[600]; } viol[4096]; std::atomic<bool> stop;
};
static Shared* g_sh; static Slot* g_me; static int g_maxper = 1; static std::string g_outdir; static const char* g_mode = "";
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double g_t0 = now();

// A case built from a word; what the explorer records before it evaluates anything.
inline void set_cur(Ind* ind, const std::vector<double>& opt, const uint8_t* w, int n, int tf, const char* note = "") {
    Slot* s = g_me; s->ind = ind - ti_indicators; s->nopt = opt.size(); for (size_t i = 0; i < opt.size(); ++i) s->opt[i] = opt[i];
    s->n = std::min(n, (int)sizeof s->w); memcpy(s->w, w, s->n); s->tf = tf; snprintf(s->note, sizeof s->note, "%s", note); ++s->beat;
}
inline void set_note(const char* note) { snprintf(g_me->note, sizeof g_me->note, "%s", note); ++g_me->beat; }
inline Case cur_case(const Slot* s) {
    Case c; c.ind = ti_indicators + s->ind; c.opt.assign(s->opt, s->opt + s->nopt); fill(c, (const uint8_t*)s->w, s->n, TFS[s->tf]); c.note = s->note; return c;
}
inline void record(int ind, const Case& c, const std::string& text) {
    if (g_sh->per_ind[ind]++ >= g_maxper) return;
    int k = g_sh->nviol++; if (k >= 4096) return;
    g_sh->viol[k].ind = ind; snprintf(g_sh->viol[k].text, sizeof g_sh->viol[k].text, "%s", text.c_str());
    FILE* f = fopen(strf("%s/v%04d.case", g_outdir.c_str(), k).c_str(), "w"); if (!f) return;
    std::string t = text; for (char& ch : t) if (ch == '\n') ch = ' ';
    fprintf(f, "mode %s\n%sviolates %s\n", g_mode, dump(c).c_str(), t.c_str()); fclose(f);
}
struct Stop {}; // thrown by an item to abandon it after a violation
inline void violation(const Case& c, const std::string& text) { record(c.ind - ti_indicators, c, text); throw Stop(); }

inline void run_pool(int nitems, int workers, double hang_s, const std::function<void(int)>& item) {
    auto spawn = [&](int w) {
        fflush(stdout); Slot* s = &g_sh->slot[w]; s->busy = false; s->item = -1; pid_t p = fork();
        if (p == 0) {
            g_me = s; std::string lg = strf("%s/worker%d.log", g_outdir.c_str(), w); if (!freopen(lg.c_str(), "w", stderr)) _exit(3);
            for (;;) { int k = g_sh->next++; if (k >= nitems || g_sh->stop) break; s->item = k; s->busy = true; ++s->beat; try { item(k); } catch (Stop&) {} s->busy = false; }
            _exit(0);
        }
        s->pid = p;
    };
    std::vector<long> beat(workers, -1); std::vector<double> at(workers, now()); int alive = workers;
    std::vector<bool> up(workers, true);
    for (int w = 0; w < workers; ++w) spawn(w);
    while (alive) {
        usleep(20000);
        for (int w = 0; w < workers; ++w) if (up[w]) {
            Slot* s = &g_sh->slot[w]; int st; pid_t p = waitpid(s->pid, &st, WNOHANG); bool dead = p == s->pid, hung = false;
            if (!dead) { if (s->beat != beat[w]) { beat[w] = s->beat; at[w] = now(); } else if (s->busy && now() - at[w] > hang_s) { kill(s->pid, SIGKILL); waitpid(s->pid, &st, 0); dead = hung = true; } }
            if (!dead) continue;
            if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0) { up[w] = false; --alive; continue; }
            if (!hung && WIFEXITED(st) && (WEXITSTATUS(st) == 2 || WEXITSTATUS(st) == 3)) { fprintf(stderr, "explorer error, see %s/worker%d.log\n", g_outdir.c_str(), w); exit(2); }
            std::string why = hung ? strf("no progress for %.0f s (hang)", hang_s) : WIFSIGNALED(st) ? strf("the process died with signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))) : strf("the process exited with status %d", WEXITSTATUS(st));
            FILE* f = fopen(strf("%s/worker%d.log", g_outdir.c_str(), w).c_str(), "r"); // first lines a sanitizer or an assertion wrote
            if (f) { char line[400]; int got = 0; while (got < 3 && fgets(line, sizeof line, f)) if (strstr(line, "ERROR") || strstr(line, "runtime error") || strstr(line, "Assert") || strstr(line, "terminate") || (got && strstr(line, " in ") && strstr(line, "/indicators/"))) { line[strcspn(line, "\n")] = 0; why += std::string("; ") + line; ++got; } fclose(f); }
            Case c = cur_case(s); record(s->ind, c, why); at[w] = now(); spawn(w);
        }
    }
}
inline void pool_init(const char* mode, const std::string& outdir) {
    g_mode = mode; g_outdir = outdir;
    g_sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void*)g_sh, 0, sizeof *g_sh); g_me = &g_sh->slot[63];
}
inline Stats pool_stats() { Stats t{}; for (auto& s : g_sh->slot) { t.cases += s.st.cases; t.states += s.st.states; t.transitions += s.st.transitions; t.calls += s.st.calls; t.outs += s.st.outs; t.skipped += s.st.skipped; t.nontrivial += s.st.nontrivial; } return t; }
