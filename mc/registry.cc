// Registry explorer: the table and the lookup against what indicators.yaml declares.
// The declaration arrives as regsyms.c, generated by mcbuild.py from the yaml alone (names, metadata, symbol addresses).
//   registry OUTDIR tier | registry --replay FILE
#include "indicators.h"
#include <string>
#include <vector>
#include <map>
#include <set>
#include <cstdio>
#include <cstdarg>
#include <chrono>
struct RegRow { const char *name, *full; int type, ni, no, nout; const char *in[11], *opt[11], *out[11]; const void *start, *plain, *ref, *snew, *srun, *sfree; };
extern "C" const RegRow reg_rows[]; extern "C" const int reg_count; extern "C" const char* reg_version; extern "C" const char* const reg_diffs[]; extern "C" const int reg_macro; // TI_INDICATOR_COUNT, from a unit compiled against the generated header
static long g_queries, g_hits, g_rows, g_fields; static std::vector<std::string> g_bad;
static std::string strf(const char* f, ...) { char b[1024]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static std::map<std::string, int> g_idx; static std::set<std::string> g_asked;
static std::string quote(const std::string& s) { std::string r; for (unsigned char c : s) r += c < 32 || c > 126 || c == '\\' ? strf("\\x%02x", c) : std::string(1, c); return "\"" + r + "\""; }
static void ask(const std::string& q) {
    ++g_queries; const ti_indicator_info* r = ti_find_indicator(q.c_str()); auto it = g_idx.find(q); int want = it == g_idx.end() ? -1 : it->second, got = r ? int(r - ti_indicators) : -1; if (want >= 0) ++g_hits;
    if (got != want && g_bad.size() < 5) g_bad.push_back(strf("lookup of %s gives %s instead of %s", quote(q).c_str(), got < 0 ? "nothing" : got < reg_count && ti_indicators[got].name ? ti_indicators[got].name : "a stray entry", want < 0 ? "nothing" : reg_rows[want].name));
}
static char g_buf[1 << 16]; // asked from one buffer whose contents change
static void again(const std::string& q) {
    memcpy(g_buf, q.c_str(), q.size() + 1); ++g_queries; const ti_indicator_info* r = ti_find_indicator(g_buf); auto it = g_idx.find(q); int want = it == g_idx.end() ? -1 : it->second, got = r ? int(r - ti_indicators) : -1; if (want >= 0) ++g_hits; static std::string prev = "(none)";
    if (got != want && g_bad.size() < 5) g_bad.push_back(strf("lookup of %.80s right after %.80s from the same buffer gives %s instead of %s", quote(q).c_str(), quote(prev).c_str(), got < 0 ? "nothing" : got < reg_count && ti_indicators[got].name ? ti_indicators[got].name : "a stray entry", want < 0 ? "nothing" : reg_rows[want].name)); prev = q;
    if (strcmp(g_buf, q.c_str()) && g_bad.size() < 5) g_bad.push_back("lookup changes the string it is given");
}
static void edits(const std::string& s, bool full, std::set<std::string>& out) { // strings one edit away
    std::vector<unsigned char> al; for (int c = 1; c < 256; ++c) if (full || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '_') al.push_back(c);
    for (size_t i = 0; i <= s.size(); ++i) { if (i < s.size()) { out.insert(s.substr(0, i) + s.substr(i + 1)); for (auto c : al) { auto t = s; t[i] = c; out.insert(t); } if (i + 1 < s.size()) { auto t = s; std::swap(t[i], t[i + 1]); out.insert(t); } } for (auto c : al) out.insert(s.substr(0, i) + char(c) + s.substr(i)); }
    auto u = s; for (auto& c : u) c = toupper(c); out.insert(u); out.insert(s + s); out.insert(s + " "); out.insert(" " + s);
}
static void rows() {
    auto bad = [&](const std::string& m) { if (g_bad.size() < 5) g_bad.push_back(m); };
    if (ti_indicator_count() != reg_count) return bad(strf("ti_indicator_count() is %d, %d indicators are declared", ti_indicator_count(), reg_count));
    if (reg_macro != reg_count) bad("TI_INDICATOR_COUNT differs from the declaration"); if (strcmp(ti_version(), reg_version)) bad(strf("ti_version() is %s, not %s", ti_version(), reg_version)); if (ti_build() <= 0) bad("ti_build() is not a time");
    for (int i = 0; i < reg_count; ++i) { const RegRow& w = reg_rows[i]; const ti_indicator_info& g = ti_indicators[i]; ++g_rows; g_fields += 13 + w.ni + w.no + w.nout; if (!g.name || strcmp(g.name, w.name)) { bad(strf("entry %d of the table is %s, expected %s", i, g.name ? g.name : "(null)", w.name)); continue; }
        if (strcmp(g.full_name, w.full)) bad(strf("%s: full name \"%s\", declared \"%s\"", w.name, g.full_name, w.full)); if (g.type != w.type) bad(strf("%s: type %d, declared %d", w.name, g.type, w.type));
        if (g.inputs != w.ni || g.options != w.no || g.outputs != w.nout) { bad(strf("%s: %d inputs, %d options, %d outputs; declared %d, %d, %d", w.name, g.inputs, g.options, g.outputs, w.ni, w.no, w.nout)); continue; }
        auto list = [&](const char* k, char* const* a, const char* const* e, int n) { for (int j = 0; j < n; ++j) if (!a[j] || strcmp(a[j], e[j])) return bad(strf("%s: %s %d is named \"%s\", declared \"%s\"", w.name, k, j, a[j] ? a[j] : "(null)", e[j])); if (n < TI_MAXINDPARAMS && a[n]) bad(strf("%s: the list of %s names does not end after %d", w.name, k, n)); };
        list("input", g.input_names, w.in, w.ni); list("option", g.option_names, w.opt, w.no); list("output", g.output_names, w.out, w.nout);
        auto fn = [&](const char* k, const void* a, const void* e) { if (a != e) bad(strf("%s: the %s entry %s", w.name, k, !a ? "is missing" : !e ? "is present but not declared" : "is another function")); };
        fn("start", (void*)g.start, w.start); fn("batch", (void*)g.indicator, w.plain); fn("reference", (void*)g.indicator_ref, w.ref); fn("stream_new", (void*)g.stream_new, w.snew); fn("stream_run", (void*)g.stream_run, w.srun); fn("stream_free", (void*)g.stream_free, w.sfree); }
    for (int k = 0; reg_diffs[k]; ++k) bad(reg_diffs[k]); // against the published catalog
    const ti_indicator_info& e = ti_indicators[reg_count]; if (e.name || e.start || e.indicator) bad("the table does not end with an empty entry");
}
int main(int argc, char** argv) {
    auto t0 = std::chrono::steady_clock::now(); bool replay = argc > 2 && !strcmp(argv[1], "--replay"), th = argc > 2 && !strcmp(argv[2], "thorough"); for (int i = 0; i < reg_count; ++i) g_idx[reg_rows[i].name] = i;
    rows(); std::set<std::string> one; ask(""); for (int i = 0; i < reg_count; ++i) { ask(reg_rows[i].name); edits(reg_rows[i].name, true, one); for (size_t k = 0; reg_rows[i].name[k]; ++k) one.insert(std::string(reg_rows[i].name, k)); }
    for (auto& s : one) if (s.find('\0') == std::string::npos) ask(s);
    const char* al = "abcdefghijklmnopqrstuvwxyz0123456789"; int na = 36, D = th ? 5 : getenv("REG_DEPTH") ? atoi(getenv("REG_DEPTH")) : 4; std::string s; // every string over a-z0-9 up to length D
    for (int d = 1; d <= D; ++d) { std::vector<int> ix(d, 0); s.assign(d, al[0]); for (;;) { ask(s); int i = d - 1; while (i >= 0 && ++ix[i] == na) { ix[i] = 0; s[i] = al[0]; --i; } if (i < 0) break; s[i] = al[ix[i]]; } }
    // every ordered pair of lookups, from one buffer; strings that are a name and a lot more
    { std::vector<std::string> q; for (int i = 0; i < reg_count; ++i) q.push_back(reg_rows[i].name); for (const char* x : {"", "nosuch", "a", "zzzz"}) q.push_back(x); for (auto& a : q) for (auto& b : q) { again(a); again(b); }
      for (int i = 0; i < reg_count; ++i) for (int n : {8, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1023, 1024, 4096, 60000}) { std::string a = reg_rows[i].name; again(a + std::string(n, 'x')); again(a + std::string(n, ' ')); again(std::string(n, 'x') + a); std::string r; while ((int)r.size() < n) r += a; again(r + a); again(a); } }
    if (th) { std::set<std::string> two; for (auto& x : one) { bool plain = true; for (unsigned char c : x) if (!islower(c) && !isdigit(c)) plain = false; if (!plain || x.size() > 6) continue; two.clear(); edits(x, false, two); for (auto& y : two) ask(y); } }
    if (replay) { puts(g_bad.empty() ? "holds" : ("violated: " + g_bad[0]).c_str()); return !g_bad.empty(); }
    std::string out = argv[1]; FILE* f = fopen((out + "/stats.json").c_str(), "w"); fprintf(f, "{\"queries\": %ld, \"hits\": %ld, \"rows\": %ld, \"fields\": %ld, \"longest_exhaustive\": %d, \"seconds\": %.1f}\n", g_queries, g_hits, g_rows, g_fields, D, std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count()); fclose(f);
    int n = 0; for (auto& m : g_bad) { std::string c = out + strf("/v%04d.case", n++); f = fopen(c.c_str(), "w"); fprintf(f, "registry\n%s\n", m.c_str()); fclose(f); printf("FOUND %s %s\n", c.c_str(), m.c_str()); }
    return g_bad.empty() ? 0 : 1;
}
