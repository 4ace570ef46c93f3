// Self-test subjects of the schedule explorer, compiled and linked exactly like the library: one that is broken
// under some interleaving, and three that share state correctly.
#include "toy.h"
#include <mutex>
#include <atomic>
#include <vector>
#include <cmath>
static double scratch[4];
extern "C" double toy_scratch(double x) { scratch[0] = x; scratch[1] = scratch[0] * 2; return scratch[0] + scratch[1]; }          // races
static double tab[8]; static bool ready;
extern "C" double toy_early_flag(double x) { if (!ready) { ready = true; for (int i = 0; i < 8; ++i) tab[i] = i + 1; } return x * tab[3]; } // flag set before the table is filled
static const std::vector<double>& table() { static const std::vector<double> t = [] { std::vector<double> v; for (int i = 0; i < 8; ++i) v.push_back(std::sqrt(i)); return v; }(); return t; }
extern "C" double toy_magic(double x) { return x * table()[5]; }                                                                   // safe: function-local static
static std::mutex m; static double acc;
extern "C" double toy_mutex(double x) { std::lock_guard<std::mutex> g(m); acc = x; acc += x; return acc; }                          // safe: mutex
static std::atomic<int> calls;
extern "C" double toy_atomic(double x) { calls.fetch_add(1); return 3 * x; }                                                       // safe: atomic counter
