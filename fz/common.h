// Common part of the replay harnesses: random histories against the real code,
// judged by an independent model, deterministic for a seed.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cstdarg>
#include <csignal>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <algorithm>
#include <unistd.h>
#include <time.h>
#include <errno.h>

struct Stop {};          // this history ends
namespace fz {
extern std::string prop;         // property judged ("" = all)
extern uint64_t seed;            // seed of the current history
extern std::string trace;        // what was done
extern bool verbose;
extern std::string pending;      // a failure noted where nothing can be thrown

uint64_t rnd();
inline uint64_t rnd(uint64_t n) { return n ? rnd() % n : 0; }
inline uint64_t rnd(uint64_t lo, uint64_t hi) { return lo + rnd(hi - lo + 1); }
inline bool chance(int pct) { return (int) rnd(100) < pct; }
void log(const char* f, ...) __attribute__((format(printf, 1, 2)));
// props: comma separated list of the properties that do not hold if this happens
void fail(const char* props, const char* f, ...) __attribute__((format(printf, 2, 3)));
void note(const char* props, const char* f, ...) __attribute__((format(printf, 2, 3)));   // from callbacks
void check_pending();
#define EXPECT(cond, props, ...) do { if (!(cond)) fz::fail(props, __VA_ARGS__); } while (0)
}
void history();   // provided by the harness: one history
