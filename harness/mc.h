// Small explicit model checker driver: enumerates finite families of cases (every index of a mixed-radix
// space) and, inside a case, every answer of the nondeterministic environment (choose), on the real code.
// Each chunk of cases runs in a forked process so that crashes, assertions, sanitizer reports, runaway
// memory and hangs are observed and attributed to one case.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cmath>
#include <functional>
#include <string>
#include <vector>
#include <cstring>

namespace mc {

struct Violation { std::string msg, key; };
struct PrunedExecution {};

// --- registration (from the harness' setup function) -----------------------------------------------
// cases 0..n-1; fn(i) throws (via fail) when the property does not hold on case i
void family(const std::string &name, uint64_t n, std::function<void(uint64_t)> fn, uint64_t chunk = 0, double hang_s = 30);
extern bool thorough;             // tier
extern bool verbose;              // replaying one case: log() prints
void bound(const char *fmt, ...) __attribute__((format(printf, 1, 2)));       // stated bounds, copied to evidence
void assumption(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// --- inside a case ------------------------------------------------------------------------------------
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail_key(const std::string &key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void describe(const std::string &s);  // text describing the current case (kept for crash reports)
void step(uint64_t n = 1);            // transitions: operations performed on the real code
void exec(uint64_t n = 1);            // executions (compared with the reference / oracle)
void state(uint64_t h);               // a distinct observed state / outcome
void nontrivial(uint64_t n = 1);      // executions that exercise the property beyond the trivial outcome

#define MC_CHECK(c, ...) do { if (!(c)) mc::fail(__VA_ARGS__); } while (0)

// --- nondeterminism inside a case ------------------------------------------------------------------
// explore(body, bound): runs body for every sequence of choices with at most `bound` non-zero answers
// (deviations from the default answer). Returns the number of executions.
uint64_t explore(const std::function<void()> &body, int deviations, uint64_t max_exec = ~0ull);
size_t choose(size_t n);
extern size_t (*pick_policy)(size_t n);   // used when choose() is called outside explore()
bool capped();

// --- hashing ---------------------------------------------------------------------------------------
struct Hash {
    uint64_t h = 0xcbf29ce484222325ull;
    Hash &u(uint64_t v) { for (int i = 0; i < 8; ++i) { h ^= (v >> (8 * i)) & 255; h *= 0x100000001b3ull; } h ^= h >> 29; return *this; }
    Hash &d(double v) { if (v == 0) v = 0; uint64_t b; memcpy(&b, &v, 8); return u(b); }
    Hash &q(double v, double eps = 1e-6) { return u((uint64_t)(int64_t) llround(std::isfinite(v) ? v / eps : 9e15)); }
    Hash &s(const std::string &v) { for (char c : v) { h ^= (unsigned char) c; h *= 0x100000001b3ull; } return *this; }
};

// mixed radix decoding helper
struct Dec {
    uint64_t v;
    explicit Dec(uint64_t v) : v(v) {}
    uint64_t operator()(uint64_t radix) { uint64_t r = v % radix; v /= radix; return r; }
};
inline uint64_t ipow(uint64_t b, unsigned e) { uint64_t r = 1; while (e--) r *= b; return r; }
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
}

void mc_setup();   // provided by the harness: registers families
