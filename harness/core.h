// Case runner, deterministic randomness, trace recording, measured coverage, violation reporting.
#pragma once
#include <algorithm>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <initializer_list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace vm {

struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // uniform in [0,n)
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
  bool chance(int percent) { return below(100) < (uint64_t)percent; }
  uint8_t byte() { return (uint8_t)next(); }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
  template <class T> const T &pick(const std::vector<T> &l) { return l[below(l.size())]; }
};

inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
inline uint64_t hashStr(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

// The context of the running case.
struct Case
{
  uint64_t seed = 1, index = 0;
  bool thorough = false;
  Rng rng;
  uint64_t hash = 0;         // hash of everything observed
  uint64_t observed = 0;     // number of oracle comparisons made
  bool trivial = false;
};
extern Case *C;

// Trace line (kept for the replay file / samples).
void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// Named counters, reported in the evidence.
void count(const std::string &name, uint64_t n = 1);
// A distinct abstract state or interleaving seen (hash).
void state(uint64_t h);
// An oracle comparison that was made on something observed.
inline void observe(uint64_t h = 0) { C->observed++; C->hash = mix(C->hash, h); }
// Report a violation and end the case. `key` identifies the specific failure.
[[noreturn]] void violation(const std::string &key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
// End of the case because the harness cannot judge it (never a verdict).
[[noreturn]] void harnessError(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// For memcheck: complain when these bytes are not defined; treat these bytes as never written. No effect elsewhere.
void mustBeDefined(const void *p, size_t n);
extern long allocFail;   // allocations of the library until one fails; -1: none fails
extern long allocLive;   // blocks from malloc that have not been given to free
void makeUndefined(void *p, size_t n);
std::string hex(const uint8_t *d, size_t n);

struct Check
{
  const char *id;
  uint64_t quickCases, thoroughCases;
  const char *rule;
  void (*fn)();
};
struct Register { explicit Register(const Check &c); };

#define VM_CAT2(a, b) a##b
#define VM_CAT(a, b) VM_CAT2(a, b)
#define CHECK_DEF(ID, QUICK, THOROUGH, RULE)                                           \
  static void VM_CAT(case_, ID)();                                                     \
  static vm::Register VM_CAT(reg_, ID)(vm::Check{#ID, QUICK, THOROUGH, RULE, VM_CAT(case_, ID)}); \
  static void VM_CAT(case_, ID)()

#define R (vm::C->rng)
}
