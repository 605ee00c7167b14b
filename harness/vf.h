// Common parts of the monitors: random numbers, verdicts, counters.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <array>
#include <atomic>
#include <vector>
#include <string>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <numeric>

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int below(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
  int range(int a, int b) { return a + below(b - a + 1); }   // inclusive
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double a, double b) { return a + (b - a) * unit(); }
  bool chance(double p) { return unit() < p; }
  template <class T> void shuffle(std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below((int)i)]);
  }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below((int)v.size())]; }
};

struct Viol { std::string key, detail; };

// Verdict sink of the running case.
struct Ctx {
  Rng rng;
  std::string prop;
  int tier = 0;            // 0 quick, 1 thorough
  long index = 0;
  std::string desc;        // what this case was (for the evidence samples)
  uint64_t sig = 1469598103934665603ull;   // hash of what was executed
  bool nontrivial = false, muted = false, completed = false;
  std::map<std::string, long> cnt;
  std::vector<Viol> viol;
  int limit = 12;
  std::set<std::string> seen;
  void count(const char* n, long k = 1) { cnt[n] += k; }
  void mix(uint64_t v) { sig = (sig ^ (v + 0x9E3779B97F4A7C15ull + (sig << 6))) * 1099511628211ull; }
  void mixs(const std::string& t) { for (char c : t) mix((unsigned char)c); }
  void note(const char* f, ...) __attribute__((format(printf, 2, 3))) {
    char b[2000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    if (desc.size() < 4000) { if (!desc.empty()) desc += "; "; desc += b; }
  }
  // key: stable identification of what kind of thing failed, no run-specific numbers
  void fail(const std::string& key, const char* f, ...) __attribute__((format(printf, 3, 4))) {
    char b[3000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    if (!seen.insert(key).second) return;     // first witness of each kind
    if ((int)viol.size() < limit) viol.push_back({key, b});
  }
  bool failed() const { return !viol.empty(); }
};

#define CHECK(c, cond, key, ...) do { (c).count("oracle_checks"); if (!(cond)) (c).fail(key, __VA_ARGS__); } while (0)

template <class T> std::string show(const std::vector<T>& v, size_t lim = 40) {
  std::string s = "[";
  for (size_t i = 0; i < v.size() && i < lim; i++) { if (i) s += ","; s += std::to_string(v[i]); }
  if (v.size() > lim) s += ",...";
  return s + "]";
}

typedef void (*CaseFn)(Ctx&);
struct CaseKind { const char* prop; const char* name; int weight; CaseFn fn; };
std::vector<CaseKind>& case_kinds();
struct RegCase {
  RegCase(const char* p, const char* n, int w, CaseFn f) { case_kinds().push_back({p, n, w, f}); }
};
#define CASE(prop, name, weight) \
  static void name(Ctx& c); static RegCase reg_##name##_(#prop, #name, weight, name); static void name(Ctx& c)
// the same case function also serves another property
#define CASE_ALSO(prop, name, weight) static RegCase reg_##name##_##prop##_(#prop, #name, weight, name);
