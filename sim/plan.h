// A plan is one complete, self-contained simulated execution: configuration, operations, faults
// and scheduling decisions. It is generated from a seed and can be written to and read from a file.
#pragma once
#include <stdint.h>
#include <map>
#include <string>
#include <vector>
#include "sim.h"

struct Item { std::string name; std::vector<int64_t> a; int64_t at(size_t i) const { return i < a.size() ? a[i] : 0; } };
struct Plan {
  std::string prop;
  uint64_t seed = 0;
  std::map<std::string, int64_t> cfg;
  std::vector<Item> ops, faults;
  std::map<std::string, double> sched;
  std::vector<SimDev> devs;
  bool replay = false;
  int64_t c(const std::string& k, int64_t d = 0) const { auto it = cfg.find(k); return it == cfg.end() ? d : it->second; }
  double s(const std::string& k, double d) const { auto it = sched.find(k); return it == sched.end() ? d : it->second; }
};
struct Rng {
  uint64_t a, b;
  explicit Rng(uint64_t seed) { a = mix(&seed); b = mix(&seed); }
  static uint64_t mix(uint64_t* s) {
    uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t u64() {
    uint64_t s0 = a, s1 = b, r = s0 + s1;
    s1 ^= s0;
    a = ((s0 << 24) | (s0 >> 40)) ^ s1 ^ (s1 << 16);
    b = (s1 << 37) | (s1 >> 27);
    return r;
  }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)(u64() % (uint64_t)(hi - lo + 1)); }
  double real() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return real() < p; }
  int pick(std::initializer_list<double> w) {
    double t = 0; for (double x : w) t += x;
    double r = real() * t; int i = 0;
    for (double x : w) { r -= x; if (r < 0) return i; ++i; }
    return (int)w.size() - 1;
  }
};
struct Scenario {
  const char* prop;
  void (*gen)(Rng& r, Plan& p);
  void (*run)(const Plan& p);
  int detect_races;     // data races are violations of this property
  double step_cap;
};
void register_scenario(const Scenario& s);
struct Register { Register(const char* p, void (*g)(Rng&, Plan&), void (*r)(const Plan&), int races, double cap) { register_scenario(Scenario{p, g, r, races, cap}); } };
// Default scheduling parameters drawn from the seed
void gen_sched(Rng& r, Plan& p);
extern volatile int g_expect_abort;   // the next abort() is the required behaviour
const char* scratch_dir();            // private directory of this run, removed afterwards
