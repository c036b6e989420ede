// The profiler (Timer, Stopwatch, ProfileEntry) on its own under a simulated clock (C13).
#include <sys/stat.h>
#include <unistd.h>
#include <map>
#include <memory>
#include "altro/common/timer.hpp"
#include "io_common.h"
#include "plan.h"
#include "profile_table.h"
#include "sim.h"

namespace ss {
namespace {
struct Ig { Ig() { sim_ignore(1); sim_suppress_faults(1); } ~Ig() { sim_suppress_faults(-1); sim_ignore(-1); } };
enum { PR_PRINTED = 33, PR_PROF_THROW, PR_PROF_GAP, PR_PROF_LONG, PR_PROF_JUMP };
const char* kNames[] = {"al", "al-x", "al.b", "al x", "a", "ilqr", "cost", "init", "a+b", "z", "stats", "b", "Al", "cost0"};
constexpr int kNNames = sizeof kNames / sizeof *kNames;

struct Expect { uint64_t lo = 0; double hi = 0; };   // microseconds: the truncated sum and the exact one
using Model = std::map<std::vector<std::string>, Expect>;
std::vector<std::string> split(const std::string& s) {
  std::vector<std::string> v(1);
  for (char c : s) { if (c == '/') v.emplace_back(); else v.back() += c; }
  return v;
}

// Assigns rows to expected scopes (same leaf name, time within bounds); augmenting paths
struct Match {
  std::vector<std::vector<int>> cand;
  std::vector<int> of_row;
  bool aug(int i, std::vector<char>& seen) {
    for (int r : cand[i]) {
      if (seen[r]) continue;
      seen[r] = 1;
      if (of_row[r] < 0 || aug(of_row[r], seen)) { of_row[r] = i; return true; }
    }
    return false;
  }
};
void check_table(const std::string& text, const Model& m, const char* what) {
  ProfTable t = parse_profile(text);
  if (!t.parsed) sim_violation("profile-unreadable", "%s: the row '%s' can't be read;", what, t.bad.c_str());
  if (t.rows.size() != m.size()) sim_violation("profile-rows", "%s: the table has %zu rows for %zu profiled scopes;", what, t.rows.size(), m.size());
  std::vector<std::vector<std::string>> keys;
  std::vector<Expect> ex;
  for (auto& kv : m) { keys.push_back(kv.first); ex.push_back(kv.second); }
  int n = (int)keys.size();
  auto trim = [](const std::string& s) { size_t a = s.find_first_not_of(' '), b = s.find_last_not_of(' '); return a == std::string::npos ? std::string() : s.substr(a, b - a + 1); };
  auto in = [&](int i, const ProfRow& r) { return r.time >= (long long)ex[i].lo && (double)r.time <= ex[i].hi + 0.5; };
  // percentages, given which scope every row is
  auto pct_ok = [&](long long got, long long t, long long of) {
    if (of == 0) return got == -1;
    double p = 100.0 * (double)t / (double)of;
    if (p > 2e9) return true;
    return (double)got >= p - 1.0001 && (double)got <= p + 1.0001;
  };
  long long total_lo = 0;
  double total_hi = 0;
  for (int i = 0; i < n; ++i) if (keys[i].size() == 1) { total_lo += ex[i].lo; total_hi += ex[i].hi; }
  auto parent_of = [&](int i) {
    std::vector<std::string> k = keys[i];
    while (k.size() > 1) {
      k.pop_back();
      for (int j = 0; j < n; ++j) if (keys[j] == k) { if (k.size() + 1 < keys[i].size()) sim_probe(PR_PROF_GAP); return j; }
    }
    return -1;
  };
  bool exact = true;
  for (auto& e : ex) if ((double)e.lo < e.hi - 0.5) exact = false;
  // which scopes a row may be: by name, time and - if the times are known exactly - percentages
  Match mt;
  mt.cand.resize(n);
  mt.of_row.assign(t.rows.size(), -1);
  for (int i = 0; i < n; ++i)
    for (int r = 0; r < (int)t.rows.size(); ++r) {
      const ProfRow& w = t.rows[r];
      if (w.leaf != trim(keys[i].back()) || !in(i, w)) continue;
      if (exact) {
        int p = parent_of(i);
        if (!pct_ok(w.ptotal, w.time, total_lo) || !pct_ok(w.pparent, w.time, p < 0 ? total_lo : (long long)ex[p].lo)) continue;
      }
      mt.cand[i].push_back(r);
    }
  for (int i = 0; i < n; ++i) {
    std::vector<char> seen(t.rows.size(), 0);
    if (mt.aug(i, seen)) continue;
    std::string full, rows;
    for (auto& s : keys[i]) full += (full.empty() ? "" : "/") + s;
    int p = parent_of(i);
    for (auto& w : t.rows) if (w.leaf == trim(keys[i].back())) rows += " [" + std::to_string(w.time) + " us, " + std::to_string(w.ptotal) + " % of the total, " + std::to_string(w.pparent) + " % of the parent]";
    sim_violation("profile-wrong", "%s: no row for the scope '%s' with %llu us (parent %s %llu us, total %lld us); rows of this name:%s;", what, full.c_str(), (unsigned long long)ex[i].lo,
                  p < 0 ? "none" : keys[p].back().c_str(), p < 0 ? 0ull : (unsigned long long)ex[p].lo, total_lo, rows.c_str());
  }
  for (int r = 0; r < (int)t.rows.size(); ++r)
    if (t.rows[r].time < 0) sim_violation("profile-negative", "%s: a negative time is printed;", what);
  (void)total_hi;
}

struct Frame { std::vector<std::string> key; uint64_t t0; bool rec; std::unique_ptr<altro::Stopwatch> sw; };
struct Boom { int d; };
struct World {
  std::shared_ptr<altro::Timer> t;
  std::vector<Frame> st;
  std::vector<std::string> active;
  Model model;
  std::string path;
  bool on = false;
  void close(const std::vector<std::string>& key, uint64_t t0) {
    uint64_t ns = sim_now() - t0;
    Expect& e = model[key];
    e.lo += ns / 1000;
    e.hi += (double)ns / 1000.0;
    if (ns > 21000000000ull) sim_probe(PR_PROF_LONG);
  }
  void nested(int depth, uint64_t seed, bool boom) {
    Rng r(seed + (uint64_t)depth * 97);
    std::string nm = kNames[r.range(0, kNNames - 1)];
    bool rec = on;
    std::vector<std::string> key;
    struct Fin {   // what the model does when this scope is left, however that happens
      World& w; bool rec; std::vector<std::string>& key; uint64_t t0 = 0;
      ~Fin() { if (rec) { Ig g; w.close(key, t0); w.active.pop_back(); } }
    };
    { Ig g; key = active; key.push_back(nm); if (rec) active.push_back(nm); }
    Fin f{*this, rec, key};
    f.t0 = sim_now();
    altro::Stopwatch sw = t->Start(nm);
    sim_advance((uint64_t)r.range(0, 3000000));
    if (depth > 0) nested(depth - 1, seed * 3 + 1, boom);
    else if (boom) { sim_fault_fired(F_THROW); sim_probe(PR_PROF_THROW); throw Boom{depth}; }
    sim_advance((uint64_t)r.range(0, 30000000));
  }
};
}  // namespace

void timer_gen(Rng& r, Plan& p) {
  p.cfg["fam"] = 4;
  p.cfg["out"] = r.range(0, 2);
  p.cfg["act"] = r.chance(0.85);
  p.sched["tick_ps"] = 0;
  int n = (int)r.range(3, 40);
  int names = (int)r.range(1, kNNames);
  auto dur = [&]() -> int64_t {
    switch (r.pick({2, 4, 3, 2, 1})) {
      case 0: return r.range(0, 1500);
      case 1: return r.range(1000, 5000000);
      case 2: return r.range(1000000, 30000000000ll);
      case 3: return r.range(0, 20000) * 1000000000ll;
      default: return 0;
    }
  };
  for (int i = 0; i < n; ++i) {
    switch (r.pick({6, 5, 8, 2, 1, 1, 0.4, 0.3})) {
      case 0: p.ops.push_back(Item{"start", {r.range(0, names - 1)}}); break;
      case 1: p.ops.push_back(Item{"stop", {}}); break;
      case 2: p.ops.push_back(Item{"adv", {dur()}}); break;
      case 3: p.ops.push_back(Item{"jump", {r.chance(0.5) ? -r.range(0, 1000000) * 1000000ll : r.range(0, 1000000) * 1000000ll}}); break;
      case 4: p.ops.push_back(Item{"throw", {r.range(0, 4), r.range(1, 100000), r.chance(0.7)}}); break;
      case 5: p.ops.push_back(Item{"on", {r.chance(0.8)}}); break;
      case 6: p.ops.push_back(Item{"print", {}}); break;
      default: p.ops.push_back(Item{"map", {r.range(1, 1000000)}}); break;
    }
  }
}

void timer_run(const Plan& p) {
  std::string path, path2;
  { Ig g; path = std::string(scratch_dir()) + "/t.out"; path2 = std::string(scratch_dir()) + "/p.out"; }
  int base = count_fds();
  {
    World w;
    w.t = p.c("out") == 2 ? std::shared_ptr<altro::Timer>(altro::Timer::MakeUnique()) : altro::Timer::MakeShared();
    FILE* f = nullptr;
    int out = (int)p.c("out");
    if (out == 1) w.t->SetOutput(path);
    else { Ig g; f = fopen(path.c_str(), "w"); w.t->SetOutput(f); }
    w.on = p.c("act");
    if (w.on) w.t->Activate();
    bool printed = false;
    // prints through the timer into a file of its own and reads it back
    auto print_now = [&](std::map<std::string, std::chrono::microseconds>* m, const char* what, const Model& want) {
      std::string text;
      FILE* g = nullptr;
      { Ig i; g = fopen(path2.c_str(), "w"); }
      w.t->SetOutput(g);
      if (m) w.t->PrintSummary(m);
      else w.t->PrintSummary();
      { Ig i; fclose(g); text = read_file(path2); }
      if (out == 1) w.t->SetOutput(path);
      else w.t->SetOutput(f);
      printed = true;
      sim_probe(PR_PRINTED);
      Ig i;
      check_table(text, want, what);
    };
    for (auto& op : p.ops) {
      if (op.name == "start") {
        if (w.st.size() > 12) continue;
        std::string nm = kNames[op.at(0) % kNNames];
        Frame fr;
        { Ig g; fr.key = w.active; fr.key.push_back(nm); fr.rec = w.on; if (w.on) w.active.push_back(nm); }
        fr.t0 = sim_now();
        fr.sw.reset(new altro::Stopwatch(w.t->Start(nm)));
        w.st.push_back(std::move(fr));
      } else if (op.name == "stop") {
        if (w.st.empty()) continue;
        Frame fr = std::move(w.st.back());
        w.st.pop_back();
        if (fr.rec) { Ig g; w.close(fr.key, fr.t0); w.active.pop_back(); }
        fr.sw.reset();
      } else if (op.name == "adv") sim_advance((uint64_t)op.at(0));
      else if (op.name == "jump") { sim_wallclock_jump(op.at(0)); sim_probe(PR_PROF_JUMP); }
      else if (op.name == "throw") {
        try { w.nested((int)op.at(0), (uint64_t)op.at(1), op.at(2)); } catch (const Boom&) {}
      } else if (op.name == "on") {
        w.on = op.at(0);
        if (w.on) w.t->Activate();
        else w.t->Deactivate();
        Ig g;
        if (w.t->IsActive() != w.on) sim_violation("profile-active", "IsActive is wrong;");
      } else if (op.name == "print") print_now(nullptr, "PrintSummary", w.model);
      else if (op.name == "map") {
        Rng r((uint64_t)op.at(0));
        std::map<std::string, std::chrono::microseconds> m;
        Model want;
        {
          Ig g;
          int n = (int)r.range(0, 12);
          std::vector<std::pair<std::string, int64_t>> made;
          for (int i = 0; i < n; ++i) {
            static const int64_t hi[] = {10, 1000, 1000000, 1000000000ll, 30000000ll, 1000000000000000ll};
            std::string nm = kNames[r.range(0, kNNames - 1)];
            int64_t t = r.range(0, hi[r.range(0, 5)]);
            if (!made.empty() && r.chance(0.75)) {
              auto& par = made[r.range(0, (int64_t)made.size() - 1)];
              nm = par.first + "/" + nm;
              t = par.second ? r.range(0, par.second) : 0;
            }
            bool dup = false;
            for (auto& q : made) if (q.first == nm) dup = true;
            if (dup) continue;
            made.push_back({nm, t});
          }
          for (auto& q : made) {
            if (q.first.find('/') != std::string::npos && r.chance(0.1)) continue;   // a scope that has not been logged (yet)
            if (r.chance(0.05)) continue;
            m[q.first] = std::chrono::microseconds(q.second);
            want[split(q.first)] = Expect{(uint64_t)q.second, (double)q.second};
            if (q.second > 21000000) sim_probe(PR_PROF_LONG);
          }
        }
        print_now(&m, "PrintSummary of given times", want);
      }
    }
    while (!w.st.empty()) {
      Frame fr = std::move(w.st.back());
      w.st.pop_back();
      if (fr.rec) { Ig g; w.close(fr.key, fr.t0); w.active.pop_back(); }
      fr.sw.reset();
    }
    bool due = w.on && !printed;
    w.t.reset();
    Ig g;
    if (f) { fflush(f); fclose(f); }
    std::string text = read_file(path);
    if (due) { check_table(text, w.model, "the summary printed at the end"); sim_probe(PR_PRINTED); }
  }
  if (count_fds() != base) sim_violation("fd-leak", "%d file descriptor(s) are open after the profiler ended, %d before;", count_fds(), base);
}
}  // namespace ss
