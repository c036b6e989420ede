// Generators and registration of the solver scenarios.
#include <sys/mman.h>
#include "pool_common.h"
#include "sim_solver.h"
#include "altro/common/solver_stats.hpp"

namespace ss {
RecCtx* rec_slot(int i) {
  static RecCtx* m = nullptr;
  if (!m) m = (RecCtx*)mmap(nullptr, sizeof(RecCtx) * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  return &m[i];
}
std::vector<int> make_partition(int N, uint64_t seed) {
  Rng r(seed * 31 + 7);
  double p = r.real();
  std::vector<int> v(1, 0);
  for (int k = 1; k <= N; ++k) if (r.chance(p)) v.push_back(k);
  v.push_back(N + 1);
  return v;
}

static int64_t pick_stall(Rng& r) {
  switch (r.pick({4, 4, 2, 1, 1.5})) {
    case 0: return r.range(1, 2000);
    case 1: return r.range(2000, 200000);
    case 2: return r.range(1, 3000) * 1000000ll;
    case 3: return 10000000000ll + r.range(-3000, 3000);
    default: return r.range(10, 45) * 1000000000ll;
  }
}

void solver_gen(Rng& r, Plan& p, int fl) {
  auto& c = p.cfg;
  bool par = fl == 1 || fl == 2 || fl == 7 || fl == 18 || fl == 20;        // about threads
  bool deep = fl == 11 || fl == 15 || fl == 17 || fl == 12 || fl == 9 || fl == 10 || fl == 26;   // about the algorithm
  c["fam"] = 2;
  // long serial sections: switching inside them every few steps costs much and finds little
  if (p.sched["mean_credit"] < 80 && r.chance(0.85)) p.sched["mean_credit"] = 80;
  static const int Ns[] = {1, 2, 3, 4, 5, 7, 10, 16};
  c["N"] = fl == 18 ? (r.chance(0.7) ? r.range(1, 14) : r.range(15, 50)) : Ns[r.pick({1.0, 2, 3, 3, 2, 2, par ? 0.7 : 1.0, par ? 0.2 : 0.6})];
  if (fl != 18 && r.chance(par ? 0.01 : 0.03)) { static const int Nl[] = {25, 40, 60}; c["N"] = Nl[r.pick({2, 1, 1})]; }
  c["model"] = r.pick({2, 3, 2});
  c["integ"] = r.pick({3, 1, 1});
  c["cost"] = r.chance(0.5) ? 0 : r.range(0, 15);
  c["al"] = fl == 15 ? 1 : r.chance(0.7);
  c["con"] = r.chance(0.08) ? 0 : r.range(1, 31);
  if (r.chance(0.5)) c["con"] = c["con"] & (CON_GOAL | CON_BOUND | CON_OBST);
  c["dyn"] = r.chance(0.12);
  c["grid"] = r.chance(0.35);
  static const int dts[] = {100, 50, 200, 20, 500};
  c["dt"] = dts[r.pick({4, 2, 2, 1, 0.7})];
  static const int rs[] = {100, 10, 1, 1000};
  c["r"] = rs[r.pick({4, 2, 1, 1})];
  static const int qs[] = {1000, 100, 0, 10000};
  c["q"] = qs[r.pick({4, 2, 1, 1})];
  static const int qf[] = {10000, 1000, 100000, 0};
  c["qf"] = qf[r.pick({4, 2, 1, 0.5})];
  c["ub"] = r.range(3, 30) * 100;
  c["obr"] = r.range(1, 6) * 100;
  c["pseed"] = r.range(1, 100000);
  c["build"] = r.chance(0.6) ? 0 : r.range(0, 2) + (r.chance(0.3) ? 4 : 0) + 8 * r.range(0, 40);
  if (fl != 16 && fl != 13) c["hand"] = r.chance(0.12);
  bool faults = !r.chance(fl == 7 || fl == 16 ? 0.02 : 0.15);
  if (faults && (deep || r.chance(0.2)) && r.chance(0.5)) {
    c["cliff"] = r.range(2, 30) * 100;
    c["cliffk"] = r.range(1, 5);
  }
  int N = (int)c["N"];
  auto solve_op = [&](const char* name) {
    Item it{name, std::vector<int64_t>(A_COUNT, 0)};
    it.a[A_X0] = r.chance(0.25) ? 0 : r.range(1, 100000);
    it.a[A_U] = r.chance(0.3) ? 0 : r.range(1, 100000);
    it.a[A_GUESS] = (r.chance(0.25) ? 1 : 0) | (r.chance(0.2) ? 2 : 0);
    if (fl == 1 || fl == 2 || fl == 7) it.a[A_THREADS] = r.pick({0, 1, 6, 4, 2, 0.5});
    else if (fl == 18) it.a[A_THREADS] = r.chance(0.3) ? -1 : r.chance(0.8) ? r.range(1, 6) : r.range(7, 16);
    else if (fl == 20) it.a[A_THREADS] = r.range(1, 3);
    else if (fl == 8 || fl == 19 || fl == 16) it.a[A_THREADS] = r.chance(0.45) ? 1 : r.range(2, 4);
    else if (fl == 26) it.a[A_THREADS] = r.chance(0.6) ? 1 : r.range(2, 4);
    else it.a[A_THREADS] = r.chance(0.85) ? 1 : r.range(2, 3);
    it.a[A_TPT] = r.chance(0.6) ? 1 : fl == 18 ? r.range(1, 6) : r.range(1, 3);
    if (par || fl == 8 || fl == 19) it.a[A_CUSTOM] = r.chance(0.2) ? r.range(1, 100000) : 0;
    it.a[A_OPT] = r.chance(0.1) ? 0 : r.range(1, 1000000);
    it.a[A_MAXIT] = fl == 18 ? r.range(1, 2) : fl == 13 ? r.range(1, 6) : (fl == 2 || fl == 20 || fl == 16) ? r.range(1, 5) : par ? r.range(1, 8) : 0;
    if (fl == 8 || fl == 15 || fl == 10 || fl == 11 || fl == 26) it.a[A_RESET] = r.chance(0.75) ? 0 : r.range(1, 3);
    if (fl == 8 || fl == 15 || fl == 19 || fl == 11 || fl == 26) it.a[A_PHI] = r.chance(0.7) ? 0 : r.range(10, 200);
    if (it.a[A_RESET] & 2) it.a[A_PENALTY] = r.chance(0.6) ? 0 : r.range(1, 800);
    it.a[A_GSCALE] = r.chance(0.75) ? 0 : r.range(30, 150);
    if (fl == 13) it.a[A_PROF] = r.chance(0.7) ? 3 : r.range(0, 3);
    if (fl == 14) {
      it.a[A_VERB] = r.range(0, 5);
      it.a[A_PROF] = r.chance(0.5) ? 3 : r.range(0, 3);
      it.a[A_HDR] = r.chance(0.5) ? 0 : r.range(1, 6);
    }
    if (fl == 25) {
      it.a[A_VERB] = r.range(0, 5);
      it.a[A_HDR] = r.chance(0.4) ? 0 : r.range(1, 6);
    }
    if (fl == 17 || fl == 20 || fl == 16 || fl == 19 || fl == 2 || fl == 8) {
      it.a[A_VERB] = r.chance(0.5) ? 0 : r.range(0, 5);
      it.a[A_PROF] = r.chance(0.6) ? 0 : r.range(0, 1);
      it.a[A_HDR] = r.chance(0.6) ? 0 : r.range(1, 6);
    }
    it.a[A_SETTLE] = fl == 7 ? 1 : (fl == 2 || fl == 16) ? r.chance(0.5) : 0;
    return it;
  };
  int ns = fl == 8 ? (int)r.range(2, 5) : fl == 7 ? (int)r.range(1, 3) : (fl == 11 || fl == 15 || fl == 17 || fl == 26) ?  (int)r.range(1, 2) : (int)r.range(1, 3);
  if (fl == 2 && r.chance(0.6)) ns = (int)r.range(1, 2);
  if (fl == 16 || fl == 19) ns = (int)r.range(2, 3);
  if (fl == 19 && r.chance(0.25)) p.ops.push_back(Item{"problem", {r.range(0, 3)}});
  for (int i = 0; i < ns; ++i) {
    if (fl == 19 && r.chance(0.6)) p.ops.push_back(Item{"move", {r.range(0, 1), 0}});
    p.ops.push_back(solve_op("solve"));
    if (fl == 20) p.ops.push_back(solve_op("solve2"));
    if (r.chance(0.2) && fl == 13) p.ops.push_back(Item{"jump", {(r.chance(0.5) ? -1 : 1) * r.range(0, 1000000) * 1000000ll}});
    if (r.chance(0.1) && (fl == 13 || fl == 2 || fl == 8 || fl == 18)) p.ops.push_back(Item{"call", {r.range(0, 4)}});
    if (r.chance(0.04) && (fl == 2 || fl == 1 || fl == 19)) p.ops.push_back(Item{"remake", {}});
    if (fl == 20 && r.chance(0.3)) p.ops.push_back(Item{"pause", {r.range(1, 100000)}});
  }
  if (fl == 19 && r.chance(0.3)) p.ops.push_back(Item{"move", {r.range(0, 1), 0}});
  if (fl == 18 && r.chance(0.25)) p.ops.push_back(Item{"invalid", {r.range(0, 7), r.range(1, 1000)}});
  // faults
  int total = fl == 20 ? 2 * ns : ns;
  for (int q = 0; q < total; ++q) {
    int idx = fl == 20 ? (q % 2) * 100 + q / 2 : q;
    auto rec = [&](int func, int knot, int64_t lo, int64_t hi, int act, int64_t prm) { p.faults.push_back(Item{"rec", {idx, func, knot, lo, hi, act, prm}}); };
    if (!faults) break;
    auto knot = [&](int f) { return (f == FN_DYN || f == FN_DYNJAC) ? r.range(0, N - 1) : r.range(0, N); };
    auto any = [&]() { return (int)r.range(0, 6); };
    // stalled user functions
    double ps = fl == 1 || fl == 2 ? 0.6 : (fl == 7 || fl == 20) ? 0.4 : fl == 13 ? 0.5 : fl == 16 || fl == 18 || fl == 26 ? 0.2 : 0.1;
    if (r.chance(ps)) {
      int cnt = (int)r.range(1, 3);
      for (int i = 0; i < cnt; ++i) {
        int f = r.chance(0.8) ? (int)r.range(3, 4) : any();
        int64_t lo = r.range(1, 4);
        rec(f, (int)knot(f), lo, r.chance(0.7) ? lo : lo + r.range(0, 5), ACT_STALL, pick_stall(r));
      }
    }
    // user functions that throw
    double pt = fl == 7 ? 0.9 : fl == 13 ? 0.25 : fl == 14 ? 0.15 : fl == 8 ? 0.3 : fl == 25 ? 0.2 : fl == 2 ? 0.3 : fl == 17 ? 0.15 : fl == 12 || fl == 9 ? 0.1 : fl == 1 || fl == 20 || fl == 19 ? 0.1 : 0;
    if (r.chance(pt)) {
      int cnt = r.chance(0.75) ? 1 : 2;
      if (fl == 7 && r.chance(0.35)) {   // several knot points fail in the same expansion
        const int64_t round = r.range(1, 4);
        const int fns[] = {FN_COSTHESS, FN_COSTGRAD, FN_DYNJAC};
        cnt = 0;
        for (int i = (int)r.range(2, 4); i > 0; --i) rec(fns[r.range(0, 2)], (int)r.range(0, N - 1), round, round, ACT_THROW, r.range(0, 3));
      }
      for (int i = 0; i < cnt; ++i) {
        int f = any();
        int64_t lo = r.chance(0.5) ? r.range(1, 4) : r.range(1, 25);
        rec(f, (int)knot(f), lo, lo, ACT_THROW, r.range(0, 3));
      }
    }
    // values that are not finite, huge, or make the problem indefinite
    bool values_ok = fl == 25 || fl == 1 || fl == 8 || fl == 12 || fl == 17 || fl == 7 || fl == 2 || fl == 14 || fl == 19 || fl == 20;
    if (values_ok && r.chance(fl == 12 ? 0.6 : 0.25)) {
      int cnt = (int)r.range(1, 2);
      for (int i = 0; i < cnt; ++i) {
        int64_t lo = r.range(1, 6), hi = r.chance(0.5) ? lo : 1000000;
        switch (r.pick({3, 2, 3})) {
          case 0: { int f = any(); rec(f, (int)knot(f), lo, hi, ACT_NAN, 0); break; }
          case 1: { int f = (int)r.range(0, 4); rec(f, (int)knot(f), lo, hi, ACT_HUGE, 0); break; }
          default: rec(FN_COSTHESS, (int)r.range(0, N - 1), lo, hi, ACT_INDEF, r.chance(0.5) ? 0 : r.range(1, 1000)); break;
        }
      }
    }
    if ((fl == 9 || fl == 10 || fl == 11 || fl == 15 || fl == 26) && r.chance(0.25)) {   // only values that leave the objective well defined
      int64_t lo = r.range(1, 6), hi = r.chance(0.5) ? lo : 1000000;
      int f = r.pick({1, 1, 2}) == 0 ? FN_DYNJAC : r.chance(0.4) ? FN_COSTGRAD : FN_COSTHESS;
      rec(f, (int)r.range(0, N - 1), lo, hi, f == FN_COSTHESS ? ACT_INDEF : r.chance(0.5) ? ACT_NAN : ACT_HUGE, r.chance(0.5) ? 0 : r.range(1, 1000));
    }
    if (fl == 16 && (q == 0 || r.chance(0.3))) {
      static const int hi[] = {40, 400, 3000, 30000};
      p.faults.push_back(Item{"alloc", {r.chance(0.15) && q == 0 ? -1 : idx, r.range(1, hi[r.pick({2, 3, 3, 1})]), r.chance(0.6) ? 0 : -1}});
    }
  }
  if (fl == 13) {
    for (size_t i = p.ops.size(); i-- > 0;) if (p.ops[i].name == "solve") { p.ops[i].a[A_PROF] = 3; break; }
    static const double ticks[] = {1000, 0, 100000, 1e7, 1e9};
    p.sched["tick_ps"] = ticks[r.pick({4, 1, 2, 2, 1})];
    if (r.chance(0.6)) p.faults.push_back(Item{"wall", {r.range(1, r.chance(0.5) ? 20000 : 300000), (r.chance(0.6) ? -1 : 1) * r.range(0, 10000000) * 1000000ll}});
  }
  if (faults && r.chance(fl == 1 || fl == 7 || fl == 14 ? 0.15 : fl == 12 || fl == 20 ? 0.05 : 0))
    p.faults.push_back(Item{"wall", {r.range(1, r.chance(0.5) ? 20000 : 300000), (r.chance(0.3) ? -1 : 1) * r.range(0, 10000000) * 1000000ll}});
  if (faults && par && r.chance(0.15)) {   // threads that are not run for a long time, wherever they are
    static const double prob[] = {0.1, 0.01, 0.001};
    p.sched["freeze"] = prob[r.range(0, 2)];
    p.sched["freeze_ns"] = (double)pick_stall(r);
  }
  if (fl == 14 && faults) {
    for (int q = 0; q < ns; ++q) {
      if (r.chance(0.5)) {
        int k = (int)r.range(IO_FULL, IO_LIMIT);
        p.faults.push_back(Item{"io", {q, k, r.range(0, 2) + 3 * (k == IO_LIMIT ? r.range(0, 1500) : 0)}});
      }
      if (r.chance(0.4)) p.faults.push_back(Item{"io", {q, r.range(IO_FOPEN, IO_DEVFULL), 0}});
    }
    if (r.chance(0.2)) p.faults.push_back(Item{"io", {1000, r.chance(0.5) ? IO_END_LIMIT : IO_END_FULL, r.range(0, 300)}});
  }
  if (fl == 25 && faults)
    for (int q = 0; q + 1 < ns; ++q)
      if (r.chance(0.4)) {
        int k = (int)r.range(IO_FULL, IO_LIMIT);
        p.faults.push_back(Item{"io", {q, k, r.range(0, 2) + 3 * (k == IO_LIMIT ? r.range(0, 1500) : 0)}});
      }
  if (fl == 18) p.sched["cores"] = (double)(r.chance(0.2) ? 0 : r.range(1, 16));
  if (fl == 20) {
    c["N2"] = Ns[r.range(0, 5)]; c["model2"] = r.range(0, 2); c["cost2"] = r.range(0, 15); c["con2"] = r.range(1, 31); c["al2"] = r.chance(0.7); c["pseed2"] = r.range(1, 100000); c["grid2"] = r.chance(0.3); c["integ2"] = r.range(0, 2);
  }
}
void solver_run(const Plan& p, int fl) {
  if (fl == 9 || fl == 10 || fl == 11 || fl == 12 || fl == 15 || fl == 17 || fl == 13 || fl == 25 || fl == 26) sim_mem_check(0);   // values only; C02 and C16 check memory
  if (p.c("dyn")) run_dynamic(p, fl);
  else run_static(p, fl);
}

// ------------------------------------------------------------------ SolverStats moved between any two calls (C19)
static void stats_gen(Rng& r, Plan& p, bool oom = false) {
  p.cfg["fam"] = 3;
  int n = (int)r.range(2, 14);
  for (int i = 0; i < n; ++i) {
    if (oom && r.chance(0.4)) p.ops.push_back(Item{"oom", {r.range(1, 9)}});
    switch (r.pick({6, 3, 3, 1, 1})) {
      case 0: p.ops.push_back(Item{"log", {r.range(0, 9), r.range(-1000, 1000)}}); break;
      case 1: p.ops.push_back(Item{"iter", {}}); break;
      case 2: p.ops.push_back(Item{"move", {r.range(0, 1)}}); break;
      case 3: p.ops.push_back(Item{"reset", {}}); break;
      default: p.ops.push_back(Item{"print", {r.range(0, 5)}}); break;
    }
  }
}
static void stats_run(const Plan& p) {
  static const char* names[] = {"cost", "alpha", "z", "grad", "dJ", "reg", "viol", "pen", "iters", "iter_al"};
  auto vec = [](SolverStats& s, int i) -> std::vector<double>& {
    std::vector<double>* v[] = {&s.cost, &s.alpha, &s.improvement_ratio, &s.gradient, &s.cost_decrease, &s.regularization, &s.violations, &s.max_penalty};
    return *v[i];
  };
  auto st = std::make_unique<SolverStats>();
  std::vector<std::unique_ptr<SolverStats>> old;
  std::vector<double> model[8];
  int len = 0;
  auto grow = [&]() { for (auto& v : model) v.push_back(len ? v.back() : 0.0); len++; };
  long oom = 0;
  // an operation that runs out of memory is tried again
  auto attempt = [&](const std::function<void()>& f) {
    if (!oom) { f(); return; }
    sim_fail_alloc(oom, -1);
    oom = 0;
    bool failed = false;
    try { f(); } catch (const std::bad_alloc&) { sim_probe(PR_ALLOC_CAUGHT); failed = true; }
    sim_fail_alloc(0, -1);
    if (failed) f();
  };
  for (auto& op : p.ops) {
    if (op.name == "oom") { oom = (long)op.at(0); continue; }
    if (op.name == "log") {
      int i = (int)op.at(0);
      if (i < 0 || i > 9) continue;
      if (i >= 8) attempt([&]() { st->Log(names[i], (int)op.at(1)); });
      else attempt([&]() { st->Log(names[i], op.at(1) / 8.0); });
      if (!len) grow();
      if (i < 8) model[i].back() = op.at(1) / 8.0;
    } else if (op.name == "iter") { attempt([&]() { st->NewIteration(); }); grow(); }
    else if (op.name == "reset") { attempt([&]() { st->Reset(); }); for (auto& v : model) v.clear(); len = 0; }
    else if (op.name == "print") { st->SetVerbosity((LogLevel)op.at(0)); st->PrintLast(); st->SetVerbosity(LogLevel::kSilent); }
    else if (op.name == "move") {
      auto q = std::make_unique<SolverStats>(std::move(*st));
      if (op.at(0)) old.push_back(std::move(st));
      st = std::move(q);
      sim_probe(PR_MOVED);
    }
    Ign g;
    for (int i = 0; i < 8; ++i) {
      std::string d = vdiff(series_name(i), vec(*st, i), model[i]);
      if (d != "") sim_violation("statistics-differ", "statistics after moves or failed operations: %s;", d.c_str());
    }
  }
  st.reset();
  old.clear();
}

// ------------------------------------------------------------------ registration
template <int fl> void gen_t(Rng& r, Plan& p) {
  if (fl == 2) { double x = r.real(); if (x < 0.3) { pool_gen(r, p, r.chance(0.5) ? 2 : 5); return; } }
  if (fl == 13 && r.chance(0.5)) { timer_gen(r, p); return; }
  if (fl == 25 && r.chance(0.4)) { log_gen(r, p); return; }
  if (fl == 24) { problem_gen(r, p); return; }
  if (fl == 16) { double x = r.real(); if (x < 0.28) { pool_gen(r, p, 16); return; } if (x < 0.34) { stats_gen(r, p, true); return; } }
  if (fl == 19) {
    double x = r.real();
    if (x < 0.25) { pool_gen(r, p, 19); return; }
    if (x < 0.4) { queue_gen(r, p); p.cfg["fam"] = 1; p.cfg["post"] = r.range(2, 4); return; }
    if (x < 0.5) { stats_gen(r, p); return; }
  }
  solver_gen(r, p, fl);
}
template <int fl> void run_t(const Plan& p) {
  switch (p.c("fam", 2)) {
    case 0: pool_run(p, fl == 2 ? 5 : fl); break;
    case 1: queue_run(p); break;
    case 3: stats_run(p); break;
    case 4: timer_run(p); break;
    case 5: log_run(p); break;
    case 6: problem_run(p); break;
    default: solver_run(p, fl);
  }
}
#define REG(id, num, races, cap) Register r##num(id, gen_t<num>, run_t<num>, races, cap)
REG("C01", 1, 0, 4e7); REG("C02", 2, 1, 4e7); REG("C07", 7, 0, 4e7); REG("C08", 8, 0, 6e7); REG("C09", 9, 0, 6e7); REG("C10", 10, 0, 6e7); REG("C11", 11, 0, 6e7);
REG("C12", 12, 0, 6e7); REG("C13", 13, 0, 6e7); REG("C14", 14, 0, 6e7); REG("C15", 15, 0, 6e7); REG("C16", 16, 1, 4e7); REG("C17", 17, 0, 6e7); REG("C18", 18, 1, 6e7); REG("C19", 19, 1, 4e7); REG("C20", 20, 1, 6e7); REG("C24", 24, 1, 4e7); REG("C25", 25, 0, 6e7); REG("C26", 26, 0, 6e7);
}  // namespace ss
