// The benchmark utility under a simulated clock (C27).
#include <fcntl.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>
#include <new>
#include <string.h>
#include <string>
#include <thread>
#include <vector>
#include "altro/utils/benchmarking.hpp"
#include "io_common.h"
#include "plan.h"
#include "sim.h"

namespace ss {
namespace {
using altro::utils::Benchmark;
using altro::utils::BenchmarkResults;
struct Ig { Ig() { sim_ignore(1); sim_suppress_faults(1); } ~Ig() { sim_suppress_faults(-1); sim_ignore(-1); } };
enum { PR_BENCH = 51, PR_BENCH_THROW, PR_BENCH_JUMP, PR_BENCH_NESTED, PR_BENCH_CALC, PR_BENCH_PRINT, PR_BENCH_ALLOC, PR_BENCH_NONE };
struct Boom { int call; };
struct Call { double s, e; };
struct Spec { int unit, n, kind, boom, nested; uint64_t seed; int64_t jump; };

bool near(double a, double b, double tol) { return a == b || std::fabs(a - b) <= tol; }
double ref_std(const std::vector<double>& v) {
  long double m = 0, q = 0;
  for (double x : v) m += x;
  m /= v.size();
  for (double x : v) q += (x - m) * (x - m);
  return (double)std::sqrt(q / v.size());
}
double ref_mean(const std::vector<double>& v) { long double m = 0; for (double x : v) m += x; return (double)(m / v.size()); }
double ref_median(std::vector<double> v) {
  std::sort(v.begin(), v.end());
  size_t n = v.size();
  return n % 2 ? v[n / 2] : (v[n / 2] + v[n / 2 - 1]) / 2;
}

// The numbers of r in nanoseconds
struct Res { double mean, median, sd, max, min; int samples; };
template <class D> Res to_ns(const BenchmarkResults<D>& r) {
  const double f = 1e9 * D::period::num / D::period::den;
  return Res{r.mean.count() * f, r.median.count() * f, r.std.count() * f, r.max.count() * f, r.min.count() * f, r.samples};
}
void inside(const char* what, double got, double lo, double hi) {
  double eps = 3 + 1e-9 * std::fabs(hi);
  if (!(got >= lo - eps && got <= hi + eps)) sim_violation("bench-time", "the %s is %.9g ns; the calls took between %.9g and %.9g ns;", what, got, lo, hi);
}
void judge(const Res& r, const std::vector<Call>& c, double t0, double t1, int n) {
  Ig g;
  if ((int)c.size() != n) sim_violation("bench-calls", "the function ran %zu times instead of %d;", c.size(), n);
  if (r.samples != n) sim_violation("bench-samples", "%d samples reported instead of %d;", r.samples, n);
  std::vector<double> lo, hi;
  double w = 0;
  for (int i = 0; i < n; ++i) {
    lo.push_back(c[i].e - c[i].s);
    hi.push_back((i + 1 < n ? c[i + 1].s : t1) - (i ? c[i - 1].e : t0));
    w = std::max(w, hi.back() - lo.back());
  }
  inside("minimum", r.min, *std::min_element(lo.begin(), lo.end()), *std::min_element(hi.begin(), hi.end()));
  inside("maximum", r.max, *std::max_element(lo.begin(), lo.end()), *std::max_element(hi.begin(), hi.end()));
  inside("mean", r.mean, ref_mean(lo), ref_mean(hi));
  inside("median", r.median, ref_median(lo), ref_median(hi));
  double sd = ref_std(lo), mx = *std::max_element(hi.begin(), hi.end());
  if (!near(r.sd, sd, w + 3 + 1e-9 * mx)) sim_violation("bench-std", "the standard deviation is %.9g ns instead of %.9g (within %.3g);", r.sd, sd, w);
}

template <class D> void bench(const Spec& s, int depth);
void bench_unit(const Spec& s, int depth) {
  switch (s.unit) {
    case 0: bench<std::chrono::nanoseconds>(s, depth); break;
    case 1: bench<std::chrono::microseconds>(s, depth); break;
    case 2: bench<std::chrono::milliseconds>(s, depth); break;
    default: bench<std::chrono::seconds>(s, depth);
  }
}
template <class D> void bench(const Spec& s, int depth) {
  std::vector<Call> calls;
  { Ig g; calls.reserve(s.n + 200); }
  Rng r(s.seed);
  int i = 0;
  auto body = [&]() {
    double t = (double)sim_now();
    int64_t d;
    switch (s.kind) {
      case 0: d = 1000; break;
      case 1: d = r.range(0, 2000); break;
      case 2: d = r.range(0, 3000000); break;
      case 3: d = r.range(0, 20) ? r.range(1000, 2000) : r.range(1, 40) * 1000000000ll; break;
      default: d = 0;
    }
    bool sleeps = r.chance(0.3);
    if (s.jump && r.chance(0.3)) { sim_wallclock_jump(r.chance(0.5) ? s.jump : -s.jump); Ig g; sim_probe(PR_BENCH_JUMP); }
    if (sleeps) sim_sleep((uint64_t)d);
    else sim_advance((uint64_t)d);
    if (s.nested && depth == 0 && i % 3 == 0) {
      sim_probe(PR_BENCH_NESTED);
      Spec q = s;
      q.n = 1 + i % 4; q.unit = (s.unit + i / 3) % 4; q.boom = -1; q.seed = s.seed + 17 * i;
      bench_unit(q, 1);
    }
    if (i++ == s.boom) { sim_fault_fired(F_THROW); sim_probe(PR_BENCH_THROW); throw Boom{i - 1}; }
    double e = (double)sim_now();
    Ig g;
    calls.push_back({t, e});
  };
  double t0 = (double)sim_now();
  try {
    BenchmarkResults<D> res = s.n == 100 ? Benchmark<D>(body) : Benchmark<D>(body, s.n);
    double t1 = (double)sim_now();
    if (s.boom >= 0 && s.boom < s.n) sim_violation("bench-swallowed", "the function failed in call %d and Benchmark returned a result;", s.boom);
    judge(to_ns(res), calls, t0, t1, s.n);
    sim_probe(PR_BENCH);
  } catch (const Boom& b) {
    if (b.call != s.boom || (int)calls.size() != s.boom || i != s.boom + 1) sim_violation("bench-throw", "the function ran %d times after failing in call %d;", i, s.boom);
  }
}

struct Capture {   // the standard output, in a file
  int saved;
  std::string path;
  Capture() {
    Ig g;
    path = std::string(scratch_dir()) + "/bench.out";
    fflush(stdout);
    saved = dup(1);
    int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    ::dup2(fd, 1);
    ::close(fd);
  }
  std::string done() {
    Ig g;
    fflush(stdout);
    ::dup2(saved, 1);
    ::close(saved);
    std::string s;
    FILE* f = fopen(path.c_str(), "r");
    char b[4096];
    size_t n;
    while (f && (n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    if (f) fclose(f);
    return s;
  }
};

template <class D> void calc(const Item& op) {
  using R = BenchmarkResults<D>;
  std::vector<typename R::time_t> t;
  std::vector<double> v;
  {
    Ig g;
    Rng r((uint64_t)op.at(1));
    int n = (int)op.at(2), style = (int)r.range(0, 4);
    for (int i = 0; i < n; ++i) {
      double x = style == 0 ? 5.25 : style == 1 ? (double)r.range(0, 3) : style == 2 ? r.real() * 1e6 : style == 3 ? std::exp(r.real() * 40 - 15) : 1e6 + r.real();
      if (style == 4 && i == 0) x = 0;
      v.push_back(x);
      t.emplace_back(x);
    }
  }
  R res = R::Calculate(t);
  double mx = 0;
  {
    Ig g;
    sim_probe(PR_BENCH_CALC);
    for (double x : v) mx = std::max(mx, x);
    double mn = *std::min_element(v.begin(), v.end());
    if (res.samples != (int)v.size()) sim_violation("bench-samples", "%d samples reported instead of %zu;", res.samples, v.size());
    if (res.min.count() != mn || res.max.count() != mx) sim_violation("bench-extremes", "minimum and maximum are %.9g and %.9g instead of %.9g and %.9g;", res.min.count(), res.max.count(), mn, mx);
    if (!near(res.median.count(), ref_median(v), 1e-12 * mx)) sim_violation("bench-median", "the median of %zu samples is %.9g instead of %.9g;", v.size(), res.median.count(), ref_median(v));
    if (!near(res.mean.count(), ref_mean(v), 1e-11 * mx)) sim_violation("bench-mean", "the mean of %zu samples is %.9g instead of %.9g;", v.size(), res.mean.count(), ref_mean(v));
    if (!near(res.std.count(), ref_std(v), 1e-7 * mx)) sim_violation("bench-std", "the standard deviation of %zu samples is %.9g instead of %.9g;", v.size(), res.std.count(), ref_std(v));
  }
  if (op.at(3)) {
    Capture c;
    res.Print();
    std::string s = c.done();
    Ig g;
    sim_probe(PR_BENCH_PRINT);
    const char* label[] = {"Mean:", "Median:", "Std:", "Max:", "Min:", "Samples:"};
    double want[] = {res.mean.count(), res.median.count(), res.std.count(), res.max.count(), res.min.count(), (double)res.samples};
    size_t at = 0;
    for (int i = 0; i < 6; ++i) {
      size_t f = s.find(label[i], at);
      if (f == std::string::npos) sim_violation("bench-print", "'%s' is missing in the summary;", label[i]);
      at = f + strlen(label[i]);
      double x = atof(s.c_str() + at);
      if (!near(x, want[i], 2e-5 * std::fabs(want[i]))) sim_violation("bench-print", "the summary shows %s %.9g instead of %.9g;", label[i], x, want[i]);
    }
  }
}
template <class D> void none() {
  g_expect_abort = 1;
  try {
    std::vector<typename BenchmarkResults<D>::time_t> t;
    BenchmarkResults<D>::Calculate(t);
  } catch (const std::exception&) { g_expect_abort = 0; return; }
  g_expect_abort = 0;
  sim_violation("bench-no-samples", "statistics of no samples are calculated instead of being rejected;");
}
}  // namespace

void bench_gen(Rng& r, Plan& p) {
  p.cfg["fam"] = 7;
  int thr = r.chance(0.5) ? 1 : (int)r.range(2, 3);
  p.cfg["threads"] = thr;
  if (r.chance(0.6)) p.sched["tick_ps"] = 0;
  if (p.sched["mean_credit"] < 25) p.sched["mean_credit"] = 25;
  int n = (int)r.range(1, 5);
  static const int64_t jump[] = {0, 1000, 3600000000000ll, 5000000};
  for (int i = 0; i < n; ++i) {
    switch (r.pick({6, 2, 0.15})) {
      case 0: {
        int cnt = r.chance(0.08) ? 100 : (int)r.range(1, r.chance(0.2) ? 40 : 9);
        p.ops.push_back(Item{"bench", {r.range(0, thr - 1), r.range(0, 3), cnt, r.range(0, 4), r.chance(0.15) ? r.range(0, cnt + 1) : -1, r.chance(0.15), r.range(1, 1000000), jump[r.pick({4, 1, 2, 2})]}});
        break;
      }
      case 1: p.ops.push_back(Item{"calc", {r.range(0, 3), r.range(1, 1000000), r.chance(0.1) ? r.range(60, 400) : r.range(1, 12), r.chance(0.4)}}); break;
      default: p.ops.push_back(Item{"none", {r.range(0, 3)}});
    }
  }
  if (r.chance(0.1)) p.cfg["oom"] = r.range(1, 3);
}

void bench_run(const Plan& p) {
  int thr = (int)std::max<int64_t>(1, p.c("threads", 1));
  auto spec = [](const Item& o) {
    return Spec{(int)o.at(1) & 3, (int)std::max<int64_t>(1, std::min<int64_t>(o.at(2), 120)), (int)o.at(3), (int)o.at(4), (int)o.at(5), (uint64_t)o.at(6), o.at(7)};
  };
  if (p.c("oom")) {
    Spec s{1, 12, 1, -1, 0, 5, 0};
    sim_fail_alloc((long)p.c("oom"), -1);
    bool thrown = false;
    try { bench_unit(s, 0); } catch (const std::bad_alloc&) { thrown = true; }
    bool fired = sim_alloc_fired();
    sim_fail_alloc(0, -1);
    if (fired && !thrown) sim_violation("bench-oom", "an allocation failed and the benchmark returned a result;");
    if (fired) sim_probe(PR_BENCH_ALLOC);
  }
  {
    std::vector<std::thread> ts;
    for (int t = 1; t < thr; ++t) ts.emplace_back([&, t]() {
      for (auto& o : p.ops) if (o.name == "bench" && o.at(0) == t) bench_unit(spec(o), 0);
    });
    for (auto& o : p.ops) {
      if (o.name == "bench" && o.at(0) % thr == 0) bench_unit(spec(o), 0);
      if (o.name == "calc" && thr == 1) switch (o.at(0) & 3) {
        case 0: calc<std::chrono::nanoseconds>(o); break;
        case 1: calc<std::chrono::microseconds>(o); break;
        case 2: calc<std::chrono::milliseconds>(o); break;
        default: calc<std::chrono::seconds>(o);
      }
    }
    for (auto& t : ts) t.join();
  }
  for (auto& o : p.ops) if (o.name == "none") { sim_probe(PR_BENCH_NONE); if (o.at(0) & 1) none<std::chrono::milliseconds>(); else none<std::chrono::microseconds>(); }
}
Register c27("C27", bench_gen, bench_run, 1, 3e6);
}  // namespace ss
