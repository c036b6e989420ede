// The console logger on its own (C25) and histories of problem definitions (C24).
#include <stdio_ext.h>
#include <unistd.h>
#include <iostream>
#include <map>
#include <memory>
#include "altro/augmented_lagrangian/al_solver.hpp"
#include "altro/common/solver_stats.hpp"
#include "altro/ilqr/ilqr.hpp"
#include "altro/problem/problem.hpp"
#include "io_common.h"
#include "plan.h"
#include "profile_table.h"
#include "sim.h"

namespace ss {
namespace {
using namespace altro;
struct Ig { Ig() { sim_ignore(1); sim_suppress_faults(1); } ~Ig() { sim_suppress_faults(-1); sim_ignore(-1); } };

// ------------------------------------------------------------------ logger
const char* kTitles[] = {"a", "b", "cost", "grad", "iters", "x y", "viol", "longer title", "z", "dJ"};
constexpr int kNT = 10;
struct Fmt { const char* f; LogEntry::EntryType t; };
const Fmt kFmts[] = {{"{:>4}", LogEntry::kInt}, {"{:>.4g}", LogEntry::kFloat}, {"{:>.3e}", LogEntry::kFloat}, {"{}", LogEntry::kFloat}, {"{:.2f}", LogEntry::kFloat}, {"{:>6d}", LogEntry::kInt}, {"{}", LogEntry::kInt}, {"{:>8.1e}", LogEntry::kFloat}};
constexpr int kNF = 8;
const fmt::color kColors[] = {fmt::color::white, fmt::color::green, fmt::color::red, fmt::color::yellow, fmt::color::blue, fmt::color::cyan};
constexpr uint32_t kNoColor = 0xffffffff;
double value(int64_t i) {
  static const double v[] = {0, 1, -1, 0.5, 1e-4, 12345.678, -2.5e7, 1e300, 3.25, 100};
  if (i >= 0 && i < 10) return v[i];
  if (i == 10) return std::numeric_limits<double>::infinity();
  if (i == 11) return -std::numeric_limits<double>::infinity();
  if (i == 12) return std::numeric_limits<double>::quiet_NaN();
  return (double)(i - 500) / 16.0;
}
struct ModelEntry {
  std::string title, data, format;
  int type = 0, level = (int)LogLevel::kInner, width = 10;
  bool bounded = false;
  double lo = -std::numeric_limits<double>::infinity(), hi = -lo;
  fmt::color clo = fmt::color::green, chi = fmt::color::red;
  uint32_t color = (uint32_t)fmt::color::white;
};
struct Cell { char c; uint32_t color; };
using Text = std::vector<Cell>;
// text with its colours
Text strip(const std::string& s) {
  Text t;
  uint32_t cur = kNoColor;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] != 27) { t.push_back({s[i], cur}); continue; }
    int a, b, c, n = 0;
    if (sscanf(s.c_str() + i, "\x1b[38;2;%d;%d;%dm%n", &a, &b, &c, &n) == 3 && n > 0) { cur = (uint32_t)(a << 16 | b << 8 | c); i += (size_t)n - 1; }
    else if (s.compare(i, 4, "\x1b[0m") == 0) { cur = kNoColor; i += 3; }
    else t.push_back({s[i], cur});
  }
  return t;
}
void put(Text& t, const std::string& s, uint32_t color) { for (char c : s) t.push_back({c, color}); }
std::string plain(const Text& t) { std::string s; for (auto& c : t) s += c.c; return s; }
std::string lpad(const std::string& s, int w) { return (int)s.size() < w ? std::string(w - s.size(), ' ') + s : s; }

struct LogWorld {
  std::unique_ptr<SolverLogger> lg;
  std::unique_ptr<SolverStats> st;   // in the other variant the logger is that of the statistics
  std::vector<std::unique_ptr<SolverLogger>> old;
  std::vector<std::unique_ptr<SolverStats>> olds;
  std::vector<ModelEntry> cols;      // in the order of the columns
  int level = 0, freq = 10, count = 0;   // count -1: unknown
  fmt::color hcolor = fmt::color::white;
  int saved = -1, mode = 0;
  std::string path;
  SolverLogger& L() { return st ? st->GetLogger() : *lg; }
  ModelEntry* find(const std::string& t) { for (auto& c : cols) if (c.title == t) return &c; return nullptr; }
  void out(bool broken) {
    fflush(stdout);
    __fpurge(stdout);
    clearerr(stdout);
    int fd = broken ? open("/dev/full", O_WRONLY) : open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    ::dup2(fd, 1);
    ::close(fd);
    static char buf[64];
    setvbuf(stdout, mode == 1 ? buf : nullptr, mode == 0 ? _IONBF : mode == 1 ? _IOFBF : _IOLBF, mode == 1 ? sizeof buf : 0);
    if (broken) sim_fault_fired(F_STDOUT_FULL);
  }
  Text header() {
    Text t;
    int w = 0;
    bool any = false;
    for (auto& c : cols) if (level && c.level <= level) { any = true; put(t, lpad(c.title, c.width), (uint32_t)hcolor); put(t, " ", kNoColor); w += c.width + 1; }
    if (any) { put(t, "\n", kNoColor); put(t, std::string(w, '-'), (uint32_t)hcolor); put(t, "\n", (uint32_t)hcolor); }
    return t;
  }
  Text row() {
    Text t;
    bool any = false;
    for (auto& c : cols) if (level && c.level <= level) { any = true; put(t, lpad(c.data, c.width), c.color); put(t, " ", kNoColor); }
    if (any) put(t, "\n", kNoColor);
    return t;
  }
  static bool equal(const Text& a, const Text& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (a[i].c != b[i].c || (a[i].c != ' ' && a[i].c != '\n' && a[i].color != b[i].color)) return false;
    return true;
  }
  Text shown() { std::cout.flush(); fflush(stdout); return strip(read_file(path)); }
  void expect(const Text& want, const Text& got, const char* what) {
    if (equal(want, got)) return;
    std::string a = plain(want), b = plain(got);
    if (a != b) sim_violation("console-wrong", "%s shows '%s' instead of '%s';", what, b.c_str(), a.c_str());
    for (size_t i = 0; i < want.size(); ++i)
      if (want[i].c != ' ' && want[i].color != got[i].color) sim_violation("console-color", "%s shows '%s' with colour %06x instead of %06x at character %zu;", what, b.c_str(), got[i].color, want[i].color, i);
  }
};
}  // namespace

void log_gen(Rng& r, Plan& p) {
  p.cfg["fam"] = 5;
  p.cfg["stats"] = r.chance(0.4);
  p.cfg["mode"] = r.range(0, 2);
  int n = (int)r.range(4, 40), titles = (int)r.range(1, kNT);
  int adds = p.cfg["stats"] ? 0 : (int)r.range(1, 5);
  for (int i = 0; i < n + adds; ++i) {
    if (i < adds || (!p.cfg["stats"] && r.chance(0.08))) { p.ops.push_back(Item{"add", {r.range(0, titles - 1), r.range(0, kNF - 1), r.chance(0.5), r.range(0, 9)}}); continue; }
    int64_t e = r.range(0, 9);
    switch (r.pick({9, 6, 1, 1, 2, 1.2, 1, 1, 1, 0.7, 0.6, 0.4, 0.7, 0.6, 0.5})) {
      case 0: p.ops.push_back(Item{"log", {e, r.chance(0.5) ? r.range(0, 12) : r.range(13, 1000)}}); break;
      case 1: p.ops.push_back(Item{"print", {r.chance(0.1)}}); break;
      case 2: p.ops.push_back(Item{"data", {}}); break;
      case 3: p.ops.push_back(Item{"header", {}}); break;
      case 4: p.ops.push_back(Item{"level", {r.range(0, 5)}}); break;
      case 5: p.ops.push_back(Item{"lower", {e, r.range(0, 12), r.range(0, 5), r.chance(0.4)}}); break;
      case 6: p.ops.push_back(Item{"upper", {e, r.range(0, 12), r.range(0, 5), r.chance(0.4)}}); break;
      case 7: p.ops.push_back(Item{"width", {e, r.range(0, 16)}}); break;
      case 8: p.ops.push_back(Item{"elevel", {e, r.range(1, 5)}}); break;
      case 9: if (p.cfg["stats"] && r.chance(0.4)) p.ops.push_back(Item{"tol", {r.range(0, 12), r.range(0, 12), r.range(0, 12)}}); else p.ops.push_back(Item{"freq", {r.range(0, 4)}}); break;
      case 10: p.ops.push_back(Item{"clear", {}}); break;
      case 11: p.ops.push_back(Item{"hcolor", {r.range(0, 5)}}); break;
      case 12: p.ops.push_back(Item{"copy", {r.range(0, 2)}}); break;
      case 13: p.ops.push_back(Item{"move", {r.range(0, 1)}}); break;
      default: p.ops.push_back(Item{"reset", {r.range(0, 5), r.range(0, 4)}}); break;
    }
  }
  p.ops.push_back(Item{"print", {0}});
}

void log_run(const Plan& p) {
  LogWorld w;
  { Ig g; w.path = std::string(scratch_dir()) + "/console"; w.mode = (int)p.c("mode"); w.out(false); }
  if (p.c("stats")) {
    w.st = std::make_unique<SolverStats>();
    Ig g;
    w.hcolor = fmt::color::yellow;
    for (const char* t : {"iters", "iter_al", "cost", "viol", "dJ", "grad", "alpha", "reg", "z", "pen"}) {
      LogEntry& e = w.L().GetEntry(t);
      ModelEntry m;
      m.title = t; m.format = e.GetFormat(); m.type = (int)e.GetType(); m.level = (int)e.GetLevel(); m.width = e.GetWidth();
      w.cols.push_back(m);
    }
    if (w.L().NumEntries() != 10) { return; }   // other default columns: not modelled
  } else w.lg = std::make_unique<SolverLogger>();
  for (auto& op : p.ops) {
    ModelEntry* m = w.cols.empty() ? nullptr : &w.cols[(size_t)op.at(0) % w.cols.size()];
    if (op.name == "add") {
      if (w.st) continue;
      std::string t = kTitles[op.at(0) % kNT];
      if (w.find(t)) continue;
      const Fmt& f = kFmts[op.at(1) % kNF];
      int n = (int)w.cols.size(), pos = (int)(op.at(3) % (n + 1));
      int col = op.at(2) ? pos : pos - n - 1;   // from the front or from the back
      LogEntry& e = w.L().AddEntry(col, t, std::string(f.f), f.t);
      Ig g;
      ModelEntry q;
      q.title = t; q.format = f.f; q.type = (int)f.t;
      w.cols.insert(w.cols.begin() + pos, q);
      if (e.GetTitle() != t || e.GetFormat() != f.f || (int)e.GetType() != q.type || w.L().NumEntries() != n + 1) sim_violation("entry-wrong", "the new entry '%s' differs from what was asked for;", t.c_str());
    } else if (op.name == "log") {
      if (!m) continue;
      double v = value(op.at(1));
      std::string s;
      bool active = w.level && m->level <= w.level;
      if (m->type == LogEntry::kInt) {
        int i = (int)std::max(-1000000.0, std::min(1000000.0, std::isnan(v) ? 7.0 : v));
        v = i;
        { Ig g; s = fmt::format(m->format, i); }
        if (w.st) w.st->Log(m->title, i);
        else w.L().Log(m->title, i);
      } else {
        { Ig g; s = fmt::format(m->format, v); }
        if (w.st) w.st->Log(m->title, v);
        else w.L().Log(m->title, v);
      }
      Ig g;
      if (active) {
        m->data = s;
        m->color = (uint32_t)(m->bounded && v < m->lo ? m->clo : m->bounded && v > m->hi ? m->chi : fmt::color::white);
      }
    } else if (op.name == "print" || op.name == "data" || op.name == "header") {
      bool broken = op.name == "print" && op.at(0);
      { Ig g; w.out(broken); }
      if (op.name == "print") { if (w.st) w.st->PrintLast(); else w.L().Print(); }
      else if (op.name == "data") w.L().PrintData();
      else w.L().PrintHeader();
      Ig g;
      if (broken) { w.count = -1; w.out(false); continue; }
      Text got = w.shown(), want;
      if (op.name == "data") want = w.row();
      else if (op.name == "header") want = w.header();
      else {
        bool h = w.freq > 0 && w.count % w.freq == 0;
        Text with = w.header(), r = w.row();
        with.insert(with.end(), r.begin(), r.end());
        if (w.count < 0 && w.freq > 0) {   // a print that failed may or may not count
          if (LogWorld::equal(got, r) && !LogWorld::equal(got, with)) continue;
          if (LogWorld::equal(r, with)) continue;
          h = true;
        }
        want = h ? with : r;
        if (w.count < 0 && w.freq == 0) { w.expect(want, got, "the log"); continue; }
        if (h) w.count = 0;
        w.count++;
      }
      w.expect(want, got, op.name == "header" ? "the header" : "the log");
      sim_probe(42);
    } else if (op.name == "level") { w.level = (int)op.at(0); if (w.st) w.st->SetVerbosity((LogLevel)w.level); else w.L().SetLevel((LogLevel)w.level); }
    else if (op.name == "lower" || op.name == "upper") {
      if (!m) continue;
      double b = value(op.at(1));
      if (std::isnan(b)) continue;
      fmt::color c = kColors[op.at(2) % 6];
      LogEntry& e = w.L().GetEntry(m->title);
      if (op.name == "lower") {
        if (b > m->hi) continue;
        if (op.at(3)) { e.SetLowerBound(b); c = fmt::color::green; } else e.SetLowerBound(b, c);
        m->lo = b; m->clo = c;
      } else {
        if (b < m->lo) continue;
        if (op.at(3)) { e.SetUpperBound(b); c = fmt::color::red; } else e.SetUpperBound(b, c);
        m->hi = b; m->chi = c;
      }
      m->bounded = true;
    } else if (op.name == "width") { if (m) { w.L().GetEntry(m->title).SetWidth((int)op.at(1)); m->width = (int)op.at(1); } }
    else if (op.name == "elevel") { if (m) { w.L().GetEntry(m->title).SetLevel((LogLevel)op.at(1)); m->level = (int)op.at(1); } }
    else if (op.name == "tol") {
      if (!w.st) continue;
      const char* cols[] = {"dJ", "viol", "grad"};
      ModelEntry* me[3] = {};
      bool fits = true;
      for (int i = 0; i < 3; ++i) {
        for (auto& x : w.cols) if (x.title == cols[i]) me[i] = &x;
        if (!me[i] || std::isnan(value(op.at(i))) || value(op.at(i)) > me[i]->hi) fits = false;
      }
      if (!fits) continue;
      w.st->SetTolerances(value(op.at(0)), value(op.at(1)), value(op.at(2)));
      for (int i = 0; i < 3; ++i) { me[i]->lo = value(op.at(i)); me[i]->clo = fmt::color::green; me[i]->bounded = true; }
    }
    else if (op.name == "freq") { w.L().SetFrequency((int)op.at(0)); w.freq = (int)op.at(0); }
    else if (op.name == "clear" || op.name == "reset") {
      if (op.name == "reset" && w.st) {
        w.st->GetOptions().verbose = (LogLevel)op.at(0);
        w.st->GetOptions().header_frequency = (int)op.at(1);
        w.st->Reset();
        w.level = (int)op.at(0);
        w.freq = op.at(0) < (int)LogLevel::kInner ? (int)op.at(1) : std::numeric_limits<int>::max();
      } else w.L().Clear();
      Ig g;
      w.count = 0;
      for (auto& c : w.cols) c.data.clear();
    } else if (op.name == "hcolor") { w.L().SetHeaderColor(kColors[op.at(0) % 6]); w.hcolor = kColors[op.at(0) % 6]; }
    else if (op.name == "copy") {
      // 0: the original goes first, 1: it goes last, 2: copied over a logger in use
      if (w.st) {
        auto q = op.at(0) == 2 ? std::make_unique<SolverStats>() : std::make_unique<SolverStats>(*w.st);
        if (op.at(0) == 2) { q->Log("cost", 1.0); *q = *w.st; }
        if (op.at(0) == 1) w.olds.push_back(std::move(w.st));
        w.st = std::move(q);
      } else {
        auto q = op.at(0) == 2 ? std::make_unique<SolverLogger>() : std::make_unique<SolverLogger>(*w.lg);
        if (op.at(0) == 2) { q->AddEntry(0, std::string("other"), std::string("{}")); *q = *w.lg; }
        if (op.at(0) == 1) w.old.push_back(std::move(w.lg));
        w.lg = std::move(q);
      }
    } else if (op.name == "move") {
      if (w.st) {
        auto q = std::make_unique<SolverStats>(std::move(*w.st));
        if (op.at(0)) w.olds.push_back(std::move(w.st));
        w.st = std::move(q);
      } else {
        auto q = std::make_unique<SolverLogger>(std::move(*w.lg));
        if (op.at(0)) w.old.push_back(std::move(w.lg));
        w.lg = std::move(q);
      }
    }
    Ig g;
    if ((int)w.L().GetLevel() != w.level) sim_violation("console-level", "the level is %d instead of %d;", (int)w.L().GetLevel(), w.level);
  }
  Ig g;
  w.out(false);
}

// ------------------------------------------------------------------ problem definitions
namespace {
class Dyn : public problem::DiscreteDynamics {
 public:
  using DiscreteDynamics::Evaluate;
  Dyn(int n, int m) : n_(n), m_(m) {}
  int StateDimension() const override { return n_; }
  int ControlDimension() const override { return m_; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef&, const float, const float, Eigen::Ref<VectorXd> xn) override { xn = x; }
  void Jacobian(const VectorXdRef&, const VectorXdRef&, const float, const float, Eigen::Ref<MatrixXd> j) override { j.setIdentity(); }
  void Hessian(const VectorXdRef&, const VectorXdRef&, const float, const float, const VectorXdRef&, Eigen::Ref<MatrixXd> h) override { h.setZero(); }
  bool HasHessian() const override { return true; }
 private:
  int n_, m_;
};
class Cst : public problem::CostFunction {
 public:
  Cst(int n, int m) : n_(n), m_(m) {}
  int StateDimension() const override { return n_; }
  int ControlDimension() const override { return m_; }
  double Evaluate(const VectorXdRef&, const VectorXdRef&) override { return 0; }
  void Gradient(const VectorXdRef&, const VectorXdRef&, Eigen::Ref<VectorXd> dx, Eigen::Ref<VectorXd> du) override { dx.setZero(); du.setZero(); }
  void Hessian(const VectorXdRef&, const VectorXdRef&, Eigen::Ref<MatrixXd> a, Eigen::Ref<MatrixXd> b, Eigen::Ref<MatrixXd> c) override { a.setIdentity(); b.setZero(); c.setIdentity(); }
 private:
  int n_, m_;
};
template <class T>
class Con : public constraints::Constraint<T> {
 public:
  explicit Con(int p) : p_(p) {}
  int OutputDimension() const override { return p_; }
  int StateDimension() const override { return 2; }
  int ControlDimension() const override { return 1; }
  void Evaluate(const VectorXdRef&, const VectorXdRef&, Eigen::Ref<VectorXd> c) override { c.setZero(); }
  void Jacobian(const VectorXdRef&, const VectorXdRef&, Eigen::Ref<MatrixXd> j) override { j.setZero(); }
  std::string GetLabel() const override { return "con"; }
 private:
  int p_;
};
using constraints::Equality;
using constraints::Inequality;
struct DynM { std::shared_ptr<problem::DiscreteDynamics> p; int n = 0, m = 0; };
struct PModel {
  int N = 1;
  std::vector<DynM> dyn;
  std::vector<std::shared_ptr<problem::CostFunction>> cost;
  std::vector<double> x0;
  std::vector<std::vector<std::pair<const void*, int>>> eq, in;
  explicit PModel(int n = 1) : N(n), dyn(n), cost(n + 1), eq(n + 1), in(n + 1) {}
  bool full() const {
    for (auto& c : cost) if (!c) return false;
    for (auto& d : dyn) if (!d.p) return false;
    return !x0.empty() && dyn[0].n == (int)x0.size();
  }
};
using Prob = problem::Problem;
void check_problem(Prob& q, const PModel& m, bool verbose, const char* after) {
  bool full = q.IsFullyDefined(verbose);
  if (full != m.full()) sim_violation("validation-wrong", "after %s the problem is reported as %s defined;", after, full ? "fully" : "not fully");
  Ig g;
  if (q.NumSegments() != m.N) sim_violation("definition-lost", "after %s the problem has %d segments instead of %d;", after, q.NumSegments(), m.N);
  const VectorXd& x = q.GetInitialState();
  bool ok = x.size() == (long)m.x0.size();
  for (size_t i = 0; ok && i < m.x0.size(); ++i) ok = x((long)i) == m.x0[i];
  if (!ok) sim_violation("definition-lost", "after %s the initial state has %ld elements or other values, %zu were set;", after, (long)x.size(), m.x0.size());
  int total = 0;
  for (int k = 0; k <= m.N; ++k) {
    if (q.GetCostFunction(k) != m.cost[k]) sim_violation("definition-lost", "after %s knot point %d has another cost function;", after, k);
    if (k < m.N && m.dyn[k].p) if (q.GetDynamics(k) != m.dyn[k].p) sim_violation("definition-lost", "after %s knot point %d has other dynamics;", after, k);
    if (k == m.N && m.dyn[k - 1].p) {
      auto d = q.GetDynamics(k);
      if (!d || d->StateDimension() != m.dyn[k - 1].n || d->ControlDimension() != m.dyn[k - 1].m) sim_violation("definition-lost", "after %s the terminal knot point has other dimensions than the last segment;", after);
    }
    int cnt = 0;
    auto cmp = [&](auto& set, const std::vector<std::pair<const void*, int>>& want, const char* kind) {
      bool same = set.size() == want.size();
      for (size_t i = 0; same && i < want.size(); ++i) same = (const void*)set[i].get() == want[i].first;
      if (!same) sim_violation("definition-lost", "after %s knot point %d has %zu %s constraints or others than the %zu set;", after, k, set.size(), kind, want.size());
      for (auto& c : want) cnt += c.second;
    };
    cmp(q.GetEqualityConstraints().at(k), m.eq[k], "equality");
    cmp(q.GetInequalityConstraints().at(k), m.in[k], "inequality");
    if (q.NumConstraints(k) != cnt) sim_violation("count-wrong", "after %s knot point %d reports %d constraints instead of %d;", after, k, q.NumConstraints(k), cnt);
    total += cnt;
  }
  if (q.NumConstraints() != total) sim_violation("count-wrong", "after %s the problem reports %d constraints instead of %d;", after, q.NumConstraints(), total);
}
// runs f, which has to be refused by an assertion (or an exception)
template <class F> void must_refuse(F f, const char* what) {
  sim_probe(43);
  g_expect_abort = 1;
  try { f(); } catch (const std::exception&) { g_expect_abort = 0; return; }
  g_expect_abort = 0;
  sim_violation("not-refused", "%s was accepted;", what);
}
}  // namespace

void problem_gen(Rng& r, Plan& p) {
  p.cfg["fam"] = 6;
  int N = (int)(r.chance(0.7) ? r.range(1, 3) : r.range(4, 8));
  p.cfg["N"] = N;
  p.cfg["dims"] = r.chance(0.7) ? 0 : r.range(1, 3);   // how often dimensions vary
  int n = (int)r.range(2, 30);
  double complete = r.real();
  int base = r.chance(0.1) ? 1 : 2;   // states of one element only
  auto dim = [&]() { return p.cfg["dims"] && r.chance(0.2) ? r.range(1, 4) : base; };
  auto idx = [&](int hi) { return r.chance(0.004) ? (r.chance(0.5) ? -r.range(1, 3) : hi + r.range(1, 3)) : r.range(0, hi); };
  if (r.chance(complete)) p.ops.push_back(Item{"dyns", {0, N, base, 1, 0}});
  if (r.chance(complete)) p.ops.push_back(Item{"costs", {0, N + 1}});
  if (r.chance(complete)) p.ops.push_back(Item{"x0", {base, r.range(1, 100)}});
  auto one = [&]() {
    switch (r.pick({5, 4, 2, 1, 1, 4, 1.5, 2, 1.5})) {
      case 0: p.ops.push_back(Item{"dyn", {idx(N - 1), r.chance(0.006) ? 0 : dim(), r.chance(0.9) ? 1 : r.range(1, 2)}}); break;
      case 1: p.ops.push_back(Item{"cost", {idx(N), r.chance(0.15)}}); break;
      case 2: p.ops.push_back(Item{"x0", {r.chance(0.2) ? 0 : dim(), r.range(1, 100)}}); break;
      case 3: { int64_t k = r.range(0, N - 1); p.ops.push_back(Item{"dyns", {k, r.range(1, N - k), dim(), 1, 0}}); break; }
      case 4: { int64_t k = r.range(0, N); p.ops.push_back(Item{"costs", {k, r.range(1, N + 1 - k)}}); break; }
      case 5: p.ops.push_back(Item{"con", {idx(N), r.range(0, 1), r.chance(0.008) ? 0 : r.range(1, 4)}}); break;
      case 6: p.ops.push_back(Item{"copy", {r.range(0, 3), r.range(0, 1), r.range(1, 6)}}); break;
      case 7: p.ops.push_back(Item{"check", {r.range(0, 1)}}); break;
      default: p.ops.push_back(Item{"solver", {r.range(0, 3)}}); break;
    }
  };
  for (int i = 0; i < n; ++i) {
    if (r.chance(0.25)) p.ops.push_back(Item{"oom", {r.range(1, 6)}});
    one();
  }
  if (r.chance(0.02)) p.ops.push_back(Item{"null", {r.range(0, 2)}});
}

void problem_run(const Plan& p) {
  int N = (int)std::max<int64_t>(1, p.c("N", 2));
  auto q = std::make_unique<Prob>(N);
  std::vector<std::unique_ptr<Prob>> old;
  PModel m(N);
  long oom = 0;
  // an operation during which an allocation may fail: false if it did and nothing may have changed
  auto attempt = [&](auto f) {
    bool done = true;
    if (oom) sim_fail_alloc(oom, -1);
    try { f(); } catch (const std::bad_alloc&) { done = false; }
    sim_fail_alloc(0, -1);
    oom = 0;
    if (!done) sim_probe(44);
    return done;
  };
  for (auto& op : p.ops) {
    const char* what = op.name.c_str();
    if (op.name == "oom") { oom = (long)op.at(0); continue; }
    if (op.name == "dyn") {
      int k = (int)op.at(0), n = (int)op.at(1), mm = (int)op.at(2);
      std::shared_ptr<problem::DiscreteDynamics> d;
      { Ig g; d = std::make_shared<Dyn>(n, mm); }
      if (k < 0 || k >= m.N) { must_refuse([&]() { q->SetDynamics(d, k); }, "setting dynamics at a knot point that does not exist"); continue; }
      if (n < 1) { if (k == m.N - 1) must_refuse([&]() { q->SetDynamics(d, k); }, "setting last dynamics without states"); continue; }
      bool ok = attempt([&]() { q->SetDynamics(d, k); });
      Ig g;
      // the dimensions of the terminal knot point follow the last dynamics
      if (ok) m.dyn[k] = DynM{d, n, mm};
    } else if (op.name == "dyns") {
      int k = (int)op.at(0), c = (int)std::min<int64_t>(op.at(1), m.N - k);
      if (k < 0 || c < 0) continue;
      std::vector<std::shared_ptr<Dyn>> v;
      { Ig g; for (int i = 0; i < c; ++i) v.push_back(std::make_shared<Dyn>((int)std::max<int64_t>(1, op.at(2)), (int)std::max<int64_t>(1, op.at(3)))); }
      bool ok = attempt([&]() { if (k == 0) q->SetDynamics(v); else q->SetDynamics(v, k); });
      Ig g;
      if (ok)
      for (int i = 0; i < c; ++i) m.dyn[k + i] = DynM{v[i], v[i]->StateDimension(), v[i]->ControlDimension()};
    } else if (op.name == "cost") {
      int k = (int)op.at(0);
      std::shared_ptr<problem::CostFunction> c;
      if (!op.at(1)) { Ig g; c = std::make_shared<Cst>(2, 1); }
      if (k < 0 || k > m.N) { must_refuse([&]() { q->SetCostFunction(c, k); }, "setting a cost function at a knot point that does not exist"); continue; }
      if (attempt([&]() { q->SetCostFunction(c, k); })) { Ig g; m.cost[k] = c; }
    } else if (op.name == "costs") {
      int k = (int)op.at(0), c = (int)std::min<int64_t>(op.at(1), m.N + 1 - k);
      if (k < 0 || c < 0) continue;
      std::vector<std::shared_ptr<Cst>> v;
      { Ig g; for (int i = 0; i < c; ++i) v.push_back(std::make_shared<Cst>(2, 1)); }
      bool ok = attempt([&]() { if (k == 0) q->SetCostFunction(v); else q->SetCostFunction(v, k); });
      Ig g;
      if (ok)
      for (int i = 0; i < c; ++i) m.cost[k + i] = v[i];
    } else if (op.name == "x0") {
      VectorXd x;
      { Ig g; x = VectorXd::Zero((int)op.at(0)); for (int i = 0; i < x.size(); ++i) x(i) = op.at(1) + i; }
      bool ok = attempt([&]() { q->SetInitialState(x); });
      Ig g;
      if (ok) { m.x0.clear(); for (int i = 0; i < x.size(); ++i) m.x0.push_back(x(i)); }
    } else if (op.name == "con") {
      int k = (int)op.at(0), d = (int)op.at(2);
      auto add = [&](auto con, auto& set) {
        if (k < 0 || k > m.N) { must_refuse([&]() { q->SetConstraint(con, k); }, "setting a constraint at a knot point that does not exist"); return; }
        if (d < 1) { must_refuse([&]() { q->SetConstraint(con, k); }, "setting an empty constraint"); return; }
        if (attempt([&]() { q->SetConstraint(con, k); })) { Ig g; set[k].push_back({con.get(), d}); }
      };
      if (op.at(1)) { std::shared_ptr<constraints::Constraint<Equality>> c; { Ig g; c = std::make_shared<Con<Equality>>(d); } add(c, m.eq); }
      else { std::shared_ptr<Con<Inequality>> c; { Ig g; c = std::make_shared<Con<Inequality>>(d); } add(c, m.in); }
    } else if (op.name == "null") {
      switch (op.at(0)) {
        case 0: must_refuse([&]() { q->SetDynamics(nullptr, 0); }, "setting null dynamics"); break;
        case 1: must_refuse([&]() { q->SetConstraint(std::shared_ptr<constraints::Constraint<Equality>>(), 0); }, "setting a null constraint"); break;
        default: must_refuse([&]() { q->SetConstraint(std::shared_ptr<constraints::Constraint<Inequality>>(), 0); }, "setting a null constraint"); break;
      }
    } else if (op.name == "copy") {
      std::unique_ptr<Prob> c;
      bool ok = true;
      PModel mc((int)std::max<int64_t>(1, op.at(2)));
      if (op.at(0) >= 2) {
        // an assignment that fails must not change what it would have replaced
        c = std::make_unique<Prob>(mc.N);
        if (op.at(2) % 2) {
          c->SetInitialState(VectorXd::Constant(2, 7.0));
          std::shared_ptr<problem::CostFunction> f;
          std::shared_ptr<Con<Inequality>> con;
          std::shared_ptr<problem::DiscreteDynamics> d;
          { Ig g; f = std::make_shared<Cst>(2, 1); con = std::make_shared<Con<Inequality>>(2); d = std::make_shared<Dyn>(2, 1); }
          c->SetCostFunction(f, mc.N);
          c->SetConstraint(con, 0);
          c->SetDynamics(d, mc.N - 1);
          Ig g;
          mc.x0 = {7.0, 7.0};
          mc.cost[mc.N] = f;
          mc.in[0].push_back({con.get(), 2});
          mc.dyn[mc.N - 1] = DynM{d, 2, 1};
        }
      }
      switch (op.at(0)) {
        case 0: ok = attempt([&]() { c = std::make_unique<Prob>(*q); }); break;
        case 1: c = std::make_unique<Prob>(std::move(*q)); break;
        case 2: ok = attempt([&]() { *c = *q; }); break;
        default: ok = attempt([&]() { *c = std::move(*q); }); break;
      }
      if (!ok) {
        what = "a copy that failed";
        if (c) check_problem(*c, mc, false, "an assignment that failed");
      }
      else {
        if (op.at(0) == 0 || op.at(0) == 2) {   // the copy is independent of the original
          q->SetInitialState(VectorXd::Zero(3));
          q->SetCostFunction(nullptr, 0);
        }
        if (op.at(1)) old.push_back(std::move(q));
        q = std::move(c);
        sim_probe(45);
      }
    } else if (op.name == "solver") {
      bool al = op.at(0) & 1;
      auto make = [&]() {
        if (op.at(0) & 2) {
          if (al) augmented_lagrangian::AugmentedLagrangianiLQR<2, 1> s(*q);
          else ilqr::iLQR<2, 1> s(*q);
        } else {
          if (al) augmented_lagrangian::AugmentedLagrangianiLQR<Eigen::Dynamic, Eigen::Dynamic> s(*q);
          else ilqr::iLQR<Eigen::Dynamic, Eigen::Dynamic> s(*q);
        }
      };
      bool fits = true;
      if (op.at(0) & 2) for (auto& d : m.dyn) fits = fits && d.p && d.n == 2 && d.m == 1;
      // (the last of them are not asked: an assertion ends the process)
      if (!m.full()) { must_refuse(make, "making a solver for a problem that is not fully defined"); continue; }
      if (!fits) { must_refuse(make, "making a solver of other dimensions"); continue; }
      attempt(make);
      what = "making a solver";
    }
    if (op.name != "check" && p.seed % 3) { if (op.name == "solver" || op.name == "copy") check_problem(*q, m, false, what); continue; }
    check_problem(*q, m, op.at(0), what);
  }
  check_problem(*q, m, false, "the last operation");
  q.reset();
  old.clear();
  if (sim_live_threads() != 1) sim_violation("thread-left", "threads are alive;");
}
}  // namespace ss
