// Problems, user functions and solver handles for the solver scenarios.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstring>
#include <limits>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include "altro/augmented_lagrangian/al_solver.hpp"
#include "altro/constraints/constraint.hpp"
#include "altro/ilqr/ilqr.hpp"
#include "altro/problem/discretized_model.hpp"
#include "altro/problem/problem.hpp"
#include "examples/unicycle.hpp"
#include "plan.h"
#include "rec.h"
#include "sim.h"

namespace ss {
using namespace altro;
using constraints::Equality;
using constraints::Inequality;
constexpr int NX = 3, NU = 2;

struct Ign {   // harness code: no simulated steps, no preemption, no race detection, no allocation faults
  Ign() { sim_ignore(1); sim_suppress_faults(1); }
  ~Ign() { sim_suppress_faults(-1); sim_ignore(-1); }
};

// ------------------------------------------------------------------ problem specification
struct Spec {
  int N = 4, model = 0, integ = 0, cost = 0, con = 0, dyn = 0, al = 1, grid = 0;
  double dt = 0.1, q = 1, r = 0.1, qf = 10, ub = 2.0, obr = 0.3;
  double cliff = 0;   // |x0| beyond which the dynamics misbehave (0: off)
  int cliffk = 0;     // 1 NaN dynamics, 2 diverging dynamics, 3 NaN constraint, 4 NaN cost, 5 huge finite cost
  double xf[3] = {1, 0.5, 0.3};
  explicit Spec(const Plan& p) {
    N = (int)p.c("N", 4); model = (int)p.c("model"); integ = (int)p.c("integ"); cost = (int)p.c("cost");
    con = (int)p.c("con"); dyn = (int)p.c("dyn"); al = (int)p.c("al", 1); grid = (int)p.c("grid");
    dt = p.c("dt", 100) / 1000.0; q = p.c("q", 1000) / 1000.0; r = p.c("r", 100) / 1000.0; qf = p.c("qf", 10000) / 1000.0;
    ub = p.c("ub", 2000) / 1000.0; obr = p.c("obr", 300) / 1000.0; cliff = p.c("cliff") / 1000.0; cliffk = (int)p.c("cliffk");
    if (N < 1) N = 1;
    if (N > 60) N = 60;
    if (dt <= 0) dt = 0.1;
    if (r <= 0) r = 0.001;
    if (q < 0) q = 0;
    if (qf < 0) qf = 0;
    Rng g((uint64_t)p.c("pseed", 1) + 77);
    for (double& v : xf) v = g.real() * 2 - 0.5;
  }
  float step(int k) const { return k >= N ? 0.0f : (float)(dt * (grid ? 1 + 0.3 * (k % 3) : 1)); }
  bool cliffed(const VectorXdRef& x) const { return cliff > 0 && std::abs(x(0)) > cliff; }
};

// ------------------------------------------------------------------ recording and faults
struct UserError : std::runtime_error { using std::runtime_error::runtime_error; };
struct OddError { int func, knot; unsigned call; };
inline const char* fn_name(int f) {
  static const char* n[] = {"dynamics", "dynamics-jacobian", "cost", "cost-gradient", "cost-hessian", "constraint", "constraint-jacobian", "task"};
  return n[f];
}
struct Enter {   // one call of a user function
  RecCtx* c; int f, k, act = 0; int64_t prm = 0; bool open = false;
  Enter(RecCtx* c, int f, int k) : c(c), f(f), k(k) {}
  ~Enter() { if (open) rec_exit(c, f, k); }
  int go() {
    if (!c) return 0;
    int64_t stall = 0;
    act = rec_enter(c, f, k, &prm, &stall);
    open = true;
    if (stall) {
      sim_fault_fired(F_STALL);
      sim_sleep((uint64_t)stall);
    }
    unsigned call = c->calls[f][k];
    if (act == ACT_THROW) {
      sim_fault_fired(F_THROW);
      if (prm == 1) throw (int)(f * 10000 + k * 100 + call);
      if (prm == 2) throw OddError{f, k, call};
      if (prm == 3) throw std::bad_alloc();
      throw UserError(std::string(fn_name(f)) + " at knot " + std::to_string(k) + " call " + std::to_string(call));
    }
    if (act == ACT_NAN) sim_fault_fired(F_NAN);
    if (act == ACT_INDEF) sim_fault_fired(F_INDEFINITE);
    if (act == ACT_HUGE) sim_fault_fired(F_DIVERGE);
    return act;
  }
};
const double kNaN = std::numeric_limits<double>::quiet_NaN();

// ------------------------------------------------------------------ dynamics
class Model1 : public problem::ContinuousDynamics {   // nonlinear, time varying
 public:
  static constexpr int NStates = 3;
  static constexpr int NControls = 2;
  int StateDimension() const override { return 3; }
  int ControlDimension() const override { return 2; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, const float t, Eigen::Ref<VectorXd> xd) override {
    double x0 = x(0), x1 = x(1), x2 = x(2);
    xd(0) = x1;
    xd(1) = -std::sin(x0) + u(0) - 0.1 * x1 + 0.2 * t;
    xd(2) = u(1) - x2 + 0.3 * x0 * x1;
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, const float t, Eigen::Ref<MatrixXd> j) override {
    double x0 = x(0), x1 = x(1);
    j.setZero();
    j(0, 1) = 1;
    j(1, 0) = -std::cos(x0); j(1, 1) = -0.1; j(1, 3) = 1;
    j(2, 0) = 0.3 * x1; j(2, 1) = 0.3 * x0; j(2, 2) = -1; j(2, 4) = 1;
  }
  void Hessian(const VectorXdRef&, const VectorXdRef&, const float, const VectorXdRef&, Eigen::Ref<MatrixXd> h) override { h.setZero(); }
  bool HasHessian() const override { return false; }
};
class Model2 : public Model1 {   // unstable, bilinear
 public:
  static constexpr int NStates = 3;
  static constexpr int NControls = 2;
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, const float, Eigen::Ref<VectorXd> xd) override {
    double x0 = x(0), x1 = x(1), x2 = x(2);
    xd(0) = 3 * x0 + u(0);
    xd(1) = 2 * x1 + u(1);
    xd(2) = x0 * x1 - x2 + 0.5 * u(0) * u(1);
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, const float, Eigen::Ref<MatrixXd> j) override {
    double x0 = x(0), x1 = x(1), u0 = u(0), u1 = u(1);
    j.setZero();
    j(0, 0) = 3; j(0, 3) = 1;
    j(1, 1) = 2; j(1, 4) = 1;
    j(2, 0) = x1; j(2, 1) = x0; j(2, 2) = -1; j(2, 3) = 0.5 * u1; j(2, 4) = 0.5 * u0;
  }
};
// A discrete model of the user's own (forward Euler written by hand)
template <class M>
class OwnDiscrete : public problem::DiscreteDynamics {
 public:
  using DiscreteDynamics::Evaluate;
  int StateDimension() const override { return 3; }
  int ControlDimension() const override { return 2; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, const float t, const float h, Eigen::Ref<VectorXd> xn) override {
    m_.Evaluate(x, u, t, tmp_);
    for (int i = 0; i < 3; ++i) xn(i) = x(i) + h * tmp_(i);
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, const float t, const float h, Eigen::Ref<MatrixXd> j) override {
    m_.Jacobian(x, u, t, jt_);
    for (int r = 0; r < 3; ++r) for (int c = 0; c < 5; ++c) j(r, c) = h * jt_(r, c) + (r == c ? 1.0 : 0.0);
  }
  void Hessian(const VectorXdRef&, const VectorXdRef&, const float, const float, const VectorXdRef&, Eigen::Ref<MatrixXd> h) override { h.setZero(); }
  bool HasHessian() const override { return false; }
 private:
  M m_;
  VectorXd tmp_ = VectorXd::Zero(3);
  MatrixXd jt_ = MatrixXd::Zero(3, 5);
};
template <class M>
std::shared_ptr<problem::DiscreteDynamics> make_disc(int integ) {
  if (integ == 0) return std::make_shared<problem::DiscretizedModel<M>>(M());
  if (integ == 1) return std::make_shared<problem::DiscretizedModel<M, problem::ExplicitEuler>>(M());
  return std::make_shared<OwnDiscrete<M>>();
}
inline std::shared_ptr<problem::DiscreteDynamics> make_disc(const Spec& s) {
  if (s.model == 1) return make_disc<Model1>(s.integ);
  if (s.model == 2) return make_disc<Model2>(s.integ);
  return make_disc<examples::Unicycle>(s.integ);
}
class RecDyn : public problem::DiscreteDynamics {
 public:
  using DiscreteDynamics::Evaluate;
  RecDyn(const Spec& s, int k, RecCtx* rec) : s_(s), k_(k), rec_(rec), in_(make_disc(s)) {}
  int StateDimension() const override { return 3; }
  int ControlDimension() const override { return 2; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, const float t, const float h, Eigen::Ref<VectorXd> xn) override {
    Enter e(rec_, FN_DYN, k_);
    int act = e.go();
    in_->Evaluate(x, u, t, h, xn);
    if (s_.cliffed(x)) {
      if (s_.cliffk == 1) { xn(0) = kNaN; if (rec_) sim_fault_fired(F_NAN); }
      if (s_.cliffk == 2) { xn *= 1e10; if (rec_) sim_fault_fired(F_DIVERGE); }
    }
    if (act == ACT_HUGE) xn *= 1e12;
    if (act == ACT_NAN) xn(1) = kNaN;
    if (rec_ && rec_->calls[FN_COSTHESS][0] > 0) rec_norms(rec_, xn.norm(), u.norm());
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, const float t, const float h, Eigen::Ref<MatrixXd> j) override {
    Enter e(rec_, FN_DYNJAC, k_);
    int act = e.go();
    in_->Jacobian(x, u, t, h, j);
    if (act == ACT_NAN) j(1, 1) = kNaN;
    if (act == ACT_HUGE) j(0, 0) = 1e12;
  }
  void Hessian(const VectorXdRef&, const VectorXdRef&, const float, const float, const VectorXdRef&, Eigen::Ref<MatrixXd> h) override { h.setZero(); }
  bool HasHessian() const override { return false; }
 private:
  Spec s_; int k_; RecCtx* rec_;
  std::shared_ptr<problem::DiscreteDynamics> in_;
};

// ------------------------------------------------------------------ cost
inline double cost_val(const Spec& s, int k, const VectorXdRef& x, const VectorXdRef& u) {
  double w = k == s.N ? s.qf : s.q, J = 0;
  for (int i = 0; i < 3; ++i) { double d = x(i) - s.xf[i]; J += 0.5 * w * d * d; }
  if (k < s.N) for (int i = 0; i < 2; ++i) J += 0.5 * s.r * u(i) * u(i);
  if (s.cost & 1) J += 0.05 * x(1) * x(1) * x(1) * x(1);
  if (s.cost & 2) J += 1.5 * std::cos(2 * x(0));
  if ((s.cost & 4) && k < s.N) J += 0.1 * x(0) * u(0) + 0.2 * std::cos(3 * u(1));
  if (s.cost & 8) J += 0.3;   // a constant that is not zero at the optimum
  if (s.cliffed(x)) { if (s.cliffk == 4) J = kNaN; if (s.cliffk == 5) J += 1e200; }
  return J;
}
class RecCost : public problem::CostFunction {
 public:
  RecCost(const Spec& s, int k, RecCtx* rec) : s_(s), k_(k), rec_(rec) {}
  int StateDimension() const override { return 3; }
  int ControlDimension() const override { return 2; }
  double Evaluate(const VectorXdRef& x, const VectorXdRef& u) override {
    Enter e(rec_, FN_COST, k_);
    int act = e.go();
    double J = cost_val(s_, k_, x, u);
    if (act == ACT_NAN) J = kNaN;
    if (act == ACT_HUGE) J = 1e300;
    return J;
  }
  void Gradient(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> dx, Eigen::Ref<VectorXd> du) override {
    Enter e(rec_, FN_COSTGRAD, k_);
    int act = e.go();
    double w = k_ == s_.N ? s_.qf : s_.q;
    for (int i = 0; i < 3; ++i) dx(i) = w * (x(i) - s_.xf[i]);
    for (int i = 0; i < 2; ++i) du(i) = k_ < s_.N ? s_.r * u(i) : 0.0;
    if (s_.cost & 1) dx(1) += 0.2 * x(1) * x(1) * x(1);
    if (s_.cost & 2) dx(0) += -3.0 * std::sin(2 * x(0));
    if ((s_.cost & 4) && k_ < s_.N) { dx(0) += 0.1 * u(0); du(0) += 0.1 * x(0); du(1) += -0.6 * std::sin(3 * u(1)); }
    if (act == ACT_NAN) dx(0) = kNaN;
    if (act == ACT_HUGE) du(0) = 1e12;
  }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> dxdx, Eigen::Ref<MatrixXd> dxdu, Eigen::Ref<MatrixXd> dudu) override {
    Enter e(rec_, FN_COSTHESS, k_);
    int act = e.go();
    double w = k_ == s_.N ? s_.qf : s_.q;
    if (rec_ && k_ == 0) { rec_->max_state = 0; rec_->max_control = 0; }   // a new iteration begins
    dxdx.setZero(); dxdu.setZero(); dudu.setZero();
    for (int i = 0; i < 3; ++i) dxdx(i, i) = w;
    for (int i = 0; i < 2; ++i) dudu(i, i) = k_ < s_.N ? s_.r : 0.0;
    if (s_.cost & 1) dxdx(1, 1) += 0.6 * x(1) * x(1);
    if (s_.cost & 2) dxdx(0, 0) += -6.0 * std::cos(2 * x(0));
    if ((s_.cost & 4) && k_ < s_.N) { dxdu(0, 0) += 0.1; dudu(1, 1) += -1.8 * std::cos(3 * u(1)); }
    if (act == ACT_NAN) dudu(0, 0) = kNaN;
    if (act == ACT_INDEF) for (int i = 0; i < 2; ++i) dudu(i, i) = -(e.prm > 0 ? (double)e.prm : 1e30);
    if (act == ACT_HUGE) dxdx(0, 0) = 1e14;
  }
 private:
  Spec s_; int k_; RecCtx* rec_;
};

// ------------------------------------------------------------------ constraints
enum { CON_GOAL = 1, CON_BOUND = 2, CON_OBST = 4, CON_EQMID = 8, CON_XLIM = 16 };
struct ConDef { int kind; bool eq; int p; };
inline std::vector<ConDef> cons_at(const Spec& s, int k) {   // equalities first, as stored by the solver
  std::vector<ConDef> v;
  if (!s.al) return v;
  if ((s.con & CON_GOAL) && k == s.N) v.push_back({CON_GOAL, true, 3});
  if ((s.con & CON_EQMID) && k < s.N && k % 2 == 1) v.push_back({CON_EQMID, true, 1});
  if ((s.con & CON_BOUND) && k < s.N) v.push_back({CON_BOUND, false, 4});
  if ((s.con & CON_OBST) && k > 0) v.push_back({CON_OBST, false, 1});
  if ((s.con & CON_XLIM) && k > 0 && k % 3 == 0) v.push_back({CON_XLIM, false, 2});
  return v;
}
inline void con_val(const Spec& s, int kind, const VectorXdRef& x, const VectorXdRef& u, double* c) {
  switch (kind) {
    case CON_GOAL: for (int i = 0; i < 3; ++i) c[i] = x(i) - s.xf[i] * 0.9; break;
    case CON_EQMID: c[0] = u(0) - 0.3 * x(2) * x(2) - 0.1; break;
    case CON_BOUND: for (int i = 0; i < 2; ++i) { c[i] = u(i) - s.ub; c[i + 2] = -u(i) - s.ub; } break;
    case CON_OBST: { double a = x(0) - 0.4, b = x(1) - 0.3; c[0] = s.obr * s.obr - a * a - b * b; break; }
    case CON_XLIM: c[0] = x(1) - 1.1; c[1] = -x(1) - 1.1; break;
  }
  if (s.cliffk == 3 && s.cliffed(x)) c[0] = kNaN;
}
template <class T>
class RecCon : public constraints::Constraint<T> {
 public:
  RecCon(const Spec& s, ConDef d, int k, RecCtx* rec) : s_(s), d_(d), k_(k), rec_(rec) {}
  int OutputDimension() const override { return d_.p; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> c) override {
    Enter e(rec_, FN_CON, k_);
    int act = e.go();
    double v[4];
    con_val(s_, d_.kind, x, u, v);
    for (int i = 0; i < d_.p; ++i) c(i) = v[i];
    if (s_.cliffk == 3 && s_.cliffed(x) && rec_) sim_fault_fired(F_NAN);
    if (act == ACT_NAN) c(0) = kNaN;
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> j) override {
    Enter e(rec_, FN_CONJAC, k_);
    int act = e.go();
    j.setZero();
    switch (d_.kind) {
      case CON_GOAL: for (int i = 0; i < 3; ++i) j(i, i) = 1; break;
      case CON_EQMID: j(0, 3) = 1; j(0, 2) = -0.6 * x(2); break;
      case CON_BOUND: for (int i = 0; i < 2; ++i) { j(i, 3 + i) = 1; j(i + 2, 3 + i) = -1; } break;
      case CON_OBST: j(0, 0) = -2 * (x(0) - 0.4); j(0, 1) = -2 * (x(1) - 0.3); break;
      case CON_XLIM: j(0, 1) = 1; j(1, 1) = -1; break;
    }
    if (act == ACT_NAN) j(0, 0) = kNaN;
  }
  std::string GetLabel() const override { return "con" + std::to_string(d_.kind); }
 private:
  Spec s_; ConDef d_; int k_; RecCtx* rec_;
};

inline void build_problem(const Spec& s, RecCtx* rec, problem::Problem* p) {
  for (int k = 0; k < s.N; ++k) p->SetDynamics(std::make_shared<RecDyn>(s, k, rec), k);
  for (int k = 0; k <= s.N; ++k) {
    p->SetCostFunction(std::make_shared<RecCost>(s, k, rec), k);
    for (auto& d : cons_at(s, k)) {
      if (d.eq) p->SetConstraint(std::make_shared<RecCon<Equality>>(s, d, k, rec), k);
      else p->SetConstraint(std::make_shared<RecCon<Inequality>>(s, d, k, rec), k);
    }
  }
}

// ------------------------------------------------------------------ options
// The option values are drawn from a seed; 0 gives the defaults with small limits.
inline void set_options(SolverOptions& o, uint64_t seed, int tight) {
  SolverOptions d;
  d.max_iterations_inner = 4;
  d.max_iterations_outer = 2;
  d.max_iterations_total = 8;
  if (seed) {
    Rng r(seed * 7919 + 13);
    d.max_iterations_inner = (int)r.range(1, tight ? 6 : 12);
    d.max_iterations_outer = (int)r.range(1, 4);
    d.max_iterations_total = (int)r.range(1, tight ? 12 : 24);
    static const double ct[] = {1e-4, 1e-1, 1e-8, 10}; d.cost_tolerance = ct[r.pick({4, 2, 1, 1})];
    static const double gt[] = {1e-2, 1, 1e-5, 10}; d.gradient_tolerance = gt[r.pick({4, 2, 1, 1})];
    static const double vt[] = {1e-4, 1e-2, 0.5, 1e-9}; d.constraint_tolerance = vt[r.pick({3, 2, 2, 1})];
    static const double ip[] = {1, 10, 0.1, 100}; d.initial_penalty = ip[r.pick({4, 2, 1, 1})];
    static const double mp[] = {1e8, 50, 5}; d.maximum_penalty = mp[r.pick({5, 1, 1})];
    static const double ri[] = {0, 1e-3, 1}; d.bp_reg_initial = ri[r.pick({5, 1, 1})];
    static const double rn[] = {1e-8, 1e-3, 0}; d.bp_reg_min = rn[r.pick({6, 1, 1})];
    static const double rm[] = {1e8, 10, 1e3}; d.bp_reg_max = rm[r.pick({5, 1, 1})];
    static const int ft[] = {100, 3, 1, 0}; d.bp_reg_fail_threshold = ft[r.pick({4, 2, 1, 1})];
    static const double sm[] = {1e8, 5, 2, 1}; d.state_max = sm[r.pick({5, 1, 1, 1})];
    static const double cm[] = {1e8, 5, 2, 1}; d.control_max = cm[r.pick({5, 1, 1, 1})];
    d.check_forwardpass_bounds = r.chance(0.85);
    static const int ls[] = {20, 6, 2, 1, 0}; d.line_search_max_iterations = ls[r.pick({4, 3, 2, 2, 0.3})];
    static const double ll[] = {1e-8, 0.3, 0.9, 0, -2}; d.line_search_lower_bound = ll[r.pick({5, 1, 1, 0.5, 0.5})];
    static const double lu[] = {10, 1.5}; d.line_search_upper_bound = lu[r.pick({5, 1})];
    static const double ld[] = {2, 4, 1.5}; d.line_search_decrease_factor = ld[r.pick({4, 1, 1})];
    static const double rf[] = {1.6, 10, 2, 1}; d.bp_reg_increase_factor = rf[r.pick({4, 1, 1, 0.4})];
    if (r.chance(0.02)) d.max_iterations_inner = 0;
    d.bp_reg_enable = !r.chance(0.06);
  }
  d.nthreads = o.nthreads;
  d.tasks_per_thread = o.tasks_per_thread;
  d.log_directory = o.log_directory;
  d.profile_filename = o.profile_filename;
  d.verbose = o.verbose;
  d.header_frequency = o.header_frequency;
  d.profiler_enable = o.profiler_enable;
  d.profiler_output_to_file = o.profiler_output_to_file;
  o = d;
}

// ------------------------------------------------------------------ results
struct Res {
  int threw = 0;
  std::string what;
  int status = -1, it_in = 0, it_out = 0, it_tot = 0;
  double initial_cost = 0;
  std::vector<double> series[8];
  std::vector<double> X, U, T, H, duals, pens;
};
inline const char* series_name(int i) {
  static const char* n[] = {"cost", "alpha", "improvement_ratio", "gradient", "cost_decrease", "regularization", "violations", "max_penalty"};
  return n[i];
}
inline bool same(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0 || (std::isnan(a) && std::isnan(b)); }
inline std::string vdiff(const char* nm, const std::vector<double>& a, const std::vector<double>& b) {
  char s[200];
  if (a.size() != b.size()) { snprintf(s, sizeof s, "%s has %zu entries instead of %zu", nm, a.size(), b.size()); return s; }
  for (size_t i = 0; i < a.size(); ++i)
    if (!same(a[i], b[i])) { snprintf(s, sizeof s, "%s[%zu] is %.17g instead of %.17g", nm, i, a[i], b[i]); return s; }
  return "";
}
// "" if equal, else the first difference (got a, expected b)
inline std::string rdiff(const Res& a, const Res& b, bool with_stats = true) {
  char s[300];
  if (a.threw != b.threw) { snprintf(s, sizeof s, "the solve %s (%s) instead of %s (%s)", a.threw ? "threw" : "returned", a.what.c_str(), b.threw ? "throwing" : "returning", b.what.c_str()); return s; }
  if (a.threw) return a.what == b.what ? "" : "the solve threw '" + a.what + "' instead of '" + b.what + "'";
  std::string d;
  if (a.status != b.status) { snprintf(s, sizeof s, "the status is %d instead of %d", a.status, b.status); return s; }
  if (a.it_tot != b.it_tot || a.it_out != b.it_out || a.it_in != b.it_in) { snprintf(s, sizeof s, "the iterations (inner, outer, total) are %d %d %d instead of %d %d %d", a.it_in, a.it_out, a.it_tot, b.it_in, b.it_out, b.it_tot); return s; }
  if ((d = vdiff("control", a.U, b.U)) != "") return d;
  if ((d = vdiff("state", a.X, b.X)) != "") return d;
  if ((d = vdiff("time", a.T, b.T)) != "" || (d = vdiff("step", a.H, b.H)) != "") return d;
  if ((d = vdiff("multiplier", a.duals, b.duals)) != "" || (d = vdiff("penalty", a.pens, b.pens)) != "") return d;
  if (with_stats) {
    if (!same(a.initial_cost, b.initial_cost)) { snprintf(s, sizeof s, "the initial cost is %.17g instead of %.17g", a.initial_cost, b.initial_cost); return s; }
    for (int i = 0; i < 8; ++i) if ((d = vdiff(series_name(i), a.series[i], b.series[i])) != "") return d;
  }
  return "";
}
inline std::string status_name(int s) {
  static const char* n[] = {"Solved", "Unsolved", "StateLimit", "ControlLimit", "CostIncrease", "MaxIterations", "MaxOuterIterations", "MaxInnerIterations", "MaxPenalty", "BackwardPassRegularizationFailed"};
  return s >= 0 && s < 10 ? n[s] : std::to_string(s);
}

// ------------------------------------------------------------------ a solver for one problem
struct Guess { uint64_t x0 = 0, u = 0; bool keep = false; int newtraj = 0; double gscale = 1; };
inline void guess_x0(const Spec& s, uint64_t seed, double* x) {
  Rng r(seed + 5);
  for (int i = 0; i < 3; ++i) x[i] = seed ? (r.real() - 0.5) * (r.chance(0.1) ? 6 : 1.5) : 0.0;
  (void)s;
}
template <int n, int m>
struct Sol {
  using Traj = Trajectory<n, m>;
  using AL = augmented_lagrangian::AugmentedLagrangianiLQR<n, m>;
  using IL = ilqr::iLQR<n, m>;
  Spec sp;
  RecCtx* rec;
  std::unique_ptr<problem::Problem> prob;
  std::unique_ptr<AL> al;
  std::unique_ptr<IL> il;
  std::shared_ptr<Traj> Z;
  double x0[3] = {0, 0, 0};
  double gs = 1;
  int build;   // how the solver is made: 0 from the problem, 1 empty and initialised, 2 in two pieces (iLQR); + 4: the solver makes the trajectory
  Sol(const Spec& s, RecCtx* rec, bool make = true, int build = 0) : sp(s), rec(rec), build(build) {
    prob = std::make_unique<problem::Problem>(s.N);
    double x[3];
    guess_x0(s, 0, x);
    prob->SetInitialState(Eigen::Vector3d(x[0], x[1], x[2]));
    build_problem(s, rec, prob.get());
    if (make) make_solver();
  }
  void make_solver() {
    const int b = build & 3;
    if (sp.al) {
      if (b == 0) al = std::make_unique<AL>(*prob);
      else { al = std::make_unique<AL>(sp.N); al->InitializeFromProblem(*prob); }
    } else {
      if (b == 0) il = std::make_unique<IL>(*prob);
      else if (b == 1) { il = std::make_unique<IL>(sp.N); il->InitializeFromProblem(*prob); }
      else {
        il = std::make_unique<IL>(sp.N);
        const int k = (int)((build >> 3) % (sp.N + 1));
        {
          problem::Problem first(*prob);
          il->CopyFromProblem(first, 0, k);
        }
        il->CopyFromProblem(*prob, k, sp.N + 1);
      }
      const double v = sp.N * 0.125;
      il->SetConstraintCallback([v]() -> double { return v; });
    }
    new_traj();
  }
  IL& I() { return al ? al->GetiLQRSolver() : *il; }
  SolverStats& stats() { return I().GetStats(); }
  SolverOptions& opts() { return I().GetOptions(); }
  static std::shared_ptr<Traj> alloc_traj(int N) { return std::make_shared<Traj>(NX, NU, N); }
  void set_traj(std::shared_ptr<Traj> z) { Z = z; if (al) al->SetTrajectory(z); else il->SetTrajectory(z); }
  void set_grid() {
    float t = sp.grid ? 0.25f : 0.0f;
    for (int k = 0; k <= sp.N; ++k) { float h = (float)(sp.step(k) * gs); Z->SetTime(k, t); Z->SetStep(k, h); t += h; }
  }
  void new_traj() {
    if (n > 0 && (build & 4)) { make_traj(std::integral_constant<bool, (n > 0)>()); set_grid(); return; }
    auto z = alloc_traj(sp.N); Z = z; set_grid(); set_traj(z);
  }
  void make_traj(std::true_type) {
    const float h = (float)sp.step(0);
    Z = I().MakeTrajectory(h);
    for (int k = 0; k <= sp.N; ++k) {
      bool zero = true;
      for (int i = 0; i < 3; ++i) if (Z->State(k)(i) != 0) zero = false;
      for (int i = 0; i < 2; ++i) if (Z->Control(k)(i) != 0) zero = false;
      if (!zero || (k < sp.N && Z->GetStep(k) != h) || std::abs(Z->GetTime(k) - (double)k * h) > 1e-5 * (k + 1) * h)
        sim_violation("bad-trajectory", "the trajectory made with a step of %g has time %g and step %g at knot point %d%s;", h, (double)Z->GetTime(k), (double)Z->GetStep(k), k, zero ? "" : " and is not zero");
    }
  }
  void make_traj(std::false_type) {}
  void put_guess(const Guess& g) {
    gs = g.gscale;
    if (g.newtraj) new_traj();
    guess_x0(sp, g.x0, x0);
    prob->SetInitialState(Eigen::Vector3d(x0[0], x0[1], x0[2]));
    if (g.keep) return;
    Rng r(g.u + 99);
    for (int k = 0; k <= sp.N; ++k) {
      for (int i = 0; i < 3; ++i) Z->State(k)(i) = g.u ? r.real() - 0.5 : 0.0;
      for (int i = 0; i < 2; ++i) Z->Control(k)(i) = g.u && k < sp.N ? (r.real() - 0.5) * 0.8 : 0.0;
    }
    set_grid();
  }
  void put_traj(const std::vector<double>& X, const std::vector<double>& U, const std::vector<double>& T, const std::vector<double>& H, const double* x) {
    for (int i = 0; i < 3; ++i) x0[i] = x[i];
    prob->SetInitialState(Eigen::Vector3d(x0[0], x0[1], x0[2]));
    for (int k = 0; k <= sp.N; ++k) {
      for (int i = 0; i < 3; ++i) Z->State(k)(i) = X[k * 3 + i];
      for (int i = 0; i < 2; ++i) Z->Control(k)(i) = U[k * 2 + i];
      Z->SetTime(k, (float)T[k]);
      Z->SetStep(k, (float)H[k]);
    }
  }
  void put_controls(const std::vector<double>& U) { for (int k = 0; k <= sp.N; ++k) for (int i = 0; i < 2; ++i) Z->Control(k)(i) = U[k * 2 + i]; }
  template <class F> void each_con(F f) {   // f(k, kind, values object)
    if (!al) return;
    for (int k = 0; k <= sp.N; ++k) {
      auto c = al->GetALCost(k);
      size_t e = 0, i = 0;
      for (auto& d : cons_at(sp, k)) {
        if (d.eq) f(k, d, *c->GetEqualityConstraints().at(e++));
        else f(k, d, *c->GetInequalityConstraints().at(i++));
      }
    }
  }
  std::vector<double> duals() { std::vector<double> v; each_con([&](int, ConDef d, auto& c) { for (int i = 0; i < d.p; ++i) v.push_back(c.GetDuals()(i)); }); return v; }
  std::vector<double> pens() { std::vector<double> v; each_con([&](int, ConDef d, auto& c) { for (int i = 0; i < d.p; ++i) v.push_back(c.GetPenalty()(i)); }); return v; }
  void put_duals(const std::vector<double>& v) { size_t j = 0; each_con([&](int, ConDef d, auto& c) { for (int i = 0; i < d.p; ++i) c.GetDuals()(i) = v.at(j++); }); }
  void put_pens(const std::vector<double>& v) { size_t j = 0; each_con([&](int, ConDef d, auto& c) { for (int i = 0; i < d.p; ++i) c.GetPenalty()(i) = v.at(j++); }); }
  void scaling(double phi) { each_con([&](int, ConDef, auto& c) { c.SetPenaltyScaling(phi); }); }
  void scaling_api(double phi) { if (al) al->SetPenaltyScaling(phi); }
  // The call under test
  Res solve() {
    Res r;
    try {
      if (al) al->Solve();
      else il->Solve();
    } catch (const UserError& e) { r.threw = 1; Ign g; r.what = e.what();
    } catch (int e) { r.threw = 1; Ign g; r.what = "int " + std::to_string(e);
    } catch (const OddError& e) { r.threw = 1; Ign g; r.what = "odd " + std::to_string(e.func * 10000 + e.knot * 100 + e.call);
    } catch (const std::bad_alloc&) { r.threw = 1; Ign g; r.what = "bad_alloc";
    } catch (const std::exception& e) { r.threw = 1; Ign g; r.what = std::string("exception ") + e.what();
    } catch (...) { r.threw = 1; Ign g; r.what = "unknown exception"; }
    return r;
  }
  void capture(Res& r) {
    Ign g;
    SolverStats& s = stats();
    r.status = (int)(al ? al->GetStatus() : il->GetStatus());
    r.it_in = s.iterations_inner; r.it_out = s.iterations_outer; r.it_tot = s.iterations_total;
    r.initial_cost = s.initial_cost;
    std::vector<double>* v[] = {&s.cost, &s.alpha, &s.improvement_ratio, &s.gradient, &s.cost_decrease, &s.regularization, &s.violations, &s.max_penalty};
    for (int i = 0; i < 8; ++i) r.series[i] = *v[i];
    for (int k = 0; k <= sp.N; ++k) {
      for (int i = 0; i < 3; ++i) r.X.push_back(Z->State(k)(i));
      for (int i = 0; i < 2; ++i) r.U.push_back(Z->Control(k)(i));
      r.T.push_back(Z->GetTime(k));
      r.H.push_back(Z->GetStep(k));
    }
    r.duals = duals();
    r.pens = pens();
  }
};

// ------------------------------------------------------------------ independent evaluation
struct Clean {
  Spec sp;
  std::vector<std::shared_ptr<RecDyn>> dyn;
  explicit Clean(const Spec& s) : sp(s) { for (int k = 0; k < s.N; ++k) dyn.push_back(std::make_shared<RecDyn>(s, k, nullptr)); }
  static VectorXd vec(const double* p, int n) { VectorXd v(n); for (int i = 0; i < n; ++i) v(i) = p[i]; return v; }
  VectorXd x(const std::vector<double>& X, int k) const { return vec(&X[k * 3], 3); }
  VectorXd u(const std::vector<double>& U, int k) const { return vec(&U[k * 2], 2); }
  // open-loop rollout from x0
  std::vector<double> rollout(const double* x0, const std::vector<double>& U, const std::vector<double>& T, const std::vector<double>& H) {
    std::vector<double> X(x0, x0 + 3);
    for (int k = 0; k < sp.N; ++k) {
      VectorXd xn = VectorXd::Zero(3);
      dyn[k]->Evaluate(x(X, k), u(U, k), (float)T[k], (float)H[k], xn);
      for (int i = 0; i < 3; ++i) X.push_back(xn(i));
    }
    return X;
  }
  std::vector<double> cons(const std::vector<double>& X, const std::vector<double>& U) const {
    std::vector<double> c;
    for (int k = 0; k <= sp.N; ++k)
      for (auto& d : cons_at(sp, k)) {
        double v[4];
        con_val(sp, d.kind, x(X, k), u(U, k), v);
        c.insert(c.end(), v, v + d.p);
      }
    return c;
  }
  std::vector<int> is_eq() const {
    std::vector<int> e;
    for (int k = 0; k <= sp.N; ++k) for (auto& d : cons_at(sp, k)) for (int i = 0; i < d.p; ++i) e.push_back(d.eq);
    return e;
  }
  double violation(const std::vector<double>& X, const std::vector<double>& U) const {
    auto c = cons(X, U);
    auto e = is_eq();
    double v = 0;
    for (size_t i = 0; i < c.size(); ++i) {
      double a = e[i] ? std::abs(c[i]) : (c[i] > 0 ? c[i] : (std::isnan(c[i]) ? c[i] : 0.0));
      if (std::isnan(a)) return a;
      v = std::max(v, a);
    }
    return v;
  }
  // augmented Lagrangian (the plain cost if there are no multipliers)
  double objective(const std::vector<double>& X, const std::vector<double>& U, const std::vector<double>& lam, const std::vector<double>& rho, double* mag = nullptr) const {
    double J = 0, M = 0;
    for (int k = 0; k <= sp.N; ++k) { double j = cost_val(sp, k, x(X, k), u(U, k)); J += j; M += std::abs(j); }
    auto c = cons(X, U);
    auto e = is_eq();
    for (size_t i = 0; i < c.size(); ++i) {
      double z = lam[i] - rho[i] * c[i];
      if (!e[i] && z > 0) z = 0;
      J += (z * z - lam[i] * lam[i]) / (2 * rho[i]);
      M += (z * z + lam[i] * lam[i]) / (2 * rho[i]);
    }
    if (mag) *mag = M;
    return J;
  }
};
}  // namespace ss
