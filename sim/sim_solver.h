// Solver scenarios (real code: everything below altro/ that a solve uses).
#pragma once
#include <sys/mman.h>
#include <algorithm>
#include <stdio_ext.h>
#include <iostream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <set>
#include <thread>
#include "io_common.h"
#include "profile_table.h"
#include "solver_common.h"
#include "step_model.h"

namespace ss {
// arguments of a "solve" operation
enum { A_X0, A_U, A_GUESS, A_THREADS, A_TPT, A_CUSTOM, A_OPT, A_RESET, A_VERB, A_PROF, A_HDR, A_PHI, A_GSCALE, A_MAXIT, A_SETTLE, A_PENALTY, A_COUNT };
// probes
enum { PR_SOLVED = 8, PR_UNSOLVED, PR_STATELIM, PR_CTRLLIM, PR_COSTINC, PR_MAXIT, PR_MAXOUT, PR_MAXIN, PR_MAXPEN, PR_BPFAIL, PR_THREW,
       PR_REFS, PR_PREFIX, PR_LSFAIL, PR_PARALLEL, PR_CUSTOM, PR_MOVED, PR_REJECTED, PR_ALLOC_CAUGHT, PR_ALLOC_ABSORBED, PR_OUTER2, PR_RHO, PR_DYNAMIC, PR_AL, PR_IL,
       PR_PRINTED_, PR_PROF_THROW_, PR_PROF_GAP_, PR_PROF_LONG_, PR_PROF_JUMP_, PR_PROF_FILE, PR_PROF_REFUSED, PR_STDOUT_BROKEN, PR_PROF_SOLVER, PR_CONSOLE, PR_DEF1_, PR_DEF2_, PR_DEF3_, PR_STEP, PR_STEP_SKIPPED, PR_STEP_UNSURE, PR_REG_FAILED, PR_DECIDED };
// faults of the output ("io" faults): which solve, kind, parameter
enum { IO_FULL = 0, IO_PIPE, IO_LIMIT, IO_FOPEN, IO_EMFILE, IO_NODIR, IO_ISDIR, IO_DEVFULL, IO_END_LIMIT, IO_END_FULL };

RecCtx* rec_slot(int i);   // recorders outside the simulated memory
std::vector<int> make_partition(int N, uint64_t seed);
void solver_gen(Rng& r, Plan& p, int fl);
void run_static(const Plan& p, int fl);
void run_dynamic(const Plan& p, int fl);

#define FAIL(cls, ...) do { char b_[400]; snprintf(b_, sizeof b_, __VA_ARGS__); sim_violation(cls, "%s%s;", b_, ctx(r).c_str()); } while (0)
struct Snap { std::vector<double> X, U, T, H, duals, pens; double x0[3]; };

inline bool close(double a, double b, double mag) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (a == b) return true;
  return std::abs(a - b) <= 1e-8 * (1 + mag);
}

template <int n, int m>
struct Runner {
  using S = Sol<n, m>;
  const Plan& p;
  int fl, w;
  Spec sp;
  RecCtx *rec, *rrec;
  std::unique_ptr<S> s;
  Clean clean;
  double phi = 10;
  std::vector<int> custom;
  std::vector<std::unique_ptr<typename S::AL>> old_al;
  std::vector<std::unique_ptr<typename S::IL>> old_il;
  Snap z;
  int cur = -1;
  bool transient_values = false;
  Runner(const Plan& pp, int f, const Spec& spec, int which) : p(pp), fl(f), w(which), sp(spec), rec(rec_slot(2 * which)), rrec(rec_slot(2 * which + 1)), clean(spec) {
    rec_init(rec);
    rec_init(rrec);
  }
  void make() { s = std::make_unique<S>(sp, rec, true, (int)p.c("build", 0)); }

  void setup(const Item& op) {
    SolverOptions& o = s->opts();
    o.nthreads = (int)op.at(A_THREADS);
    o.tasks_per_thread = (int)std::max<int64_t>(1, op.at(A_TPT));
    o.verbose = (LogLevel)op.at(A_VERB);
    o.profiler_enable = op.at(A_PROF) & 1;
    o.profiler_output_to_file = (op.at(A_PROF) & 2) != 0;
    if (fl == 13 || fl == 14) profile_path(o);
    if (op.at(A_HDR)) o.header_frequency = (int)op.at(A_HDR) - 1;
    set_options(o, (uint64_t)op.at(A_OPT), 1);
    if (op.at(A_MAXIT) > 0) o.max_iterations_total = (int)std::min<int64_t>(o.max_iterations_total, op.at(A_MAXIT));
    o.reset_duals = !(op.at(A_RESET) & 1);
    if (op.at(A_RESET) & 2) o.initial_penalty = 0;
    if (op.at(A_PHI) >= 10) { phi = op.at(A_PHI) / 10.0; s->scaling_api(phi); }
    if (op.at(A_PENALTY) && sp.al && !(o.initial_penalty > 0)) {
      double rho = (double)op.at(A_PENALTY) / 8.0;
      s->al->SetPenalty(rho);
      Ign i;
      for (double v : s->pens()) if (!same(v, rho)) sim_violation("penalty-not-set", "a penalty is %g after setting all of them to %g;", v, rho);
    }
    if (op.at(A_CUSTOM)) { custom = make_partition(sp.N, (uint64_t)op.at(A_CUSTOM)); s->I().SetTaskAssignment(custom); sim_probe(PR_CUSTOM); }
    Guess g;
    g.x0 = (uint64_t)op.at(A_X0);
    g.u = (uint64_t)op.at(A_U);
    g.keep = op.at(A_GUESS) & 1;
    g.newtraj = op.at(A_GUESS) & 2;
    g.gscale = op.at(A_GSCALE) ? op.at(A_GSCALE) / 100.0 : 1.0;
    s->put_guess(g);
    if (!sp.al) {
      if (fl == 14) { try { s->stats().Reset(); } catch (const std::exception& e) { Ign i; refused = e.what(); refused += "!"; } }
      else s->stats().Reset();
    }
  }
  // ---- output faults (C14)
  std::string refused, profile_file;
  bool to_file_ok = false, prof_last = false;
  int base_fds = 0, saved_out = -1;
  struct rlimit old_fs, old_nf;
  uint64_t prof_ns = 0, prof_steps = 0;
  int prof_parts = 0;
  bool always_serial = true;
  int io(int idx, int kind) const { for (auto& f : p.faults) if (f.name == "io" && f.at(0) == idx && f.at(1) == kind) return (int)f.at(2) + 1; return 0; }
  void profile_path(SolverOptions& o) {
    Ign g;
    std::string d = scratch_dir();
    o.log_directory = d;
    o.profile_filename = "profile" + std::to_string(cur & 1) + ".out";
    to_file_ok = o.profiler_output_to_file;
    if (fl == 14) {
      if (io(cur, IO_NODIR)) { o.log_directory = d + "/missing"; to_file_ok = false; }
      if (io(cur, IO_ISDIR)) { mkdir((d + "/dir").c_str(), 0700); o.profile_filename = "dir"; to_file_ok = false; }
      if (io(cur, IO_DEVFULL)) { o.log_directory = "/dev"; o.profile_filename = "full"; if (o.profiler_output_to_file) sim_fault_fired(F_DISK_FULL); }
      if (io(cur, IO_FOPEN) || io(cur, IO_EMFILE)) to_file_ok = false;   // (with EMFILE: unless closing the last file makes room)
    }
    profile_file = o.log_directory + "/" + o.profile_filename;
    prof_last = to_file_ok && o.profiler_enable && !(fl == 14 && io(cur, IO_DEVFULL));
  }
  void redirect(int fd, int mode) {
    fflush(stdout);
    ::dup2(fd, 1);
    ::close(fd);
    static char buf[64];
    setvbuf(stdout, mode == 1 ? buf : nullptr, mode == 0 ? _IONBF : mode == 1 ? _IOFBF : _IOLBF, mode == 1 ? sizeof buf : 0);
    sim_probe(PR_STDOUT_BROKEN);
  }
  void limit_size(int bytes) { struct rlimit l = old_fs; l.rlim_cur = (rlim_t)bytes; setrlimit(RLIMIT_FSIZE, &l); }
  std::string console;      // what the last solve printed (C25)
  bool captured = false;
  void io_begin(int idx) {
    if (fl != 14 && fl != 25) return;
    Ign g;
    getrlimit(RLIMIT_FSIZE, &old_fs);
    getrlimit(RLIMIT_NOFILE, &old_nf);
    int q;
    if ((q = io(idx, IO_FULL))) { redirect(open("/dev/full", O_WRONLY), (q - 1) % 3); sim_fault_fired(F_STDOUT_FULL); }
    else if ((q = io(idx, IO_PIPE))) { int fd[2]; if (pipe(fd) == 0) { ::close(fd[0]); redirect(fd[1], (q - 1) % 3); sim_fault_fired(F_STDOUT_FULL); } }
    else if ((q = io(idx, IO_LIMIT))) {
      redirect(open((std::string(scratch_dir()) + "/stdout").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), (q - 1) % 3);
      limit_size((q - 1) / 3);
      sim_fault_fired(F_DISK_FULL);
    }
    captured = false;
    if (fl == 25 && !io(idx, IO_FULL) && !io(idx, IO_PIPE) && !io(idx, IO_LIMIT)) {
      redirect(open((std::string(scratch_dir()) + "/console").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), (int)(p.seed % 3));
      captured = true;
    }
    if (io(idx, IO_FOPEN)) sim_fail_fopen(1);
    if (io(idx, IO_EMFILE)) {
      struct rlimit l = old_nf;
      int fd = 0;
      while (fcntl(fd, F_GETFD) != -1) ++fd;
      l.rlim_cur = (rlim_t)fd;
      setrlimit(RLIMIT_NOFILE, &l);
      sim_fault_fired(F_FD_EXHAUSTED);
    }
    refused.clear();
  }
  void io_end() {
    if (fl != 14 && fl != 25) return;
    Ign g;
    sim_fail_fopen(0);
    setrlimit(RLIMIT_FSIZE, &old_fs);
    setrlimit(RLIMIT_NOFILE, &old_nf);
    if (captured) { std::cout.flush(); fflush(stdout); console = read_file(std::string(scratch_dir()) + "/console"); }
    __fpurge(stdout);
    clearerr(stdout);
    int fd = open("/dev/null", O_RDWR);
    ::dup2(fd, 1);
    ::close(fd);
  }
  // C14, after every solve
  void check_output(const Res& r) {
    Ign g;
    SolverOptions& o = s->opts();
    if (sim_fclose_stdout_seen() || fcntl(1, F_GETFD) == -1) FAIL("stdout-closed", "the standard output has been closed");
    int nf = count_fds();
    if (nf > base_fds + 1) FAIL("fd-leak", "%d file descriptors are open, %d before the solver was created", nf, base_fds);
    bool bad = o.profiler_output_to_file && !to_file_ok;
    if (bad && io(cur, IO_EMFILE) && !(r.threw && r.what.compare(0, 9, "exception") == 0)) bad = false;
    if (bad) {
      sim_probe(PR_PROF_REFUSED);
      if (!r.threw || r.what.compare(0, 9, "exception") != 0) FAIL("unreported", "the profile file %s can't be opened but the solve %s (%s)", profile_file.c_str(), r.threw ? "threw" : "returned", r.what.c_str());
      return;
    }
    compare(r, "output-dependent", "the solve differs from a silent one");
  }
  void paths(const ProfTable& t, std::set<std::string>* out) {
    for (size_t i = 0; i < t.rows.size(); ++i) {
      std::string nm = t.rows[i].leaf;
      for (int q = t.rows[i].parent; q >= 0; q = t.rows[q].parent) nm = t.rows[q].leaf + "/" + nm;
      out->insert(nm);
    }
  }
  ProfTable read_profile(const Res& r, const std::string& file) {
    std::string text = read_file(file);
    ProfTable t = parse_profile(text);
    if (text.empty()) FAIL("profile-missing", "the profile file is empty");
    if (!t.complete || !t.parsed || !t.header || t.rows.empty() || !t.tree) FAIL("profile-incomplete", "the profile file is incomplete (%zu rows, %zu bytes)", t.rows.size(), text.size());
    return t;
  }
  // C14, after the solver has been destroyed: what a solver profiled without faults reports is there
  void check_profile_file(const Res& r, const SolverOptions& last) {
    Ign g;
    ProfTable t = read_profile(r, profile_file);
    sim_probe(PR_PROF_FILE);
    std::string other = std::string(scratch_dir()) + "/ref.out";
    {
      S ref(sp, rrec);
      arm(rrec, cur, false);
      SolverOptions& o = ref.opts();
      o = last;
      o.nthreads = 1;
      o.tasks_per_thread = 1;
      o.verbose = LogLevel::kSilent;
      o.log_directory = scratch_dir();
      o.profile_filename = "ref.out";
      ref.scaling(phi);
      ref.put_traj(z.X, z.U, z.T, z.H, z.x0);
      if (!o.reset_duals) ref.put_duals(z.duals);
      if (!(o.initial_penalty > 0)) ref.put_pens(z.pens);
      if (!sp.al) ref.stats().Reset();
      ref.solve();
    }
    ProfTable e = parse_profile(read_file(other));
    std::set<std::string> a, b;
    paths(t, &a);
    paths(e, &b);
    for (auto& nm : b) if (!a.count(nm)) FAIL("profile-incomplete", "the profile file has no entry for the scope %s", nm.c_str());
  }
  // C13: the times of a solver's profile
  void check_profile_times(const Res& r, const std::string& file, uint64_t tick) {
    Ign g;
    ProfTable t = read_profile(r, file);
    sim_probe(PR_PROF_SOLVER);
    long long total = 0;
    std::vector<long long> kids(t.rows.size(), 0);
    for (auto& w : t.rows) {
      if (w.time < 0) FAIL("profile-negative", "scope %s has a time of %lld us", w.leaf.c_str(), w.time);
      if (w.parent < 0) total += w.time;
      else kids[w.parent] += w.time;
    }
    for (size_t i = 0; i < t.rows.size(); ++i) {
      auto& w = t.rows[i];
      if (kids[i] > w.time) FAIL("profile-nesting", "the scopes inside %s took %lld us, itself %lld us", w.leaf.c_str(), kids[i], w.time);
      long long of = w.parent < 0 ? total : t.rows[w.parent].time;
      double a = total ? 100.0 * (double)w.time / (double)total : -1, b = of ? 100.0 * (double)w.time / (double)of : -1;
      if (std::abs((double)w.ptotal - a) > 1.0001) FAIL("profile-percent", "scope %s took %lld of %lld us in total but %lld %% are reported", w.leaf.c_str(), w.time, total, w.ptotal);
      if (std::abs((double)w.pparent - b) > 1.0001) FAIL("profile-percent", "scope %s took %lld of the %lld us of its parent but %lld %% are reported", w.leaf.c_str(), w.time, of, w.pparent);
    }
    double el = (double)prof_ns / 1000.0;
    if ((double)total > el + 1) FAIL("profile-total", "%lld us are reported in total but the profiled calls took %.0f us", total, el);
    double slack = (5000.0 + 500.0 * sp.N) * prof_parts * ((double)tick / 1e6) + prof_parts + 1;
    if (always_serial && (double)total < el - slack) FAIL("profile-total", "%lld us are reported in total but the profiled calls took %.0f us", total, el);
  }
  void snapshot() {
    Ign g;
    Res r;
    s->capture(r);
    z.X = r.X; z.U = r.U; z.T = r.T; z.H = r.H; z.duals = r.duals; z.pens = r.pens;
    for (int i = 0; i < 3; ++i) z.x0[i] = s->x0[i];
  }
  void arm(RecCtx* c, int idx, bool stalls) {
    rec_init(c);
    c->stall_enabled = stalls;
    for (auto& f : p.faults)
      if (f.name == "rec" && f.at(0) == idx && c->nfaults < REC_MAXF) {
        RecFault& x = c->f[c->nfaults++];
        x.func = (int)f.at(1); x.knot = (int)f.at(2); x.lo = (uint32_t)f.at(3); x.hi = (uint32_t)f.at(4); x.act = (int)f.at(5); x.param = f.at(6);
        if (x.func < 0 || x.func >= FN_TASK || x.knot >= REC_MAXK) c->nfaults--;
      }
  }
  bool has_fault(int idx, int act) const {
    for (auto& f : p.faults) if (f.name == "rec" && f.at(0) == idx && f.at(5) == act) return true;
    return false;
  }
  // The operation under test. idx counts the solves of the plan.
  Res solve(int idx, const Item& op) {
    cur = idx;
    io_begin(idx);
    setup(op);
    snapshot();
    arm(rec, idx, true);
    rec->log_on = fl == 18 || fl == 12;
    for (auto& f : p.faults) if (f.name == "alloc" && f.at(0) == idx) sim_fail_alloc((long)f.at(1), (int)f.at(2));
    uint64_t t0 = sim_now();
    Res r;
    if (refused.empty()) {
      if (p.c("hand", 0)) { std::thread t([&]() { r = s->solve(); }); t.join(); }   // solvers may be passed from thread to thread
      else r = s->solve();
    }
    else { Ign g; r.threw = 1; r.what = "exception " + refused; }
    io_end();
    if (s->opts().profiler_enable) { prof_ns += sim_now() - t0; prof_parts++; }
    if (s->opts().NumThreads() > 1) always_serial = false;
    {
      Ign g;
      rec->idle_ok = 0;
      sim_fail_alloc(0, -1);
      if (rec->active_total) sim_violation("running-after-solve", "%d user function(s) still running after the solve %s;", rec->active_total, r.threw ? "threw" : "returned");
      s->capture(r);
      sim_event(0x300, (uint64_t)r.status, (uint64_t)r.it_tot);
      if (r.threw) { sim_probe(PR_THREW); sim_fault_fired(F_ABORTED_SOLVE); }
      else {
        sim_probe(PR_SOLVED + r.status);
        if (r.it_out > 1) sim_probe(PR_OUTER2);
        for (int i = 0; i < r.it_tot && i < (int)r.series[1].size(); ++i) if (r.series[1][i] == 0) { sim_probe(PR_LSFAIL); break; }
        for (int i = 0; i < r.it_tot && i < (int)r.series[5].size(); ++i) if (r.series[5][i] > 1e-3) { sim_probe(PR_RHO); break; }
      }
      if (s->opts().NumThreads() > 1) sim_probe(PR_PARALLEL);
      sim_probe(sp.al ? PR_AL : PR_IL);
      if (n == Eigen::Dynamic) sim_probe(PR_DYNAMIC);
    }
    if (op.at(A_SETTLE)) settle(r);
    return r;
  }
  void settle(const Res& r) {
    sim_preempt();
    sim_sleep(60000000000ull);
    Ign g;
    if (rec->background || rec->active_total)
      sim_violation("background-work", "%d user function call(s) ran after the solve had %s;", rec->background + rec->active_total, r.threw ? "thrown" : "returned");
  }
  // The same solve by a fresh single-threaded solver that has done nothing before
  Res reference(int idx, int max_total = -1, int max_outer = -1) {
    Ign g;
    sim_probe(PR_REFS);
    S ref(sp, rrec);
    arm(rrec, idx, false);
    rrec->enabled = 1;
    SolverOptions& o = ref.opts();
    o = s->opts();
    o.nthreads = 1;
    o.tasks_per_thread = 1;
    o.verbose = LogLevel::kSilent;
    o.profiler_enable = false;
    o.profiler_output_to_file = false;
    if (max_total >= 0) o.max_iterations_total = max_total;
    if (max_outer >= 0) o.max_iterations_outer = max_outer;
    ref.scaling(phi);
    ref.put_traj(z.X, z.U, z.T, z.H, z.x0);
    if (!o.reset_duals) ref.put_duals(z.duals);
    if (!(o.initial_penalty > 0)) ref.put_pens(z.pens);
    if (!sp.al) ref.stats().Reset();
    Res r = ref.solve();
    ref.capture(r);
    return r;
  }
  std::string ctx(const Res& r) {
    char b[300];
    snprintf(b, sizeof b, " [solve %d, N=%d, %s, threads %d, tasks per thread %d, status %s, iterations %d/%d/%d]", cur, sp.N, sp.al ? "augmented Lagrangian" : "iLQR",
             s->opts().nthreads, s->opts().tasks_per_thread, status_name(r.status).c_str(), r.it_in, r.it_out, r.it_tot);
    return b;
  }
  void compare(const Res& r, const char* cls, const char* what) {
    Ign g;
    Res e = reference(cur);
    std::string d = rdiff(r, e);
    if (d != "") sim_violation(cls, "%s: %s%s;", what, d.c_str(), ctx(r).c_str());
  }

  // C07
  void check_failure(const Res& r) {
    Ign g;
    Res e = reference(cur);
    if (r.threw != e.threw) FAIL("failure-lost", "the solve %s (%s) where one thread %s (%s)", r.threw ? "threw" : "returned", r.what.c_str(), e.threw ? "throws" : "returns", e.what.c_str());
    // every exception of a user function is reported, whatever one thread does
    if (!r.threw && rec->fired[ACT_THROW]) FAIL("failure-swallowed", "%u user function call(s) threw but the solve returned", rec->fired[ACT_THROW]);
    // also if functions of several knot points fail in the same expansion: the first of them, as with one thread
    if (r.threw && r.what != e.what) FAIL("failure-changed", "the solve threw '%s' instead of '%s'", r.what.c_str(), e.what.c_str());
    if (!r.threw) {
      std::string d = rdiff(r, e);
      if (d != "") FAIL("incomplete-result", "%s", d.c_str());
    }
  }
  // C09
  void check_feasible(const Res& r) {
    Ign g;
    if (r.threw) return;
    for (int i = 0; i < 3; ++i) if (!same(r.X[i], z.x0[i])) FAIL("wrong-start", "the trajectory starts at %.17g instead of %.17g (state %d)", r.X[i], z.x0[i], i);
    std::string d = vdiff("time", r.T, z.T);
    if (d == "") d = vdiff("step", r.H, z.H);
    if (d != "") FAIL("grid-changed", "%s", d.c_str());
    std::vector<double> X = r.X;
    for (int k = 0; k < sp.N; ++k) {
      VectorXd xn = VectorXd::Zero(3);
      clean.dyn[k]->Evaluate(clean.x(r.X, k), clean.u(r.U, k), (float)r.T[k], (float)r.H[k], xn);
      for (int i = 0; i < 3; ++i)
        if (!same(xn(i), r.X[(k + 1) * 3 + i])) FAIL("infeasible", "state %d at knot %d is %.17g but the dynamics give %.17g", i, k + 1, r.X[(k + 1) * 3 + i], xn(i));
    }
    bool moved = false;
    for (int i = 0; i < sp.N * 2; ++i) if (!same(r.U[i], z.U[i])) moved = true;
    SolverOptions& o = s->opts();
    if (moved && o.check_forwardpass_bounds)
      for (int k = 0; k < sp.N; ++k) {
        double a = clean.x(r.X, k + 1).norm(), b = clean.u(r.U, k).norm();
        if (!(a <= o.state_max * (1 + 1e-12))) FAIL("bounds", "an accepted step has a state norm of %.17g at knot %d, the limit is %g", a, k + 1, o.state_max);
        if (!(b <= o.control_max * (1 + 1e-12))) FAIL("bounds", "an accepted step has a control norm of %.17g at knot %d, the limit is %g", b, k, o.control_max);
      }
  }
  // C10, C17
  void check_gradient(const Res& r) {
    if (r.it_tot > 0) {   // the logged gradient is that of the gains the step was made with
      double sum = 0;
      for (int k = 0; k < sp.N; ++k) {
        auto& d = s->I().GetKnotPointFunction(k).GetFeedforwardGain();
        double mx = 0;
        for (int i = 0; i < 2; ++i) { double a = std::abs(d(i)) / (std::abs(r.U[k * 2 + i]) + 1); if (std::isnan(a)) mx = a; else if (!(a <= mx)) mx = a; }
        sum += mx;
      }
      double gr = sum / sp.N, lg = r.series[3][r.it_tot - 1];
      if (std::isfinite(gr) && !(std::abs(gr - lg) <= 1e-9 * (1 + std::abs(gr)))) FAIL("gradient-wrong", "the logged gradient is %.17g but the gains give %.17g", lg, gr);
    }
  }
  // the printed list of constraints shows every number of the list, to the precision asked for
  void check_printed_violations(const Res& r, bool sorted, int prec) {
    auto infos = s->al->GetConstraintInfo(sorted);
    fflush(stdout);
    int fd = memfd_create("violations", 0), old = dup(1);
    ::dup2(fd, 1);
    s->al->PrintViolations(sorted, prec);
    fflush(stdout);
    ::dup2(old, 1);
    ::close(old);
    std::string text((size_t)lseek(fd, 0, SEEK_END), 0);
    if (pread(fd, &text[0], text.size(), 0) != (ssize_t)text.size()) text.clear();
    ::close(fd);
    std::istringstream in(text);
    std::string line;
    auto bad = [&](const char* what) { FAIL("violation-wrong", "the printed list of violations is wrong (%s) at '%s'", what, line.c_str()); };
    std::getline(in, line);
    if (line != "Got " + std::to_string(infos.size()) + " constraints") bad("number of constraints");
    for (auto& ci : infos) {
      if (!std::getline(in, line)) bad("missing");
      std::string head = ci.label + " at index " + std::to_string(ci.index) + ":";
      if (line.compare(0, head.size(), head) != 0) bad("label or index");
      std::string rest = line.substr(head.size());
      for (char& ch : rest) if (ch == '[' || ch == ']' || ch == ',') ch = ' ';
      std::istringstream nums(rest);
      std::string w;
      for (int i = 0; i < ci.violation.size(); ++i) {
        if (!(nums >> w)) bad("fewer numbers than rows");
        char* end = nullptr;
        double g = strtod(w.c_str(), &end), x = ci.violation(i);
        if (*end || !(std::isnan(x) ? std::isnan(g) : g == x || std::abs(g - x) <= std::pow(10.0, 1 - prec) * std::abs(x))) bad("number");
      }
      if (nums >> w) bad("more numbers than rows");
    }
    if (std::getline(in, line)) bad("more lines than constraints");
  }
  // C10
  void check_success(const Res& r) {
    Ign g;
    if (r.threw) return;
    SolverOptions& o = s->opts();
    double v = sp.al ? clean.violation(r.X, r.U) : 0.0;
    size_t L = r.series[6].size();
    if (r.status == 0) {
      if (sp.al && !(v < o.constraint_tolerance * (1 + 1e-9) + 1e-300)) FAIL("false-success", "success reported but the constraint violation of the returned trajectory is %g (tolerance %g)", v, o.constraint_tolerance);
      int j = r.it_tot - 1;
      if (j < 0 || (int)r.series[4].size() <= j) FAIL("false-success", "success reported after %d iterations", r.it_tot);
      if (!(r.series[4][j] < o.cost_tolerance)) FAIL("false-success", "success reported but the last cost decrease is %g (tolerance %g)", r.series[4][j], o.cost_tolerance);
      if (!(r.series[3][j] < o.gradient_tolerance)) FAIL("false-success", "success reported but the last gradient is %g (tolerance %g)", r.series[3][j], o.gradient_tolerance);
    }
    check_gradient(r);
    if (!sp.al) return;
    if (!L) FAIL("violation-wrong", "no violation is reported");
    double rep = r.series[6][L - 1], now = s->al->GetMaxViolation();
    auto ok = [&](double a) { return std::isnan(v) ? !(a <= 1e300) : std::abs(a - v) <= 1e-9 * (1 + std::abs(v)) || a == v; };
    if (!ok(rep)) FAIL("violation-wrong", "the solver logged a violation of %.17g but that of the returned trajectory is %.17g", rep, v);
    if (!ok(now)) FAIL("violation-wrong", "GetMaxViolation gives %.17g but the violation of the returned trajectory is %.17g", now, v);
    double info = 0;
    for (auto& ci : s->al->GetConstraintInfo())
      for (int i = 0; i < ci.violation.size(); ++i) { double a = std::abs(ci.violation(i)); if (!(a <= info)) info = a; if (std::isnan(a)) info = a; }
    if (!std::isnan(v) && !ok(info)) FAIL("violation-wrong", "GetConstraintInfo gives %.17g but the violation of the returned trajectory is %.17g", info, v);
    // the list of constraints: one entry per constraint, in order, with its own label, knot point and violation
    auto infos = s->al->GetConstraintInfo();
    auto c = clean.cons(r.X, r.U);
    size_t at = 0, row = 0;
    for (int k = 0; k <= sp.N; ++k)
      for (auto& d : cons_at(sp, k)) {
        if (at >= infos.size()) FAIL("violation-wrong", "GetConstraintInfo lists %zu constraints, one at knot %d is missing", infos.size(), k);
        auto& ci = infos[at++];
        if (ci.type != (d.eq ? "Equality Constraint" : "Inequality Constraint")) FAIL("violation-wrong", "GetConstraintInfo calls con%d at knot %d a '%s'", d.kind, k, ci.type.c_str());
        if (ci.index != k || ci.label != "con" + std::to_string(d.kind) || ci.violation.size() != d.p) FAIL("violation-wrong", "GetConstraintInfo entry %zu is '%s' at knot %d with %ld rows instead of con%d at knot %d with %d", at - 1, ci.label.c_str(), ci.index, (long)ci.violation.size(), d.kind, k, d.p);
        for (int i = 0; i < d.p; ++i) {
          double x = c[row++], w = d.eq || x > 0 ? x : std::isnan(x) ? x : 0.0, g = ci.violation(i);
          if (!(std::isnan(w) ? std::isnan(g) : g == w || std::abs(g - w) <= 1e-9 * (1 + std::abs(w)))) FAIL("violation-wrong", "GetConstraintInfo gives a violation of %.17g for row %d of con%d at knot %d, it is %.17g", g, i, d.kind, k, w);
        }
      }
    if (at != infos.size()) FAIL("violation-wrong", "GetConstraintInfo lists %zu constraints instead of %zu", infos.size(), at);
    if (!std::isnan(v)) {
      auto sorted = s->al->GetConstraintInfo(true);
      auto key = [](const constraints::ConstraintInfo& i) { return i.label + "@" + std::to_string(i.index); };
      std::multiset<std::string> a, b;
      for (auto& i : infos) a.insert(key(i));
      for (auto& i : sorted) b.insert(key(i));
      if (a != b) FAIL("violation-wrong", "the sorted list of constraints is not a permutation of the list");
      for (size_t i = 1; i < sorted.size(); ++i)
        if (!(sorted[i - 1].violation.cwiseAbs().maxCoeff() >= sorted[i].violation.cwiseAbs().maxCoeff())) FAIL("violation-wrong", "the list of constraints is not sorted by violation at entry %zu", i);
    }
    // the violation of another trajectory, which the solver does not keep
    if (p.seed % 3 == 0) {
      auto Z2 = *s->Z;
      std::vector<double> X2 = r.X, U2 = r.U;
      for (int k = 0; k <= sp.N; ++k) {
        for (int i = 0; i < 3; ++i) Z2.State(k)(i) = X2[k * 3 + i] = X2[k * 3 + i] * 1.25 + 0.3;
        for (int i = 0; i < 2; ++i) if (k * 2 + i < (int)U2.size()) Z2.Control(k)(i) = U2[k * 2 + i] = U2[k * 2 + i] * 1.5 - 0.2;
      }
      double w = clean.violation(X2, U2), b = s->al->MaxViolation(Z2);
      if (!(std::isnan(w) ? !(b <= 1e300) : b == w || std::abs(b - w) <= 1e-9 * (1 + std::abs(w)))) FAIL("violation-wrong", "MaxViolation of another trajectory gives %.17g but it is %.17g", b, w);
      s->al->MaxViolation();
    }
    if (p.seed % 5 == 0) check_printed_violations(r, false, 4);
    if (p.seed % 5 == 1 && !std::isnan(v)) check_printed_violations(r, true, 10);
    double again = s->al->MaxViolation();
    if (!ok(again)) FAIL("violation-wrong", "MaxViolation gives %.17g but the violation of the returned trajectory is %.17g", again, v);
  }

  // Prefixes: the solve cut off after j iterations is the state of the solver at iteration j
  std::vector<Res> prefixes(const Res& r) {
    std::vector<Res> v;
    for (int j = 1; j <= r.it_tot; ++j) {
      sim_probe(PR_PREFIX);
      v.push_back(reference(cur, j));
    }
    return v;
  }
  // C11
  void check_descent(const Res& r) {
    Ign g;
    if (r.threw || r.it_tot == 0) return;
    auto pre = prefixes(r);
    std::vector<double> X = clean.rollout(z.x0, z.U, z.T, z.H), U = z.U;
    std::vector<double> lam = z.duals, rho;
    if (s->opts().reset_duals) std::fill(lam.begin(), lam.end(), 0.0);
    int outer = 0;
    double prev = 0, prevmag = 0, init = 0, initmag = 0;
    for (int j = 1; j <= r.it_tot; ++j) {
      Res& q = pre[j - 1];
      if (q.threw || q.it_tot != j) return;
      int o = sp.al ? q.it_out : 1;
      rho = q.pens;
      if (o != outer) {
        if (outer > 0) { lam = pre[j - 2].duals; X = pre[j - 2].X; U = pre[j - 2].U; }
        outer = o;
        init = prev = clean.objective(X, U, lam, rho, &prevmag);
        initmag = prevmag;
      }
      double mag, J = clean.objective(q.X, q.U, lam, rho, &mag);
      double M = std::max(std::abs(mag), std::abs(prevmag));
      if (std::isfinite(prev) && !(J <= prev + 1e-8 * (1 + M))) FAIL("cost-increase", "iteration %d raised the objective from %.17g to %.17g", j, prev, J);
      if (std::isfinite(init) && !(J <= init + 1e-8 * (1 + std::max(M, initmag)))) FAIL("cost-increase", "the objective %.17g of iteration %d exceeds the initial %.17g", J, j, init);
      double lj = r.series[0][j - 1], ld = r.series[4][j - 1];
      if (std::isfinite(J) || std::isfinite(lj)) if (!close(lj, J, mag)) FAIL("cost-wrong", "the logged cost of iteration %d is %.17g but the objective is %.17g", j, lj, J);
      if (std::isfinite(J) && std::isfinite(prev) && !close(ld, prev - J, M)) FAIL("decrease-wrong", "the logged decrease of iteration %d is %.17g but the objective fell by %.17g", j, ld, prev - J);
      if (std::isfinite(prev) && !(ld >= 0)) FAIL("cost-increase", "the logged decrease of iteration %d is %.17g", j, ld);
      if (j == r.it_tot && std::isfinite(init) && !close(r.initial_cost, init, initmag)) FAIL("cost-wrong", "the initial cost is reported as %.17g but is %.17g", r.initial_cost, init);
      prev = J;
      prevmag = mag;
    }
    // the returned trajectory is that of the last iteration
    std::string d = vdiff("control", r.U, pre.back().U);
    if (d != "") FAIL("cost-wrong", "cut off after its last iteration, the solve returns another trajectory: %s", d.c_str());
  }
  // C15
  void check_multipliers(const Res& r) {
    Ign g;
    if (r.threw || !sp.al || r.it_tot == 0 || r.it_out == 0) return;
    auto eq = clean.is_eq();
    std::vector<double> lam = z.duals;
    if (s->opts().reset_duals) std::fill(lam.begin(), lam.end(), 0.0);
    double rho0 = s->opts().initial_penalty;
    for (int o = 1; o <= r.it_out; ++o) {
      sim_probe(PR_PREFIX);
      Res q = o == r.it_out ? r : reference(cur, -1, o);
      if (q.threw) return;
      if (q.it_out != o) FAIL("outer-iterations", "limited to %d outer iterations the solve made %d", o, q.it_out);
      auto c = clean.cons(q.X, q.U);
      for (size_t i = 0; i < c.size(); ++i) {
        double rho = (rho0 > 0 ? rho0 : z.pens[i]) * std::pow(phi, o - 1);
        if (!(std::abs(q.pens[i] - rho) <= 1e-9 * rho)) FAIL("penalty-wrong", "penalty %zu is %.17g after %d outer iterations instead of %.17g", i, q.pens[i], o, rho);
        double a = q.pens[i] * c[i];
        double want = lam[i] - a;
        if (!eq[i] && want > 0) want = 0;
        if (!close(q.duals[i], want, std::abs(lam[i]) + std::abs(a))) FAIL("multiplier-wrong", "multiplier %zu is %.17g after outer iteration %d, the rule gives %.17g (old %.17g, penalty %g, constraint %.17g)", i, q.duals[i], o, want, lam[i], rho, c[i]);
        if (!eq[i] && q.duals[i] > 0) FAIL("multiplier-sign", "inequality multiplier %zu is %.17g", i, q.duals[i]);
      }
      double mp = 0;
      for (double x : q.pens) mp = std::max(mp, x);
      if (!q.series[7].size() || !same(q.series[7].back(), mp)) FAIL("penalty-wrong", "the logged maximum penalty is %.17g, the true one %.17g", q.series[7].empty() ? -1.0 : q.series[7].back(), mp);
      if (!same(s->al->GetMaxPenalty(), mp) && o == r.it_out) FAIL("penalty-wrong", "GetMaxPenalty gives %.17g, the true one is %.17g", s->al->GetMaxPenalty(), mp);
      lam = q.duals;
    }
  }
  // C12
  void check_limits(const Res& r) {
    Ign g;
    if (r.threw) return;
    SolverOptions& o = s->opts();
    if (r.it_in > std::max(o.max_iterations_inner, 0)) FAIL("limit-exceeded", "%d inner iterations, the limit is %d", r.it_in, o.max_iterations_inner);
    if (sp.al && r.it_out > o.max_iterations_outer) FAIL("limit-exceeded", "%d outer iterations, the limit is %d", r.it_out, o.max_iterations_outer);
    if (o.max_iterations_total >= 1 && r.it_tot > o.max_iterations_total) FAIL("limit-exceeded", "%d iterations in total, the limit is %d", r.it_tot, o.max_iterations_total);
    // line search steps: rollouts between two expansions
    if (rec->nlog < REC_MAXLOG) {
      int e = 0, ro = 0;
      for (uint32_t i = 0; i < rec->nlog; ++i) {
        auto& l = rec->log[i];
        if (l.exit_ || l.knot) continue;
        if (l.func == FN_COSTHESS) { if (e && ro > o.line_search_max_iterations + 1) FAIL("limit-exceeded", "%d rollouts in one iteration, the line search limit is %d", ro, o.line_search_max_iterations); e++; ro = 0; }
        if (l.func == FN_DYN) ro++;
      }
      if (e && ro > o.line_search_max_iterations) FAIL("limit-exceeded", "%d rollouts in the last iteration, the line search limit is %d", ro, o.line_search_max_iterations);
      if (sp.al && r.it_out > 0 && e > r.it_out * o.max_iterations_inner) FAIL("limit-exceeded", "%d iterations in %d outer iterations, the inner limit is %d", e, r.it_out, o.max_iterations_inner);
    }
    // the limits of every inner solve, seen by ending the solve after each outer iteration
    if (sp.al && r.it_out > 1)
      for (int o2 = 1; o2 < r.it_out; ++o2) {
        Res q = reference(cur, -1, o2);
        if (q.threw) break;
        if (q.it_out != o2) FAIL("limit-exceeded", "%d outer iterations, the limit is %d", q.it_out, o2);
        if (q.it_in > std::max(o.max_iterations_inner, 0)) FAIL("limit-exceeded", "%d inner iterations in outer iteration %d, the limit is %d", q.it_in, o2, o.max_iterations_inner);
      }
    bool none = r.it_tot == 0;
    switch (r.status) {
      case 0: if (none) FAIL("status-wrong", "success without an iteration"); break;
      case 1: if (!none) FAIL("status-wrong", "the status is Unsolved after %d iterations", r.it_tot); break;
      case 2: if (!(o.check_forwardpass_bounds && rec->max_state > o.state_max)) FAIL("status-wrong", "state limit reported but the largest candidate state norm is %g (limit %g)", rec->max_state, o.state_max); break;
      case 3: if (!(o.check_forwardpass_bounds && rec->max_control > o.control_max)) FAIL("status-wrong", "control limit reported but the largest candidate control norm is %g (limit %g)", rec->max_control, o.control_max); break;
      case 4: FAIL("status-wrong", "a cost increase is reported"); break;
      case 5: if (r.it_tot < o.max_iterations_total) FAIL("status-wrong", "iteration limit reported after %d of %d iterations", r.it_tot, o.max_iterations_total); break;
      case 6: if (!sp.al || r.it_out < o.max_iterations_outer) FAIL("status-wrong", "outer iteration limit reported after %d of %d", r.it_out, o.max_iterations_outer); break;
      case 7: if (r.it_in < o.max_iterations_inner) FAIL("status-wrong", "inner iteration limit reported after %d of %d", r.it_in, o.max_iterations_inner); break;
      case 8: if (!sp.al || !r.series[7].size() || !(r.series[7].back() > o.maximum_penalty)) FAIL("status-wrong", "penalty limit reported at a maximum penalty of %g (limit %g)", r.series[7].empty() ? -1 : r.series[7].back(), o.maximum_penalty); break;
      case 9: {
        bool faulty = sp.cliff > 0 || (sp.cost & 6) || rec->fired[ACT_INDEF] || rec->fired[ACT_NAN] || rec->fired[ACT_HUGE];
        double big = 0;
        for (double c : r.series[0]) big = std::max(big, std::isfinite(c) ? std::abs(c) : 1e300);
        for (double c : r.pens) big = std::max(big, c);
        if (!faulty && big < 1e6 && (!sp.al || r.it_out == 1)) {   // convex: the backward pass succeeds, unless rounding interferes
          std::vector<double> X, U, lam = z.duals;
          if (o.reset_duals) std::fill(lam.begin(), lam.end(), 0.0);
          if (r.it_tot == 1) { X = clean.rollout(z.x0, z.U, z.T, z.H); U = z.U; }
          else { Res q = reference(cur, r.it_tot - 1); if (q.threw || q.it_tot != r.it_tot - 1) break; X = q.X; U = q.U; }
          StepModel model(sp, clean);
          std::vector<KnotExp> E;
          if (model.expand(X, U, z.T, z.H, lam, r.pens, {}, &E) && model.backward(E, 0).state == 1) FAIL("status-wrong", "a regularisation failure is reported for a convex problem");
        }
        break;
      }
      default: FAIL("status-wrong", "unknown status");
    }
    // persistent indefiniteness: the backward pass cannot succeed
    for (auto& f : p.faults)
      if (f.name == "rec" && f.at(0) == cur && f.at(1) == FN_COSTHESS && f.at(5) == ACT_INDEF && f.at(6) <= 0 && f.at(4) >= 1000000 && f.at(2) >= 0 && f.at(2) < sp.N && r.it_tot >= f.at(3) && r.status != 9) {
        // NaNs get past the factorisation, so the backward pass need not notice
        bool other = sp.cliff > 0 || rec->fired[ACT_NAN] || rec->fired[ACT_HUGE];   // another fault may take precedence over this one
        for (auto& f2 : p.faults) if (&f2 != &f && f2.name == "rec" && f2.at(0) == cur && f2.at(1) == FN_COSTHESS) other = true;
        if (!other) FAIL("status-wrong", "the backward pass cannot succeed from iteration %lld on but the status is %s", (long long)f.at(3), status_name(r.status).c_str());
      }
  }
  // C26: every iteration against the reference implementation
  void check_steps(const Res& r) {
    Ign g;
    if (r.threw || r.it_tot == 0) return;
    SolverOptions& o = s->opts();
    auto pre = prefixes(r);
    StepModel model(sp, clean);
    std::vector<double> X = clean.rollout(z.x0, z.U, z.T, z.H), U = z.U, lam = z.duals;
    if (o.reset_duals) std::fill(lam.begin(), lam.end(), 0.0);
    int outer = 0, inner = 0, last_status = 1;   // status left by the last rollout; -1: not known
    bool reg_known = false;
    double rho = 0, drho = 0;
    const double f = o.bp_reg_increase_factor;
    auto clampr = [&](double v) { return o.bp_reg_enable ? std::min(std::max(v, o.bp_reg_min), o.bp_reg_max) : 0.0; };
    for (int j = 1; j <= r.it_tot; ++j) {
      Res& q = pre[j - 1];
      if (q.threw || q.it_tot != j) return;
      int ot = sp.al ? q.it_out : 1;
      const std::vector<double>& pens = q.pens;
      if (ot != outer) {
        if (outer > 0) lam = pre[j - 2].duals;
        outer = ot;
        inner = 0;
        reg_known = true;
        rho = o.bp_reg_enable ? o.bp_reg_initial : 0;
        drho = 0;
        last_status = 1;
      }
      ++inner;
      double lreg = r.series[5].at(j - 1), la = r.series[1].at(j - 1), lz = r.series[2].at(j - 1), lg = r.series[3].at(j - 1), dJ = r.series[4].at(j - 1);
      bool last = j == r.it_tot, bp_failed = last && r.status == 9;
      // ---- expansion, with the derivative faults that hit it
      std::vector<StepModel::Indef> indef;
      bool skip = false;
      for (auto& ft : p.faults)
        if (ft.name == "rec" && ft.at(0) == cur && ft.at(5) != ACT_STALL && j >= ft.at(3) && j <= ft.at(4)) {
          if (ft.at(5) == ACT_INDEF && ft.at(1) == FN_COSTHESS) {
            for (int k = 0; k <= sp.N; ++k) if (ft.at(2) < 0 || ft.at(2) == k) indef.push_back({k, -(ft.at(6) > 0 ? (double)ft.at(6) : 1e30)});
          } else skip = true;
        }
      std::vector<KnotExp> E;
      if (!model.expand(X, U, z.T, z.H, lam, pens, indef, &E)) skip = true;
      if (sp.cliff > 0) for (int k = 0; k <= sp.N; ++k) if (std::abs(std::abs(X[k * 3]) - sp.cliff) < 1e-9) skip = true;
      double m0, J0 = clean.objective(X, U, lam, pens, &m0);
      if (!std::isfinite(J0)) skip = true;
      // ---- backward pass: regularisation and gains
      StepModel::Sweep sw;
      if (skip) reg_known = false;
      if (!skip && reg_known) {
        int count = 0;
        for (int guard = 0;; ++guard) {
          sw = model.backward(E, rho);
          bool logged = std::abs(rho - lreg) <= 1e-12 * (1 + std::abs(rho));
          if (sw.state == 1 || (sw.state == 0 && logged && !bp_failed)) {
            if (!logged) FAIL("regularisation-wrong", "the backward pass of iteration %d succeeds with a regularisation of %.17g but %.17g was used", j, rho, lreg);
            if (sw.state == 1 && bp_failed) FAIL("regularisation-wrong", "the backward pass of iteration %d succeeds with a regularisation of %.17g but is reported to have failed", j, rho);
            break;
          }
          const double before = rho;
          drho = std::max(drho * f, f);
          rho = clampr(rho * drho);
          if (rho >= o.bp_reg_max || rho <= before) count++;
          if (count >= o.bp_reg_fail_threshold) {
            if (sw.state == 0) { reg_known = false; break; }
            sim_probe(PR_REG_FAILED);
            if (!bp_failed) FAIL("regularisation-wrong", "the backward pass of iteration %d fails with every regularisation but %.17g was used (status %s)", j, lreg, status_name(last ? r.status : q.status).c_str());
            if (std::abs(rho - lreg) > 1e-12 * (1 + std::abs(rho))) FAIL("regularisation-wrong", "after a failed backward pass in iteration %d the regularisation is %.17g instead of %.17g", j, lreg, rho);
            break;
          }
          if (guard > 5000) return;
        }
      }
      if (!skip && !bp_failed) sw = model.backward(E, lreg);
      // from here on with the values that were used
      rho = lreg;
      drho = std::min(drho / f, 1 / f);
      rho = clampr(rho * drho);
      int step_status = -1;
      bool accepted = la != 0;
      if (bp_failed) {
        if (accepted) FAIL("step-wrong", "a step of length %g was made in iteration %d although its backward pass failed", la, j);
        step_status = 9;
      } else if (skip || !sw.usable) {
        sim_probe(PR_STEP_SKIPPED);
        if (accepted) step_status = 1;
      } else {
        sim_probe(PR_STEP);
        // ---- line search
        double alpha = 1, wz = -1, wztol = 0;
        bool zknown = true, sure = true;
        int st = last_status, i = 0;
        StepModel::Cand c;
        for (; i < o.line_search_max_iterations; ++i, alpha /= o.line_search_decrease_factor) {
          bool here = accepted && std::abs(la - alpha) <= 1e-12 * alpha;
          c = model.candidate(z.x0, X, U, z.T, z.H, sw, alpha, lam, pens, o.check_forwardpass_bounds, o.state_max, o.control_max);
          int verdict = 0;   // 1 accept, -1 reject, 0 undecided
          if (c.limit > 0) { verdict = -1; st = c.limit; }
          else if (!c.ok) { st = -1; zknown = false; sure = false; }
          else {
            st = 1;
            double ex = -alpha * (sw.dV0 + alpha * sw.dV1), et = alpha * (1 + alpha) * sw.dVtol + 1e-14 * std::abs(ex);
            double J0tol = 1e-12 * (1e-3 + m0);
            if (std::isnan(c.J)) { verdict = -1; wz = c.J; zknown = ex > et || ex < -et; if (ex < -et) wz = -1; wztol = 0; }
            else if (ex > et) {
              double zt = 2 * (J0tol + c.Jtol) / ex + std::abs(J0 - c.J) / ex * (et / ex) * 2;
              wz = (J0 - c.J) / ex; wztol = zt; zknown = true;
              bool dec = J0 - c.J > J0tol + c.Jtol, inc = c.J - J0 > J0tol + c.Jtol;
              double lo = o.line_search_lower_bound, hi = o.line_search_upper_bound;
              if (inc || wz + zt < lo || wz - zt > hi) verdict = -1;
              else if (dec && wz - zt > lo && wz + zt < hi) verdict = 1;
            } else if (ex < -et) {
              wz = -1; wztol = 0; zknown = true;
              verdict = o.line_search_lower_bound > -1 ? -1 : 0;
            } else zknown = false;
          }
          if (verdict == 0) sure = false;
          if (here && verdict < 0) FAIL("step-wrong", "iteration %d took a step of length %g that the line search rejects (objective %.17g before, %.17g after, ratio %g%s)", j, alpha, J0, c.J, wz, c.limit > 0 ? ", a limit is exceeded" : "");
          if (!here && verdict > 0) FAIL("step-wrong", "iteration %d took a step of length %g although the line search accepts the length %g (objective %.17g before, %.17g after, ratio %g)", j, la, alpha, J0, c.J, wz);
          if (here) break;
        }
        if (!sure) sim_probe(PR_STEP_UNSURE);
        if (accepted && i >= o.line_search_max_iterations) FAIL("step-wrong", "the step length %g of iteration %d is not one of the line search", la, j);
        step_status = st;
        if (accepted) {
          step_status = 1;
          if (c.ok && std::isfinite(c.J) && c.tol < 1e-2) {
            for (size_t t = 0; t < c.X.size(); ++t) if (!(std::abs(q.X[t] - c.X[t]) <= c.tol)) FAIL("step-wrong", "iteration %d moved state %zu to %.17g, the algorithm to %.17g (step length %g)", j, t, q.X[t], c.X[t], la);
            for (int t = 0; t < 2 * sp.N; ++t) if (!(std::abs(q.U[t] - c.U[t]) <= c.tol)) FAIL("step-wrong", "iteration %d moved control %d to %.17g, the algorithm to %.17g (step length %g)", j, t, q.U[t], c.U[t], la);
          }
        } else {
          for (size_t t = 0; t < X.size(); ++t) if (!same(q.X[t], X[t])) FAIL("step-wrong", "iteration %d made no step but changed state %zu from %.17g to %.17g", j, t, X[t], q.X[t]);
          for (int t = 0; t < 2 * sp.N; ++t) if (!same(q.U[t], U[t])) FAIL("step-wrong", "iteration %d made no step but changed control %d from %.17g to %.17g", j, t, U[t], q.U[t]);
        }
        if (zknown && wztol < 1e-3 * (1 + std::abs(wz)) && !(same(lz, wz) || std::abs(lz - wz) <= wztol + 1e-9 * std::abs(wz))) FAIL("ratio-wrong", "the improvement ratio of iteration %d is reported as %.17g but is %.17g", j, lz, wz);
        // ---- gradient
        double sum = 0;
        for (int k = 0; k < sp.N; ++k) sum += std::max(std::abs(sw.d2[k * 2]) / (std::abs(q.U[k * 2]) + 1), std::abs(sw.d2[k * 2 + 1]) / (std::abs(q.U[k * 2 + 1]) + 1));
        if (!(std::abs(lg - sum / sp.N) <= 2 * sw.dtol + 1e-9 * std::abs(lg))) FAIL("gradient-wrong", "the gradient of iteration %d is reported as %.17g but is %.17g", j, lg, sum / sp.N);
        if (last) {   // the policy the solver offers is that of its last iteration
          for (int k = 0; k < sp.N; ++k) {
            auto& K = s->I().GetKnotPointFunction(k).GetFeedbackGain();
            auto& d = s->I().GetKnotPointFunction(k).GetFeedforwardGain();
            for (int a = 0; a < 2; ++a) {
              if (!(std::abs(d(a) - sw.d2[k * 2 + a]) <= sw.dtol)) FAIL("gains-wrong", "the feedforward gain %d of knot point %d is %.17g but should be %.17g", a, k, d(a), sw.d2[k * 2 + a]);
              for (int c2 = 0; c2 < 3; ++c2) if (!(std::abs(K(a, c2) - sw.K2[(k * 2 + a) * 3 + c2]) <= sw.Ktol)) FAIL("gains-wrong", "the feedback gain (%d,%d) of knot point %d is %.17g but should be %.17g", a, c2, k, K(a, c2), sw.K2[(k * 2 + a) * 3 + c2]);
            }
          }
        }
      }
      if (!accepted) {   // no step: more regularisation
        drho = std::max(drho * f, f);
        rho = clampr(rho * drho);
      }
      // ---- what happens next
      last_status = step_status;
      int in = -2;   // status of the inner solve, 1: goes on, -2: not known
      if (step_status == 9) in = 9;
      else if (dJ < o.cost_tolerance && lg < o.gradient_tolerance) in = 0;
      else if (inner >= o.max_iterations_inner) in = 7;
      else if (j >= o.max_iterations_total) in = 5;
      else if (step_status >= 0) in = step_status;
      int all = in;
      if (sp.al && in == 0) {
        double viol = q.series[6].back(), pen = q.series[7].back();
        if (viol < o.constraint_tolerance) all = 0;
        else if (pen > o.maximum_penalty) all = 8;
        else if (ot >= o.max_iterations_outer) all = 6;
        else if (j >= o.max_iterations_total) all = 5;
        else all = 100;   // another outer iteration
      }
      if (in != -2) {
        sim_probe(PR_DECIDED);
        int nxt = last ? 0 : sp.al ? pre[j].it_out : 1;
        if (last && (all == 1 || all == 100)) FAIL("stopped-early", "the solve ended after iteration %d with status %s but should go on", j, status_name(r.status).c_str());
        if (last && all != r.status) FAIL("stopped-early", "after iteration %d the status is %s but should be %s", j, status_name(r.status).c_str(), status_name(all).c_str());
        if (!last && all != 1 && all != 100) FAIL("not-stopped", "after iteration %d the solve should end with status %s but goes on", j, status_name(all).c_str());
        if (!last && all == 1 && nxt != ot) FAIL("not-stopped", "after iteration %d a new outer iteration began", j);
        if (!last && all == 100 && nxt != ot + 1) FAIL("not-stopped", "after iteration %d no new outer iteration began", j);
      }
      X = q.X;
      U = q.U;
    }
  }
  // C17
  void check_stats(const Res& r) {
    Ign g;
    size_t L = r.series[0].size();
    for (int i = 0; i < 8; ++i) if (r.series[i].size() != L) FAIL("series-length", "the series '%s' has %zu entries, 'cost' %zu", series_name(i), r.series[i].size(), L);
    int exp = (int)rec->calls[FN_COSTHESS][0];
    if (r.threw) {
      if (r.it_tot > exp || r.it_tot < 0) FAIL("counter", "%d iterations counted, %d expansions started", r.it_tot, exp);
      if (L > 0 && (int)L != r.it_tot + 1) FAIL("series-length", "%zu entries after %d completed iterations and an exception", L, r.it_tot);
      return;
    }
    size_t want = sp.al || r.it_tot > 0 ? (size_t)r.it_tot + 1 : 0;
    if (L != want) FAIL("series-length", "the series have %zu entries after %d iterations", L, r.it_tot);
    if (r.it_tot != exp) FAIL("counter", "%d iterations counted but %d performed", r.it_tot, exp);
    if (!sp.al && r.it_in != r.it_tot) FAIL("counter", "%d inner but %d total iterations", r.it_in, r.it_tot);
    if (r.it_in > r.it_tot) FAIL("counter", "%d inner but %d total iterations", r.it_in, r.it_tot);
    // step lengths against the rollouts that were made
    SolverOptions& o = s->opts();
    int ro = 0;
    bool known = true;
    // user functions that return another value for the same arguments: the objective is not one function
    bool odd = rec->fired[ACT_NAN] || rec->fired[ACT_HUGE];
    for (int j = 0; j < r.it_tot; ++j) {
      double a = r.series[1][j], dJ = r.series[4][j];
      if (a != 0) {
        int t = 1;
        double x = 1;
        while (t <= o.line_search_max_iterations && std::abs(x - a) > 1e-9 * a) { x /= o.line_search_decrease_factor; t++; }
        if (t > o.line_search_max_iterations) FAIL("step-length", "the step length %g of iteration %d is not one of the line search", a, j + 1);
        ro += t;
        if (!(dJ > 0) && !odd) FAIL("step-length", "iteration %d has step length %g but a cost decrease of %g", j + 1, a, dJ);
      } else {
        if ((dJ > 0 || dJ < 0) && !odd) FAIL("step-length", "iteration %d has step length 0 but a cost decrease of %g", j + 1, dJ);
        if (j == r.it_tot - 1 && r.status == 9) continue;   // no line search
        ro += std::max(0, o.line_search_max_iterations);
      }
    }
    int outer = sp.al ? r.it_out : 1;
    int seen = (int)rec->calls[FN_DYN][0];
    if (known && seen != outer + ro) FAIL("counter", "%d outer iterations and %d line search steps are reported but %d rollouts were made", outer, ro, seen);
    check_gradient(r);
    // every entry belongs to its iteration
    auto pre = prefixes(r);
    for (int j = 1; j <= r.it_tot; ++j) {
      Res& q = pre[j - 1];
      if (q.threw || q.it_tot != j) return;
      for (int i = 0; i < 7; ++i) {
        for (int t = 0; t < j; ++t)
          if (!same(q.series[i][t], r.series[i][t])) FAIL("entry-moved", "entry %d of '%s' is %.17g, but %.17g when the solve ends after iteration %d", t + 1, series_name(i), r.series[i][t], q.series[i][t], j);
      }
      if (sp.al && !transient_values) {
        double v = clean.violation(q.X, q.U), lv = r.series[6][j - 1];
        if (!std::isnan(v) && !close(lv, v, std::abs(v))) FAIL("violation-moved", "the violation logged for iteration %d is %.17g, that of its trajectory %.17g", j, lv, v);
      }
    }
  }
  // C25: the console shows what the statistics say
  void check_console(const Res& r) {
    Ign g;
    if (!captured) return;
    SolverOptions& o = s->opts();
    int lv = (int)o.verbose;
    bool inner = lv >= (int)LogLevel::kInner;
    static const char* names[] = {"iters", "iter_al", "cost", "viol", "dJ", "grad", "alpha", "reg", "z", "pen"};
    static const int ser[] = {-1, -1, 0, 6, 4, 3, 1, 5, 2, 7};
    SolverLogger& lg = s->stats().GetLogger();
    std::string head, rule;
    for (const char* nm : names) {
      LogEntry& e = lg.GetEntry(nm);
      if (lv == 0 || (int)e.GetLevel() > lv) continue;
      head += fmt::format("{:>{}}", nm, e.GetWidth()) + " ";
      rule += std::string(e.GetWidth() + 1, '-');
    }
    auto row = [&](int j, int outer) {   // after iteration j, with this number of outer iterations logged
      std::string t;
      for (int i = 0; i < 10; ++i) {
        LogEntry& e = lg.GetEntry(names[i]);
        if ((int)e.GetLevel() > lv) continue;
        std::string v;
        if (i == 0) v = fmt::format(e.GetFormat(), j);
        else if (i == 1) v = sp.al ? fmt::format(e.GetFormat(), outer) : "";
        else if (i == 9 && !sp.al) v = "";
        else v = fmt::format(e.GetFormat(), r.series[ser[i]].at(j - 1));
        t += fmt::format("{:>{}}", v, e.GetWidth()) + " ";
      }
      return t;
    };
    std::vector<std::string> want, got;
    auto header = [&]() { if (head != "") { want.push_back(head); want.push_back(rule); } };
    // the iterations at the end of every outer iteration
    std::vector<int> ends;
    if (sp.al && lv)
      for (int q = 1; q <= r.it_out; ++q) {
        if (q == r.it_out && !r.threw) { ends.push_back(r.it_tot); break; }
        Res e = reference(cur, -1, q);
        if (e.threw || e.it_out != q) return;
        ends.push_back(e.it_tot);
      }
    if (lv && inner) {
      int o1 = 0;
      for (int j = 1; j <= r.it_tot; ++j) {
        while (o1 < (int)ends.size() && j > ends[o1]) { header(); o1++; }
        if (j == 1) header();
        want.push_back(row(j, o1));
      }
      while (r.threw && o1 < (int)ends.size()) { header(); o1++; }
    } else if (lv && sp.al) {
      for (int q = 1; q <= (int)ends.size(); ++q) {
        if (o.header_frequency > 0 && (q - 1) % o.header_frequency == 0) header();
        if (ends[q - 1] < 1) return;
        want.push_back(row(ends[q - 1], q));
      }
    }
    std::string line;
    for (size_t i = 0; i < console.size(); ++i) {
      char c = console[i];
      if (c == 27) { while (i < console.size() && console[i] != 'm') ++i; continue; }
      if (c != '\n') { line += c; continue; }
      if (line.compare(0, 14, "Task timed out") != 0) got.push_back(line);
      line.clear();
    }
    if (line != "") got.push_back(line);
    sim_probe(PR_CONSOLE);
    for (size_t i = 0; i < std::max(want.size(), got.size()); ++i) {
      auto at = [&](std::vector<std::string>& v) { return i < v.size() ? "'" + v[i] + "'" : std::string("missing"); };
      if (at(want) != at(got)) FAIL("console-wrong", "at verbosity %d line %zu on the console is %s, the statistics give %s", lv, i + 1, at(got).c_str(), at(want).c_str());
    }
  }
  // C18
  static int wanted_threads(const SolverOptions& o) {
    return std::max(o.nthreads == altro::kPickHardwareThreads ? (int)std::thread::hardware_concurrency() : o.nthreads, 1);
  }
  void check_expansions(const Res& r) {
    Ign g;
    if (rec->overlap_knot >= 0) FAIL("overlap", "functions of knot point %d ran concurrently", rec->overlap_knot);
    SolverOptions& o = s->opts();
    int nt = wanted_threads(o);
    if (o.NumThreads() != nt) FAIL("threads", "the options give %d threads for a setting of %d on %u hardware threads", o.NumThreads(), o.nthreads, std::thread::hardware_concurrency());
    std::vector<int> inds = s->I().GetTaskAssignment();
    if (inds.size() < 2 || inds.front() != 0 || inds.back() != sp.N + 1) FAIL("partition", "the partition has %zu entries from %d to %d", inds.size(), inds.empty() ? -1 : inds.front(), inds.empty() ? -1 : inds.back());
    for (size_t i = 1; i < inds.size(); ++i) if (inds[i] < inds[i - 1]) FAIL("partition", "the partition decreases at entry %zu", i);
    if (!custom.empty()) { if (inds != custom) FAIL("partition", "the custom partition is not in use"); }
    else if ((int)inds.size() != nt * o.tasks_per_thread + 1) FAIL("partition", "the default partition has %zu tasks for %d threads and %d tasks per thread", inds.size() - 1, nt, o.tasks_per_thread);
    if ((int)s->I().NumTasks() != (int)inds.size() - 1) FAIL("partition", "NumTasks is %d", (int)s->I().NumTasks());
    if (r.threw) return;
    int pool = (int)s->I().NumThreads();
    if (nt > 1 ? pool != nt : pool > 1) FAIL("threads", "the solve used a pool of %d threads, %d were requested", pool, nt);
    const int fns[] = {FN_COSTHESS, FN_COSTGRAD, FN_DYNJAC};
    for (int f : fns)
      for (int k = 0; k <= sp.N; ++k) {
        if (f == FN_DYNJAC && k == sp.N) continue;
        if ((int)rec->calls[f][k] != r.it_tot) FAIL("expansion-count", "%s of knot point %d was evaluated %u times in %d expansions", fn_name(f), k, rec->calls[f][k], r.it_tot);
      }
    if (rec->nlog >= REC_MAXLOG) return;
    // round by round, and each block by one thread in order
    std::vector<int> cnt(sp.N + 1, 0);
    std::vector<int> tid(sp.N + 1, 0);
    int done = 0, round = 0;
    for (uint32_t i = 0; i < rec->nlog; ++i) {
      auto& l = rec->log[i];
      if (l.func != FN_COSTHESS || l.exit_) continue;
      if (cnt[l.knot] != round) FAIL("expansion-count", "knot point %d is expanded again before the others", (int)l.knot);
      cnt[l.knot]++;
      tid[l.knot] = l.tid;
      if (++done == sp.N + 1) {
        done = 0;
        round++;
        if (nt > 1)
          for (size_t b = 0; b + 1 < inds.size(); ++b)
            for (int k = inds[b] + 1; k < inds[b + 1]; ++k) {
              if (tid[k] != tid[k - 1]) FAIL("partition-ignored", "knot points %d and %d belong to one task but ran on different threads", k - 1, k);
            }
      }
    }
    if (nt > 1 && round > 0) {
      bool off = false;
      for (uint32_t i = 0; i < rec->nlog; ++i)
        if (rec->log[i].func == FN_COSTHESS && rec->log[i].tid != sim_tid() + 1) off = true;
      if (!off) FAIL("threads", "%d threads were requested but all %d expansions ran on the calling thread", nt, round);
    }
  }
  void move(int kind) {
    sim_probe(PR_MOVED);
    if (sp.al) {
      auto a = std::make_unique<typename S::AL>(std::move(*s->al));
      if (kind & 1) old_al.push_back(std::move(s->al));
      s->al = std::move(a);
    } else {
      auto a = std::make_unique<typename S::IL>(std::move(*s->il));
      if (kind & 1) old_il.push_back(std::move(s->il));
      s->il = std::move(a);
    }
  }
  void run() {
    Res r;
    { Ign g; base_fds = count_fds(); }
    for (auto& f : p.faults) if (f.name == "wall") sim_wallclock_jump_at((uint64_t)f.at(0), f.at(1));
    {   // faults may hit the construction as well
      for (auto& f : p.faults) if (f.name == "alloc" && f.at(0) == -1) sim_fail_alloc((long)f.at(1), (int)f.at(2));
      try { make(); } catch (const std::bad_alloc&) { sim_fail_alloc(0, -1); sim_probe(PR_ALLOC_CAUGHT); s.reset(); }
      sim_fail_alloc(0, -1);
      if (!s) make();
    }
    int idx = 0, ran = 0;
    for (auto& op : p.ops) {
      if (op.name == "solve" || op.name == "solve2") {
        if ((op.name == "solve2") != (w == 1)) { if (op.name == "solve2" || w == 1) continue; }
        int me = w * 100 + idx++;
        r = solve(me, op);
        ran++;
        judge(r, op);
      } else if (op.name == "move" && w == 0) { if (ran || op.at(1)) move((int)op.at(0)); else move((int)op.at(0)); }
      else if (op.name == "problem" && w == 0) move_problem((int)op.at(0));
      else if (op.name == "remake" && w == 0) { s.reset(); make(); phi = 10; custom.clear(); }
      else if (op.name == "invalid" && w == 0) invalid_partition(op);
      else if (op.name == "call" && w == 0) {
        uint64_t t0 = sim_now();
        direct((int)op.at(0));
        if (s->opts().profiler_enable) { prof_ns += sim_now() - t0; prof_parts++; }
      }
      else if (op.name == "jump" && w == 0) sim_wallclock_jump(op.at(0));
      else if (op.name == "pause") sim_sleep((uint64_t)op.at(0));
    }
    if (fl == 13 || fl == 14) { finish_profile(r); return; }
    if (fl == 2 || fl == 7 || fl == 16 || fl == 19 || fl == 20) {
      s.reset();
      old_al.clear();   // moved-from solvers keep their own threads until they are destroyed
      old_il.clear();
      if (w == 0 && fl != 20 && sim_live_threads() != 1) sim_violation("thread-left", "%d thread(s) are alive after the solver was destroyed;", sim_live_threads() - 1);
    }
  }
  void finish_profile(const Res& r) {
    SolverOptions last;
    { Ign g; last = s->opts(); cur = last_idx; }
    bool check = prof_last && cur >= 0;
    int q;
    if (fl == 14) {
      Ign g;
      getrlimit(RLIMIT_FSIZE, &old_fs);
      getrlimit(RLIMIT_NOFILE, &old_nf);
      if ((q = io(1000, IO_END_LIMIT))) { limit_size(q - 1); check = false; sim_fault_fired(F_DISK_FULL); }
      if ((q = io(1000, IO_END_FULL))) { redirect(open("/dev/full", O_WRONLY), (q - 1) % 3); sim_fault_fired(F_STDOUT_FULL); }
    }
    std::unique_ptr<S> dead;
    {
      // the solver ends here; its handle stays for the messages
      auto al = std::move(s->al);
      auto il = std::move(s->il);
      if (sp.al) al.reset();
      else il.reset();
    }
    io_end();
    {
      Ign g;
      s = std::make_unique<S>(sp, nullptr);
      s->opts().nthreads = last.nthreads;
      s->opts().tasks_per_thread = last.tasks_per_thread;
    }
    if (fl == 14) {
      Ign g;
      int nf = count_fds();
      if (nf != base_fds) FAIL("fd-leak", "%d file descriptors are open after the solver was destroyed, %d before it was created", nf, base_fds);
      if (sim_fclose_stdout_seen() || fcntl(1, F_GETFD) == -1) FAIL("stdout-closed", "the standard output has been closed");
      if (check) check_profile_file(r, last);
    }
    if (fl == 13 && check) check_profile_times(r, profile_file, (uint64_t)p.s("tick_ps", 1000));
  }
  int last_idx = -1;
  void judge(const Res& r, const Item& op) {
    (void)op;
    last_idx = cur;
    switch (fl) {
      case 14: check_output(r); break;
      case 1: compare(r, "result-differs", "the parallel solve differs from the single-threaded one"); break;
      case 7: check_failure(r); break;
      case 8: compare(r, "history-dependent", "the solve differs from that of a fresh solver"); break;
      case 9: check_feasible(r); break;
      case 10: check_success(r); break;
      case 11: check_descent(r); break;
      case 12: check_limits(r); break;
      case 15: check_multipliers(r); break;
      case 16: {
        Ign g;
        if (!r.threw) { sim_probe(PR_ALLOC_ABSORBED); compare(r, "wrong-after-oom", "the solve returned another result"); }
        else sim_probe(PR_ALLOC_CAUGHT);
        break;
      }
      case 17: check_stats(r); break;
      case 18: check_expansions(r); break;
      case 25: check_console(r); break;
      case 26: check_steps(r); break;
      case 19: {
        compare(r, "moved-differs", "the moved object differs from the original");
        Ign g;
        if (!custom.empty() && s->I().GetTaskAssignment() != custom) FAIL("moved-differs", "the moved object has lost its partition");
        if (!r.threw && (int)s->I().NumThreads() != wanted_threads(s->opts()) && wanted_threads(s->opts()) > 1) FAIL("moved-differs", "the moved object used %d threads, %d were requested", (int)s->I().NumThreads(), wanted_threads(s->opts()));
        break;
      }
      case 20: compare(r, "interference", "the result differs from that of the solver alone"); break;
      default: break;
    }
  }
  // public parts of the algorithm used on their own between solves
  void direct(int what) {
    rec->idle_ok = 1;
    rec->enabled = 0;
    try {
      switch (what) {
        case 0: s->I().UpdateExpansions(); break;
        case 1: s->I().Cost(); break;
        case 2: s->I().Rollout(); break;
        case 3: if (sp.al) s->al->MaxViolation(); break;
        case 4: s->I().GetTaskAssignment(); break;
      }
    } catch (...) {}
    rec->enabled = 1;
  }
  void move_problem(int kind) {
    // 0 copy, 1 move, 2 copy-assign, 3 move-assign; the original is destroyed before the solver is built
    auto q = std::move(s->prob);
    std::unique_ptr<problem::Problem> c;
    int N = q->NumSegments();
    switch (kind) {
      case 0: c = std::make_unique<problem::Problem>(*q); break;
      case 1: c = std::make_unique<problem::Problem>(std::move(*q)); break;
      case 2: c = std::make_unique<problem::Problem>(1 + (N + 3) % 7); *c = *q; break;
      default: c = std::make_unique<problem::Problem>(1 + (N + 3) % 7); *c = std::move(*q); break;
    }
    q.reset();
    {
      Ign g;
      if (c->NumSegments() != sp.N) sim_violation("problem-changed", "the %s problem has %d segments instead of %d;", kind & 1 ? "moved" : "copied", c->NumSegments(), sp.N);
      if (c->GetInitialState().size() != 3) sim_violation("problem-changed", "the %s problem lost its initial state;", kind & 1 ? "moved" : "copied");
      for (int i = 0; i < 3; ++i) if (!same(c->GetInitialState()(i), s->x0[i])) sim_violation("problem-changed", "the %s problem has another initial state;", kind & 1 ? "moved" : "copied");
      if (!c->IsFullyDefined()) sim_violation("problem-changed", "the %s problem is not fully defined;", kind & 1 ? "moved" : "copied");
      size_t want = clean.is_eq().size();
      if (sp.al && (size_t)c->NumConstraints() != want) sim_violation("problem-changed", "the %s problem has %d constraints instead of %zu;", kind & 1 ? "moved" : "copied", c->NumConstraints(), want);
    }
    s->al.reset();
    s->il.reset();
    s->prob = std::move(c);
    s->make_solver();
    phi = 10;
    custom.clear();
  }
  void invalid_partition(const Item& op) {
    std::vector<int> v = make_partition(sp.N, (uint64_t)op.at(1) + 1);
    switch (op.at(0)) {
      case 0: v.back() -= 1; break;
      case 1: v.front() += 1; break;
      case 2: v.assign(1, 0); break;
      case 3: v.clear(); break;
      case 4: if (v.size() < 3) v.insert(v.begin() + 1, 0); else v[1] = v[2]; break;
      case 5: v.insert(v.end() - 1, sp.N + 2); break;
      case 6: v.back() += 1; break;
      case 7: v.insert(v.begin() + 1, -1); break;
    }
    sim_probe(PR_REJECTED);
    g_expect_abort = 1;
    try { s->I().SetTaskAssignment(v); } catch (const std::exception&) { g_expect_abort = 0; return; }
    g_expect_abort = 0;
    sim_violation("invalid-partition", "an invalid partition (kind %lld) was accepted;", (long long)op.at(0));
  }
};

template <int n, int m>
void run_scenario(const Plan& p, int fl) {
  Spec sp(p);
  if (fl == 20) {
    Plan p2 = p;
    for (const char* k : {"N", "model", "integ", "cost", "con", "al", "grid", "pseed"}) if (p.cfg.count(std::string(k) + "2")) p2.cfg[k] = p.c(std::string(k) + "2");
    Spec s2(p2);
    Runner<n, m> a(p, fl, sp, 0), b(p, fl, s2, 1);
    std::thread t([&]() { b.run(); });
    a.run();
    t.join();
    if (sim_live_threads() != 1) sim_violation("thread-left", "%d thread(s) are alive after the solvers were destroyed;", sim_live_threads() - 1);
    return;
  }
  Runner<n, m> a(p, fl, sp, 0);
  for (auto& f : p.faults) if (f.name == "rec" && (f.at(5) == ACT_NAN || f.at(5) == ACT_HUGE)) a.transient_values = true;
  a.run();
}
}  // namespace ss
