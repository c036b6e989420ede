// An independent reference implementation of one iteration of the algorithm (C26): expansion of the augmented
// Lagrangian, Riccati sweep, regularisation, line search. Written with plain loops in two precisions; the
// difference between the two bounds the rounding error that any order of evaluation may cause.
#pragma once
#include "solver_common.h"

namespace ss {
struct KnotExp {   // second-order model at one knot point: cost (with the multiplier terms) and dynamics
  double A[3][3], B[3][2], lxx[3][3], lxu[3][2], luu[2][2], lx[3], lu[2];
};
struct StepModel {
  Spec sp;
  Clean& clean;
  std::vector<std::shared_ptr<RecCost>> cost;
  StepModel(const Spec& s, Clean& c) : sp(s), clean(c) { for (int k = 0; k <= s.N; ++k) cost.push_back(std::make_shared<RecCost>(s, k, nullptr)); }

  struct Indef { int knot; double value; };
  // false: a value is not finite, or a multiplier is exactly at the boundary of its cone
  bool expand(const std::vector<double>& X, const std::vector<double>& U, const std::vector<double>& T, const std::vector<double>& H,
              const std::vector<double>& lam, const std::vector<double>& rho, const std::vector<Indef>& indef, std::vector<KnotExp>* out) {
    out->assign(sp.N + 1, KnotExp());
    size_t ci = 0;
    bool ok = true;
    auto fin = [&](double v) { if (!std::isfinite(v) || std::abs(v) > 1e60) ok = false; return v; };
    for (int k = 0; k <= sp.N; ++k) {
      KnotExp& e = (*out)[k];
      std::memset(&e, 0, sizeof e);
      VectorXd x = clean.x(X, k), u = clean.u(U, k);
      if (k < sp.N) {
        MatrixXd j = MatrixXd::Zero(3, 5);
        clean.dyn[k]->Jacobian(x, u, (float)T[k], (float)H[k], j);
        for (int a = 0; a < 3; ++a) { for (int b = 0; b < 3; ++b) e.A[a][b] = fin(j(a, b)); for (int b = 0; b < 2; ++b) e.B[a][b] = fin(j(a, 3 + b)); }
      }
      VectorXd dx = VectorXd::Zero(3), du = VectorXd::Zero(2);
      MatrixXd xx = MatrixXd::Zero(3, 3), xu = MatrixXd::Zero(3, 2), uu = MatrixXd::Zero(2, 2);
      cost[k]->Gradient(x, u, dx, du);
      cost[k]->Hessian(x, u, xx, xu, uu);
      for (auto& f : indef) if (f.knot == k) for (int i = 0; i < 2; ++i) uu(i, i) = f.value;
      for (auto& d : cons_at(sp, k)) {
        MatrixXd j = MatrixXd::Zero(d.p, 5);
        double c[4];
        con_val(sp, d.kind, x, u, c);
        if (d.eq) RecCon<Equality>(sp, d, k, nullptr).Jacobian(x, u, j);
        else RecCon<Inequality>(sp, d, k, nullptr).Jacobian(x, u, j);
        double r = rho.at(ci);
        for (int i = 0; i < d.p; ++i, ++ci) {
          double z = lam.at(ci) - r * c[i];
          if (!d.eq) {
            if (std::abs(z) < 1e-9 * (std::abs(lam.at(ci)) + std::abs(r * c[i]))) ok = false;
            if (!(z <= 0)) continue;   // the constraint is inactive
          }
          if (!std::isfinite(z)) ok = false;
          for (int a = 0; a < 3; ++a) {
            dx(a) -= j(i, a) * z;
            for (int b = 0; b < 3; ++b) xx(a, b) += r * j(i, a) * j(i, b);
            for (int b = 0; b < 2; ++b) xu(a, b) += r * j(i, a) * j(i, 3 + b);
          }
          for (int a = 0; a < 2; ++a) {
            du(a) -= j(i, 3 + a) * z;
            for (int b = 0; b < 2; ++b) uu(a, b) += r * j(i, 3 + a) * j(i, 3 + b);
          }
        }
      }
      for (int a = 0; a < 3; ++a) {
        e.lx[a] = fin(dx(a));
        for (int b = 0; b < 3; ++b) e.lxx[a][b] = fin(xx(a, b));
        for (int b = 0; b < 2; ++b) e.lxu[a][b] = fin(xu(a, b));
      }
      for (int a = 0; a < 2; ++a) { e.lu[a] = fin(du(a)); for (int b = 0; b < 2; ++b) e.luu[a][b] = fin(uu(a, b)); }
    }
    return ok;
  }

  template <class F> struct Gains {
    std::vector<F> K, d;   // N x (2x3), N x 2
    F dV0 = 0, dV1 = 0, Sscale = 0;
    int fail = -1;         // knot point at which the factorisation failed
    std::vector<F> piv;    // relative pivots, from the last knot point backwards
  };
  template <class F>
  Gains<F> sweep(const std::vector<KnotExp>& E, F rho) const {
    Gains<F> g;
    int N = sp.N;
    g.K.assign(N * 6, 0);
    g.d.assign(N * 2, 0);
    F S[3][3], s[3];
    for (int a = 0; a < 3; ++a) { s[a] = E[N].lx[a]; for (int b = 0; b < 3; ++b) S[a][b] = E[N].lxx[a][b]; }
    for (int k = N - 1; k >= 0; --k) {
      const KnotExp& e = E[k];
      F SA[3][3], SB[3][2], Qxx[3][3], Qxu[3][2], Quu[2][2], Qx[3], Qu[2];
      for (int a = 0; a < 3; ++a) {
        for (int b = 0; b < 3; ++b) { F v = 0; for (int c = 0; c < 3; ++c) v += S[a][c] * (F)e.A[c][b]; SA[a][b] = v; }
        for (int b = 0; b < 2; ++b) { F v = 0; for (int c = 0; c < 3; ++c) v += S[a][c] * (F)e.B[c][b]; SB[a][b] = v; }
      }
      for (int a = 0; a < 3; ++a) {
        for (int b = 0; b < 3; ++b) { F v = e.lxx[a][b]; for (int c = 0; c < 3; ++c) v += (F)e.A[c][a] * SA[c][b]; Qxx[a][b] = v; }
        for (int b = 0; b < 2; ++b) { F v = e.lxu[a][b]; for (int c = 0; c < 3; ++c) v += (F)e.A[c][a] * SB[c][b]; Qxu[a][b] = v; }
        F v = e.lx[a];
        for (int c = 0; c < 3; ++c) v += (F)e.A[c][a] * s[c];
        Qx[a] = v;
      }
      F uscale = rho;
      for (int a = 0; a < 2; ++a) {
        for (int b = 0; b < 2; ++b) {
          F v = e.luu[a][b], m = std::abs((F)e.luu[a][b]);
          for (int c = 0; c < 3; ++c) { v += (F)e.B[c][a] * SB[c][b]; for (int c2 = 0; c2 < 3; ++c2) m += std::abs((F)e.B[c][a] * S[c][c2] * (F)e.B[c2][b]); }
          Quu[a][b] = v;
          uscale = std::max(uscale, m);
        }
        F v = e.lu[a];
        for (int c = 0; c < 3; ++c) v += (F)e.B[c][a] * s[c];
        Qu[a] = v;
      }
      F h00 = Quu[0][0] + rho, h10 = Quu[1][0], h11 = Quu[1][1] + rho;
      g.piv.push_back(h00 / (uscale + (F)1e-300));
      if (!(h00 > 0)) { g.fail = k; return g; }
      F l00 = std::sqrt(h00), l10 = h10 / l00, p1 = h11 - l10 * l10;
      g.piv.push_back(p1 / (uscale + l10 * l10 + (F)1e-300));
      if (!(p1 > 0)) { g.fail = k; return g; }
      F l11 = std::sqrt(p1);
      auto solve2 = [&](F b0, F b1, F* x0, F* x1) { F y0 = b0 / l00, y1 = (b1 - l10 * y0) / l11; *x1 = y1 / l11; *x0 = (y0 - l10 * *x1) / l00; };
      F K[2][3], d[2];
      for (int c = 0; c < 3; ++c) { solve2(Qxu[c][0], Qxu[c][1], &K[0][c], &K[1][c]); K[0][c] = -K[0][c]; K[1][c] = -K[1][c]; }
      solve2(Qu[0], Qu[1], &d[0], &d[1]);
      d[0] = -d[0]; d[1] = -d[1];
      for (int a = 0; a < 2; ++a) { g.d[k * 2 + a] = d[a]; for (int c = 0; c < 3; ++c) g.K[(k * 2 + a) * 3 + c] = K[a][c]; }
      // cost to go, with the action-value function that has not been regularised
      F Qd[2];
      for (int a = 0; a < 2; ++a) Qd[a] = Quu[a][0] * d[0] + Quu[a][1] * d[1];
      for (int c = 0; c < 3; ++c) {
        s[c] = Qx[c];
        for (int a = 0; a < 2; ++a) s[c] += K[a][c] * (Qd[a] + Qu[a]) + Qxu[c][a] * d[a];
        for (int c2 = 0; c2 < 3; ++c2) {
          F v = Qxx[c][c2];
          for (int a = 0; a < 2; ++a) {
            v += K[a][c] * Qxu[c2][a] + Qxu[c][a] * K[a][c2];
            for (int b = 0; b < 2; ++b) v += K[a][c] * Quu[a][b] * K[b][c2];
          }
          S[c][c2] = v;
          g.Sscale = std::max(g.Sscale, std::abs(v));
        }
      }
      g.dV0 += d[0] * Qu[0] + d[1] * Qu[1];
      g.dV1 += (F)0.5 * (d[0] * Qd[0] + d[1] * Qd[1]);
    }
    return g;
  }

  struct Sweep {
    int state = 0;     // 1 certainly succeeds, -1 certainly fails, 0 undecided
    bool usable = false;
    std::vector<double> K, d, K2, d2, K3, d3;   // gains in double, rounded from long double, and from a disturbed expansion
    double Ktol = 0, dtol = 0, dV0 = 0, dV1 = 0, dVtol = 0;
  };
  static bool maxdiff(const std::vector<double>& a, const std::vector<double>& b, double* scale, double* diff) {
    *scale = *diff = 0;
    for (size_t i = 0; i < a.size(); ++i) {
      if (!std::isfinite(a[i]) || !std::isfinite(b[i])) return false;
      *scale = std::max(*scale, std::abs(b[i]));
      *diff = std::max(*diff, std::abs(a[i] - b[i]));
    }
    return true;
  }
  // the same expansion with every number changed in its last places
  static std::vector<KnotExp> shaken(const std::vector<KnotExp>& E, uint64_t seed) {
    Rng r(seed);
    auto F = E;
    for (auto& e : F) {
      double* v = &e.A[0][0];
      for (size_t i = 0; i < sizeof(KnotExp) / sizeof(double); ++i) v[i] *= 1 + 4e-15 * (r.real() - 0.5);
      for (int a = 0; a < 3; ++a) for (int b = 0; b < a; ++b) e.lxx[a][b] = e.lxx[b][a];
      e.luu[1][0] = e.luu[0][1];
    }
    return F;
  }
  Sweep backward(const std::vector<KnotExp>& E, double rho) const {
    Sweep r;
    auto h = sweep<long double>(E, rho);
    std::vector<Gains<double>> v;
    v.push_back(sweep<double>(E, rho));
    for (int i = 1; i <= 3; ++i) v.push_back(sweep<double>(shaken(E, (uint64_t)i), rho));
    bool sure = true, all = h.fail < 0;
    for (auto& g : v) {
      if (g.fail != h.fail || g.piv.size() != h.piv.size()) sure = false;
      if (g.fail >= 0) all = false;
    }
    // the error grows along the sweep: it is judged by the differences at every pivot so far
    double err = 0;
    for (size_t i = 0; sure && i < h.piv.size(); ++i) {
      double b = (double)h.piv[i];
      for (auto& g : v) { err = std::max(err, std::abs(g.piv[i] - b)); if (!std::isfinite(g.piv[i])) sure = false; }
      if (!std::isfinite(b) || std::abs(b) < 1e-10 + 1e3 * err) sure = false;
    }
    if (sure) r.state = h.fail < 0 ? 1 : -1;
    if (!all || r.state != 1) return r;
    r.K = v[0].K; r.d = v[0].d;
    for (auto x : h.K) r.K2.push_back((double)x);
    for (auto x : h.d) r.d2.push_back((double)x);
    r.dV0 = (double)h.dV0; r.dV1 = (double)h.dV1;
    double sc = 0, df = 0, sc2 = 0, df2 = 0, dv = 0;
    for (auto& g : v) {
      double a, b;
      if (!maxdiff(g.K, r.K2, &sc, &a) || !maxdiff(g.d, r.d2, &sc2, &b)) return r;
      df = std::max(df, a); df2 = std::max(df2, b);
      dv = std::max(dv, std::max(std::abs((double)(g.dV0 - h.dV0)), std::abs((double)(g.dV1 - h.dV1))));
      if (a >= df) r.K3 = g.K;
      if (b >= df2) r.d3 = g.d;
    }
    r.Ktol = 1e-10 * (1 + sc) + 1e3 * df;
    r.dtol = 1e-10 * (1 + sc2) + 1e3 * df2;
    r.dVtol = 1e-10 * (std::abs(r.dV0) + std::abs(r.dV1)) + 1e3 * dv;
    r.usable = r.Ktol < 1e-3 * (1 + sc) && r.dtol < 1e-3 * (1 + sc2) && std::isfinite(r.dVtol);
    return r;
  }

  struct Cand {            // one candidate of the line search
    bool ok = true;        // values are finite and known well enough
    int limit = 0;         // 0 none, 2 state limit, 3 control limit, -1 undecided
    std::vector<double> X, U;
    double tol = 0, J = 0, Jtol = 0;
  };
  void closed_loop(const double* x0, const std::vector<double>& X, const std::vector<double>& U, const std::vector<double>& T, const std::vector<double>& H,
                   const std::vector<double>& K, const std::vector<double>& d, double alpha, std::vector<double>* Xn, std::vector<double>* Un) {
    Xn->assign(x0, x0 + 3);
    Un->clear();
    for (int k = 0; k < sp.N; ++k) {
      for (int a = 0; a < 2; ++a) {
        double v = 0;
        for (int c = 0; c < 3; ++c) v += K[(k * 2 + a) * 3 + c] * ((*Xn)[k * 3 + c] - X[k * 3 + c]);
        Un->push_back(U[k * 2 + a] + v + d[k * 2 + a] * alpha);
      }
      VectorXd xn = VectorXd::Zero(3);
      clean.dyn[k]->Evaluate(clean.x(*Xn, k), clean.u(*Un, k), (float)T[k], (float)H[k], xn);
      for (int i = 0; i < 3; ++i) Xn->push_back(xn(i));
    }
    Un->push_back(U[sp.N * 2]);   // the control of the terminal knot point plays no part
    Un->push_back(U[sp.N * 2 + 1]);
  }
  Cand candidate(const double* x0, const std::vector<double>& X, const std::vector<double>& U, const std::vector<double>& T, const std::vector<double>& H,
                 const Sweep& g, double alpha, const std::vector<double>& lam, const std::vector<double>& rho, bool check, double smax, double cmax) {
    Cand c;
    std::vector<double> X1, U1, X2, U2, X3, U3;
    closed_loop(x0, X, U, T, H, g.K, g.d, alpha, &X1, &U1);
    closed_loop(x0, X, U, T, H, g.K2, g.d2, alpha, &X2, &U2);
    closed_loop(x0, X, U, T, H, g.K3, g.d3, alpha, &X3, &U3);
    c.X = X2; c.U = U2;
    // limits, in the order in which the rollout meets them
    double grow = 1e-12;
    for (int k = 0; k < sp.N; ++k) {
      double sx = 0, su = 0, dx = 0, n1 = 0, n2 = 0;
      bool nf = false;
      for (int i = 0; i < 3; ++i) {
        double v = X2[k * 3 + 3 + i];
        if (!std::isfinite(v) || !std::isfinite(X1[k * 3 + 3 + i]) || !std::isfinite(X3[k * 3 + 3 + i])) nf = true;
        sx = std::max(sx, std::abs(v));
        dx = std::max(dx, std::max(std::abs(v - X1[k * 3 + 3 + i]), std::abs(v - X3[k * 3 + 3 + i])));
        n1 += v * v;
      }
      for (int i = 0; i < 2; ++i) {
        double v = U2[k * 2 + i];
        if (!std::isfinite(v) || !std::isfinite(U1[k * 2 + i]) || !std::isfinite(U3[k * 2 + i])) nf = true;
        su = std::max(su, std::abs(v));
        dx = std::max(dx, std::max(std::abs(v - U1[k * 2 + i]), std::abs(v - U3[k * 2 + i])));
        n2 += v * v;
      }
      if (nf) { c.ok = false; c.limit = -1; return c; }
      grow = std::max(grow, 1e3 * dx);
      c.tol = std::max(c.tol, grow + 1e-10 * (1 + std::max(sx, su)));
      if (sp.cliff > 0 && std::abs(std::abs(X2[k * 3 + 3]) - sp.cliff) <= c.tol) { c.ok = false; c.limit = -1; return c; }
      if (!check) continue;
      n1 = std::sqrt(n1); n2 = std::sqrt(n2);
      double e = grow + 1e-10 * (1 + std::max(n1, n2));
      if (std::abs(n1 - smax) <= e || (n1 <= smax && std::abs(n2 - cmax) <= e)) { c.ok = false; c.limit = -1; return c; }
      if (n1 > smax) { c.limit = 2; return c; }
      if (n2 > cmax) { c.limit = 3; return c; }
    }
    double m1, m2, m3;
    c.J = clean.objective(X2, U2, lam, rho, &m2);
    double J1 = clean.objective(X1, U1, lam, rho, &m1), J3 = clean.objective(X3, U3, lam, rho, &m3);
    c.Jtol = 1e-12 * (1e-3 + m2) + 1e3 * std::max(std::abs(c.J - J1), std::abs(c.J - J3));
    if (std::isnan(c.J) && std::isnan(J1) && std::isnan(J3)) return c;   // rejected for certain
    if (!std::isfinite(c.J) || !std::isfinite(c.Jtol)) c.ok = false;
    return c;
  }
};
}  // namespace ss
