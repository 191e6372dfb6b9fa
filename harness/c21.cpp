#include "mc.hpp"
#include <gsplines/Basis/Basis0101.hpp>
#include <gsplines/Basis/BasisLagrange.hpp>
#include <gsplines/Basis/BasisLegendre.hpp>
#include <gsplines/FunctionalAnalysis/Sobolev.hpp>
#include <gsplines/Interpolator.hpp>
#include <gsplines/Optimization/ipopt_solver.hpp>
#include <ifopt/ipopt_solver.h>
// The nonlinear solver is replaced by one that does whatever the case says: evaluates the problem at a
// sequence of iterates (comparing every number it is given), leaves any of the candidate interval lengths
// in the problem and reports any of Ipopt's return codes.
using namespace gsplines;
namespace go = gsplines::optimization;
using V = Eigen::VectorXd;
using M = Eigen::MatrixXd;
using W = std::vector<std::pair<std::size_t, double>>;

struct Front {
  const char *name;
  double k;
  std::function<std::optional<GSpline>(const M &)> call;
  std::function<std::unique_ptr<basis::Basis>(int)> basis;
  std::function<W(int)> weights;
  std::function<double(int)> time; // time given to the solver
  double final_time;               // time of the returned spline (0: as given)
};
static std::unique_ptr<basis::Basis> leg(int n) { return std::make_unique<basis::BasisLegendre>(n); }
static double rojas_alpha(int n, double k) {
  double T = 4.0 * n / std::sqrt(2.0), aux = 4.0 * n * k / std::sqrt(2.0);
  return 1.0 / (1.0 + std::pow(T / aux, 4));
}
static std::vector<Front> fronts() {
  std::vector<Front> F;
  auto simple = [&](const char *n, int d, std::size_t o, std::function<std::optional<GSpline>(const M &)> f) {
    F.push_back({n, 0, f, [d](int) { return leg(d); }, [o](int) { return W{{o, 1.0}}; }, [](int n) { return (double)n; }, 1.0});
  };
  simple("broken_lines_path", 2, 1, [](const M &w) { return go::broken_lines_path(w); });
  simple("minimum_acceleration_path", 4, 2, [](const M &w) { return go::minimum_acceleration_path(w); });
  simple("minimum_jerk_path", 6, 3, [](const M &w) { return go::minimum_jerk_path(w); });
  simple("minimum_snap_path", 8, 4, [](const M &w) { return go::minimum_snap_path(w); });
  simple("minimum_crackle_path", 10, 5, [](const M &w) { return go::minimum_crackle_path(w); });
  for (double k : {0.5, 1.0, 2.5})
    F.push_back({"rojas_path", k, [k](const M &w) { return go::rojas_path(w, k); },
                 [k](int n) -> std::unique_ptr<basis::Basis> { return std::make_unique<basis::Basis0101>(rojas_alpha(n, k)); },
                 [k](int n) { double a = rojas_alpha(n, k); return W{{1, a}, {3, 1 - a}}; },
                 [](int n) { return 4.0 * n / std::sqrt(2.0); }, 1.0});
  // the general entry point: bases x weights x times
  std::vector<std::function<std::unique_ptr<basis::Basis>()>> B{
      [] { return leg(4); }, [] { return leg(6); },
      [] { return std::unique_ptr<basis::Basis>(std::make_unique<basis::Basis0101>(0.3)); },
      [] { return std::unique_ptr<basis::Basis>(std::make_unique<basis::BasisLagrange>(std::vector<double>{-1, -0.5, 0.5, 1})); }};
  std::vector<W> Ws{{{1, 1.0}}, {{2, 0.5}}, {{1, 0.75}, {2, 0.25}}, {{1, 2.0}, {1, 1.0}, {2, 0.0}}};
  std::vector<W> Ws0101{{{1, 1.0}}, {{3, 0.5}}, {{1, 0.75}, {3, 0.25}}, {{3, 2.0}, {1, 1.0}, {3, 0.0}}}; // the orders that basis supports
  for (auto &b : B)
    for (auto &w : b()->get_name() == "basis0101" ? Ws0101 : Ws)
      for (double t : {b()->get_name() == "basis0101" ? 8.0 : 0.5, 3.0, 40.0})
        F.push_back({"optimal_sobolev_norm", t, [b, w, t](const M &wp) { return go::optimal_sobolev_norm(wp, *b(), w, t); },
                     [b](int) { return b(); }, [w](int) { return w; }, [t](int) { return t; }, 0.0});
  return F;
}
static M wps(int n, int c, int s) {
  M w(n + 1, c);
  for (int i = 0; i <= n; i++)
    for (int j = 0; j < c; j++) w(i, j) = ((i * 5 + j * 3 + s * 2 + i * i) % 7) - 2.0 + 0.25 * j;
  return w;
}
// candidate interval lengths with sum T: shares from a small alphabet
static std::vector<V> candidates(int n, double T) {
  std::vector<V> out;
  std::vector<double> sh{1.0, 2.0, 0.125};
  int tot = 1;
  for (int i = 0; i < std::min(n, 4); i++) tot *= 3;
  for (int k = 0; k < tot; k++) {
    V v(n);
    int q = k;
    for (int i = 0; i < n; i++) {
      v(i) = sh[(q + i / 4) % 3];
      if (i < 4) q /= 3;
    }
    out.push_back(v * (T / v.sum()));
  }
  return out;
}
static const int STATUS[] = {0, 1, 2, 3, 4, 5, 6, -1, -2, -3, -4, -10, -11, -12, -13, -100, -101, -102, -199};

static bool near(double a, double b, double tol = 1e-9) { return std::isfinite(a) && std::fabs(a - b) <= tol * (1 + std::fabs(b)); }

int main(int argc, char **argv) {
  return mc::run(argc, argv, [](mc::Registry &R) {
    static auto F = fronts();
    static std::vector<int> NI{1, 2, 3, 5, 7};
    if (mc::THOROUGH) NI = {1, 2, 3, 4, 5, 8};
    static std::vector<int> CD{1, 2, 3};
    if (mc::THOROUGH) CD = {1, 2, 3, 7};
    R.add("problems", F.size() * NI.size() * CD.size(), [](mc::Ctx &c, uint64_t idx) {
      const Front &f = F[idx % F.size()];
      int n = NI[idx / F.size() % NI.size()], cd = CD[idx / F.size() / NI.size()];
      M w = wps(n, cd, (int)idx);
      auto b = f.basis(n);
      W wt = f.weights(n);
      double T = f.time(n);
      auto cand = candidates(n, T);
      if (n == 7 && !mc::THOROUGH) { // fewer answers, more intervals
        std::vector<V> few;
        for (size_t i = 0; i < cand.size(); i += 9) few.push_back(cand[i]);
        cand = few;
      }
      functional_analysis::SobolevNorm ref(w, *b, wt);
      size_t solved = 0;
      // every candidate as the answer with success, and every status with two of them; every pair of iterates before
      for (size_t a = 0; a < cand.size(); a++)
        for (int st : STATUS) {
          if (st != 0 && a != 0 && a != cand.size() / 2) continue;
          size_t NP = st == 0 ? std::min<size_t>(cand.size(), mc::THOROUGH ? 27 : 2) : 1;
          for (size_t p = 0; p < NP; p++) {
            std::vector<V> it;
            if (st == 0) it = {cand[(p * 2 + 1) % cand.size()], cand[(a + p) % cand.size()] * 1.25};
            bool bad = false;
            solved = 0;
            c.note("%s(%g) intervals=%d codom=%d answer=%d status=%d iterates=%d", f.name, f.k, n, cd, (int)a, st, (int)p);
            ifopt::IpoptSolver::hook() = [&](ifopt::Problem &nlp, const ifopt::Options &) {
              solved++;
              c.trans();
              auto cb = nlp.GetBoundsOnConstraints();
              if (!c.check(nlp.GetNumberOfConstraints() == 1 && cb.size() == 1 && cb[0].lower_ == cb[0].upper_ && cb[0].lower_ > 0, "time-bound", "the total time is not fixed")) return bad = true, st;
              if (f.final_time && b->get_name() != "basis0101" && T != cb[0].lower_) { // the front end chooses the time, the result is rescaled
                for (auto *list : {&cand, &it})
                  for (V &x : *list) x *= cb[0].lower_ / T;
                T = cb[0].lower_;
              }
              auto vb = nlp.GetBoundsOnOptimizationVariables();
              if (!c.check(nlp.GetNumberOfOptimizationVariables() == n && (int)vb.size() == n, "variables", "not one variable per interval")) bad = true;
              for (auto &x : vb)
                if (!c.check(x.lower_ >= 0 && x.lower_ < 1e-3 && x.upper_ >= T, "variable-bounds", "variables not bounded to positive values")) bad = true;
              V x0 = nlp.GetVariableValues();
              if (!c.check(near(x0.sum(), T) && (x0.array() > 0).all(), "initial-point", "the initial point is not feasible")) bad = true;
              if (!c.check(near(cb[0].lower_, T, 1e-14), "time-bound", "the total time is not fixed to the requested one")) bad = true;
              if (bad) return st;
              std::vector<V> all = it;
              all.insert(all.begin(), x0);
              for (const V &x : all) {
                c.state(mc::mix(mc::mix(idx, mc::hdbl(x(0))), mc::hdbl(x.squaredNorm())));
                V g(n);
                double want = ref(x);
                ref.deriv_wrt_interval_len(x, g);
                double got = nlp.EvaluateCostFunction(x.data());
                if (!c.close(got, want, 1e-10, "cost", "cost at an iterate")) return bad = true, st;
                V gg = nlp.EvaluateCostFunctionGradient(x.data());
                V cv = nlp.EvaluateConstraints(x.data());
                if (!c.close(cv(0), x.sum(), 1e-13, "time", "constraint value")) return bad = true, st;
                M J(nlp.GetJacobianOfConstraints());
                for (int i = 0; i < n; i++) {
                  if (!c.close(gg(i), g(i), 1e-9, "gradient", "cost gradient", g.cwiseAbs().maxCoeff())) return bad = true, st;
                  if (!c.close(J(0, i), 1.0, 1e-14, "time-jacobian", "constraint Jacobian")) return bad = true, st;
                }
              }
              // the total time and its Jacobian at the border of the feasible set and far from it
              for (double e : {0.0, 1e-9, 1e-5, 1e-3, 1e3})
                for (int i = 0; i < n; i++) {
                  V x = x0;
                  x(i) = e;
                  if (!c.close(nlp.EvaluateConstraints(x.data())(0), x.sum(), 1e-13, "time", "constraint value with an extreme length")) return bad = true, st;
                  M J(nlp.GetJacobianOfConstraints());
                  for (int k = 0; k < n; k++)
                    if (!c.close(J(0, k), 1.0, 1e-14, "time-jacobian", "constraint Jacobian with an extreme length")) return bad = true, st;
                }
              // every sequence of three requests over {cost, gradient, time, time Jacobian} x points (two of them almost equal)
              if (st == 0 && a == 0 && p == 0 && (mc::THOROUGH || n <= 3)) {
                std::vector<V> pts{x0, cand[cand.size() / 2], x0};
                pts[2](0) *= 1 + 1e-6;
                std::vector<double> C;
                std::vector<V> G;
                for (const V &x : pts) {
                  functional_analysis::SobolevNorm fresh(w, *b, wt);
                  C.push_back(fresh(x));
                  functional_analysis::SobolevNorm fresh2(w, *b, wt);
                  V g(n);
                  fresh2.deriv_wrt_interval_len(x, g);
                  G.push_back(g);
                }
                int K = 4 * pts.size();
                for (int q = 0; q < K * K * K; q++)
                  for (int s = q, z = 0; z < 3; z++, s /= K) {
                    const V &x = pts[s % K / 4];
                    int i = s % K / 4;
                    c.trans();
                    switch (s % 4) {
                    case 0:
                      if (!c.close(nlp.EvaluateCostFunction(x.data()), C[i], 1e-10, "cost-history", "cost after other requests")) return bad = true, st;
                      break;
                    case 1: {
                      V gg = nlp.EvaluateCostFunctionGradient(x.data());
                      for (int k = 0; k < n; k++)
                        if (!c.close(gg(k), G[i](k), 1e-9, "gradient-history", "gradient after other requests", G[i].cwiseAbs().maxCoeff())) return bad = true, st;
                      break;
                    }
                    case 2:
                      if (!c.close(nlp.EvaluateConstraints(x.data())(0), x.sum(), 1e-13, "time-history", "total time after other requests")) return bad = true, st;
                      break;
                    default: {
                      nlp.SetVariables(x.data());
                      M J(nlp.GetJacobianOfConstraints());
                      for (int k = 0; k < n; k++)
                        if (!c.close(J(0, k), 1.0, 1e-14, "jacobian-history", "time Jacobian after other requests")) return bad = true, st;
                    }
                    }
                  }
              }
              nlp.SetVariables(cand[a].data());
              return st;
            };
            std::optional<GSpline> r = f.call(w);
            if (bad || c.failed) return;
            c.trace();
            if (n == 1) { // nothing to optimise
              if (!c.check(r.has_value(), "single", "no spline for a single interval")) return;
            } else {
              if (!c.check(solved == 1, "solved", "the solver was not run exactly once")) return;
              if (!c.check(r.has_value() == (st == 0), "status", st == 0 ? "nothing returned although the solver succeeded" : "a spline was returned although the solver did not succeed")) return;
            }
            if (!r) continue;
            V tau = n == 1 ? V(V::Constant(1, T)) : cand[a];
            double scale = f.final_time ? f.final_time / T : 1.0;
            V t2 = tau * scale;
            const GSpline &g = *r;
            if (!c.check((int)g.get_codom_dim() == cd && (int)g.get_number_of_intervals() == n && near(g.get_domain().first, 0, 1e-14) && near(g.get_domain().second, t2.sum(), 1e-12),
                         "shape", "shape of the returned spline"))
              return;
            if (!c.check(g.get_basis_name() == b->get_name() && g.get_basis_dim() == b->get_dim(), "basis", "basis of the returned spline")) return;
            for (int i = 0; i < n; i++)
              if (!c.close(g.get_interval_lengths()(i), t2(i), 1e-12, "lengths", "interval lengths of the returned spline")) return;
            M gw = g.get_waypoints();
            for (int i = 0; i <= n; i++)
              for (int j = 0; j < cd; j++)
                if (!c.close(gw(i, j), w(i, j), 1e-5, "waypoints", "waypoint of the returned spline")) return;
            GSpline h = interpolate(tau, w, *b);
            V pp(9), q(9);
            for (int k = 0; k < 9; k++) pp(k) = tau.sum() * (k + 0.37) / 9.7, q(k) = pp(k) * scale;
            M vg = g(q), vh = h(pp);
            for (int k = 0; k < 9; k++)
              for (int j = 0; j < cd; j++)
                if (!c.close(vg(k, j), vh(k, j), 1e-8, "path", "value of the returned spline", vh.cwiseAbs().maxCoeff())) return;
          }
        }
      if (idx % 31 == 3) c.sample(c.get_note());
    }, 300, 1);
    // options: every sequence of settings up to a depth; the solver sees the defaults overridden by the last value of each name
    struct Set { int type; const char *name; const char *s; int i; double d; };
    static std::vector<Set> SS{{0, "linear_solver", "ma27", 0, 0}, {0, "linear_solver", "mumps", 0, 0}, {0, "hessian_approximation", "exact", 0, 0},
                               {0, "my_option", "a", 0, 0},        {0, "my_option", "b", 0, 0},          {1, "print_level", "", 5, 0},
                               {1, "print_level", "", 0, 0},       {1, "max_iter", "", 7, 0},            {1, "max_iter", "", 70, 0},
                               {2, "tol", "", 0, 1e-8},            {2, "tol", "", 0, 0.5},               {2, "max_cpu_time", "", 0, 3.0},
                               {0, "tolerance", "x", 0, 0},        {2, "to", "", 0, 9.0}};
    static int depth = mc::THOROUGH ? 4 : 3;
    R.add("options", SS.size() * SS.size(), [](mc::Ctx &c, uint64_t idx) {
      uint64_t tot = 1;
      for (int i = 2; i < depth; i++) tot *= SS.size();
      M w = wps(2, 1, 1);
      ifopt::Options base, seen;
      ifopt::IpoptSolver::hook() = [&](ifopt::Problem &, const ifopt::Options &o) { seen = o; return 2; };
      // the settings are process-wide: each sequence starts from a fresh process
      for (uint64_t rest = 0; rest < tot; rest++) {
        pid_t p = fork();
        if (p == 0) {
          c.note("options sequence %llu/%llu", (unsigned long long)idx, (unsigned long long)rest);
          go::broken_lines_path(w);
          base = seen;
          if (!c.check(base.s["linear_solver"] == "mumps" && base.s["hessian_approximation"] == "limited-memory" && base.i["print_level"] == 0 && base.d["tol"] == 1e-3, "defaults",
                       "default options"))
            _exit(0);
          uint64_t r = rest;
          for (int k = 0; k < depth; k++) {
            const Set &s = SS[k == 0 ? idx / SS.size() : k == 1 ? idx % SS.size() : r % SS.size()];
            if (k >= 2) r /= SS.size();
            c.trans();
            if (s.type == 0) go::IpoptSolverOptions::set_option(s.name, std::string(s.s)), base.s[s.name] = s.s;
            if (s.type == 1) go::IpoptSolverOptions::set_option(s.name, s.i), base.i[s.name] = s.i;
            if (s.type == 2) go::IpoptSolverOptions::set_option(s.name, s.d), base.d[s.name] = s.d;
            seen = ifopt::Options();
            go::minimum_jerk_path(w);
            uint64_t h = 7;
            for (auto &x : seen.s) h = mc::mix(h, mc::hstr(x.first + "=" + x.second));
            for (auto &x : seen.i) h = mc::mix(mc::mix(h, mc::hstr(x.first)), x.second);
            for (auto &x : seen.d) h = mc::mix(mc::mix(h, mc::hstr(x.first)), mc::hdbl(x.second, 1e-9));
            c.state(h);
            if (!c.check(seen.s == base.s && seen.i == base.i && seen.d == base.d, "options", "the solver did not get the last values set")) _exit(0);
          }
          c.trace();
          _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (st) {
          c.fail("crash", "died while setting options");
          return;
        }
      }
    }, 300, 4);
  });
}
