// Linear time scaling: every spline shape x target time, and every combination of bounds.
#include "splinecfg.hpp"
#include "interpcfg.hpp"
#include <gsplines/Collocation/GaussLobattoLagrange.hpp>
using namespace rs;
using gsplines::GSpline;
using gsplines::collocation::GLLSpline;

// r is s run slower by the factor f
template <class G> static bool scaled(mc::Ctx &c, const G &r, const Spline &s, R f, const std::string &key, R ftol = 1e-9L) {
  R len = 0;
  for (double t : s.tau) len += t;
  if (!c.close(r.get_domain().first, s.dom.first, 1e-12L, key + "-start", "domain start")) return false;
  if (!c.close((R)r.get_domain().second - r.get_domain().first, len * f, ftol, key + "-duration", "total duration", len * f + 1e-6L * fabsl(s.dom.first))) return false;
  if (!c.check((int)r.get_number_of_intervals() == s.n() && (int)r.get_codom_dim() == s.codom && (int)r.get_basis_dim() == s.b->dim(), key + "-shape", "intervals, codomain or basis size changed")) return false;
  for (int i = 0; i < s.n(); i++)
    if (!c.close(r.get_interval_lengths()(i), (R)s.tau[i] * f, ftol, key + "-intervals", mc::fmt("length of interval %d", i), s.tau[i] * f)) return false;
  static const R FR[] = {0.0L, 0.037L, 0.25L, 0.5L, 0.81L, 1.0L};
  for (int i = 0; i < s.n(); i++)
    for (int k = 1; k < 5; k++) { // strictly inside every interval, so that no rounding selects another piece
      Eigen::VectorXd t(1);
      t(0) = (double)(s.dom.first + f * (s.left(i) - s.dom.first + s.tau[i] * FR[k]));
      Eigen::MatrixXd v = r(t);
      for (int j = 0; j < s.codom; j++) {
        R m, w = s.at(i, j, 2 * FR[k] - 1, 0, &m);
        if (!c.close(v(0, j), w, 1e-7L + 10 * ftol, key + "-path", mc::fmt("interval %d at %.3Lf of it, component %d", i, FR[k], j), 1 + m * (1 + fabsl(s.dom.first) / (f * s.tau[i]) * 1e-3L))) return false;
      }
    }
  // the two ends
  for (int e = 0; e < 2; e++) {
    Eigen::VectorXd t(1);
    t(0) = e ? r.get_domain().second : r.get_domain().first;
    Eigen::MatrixXd v = r(t);
    for (int j = 0; j < s.codom; j++) {
      R m, w = s.at(e ? s.n() - 1 : 0, j, e ? 1 : -1, 0, &m);
      if (!c.close(v(0, j), w, 1e-6L + 10 * ftol, key + "-path", e ? "end" : "start", 1 + m)) return false;
    }
  }
  return true;
}
static bool untouched(mc::Ctx &c, const GSpline &g, const Spline &s) {
  return c.check(vec(g.get_coefficients()) == s.coef && vec(g.get_interval_lengths()) == s.tau && g.get_domain().first == s.dom.first && g.get_domain().second == s.dom.second, "unchanged", "the original spline changed");
}
static bool throws(const std::function<void()> &f) {
  try {
    f();
  } catch (const std::exception &) {
    return true;
  }
  return false;
}
static std::vector<Cfg> cfgs;
struct P {
  int b, n, cd, pat, start;
};
static std::vector<P> probs;
static std::vector<Basis> IB;
static Spline prob(const P &p, int seed) {
  Spline s;
  s.b = &IB[p.b];
  s.codom = p.cd;
  s.tau = ilengths(p.n, p.pat);
  R e = STARTS[p.start];
  for (double t : s.tau) e += t;
  s.dom = {STARTS[p.start], (double)e};
  Interp it(*s.b, s.tau, waypoints(p.n + 1, p.cd, seed));
  for (int i = 0; i < p.n; i++)
    for (int c = 0; c < p.cd; c++)
      for (int k = 0; k < s.b->dim(); k++) s.coef.push_back((double)it.sol(i * s.b->dim() + k, c));
  return s;
}
static R factor(const Spline &s, int N, const std::vector<double> *vb, const std::vector<double> *ab, bool late) {
  R f = 0, L = (R)s.dom.second - s.dom.first;
  for (int k = 0; k <= N; k++) {
    R t = N ? s.dom.first + L * k / N : s.dom.second;
    if (late) t = std::min((R)s.dom.second, t);
    for (int j = 0; j < s.codom; j++) {
      if (vb) f = std::max(f, fabsl(s.value(t, j, 1)) / (*vb)[j]);
      if (ab) f = std::max(f, sqrtl(fabsl(s.value(t, j, 2)) / (*ab)[j]));
    }
  }
  return f;
}
int main(int argc, char **argv) {
  return mc::run(argc, argv, [](mc::Registry &R_) {
    baselib();
    for (int b : base_ids(mc::THOROUGH))
      for (int n = 1; n <= (mc::THOROUGH ? 5 : 4); n++)
        for (int cd = 1; cd <= 3; cd++)
          for (int p = 0; p < 6; p++)
            for (int s = 0; s < 5; s++) {
              if (!mc::THOROUGH && (p + s + n) % 2) continue;
              cfgs.push_back({b, n, cd, p, s});
            }
    R_.add("execution-time", cfgs.size(), [](mc::Ctx &c, uint64_t id) {
      const Cfg &f = cfgs[id];
      Spline s = mkspline(f, baselib()[f.base]);
      R L = 0;
      for (double t : s.tau) L += t;
      GSpline g = s.lib();
      for (double T : {(double)L, 0.3, 1.0, 7.25, 40.0}) {
        if (s.b->s.kind == B0101 && (T / L > 30 || T / L < 0.02)) continue; // alpha leaves (0,1) in rounding
        c.note("%s new time %g", cfgstr(f, s.b->s).c_str(), T);
        c.state(mc::hstr(c.get_note()));
        c.trans();
        GSpline r = g.linear_scaling_new_execution_time(T);
        R tol = 1e-9L;
        if (!scaled(c, r, s, (R)T / L, "time", tol)) return;
        if (!untouched(c, g, s)) return;
        // and again: scaling a scaled spline
        GSpline q = r.linear_scaling_new_execution_time(2 * (double)L);
        if (!scaled(c, q, s, 2.0L, "rescaled", tol)) return;
        // derivatives of the scaled spline are slowed accordingly
        auto d = r.deriv(1);
        for (int i = 0; i < s.n(); i++) {
          Eigen::VectorXd t(1);
          t(0) = (double)(s.dom.first + (R)T / L * (s.left(i) - s.dom.first + s.tau[i] * 0.37L));
          Eigen::MatrixXd v = (*d)(t);
          for (int j = 0; j < s.codom; j++) {
            R m, w = s.at(i, j, 2 * 0.37L - 1, 1, &m) * L / T;
            if (!c.close(v(0, j), w, 1e-6L, "time-speed", mc::fmt("speed in interval %d", i), 1 + m * L / T * (1 + fabsl(s.dom.first) * 1e-2L))) return;
          }
        }
        c.trace();
      }
      for (double T : {0.0, -1.0}) {
        c.note("%s new time %g", cfgstr(f, s.b->s).c_str(), T);
        if (!c.check(throws([&] { g.linear_scaling_new_execution_time(T); }), "non-positive-time", "accepted")) return;
      }
      if (s.b->s.kind == GL) {
        GLLSpline gl_(s.dom, s.codom, s.n(), s.b->dim(), Spline::e(s.coef), Spline::e(s.tau));
        c.note("%s collocation spline, new time 3", cfgstr(f, s.b->s).c_str());
        GLLSpline r = gl_.linear_scaling_new_execution_time(3.0);
        if (!scaled(c, r, s, 3.0L / L, "collocation")) return;
        Eigen::VectorXd dd = r.get_domain_discretization();
        if (!c.close(dd(dd.size() - 1), s.dom.first + 3.0L, 1e-9L, "collocation-grid", "last collocation point")) return;
        c.trace();
      }
      if (id % 211 == 7) c.sample(c.get_note());
    });
    // bounds: smooth splines (speeds and accelerations continuous)
    for (auto &b : ibases(mc::THOROUGH))
      if (b.dim >= 4) IB.emplace_back(b);
    for (size_t b = 0; b < IB.size(); b++)
      for (int n : mc::THOROUGH ? std::vector<int>{1, 2, 3, 4, 5} : std::vector<int>{1, 2, 3})
        for (int cd = 1; cd <= 3; cd++)
          for (int p = 0; p < (mc::THOROUGH ? 6 : 3); p++)
            for (int st : {0, 1, 2}) probs.push_back({(int)b, n, cd, p, st});
    R_.add("bounds", probs.size(), [](mc::Ctx &c, uint64_t id) {
      const P &p = probs[id];
      Spline s = prob(p, id % 3);
      // end points not at rest for half of the single interval problems
      if (p.n == 1 && id % 2) s.coef = coefs(s.coef.size(), 4);
      double L = 0;
      for (double t : s.tau) L += t;
      GSpline g = s.lib();
      std::string lab = ilabel(s.b->s, p.n, p.cd, p.pat) + mc::fmt(" start=%g", STARTS[p.start]);
      // bound levels: relative to the actual maxima, so that each of them is the active one in some case
      for (int N : {1, 7, 40}) {
        double dt = L / (N + 0.5);
        std::vector<double> one(p.cd, 1.0);
        R v1 = factor(s, N, &one, nullptr, false), a1 = factor(s, N, nullptr, &one, false);
        if (v1 < 1e-6L && a1 < 1e-6L) continue;
        for (int form = 0; form < 2; form++) // one number, per component
          for (int have = 1; have < 4; have++)
            for (int lev = 0; lev < 5; lev++) {
              // velocity active / acceleration active / slower than now / far looser / far tighter than now
              if (lev > 2 && (N != 7 || s.b->s.kind == B0101)) continue;
              R fv = lev == 0 ? 1.5L : lev == 1 ? 0.4L : lev == 2 ? 0.6L : lev == 3 ? 2e-4L : 5e3L, fa = lev == 0 ? 0.7L : lev == 1 ? 1.3L : lev == 2 ? 0.5L : lev == 3 ? 3e-4L : 4e3L;
              std::vector<double> vb(p.cd), ab(p.cd);
              for (int j = 0; j < p.cd; j++) {
                vb[j] = (double)(std::max(v1, 0.1L) / fv) * (form ? 0.5 + 0.4 * ((j + lev) % 3) : 1);
                ab[j] = (double)(std::max(a1 * a1, 0.1L) / (fa * fa)) * (form ? 0.6 + 0.5 * ((j + lev + 1) % 3) : 1);
              }
              bool hv = have & 1, ha = have & 2;
              R f = factor(s, N, hv ? &vb : nullptr, ha ? &ab : nullptr, false);
              if (f < 1e-5L) continue;
              if (s.b->s.kind == B0101 && (f > 30 || f < 0.02L)) continue;
              c.note("%s steps=%d %s%s %s level=%d", lab.c_str(), N, hv ? "velocity " : "", ha ? "acceleration" : "", form ? "per component" : "one number", lev);
              c.state(mc::hstr(c.get_note()));
              c.trans();
              std::optional<double> ov, oa;
              std::optional<std::vector<double>> Ov, Oa;
              if (hv) ov = vb[0], Ov = vb;
              if (ha) oa = ab[0], Oa = ab;
              GSpline r = form ? g.linear_scaling_new_execution_time_max_velocity_max_acceleration(Ov, Oa, dt)
                               : g.linear_scaling_new_execution_time_max_velocity_max_acceleration(ov, oa, dt);
              if (!scaled(c, r, s, f, "bounds", 1e-7L)) return;
              if (!untouched(c, g, s)) return;
              // observed: no sampled speed or acceleration of the result beyond its bound, one of them reached
              Eigen::VectorXd t(N + 1);
              for (int k = 0; k <= N; k++) t(k) = r.get_domain().first + (r.get_domain().second - r.get_domain().first) * k / N;
              t(N) = r.get_domain().second;
              auto d1 = r.deriv(1), d2 = r.deriv(2);
              Eigen::MatrixXd v = (*d1)(t), a = (*d2)(t);
              R worst = 0;
              for (int j = 0; j < p.cd; j++) {
                if (hv) worst = std::max(worst, (R)v.col(j).cwiseAbs().maxCoeff() / vb[j]);
                if (ha) worst = std::max(worst, (R)a.col(j).cwiseAbs().maxCoeff() / ab[j]);
              }
              if (!c.check(worst < 1 + 1e-5L, "exceeded", mc::fmt("a sampled speed or acceleration is %.9Lf times its bound", worst))) return;
              if (!c.check(worst > 1 - 1e-5L, "not-reached", mc::fmt("no sampled speed or acceleration reaches its bound (largest %.9Lf)", worst))) return;
              c.trace();
            }
      }
      // default step
      {
        std::vector<double> vb(p.cd, 1.0), ab(p.cd, 2.0);
        int N0 = (int)(L / 0.01);
        R lo = 1e300L, hi = 0;
        for (int N = N0 - 1; N <= N0 + 1; N++) {
          R f = factor(s, N, &vb, &ab, false);
          lo = std::min(lo, f);
          hi = std::max(hi, f);
        }
        if (lo > 0.02L && hi < 30) {
          c.note("%s default step", lab.c_str());
          c.trans(2);
          GSpline r = g.linear_scaling_new_execution_time_max_velocity_max_acceleration(std::optional<double>(1.0), std::optional<double>(2.0));
          R f = ((R)r.get_domain().second - r.get_domain().first) / L;
          if (!c.check(f >= lo * (1 - 1e-7L) && f <= hi * (1 + 1e-7L), "default-step", mc::fmt("factor %.12Lg, expected within [%.12Lg,%.12Lg]", f, lo, hi))) return;
          if (!scaled(c, r, s, f, "default-step", 1e-7L)) return;
          GSpline r2 = g.linear_scaling_new_execution_time_max_velocity_max_acceleration(std::optional<std::vector<double>>(vb), std::optional<std::vector<double>>(ab));
          if (!c.check(r2 == r, "default-step", "the one-number and per-component forms differ")) return;
          c.trace();
        }
      }
      // refusals
      {
        typedef std::optional<double> O;
        typedef std::optional<std::vector<double>> OV;
        c.note("%s refusals", lab.c_str());
        std::vector<double> ok(p.cd, 1.0), big(p.cd + 1, 1.0), small(p.cd - 1, 1.0);
        c.trans(8);
        if (!c.check(throws([&] { g.linear_scaling_new_execution_time_max_velocity_max_acceleration(O(), O()); }), "refuse", "no bound at all is accepted")) return;
        if (!c.check(throws([&] { g.linear_scaling_new_execution_time_max_velocity_max_acceleration(OV(), OV()); }), "refuse", "no bound at all is accepted")) return;
        for (auto *bad : {&big, &small}) {
          if (!c.check(throws([&] { g.linear_scaling_new_execution_time_max_velocity_max_acceleration(OV(*bad), OV(ok)); }), "refuse", "velocity bounds of the wrong size are accepted")) return;
          if (!c.check(throws([&] { g.linear_scaling_new_execution_time_max_velocity_max_acceleration(OV(ok), OV(*bad)); }), "refuse", "acceleration bounds of the wrong size are accepted")) return;
          if (!c.check(throws([&] { g.linear_scaling_new_execution_time_max_velocity_max_acceleration(OV(*bad), OV()); }), "refuse", "velocity bounds of the wrong size are accepted")) return;
          if (!c.check(throws([&] { g.linear_scaling_new_execution_time_max_velocity_max_acceleration(OV(), OV(*bad)); }), "refuse", "acceleration bounds of the wrong size are accepted")) return;
        }
        for (double dt : {0.0, -0.1})
          if (!c.check(throws([&] { g.linear_scaling_new_execution_time_max_velocity_max_acceleration(O(1.0), O(1.0), dt); }), "refuse", "a time step that is not positive is accepted")) return;
        if (!untouched(c, g, s)) return;
        c.trace();
      }
      if (id % 67 == 7) c.sample(c.get_note());
    });
  });
}
