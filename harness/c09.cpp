#include "interpcfg.hpp"
#include <gsplines/Interpolator.hpp>
using namespace rs;
using gsplines::GSpline;
using gsplines::Interpolator;
static std::vector<Basis> *B;
struct P {
  int b, n, cd, pat;
};
static std::vector<P> ps;
static double worst = 0;
// the interpolating spline against the unique solution of the interpolation conditions, through evaluation
static bool verify(mc::Ctx &c, const GSpline &s, const Basis &b, const std::vector<double> &tau, const Eigen::MatrixXd &wp, const Interp &ref, bool deep, const char *key) {
  int n = tau.size(), cd = wp.cols(), dim = b.dim();
  c.trans();
  R total = 0;
  for (double t : tau) total += t;
  if (!c.check(s.get_domain().first == 0.0 && fabsl(s.get_domain().second - total) <= 1e-12L * total, "domain", mc::fmt("domain [%.17g, %.17g], expected [0, %.17Lg]", s.get_domain().first, s.get_domain().second, total))) return false;
  if (!c.check((int)s.get_codom_dim() == cd && (int)s.get_number_of_intervals() == n && s.get_interval_lengths() == Spline::e(tau), "shape", "other codomain or interval lengths than the given ones")) return false;
  if (!c.check((int)s.get_basis().get_dim() == dim, "shape", "other basis size")) return false;
  R ws = 1;
  for (long i = 0; i < wp.size(); i++) ws = std::max(ws, fabsl((R)wp.data()[i]));
  // waypoints at breakpoints
  Eigen::VectorXd bp(n + 1);
  R t = 0;
  for (int i = 0; i <= n; i++) {
    bp(i) = (double)t;
    if (i < n) t += tau[i];
  }
  bp(n) = s.get_domain().second;
  Eigen::MatrixXd v = s(bp), gw = s.get_waypoints();
  if (!c.check(v.rows() == n + 1 && v.cols() == cd && gw.rows() == n + 1 && gw.cols() == cd, key, "wrong shape of values")) return false;
  for (int i = 0; i <= n; i++)
    for (int k = 0; k < cd; k++) {
      if (!c.close(v(i, k), wp(i, k), 1e-6L, "waypoint", mc::fmt("%s: value at breakpoint %d component %d", key, i, k), ws)) return false;
      if (!c.close(gw(i, k), wp(i, k), 1e-6L, "waypoint", mc::fmt("%s: get_waypoints %d component %d", key, i, k), ws)) return false;
    }
  if (!deep) return true;
  // all derivatives up to dim-1 inside every interval: pins continuity, rest-to-rest ends and the function itself
  Spline m;
  m.b = &b;
  m.codom = cd;
  m.tau = tau;
  m.dom = {0, (double)total};
  m.coef.resize(n * cd * dim);
  for (int i = 0; i < n; i++)
    for (int k = 0; k < cd; k++)
      for (int q = 0; q < dim; q++) m.coef[(i * cd + k) * dim + q] = (double)ref.sol(i * dim + q, k);
  static const R xs[] = {0.001L, 0.13L, 0.5L, 0.77L, 0.999L};
  std::vector<double> pts;
  for (int i = 0; i < n; i++)
    for (R x : xs) pts.push_back((double)(m.left(i) + tau[i] * x));
  for (int d = 0; d < dim; d++) {
    Eigen::MatrixXd w = s.derivate(d)(Spline::e(pts));
    // scale of this derivative over the whole curve
    R sc = 0;
    std::vector<R> want(pts.size() * cd);
    for (size_t p = 0; p < pts.size(); p++)
      for (int k = 0; k < cd; k++) {
        int i = p / 5;
        sc = std::max(sc, fabsl(want[p * cd + k] = m.at(i, k, 2 * ((R)pts[p] - m.left(i)) / tau[i] - 1, d)));
      }
    R tmin = *std::min_element(tau.begin(), tau.end());
    sc += ws * powl(1 / tmin, d) + 1;
    if (b.s.poly()) sc += 1e-3L * ws * powl(dim * dim / tmin, d);
    for (size_t p = 0; p < pts.size(); p++)
      for (int k = 0; k < cd; k++) {
        worst = std::max(worst, (double)(fabsl((R)w(p, k) - want[p * cd + k]) / sc));
        if (!c.close(w(p, k), want[p * cd + k], 1e-6L, "solution", mc::fmt("%s: derivative %d at t=%.12g component %d", key, d, pts[p], k), sc)) return false;
      }
  }
  return true;
}
template <class F> static bool refuses(F f) {
  try {
    f();
  } catch (const std::exception &) {
    return true;
  }
  return false;
}
int main(int argc, char **argv) {
  return mc::run(argc, argv, [](mc::Registry &R_) {
    static std::vector<Basis> bl;
    for (auto &s : ibases(mc::THOROUGH)) bl.emplace_back(s);
    B = &bl;
    for (size_t b = 0; b < bl.size(); b++)
      for (int n : mc::THOROUGH ? std::vector<int>{1, 2, 3, 4, 5, 7, 10, 16} : std::vector<int>{1, 2, 3, 4, 8, 19})
        for (int cd : mc::THOROUGH ? std::vector<int>{1, 2, 3, 4, 7} : std::vector<int>{1, 2, 3, 7}) {
          if (n * cd * bl[b].dim() > (mc::THOROUGH ? 700 : 350)) continue;
          if (n == 19 && n * cd * bl[b].dim() > 120) continue;
          for (int pat = 0; pat < 7; pat++) ps.push_back({(int)b, n, cd, pat});
        }
    // general waypoints
    R_.add("problems", ps.size(), [](mc::Ctx &c, uint64_t id) {
      P p = ps[id];
      const Basis &b = (*B)[p.b];
      auto lb = make(b.s);
      auto tau = ilengths(p.n, p.pat);
      for (int kind = 0; kind < 5; kind++) {
        Eigen::MatrixXd wp = waypoints(p.n + 1, p.cd, kind + 1);
        if (kind == 2) wp.setZero();
        if (kind == 3) wp.setConstant(-2.5);
        if (kind == 4) wp *= 1000;
        c.note("%s waypoints=%d", ilabel(b.s, p.n, p.cd, p.pat).c_str(), kind);
        c.state(mc::hstr(c.get_note()));
        Interp ref(b, tau, wp);
        Interpolator I(p.cd, p.n, *lb);
        GSpline s = I.interpolate(Spline::e(tau), wp);
        if (!verify(c, s, b, tau, wp, ref, true, "Interpolator")) return;
        GSpline f = gsplines::interpolate(Spline::e(tau), wp, *lb);
        if (!verify(c, f, b, tau, wp, ref, kind == 0, "interpolate()")) return;
        if (b.s.kind == LEGENDRE) {
          GSpline q = gsplines::pw_polynomial_interpolation(Spline::e(tau), wp, b.dim());
          if (!verify(c, q, b, tau, wp, ref, kind == 0, "pw_polynomial_interpolation()")) return;
        }
        c.trace();
      }
      if (id % 61 == 3) c.sample(c.get_note());
    });
    // the solution is linear in the waypoints: unit impulses span every waypoint set
    R_.add("impulses", ps.size(), [](mc::Ctx &c, uint64_t id) {
      P p = ps[id];
      if (p.n > 5 || p.cd > 3 || (p.pat != 3 && !mc::THOROUGH) || p.pat % 3) return;
      const Basis &b = (*B)[p.b];
      auto lb = make(b.s);
      auto tau = ilengths(p.n, p.pat);
      for (int r = 0; r <= p.n; r++)
        for (int k = 0; k < p.cd; k++) {
          Eigen::MatrixXd wp = Eigen::MatrixXd::Zero(p.n + 1, p.cd);
          wp(r, k) = 1;
          c.note("%s unit waypoint %d component %d", ilabel(b.s, p.n, p.cd, p.pat).c_str(), r, k);
          c.state(mc::hstr(c.get_note()));
          Interp ref(b, tau, wp);
          if (!verify(c, gsplines::interpolate(Spline::e(tau), wp, *lb), b, tau, wp, ref, true, "interpolate()")) return;
          c.trace();
        }
    });
    // lengths far from one another and from 1
    static const double LEN[] = {0.05, 1.0, 12.0};
    R_.add("extreme-lengths", bl.size() * 27, [](mc::Ctx &c, uint64_t id) {
      const Basis &b = (*B)[id / 27];
      if (b.dim() > 6 || (b.s.kind == B0101 && b.s.alpha > 0.9)) return;
      int w = id % 27;
      std::vector<double> tau{LEN[w % 3], LEN[w / 3 % 3], LEN[w / 9]};
      auto lb = make(b.s);
      Eigen::MatrixXd wp = waypoints(4, 2, 4);
      c.note("%s lengths %g %g %g", b.s.str().c_str(), tau[0], tau[1], tau[2]);
      c.state(mc::hstr(c.get_note()));
      Interp ref(b, tau, wp);
      if (!verify(c, gsplines::interpolate(Spline::e(tau), wp, *lb), b, tau, wp, ref, true, "interpolate()")) return;
      c.trace();
    });
    // refusals
    R_.add("refusals", bl.size() * 4 * 3, [](mc::Ctx &c, uint64_t id) {
      const Basis &b = (*B)[id / 12];
      int n = 1 + id / 3 % 4, cd = 1 + id % 3;
      auto lb = make(b.s);
      auto tau = ilengths(n, 1);
      Eigen::VectorXd T = Spline::e(tau);
      Eigen::MatrixXd wp = waypoints(n + 1, cd, 1);
      Interp ref(b, tau, wp);
      auto must = [&](const std::string &what, const Eigen::VectorXd &tt, const Eigen::MatrixXd &ww, bool freefn) {
        c.note("%s intervals=%d codom=%d: %s", b.s.str().c_str(), n, cd, what.c_str());
        c.state(mc::hstr(c.get_note()));
        c.trans();
        Interpolator I(cd, n, *lb);
        if (!c.check(refuses([&] { I.interpolate(tt, ww); }), "accepted", "Interpolator::interpolate accepted " + what)) return false;
        if (!c.check(refuses([&] { I.solve_interpolation(tt, ww); }), "accepted", "solve_interpolation accepted " + what)) return false;
        if (freefn && !c.check(refuses([&] { gsplines::interpolate(tt, ww, *lb); }), "accepted", "interpolate() accepted " + what)) return false;
        // and the object still works
        if (!verify(c, I.interpolate(T, wp), b, tau, wp, ref, false, "after a refusal")) return false;
        c.trace();
        return true;
      };
      for (int i = 0; i < n; i++)
        for (double bad : {0.0, -1.0, -0.3, 1e-7, 9.9e-7, -1e-9}) {
          Eigen::VectorXd tt = T;
          tt(i) = bad;
          if (!must(mc::fmt("length %d = %g", i, bad), tt, wp, true)) return;
        }
      {
        Eigen::VectorXd tt(n + 1);
        tt << T, 1.0;
        if (!must("one length too many", tt, wp, true)) return;
        if (n > 1 && !must("one length too few", T.head(n - 1), wp, true)) return;
        if (!must("one waypoint too many", T, waypoints(n + 2, cd, 1), true)) return;
        if (!must("one waypoint too few", T, waypoints(n, cd, 1), n > 1)) return;
        if (!must("one component too many", T, waypoints(n + 1, cd + 1, 1), false)) return;
        if (cd > 1 && !must("one component too few", T, waypoints(n + 1, cd - 1, 1), false)) return;
        if (n + 1 != cd && !must("transposed waypoints", T, wp.transpose(), false)) return;
      }
      // smallest accepted length
      Eigen::VectorXd tt = T;
      tt(0) = 1e-3;
      c.note("%s intervals=%d: short but legal length", b.s.str().c_str(), n);
      bool ok = true;
      try {
        gsplines::interpolate(tt, wp, *lb);
      } catch (const std::exception &e) {
        ok = false;
      }
      c.check(ok, "refused", "a legal length was refused");
    });
    R_.add("odd-bases", 9, [](mc::Ctx &c, uint64_t id) {
      BSpec s = id < 5 ? leg(1 + 2 * id) : id == 5 ? gl(3) : id == 6 ? gl(5) : id == 7 ? lag({-1, 0, 1}) : lag({0.25});
      auto lb = make(s);
      for (int n = 1; n <= 4; n++)
        for (int cd = 1; cd <= 3; cd++) {
          c.note("%s intervals=%d codom=%d", s.str().c_str(), n, cd);
          c.state(mc::hstr(c.get_note()));
          c.trans();
          auto tau = Spline::e(ilengths(n, 1));
          auto wp = waypoints(n + 1, cd, 1);
          if (!c.check(refuses([&] { Interpolator I(cd, n, *lb); }), "odd-accepted", "Interpolator accepted an odd basis")) return;
          if (!c.check(refuses([&] { gsplines::interpolate(tau, wp, *lb); }), "odd-accepted", "interpolate() accepted an odd basis")) return;
          if (s.kind == LEGENDRE && !c.check(refuses([&] { gsplines::pw_polynomial_interpolation(tau, wp, s.dim); }), "odd-accepted", "pw_polynomial_interpolation accepted an odd size")) return;
          c.trace();
        }
    });
  });
}
