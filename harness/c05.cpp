#include "splinecfg.hpp"
using namespace rs;
// Every enumerated spline shape, evaluated at every kind of point, in every list form.
static std::vector<Cfg> cfgs;

static bool cmp_points(mc::Ctx &c, const gsplines::functions::FunctionBase &f, const Spline &m, const std::vector<double> &pts, const char *key) {
  Eigen::VectorXd p = Spline::e(pts);
  Eigen::MatrixXd v = f.value(p);
  if (!c.check(v.rows() == p.size() && v.cols() == m.codom, key, "wrong shape of the result")) return false;
  for (size_t i = 0; i < pts.size(); i++)
    for (int k = 0; k < m.codom; k++) {
      R mag, w = m.value(pts[i], k, 0, &mag);
      if (!c.close(v(i, k), w, 2e-8L, key, mc::fmt("value at t=%.17g component %d (list of %zu, position %zu)", pts[i], k, pts.size(), i), 1 + 4 * mag)) return false;
    }
  c.trans(pts.size());
  return true;
}

int main(int argc, char **argv) {
  return mc::run(argc, argv, [](mc::Registry &R_) {
    auto ids = base_ids(mc::THOROUGH);
    std::vector<int> ns = mc::THOROUGH ? std::vector<int>{1, 2, 3, 4, 5, 8, 17, 40} : std::vector<int>{1, 2, 3, 5, 9, 24};
    for (int b : ids)
      for (int n : ns)
        for (int cd : {1, 2, 3, 7})
          for (int pat = 0; pat < 8; pat++)
            for (int st = 0; st < (mc::THOROUGH ? 5 : 4); st++) {
              if (n > 5 && cd == 7) continue;
              if (pat > 5 && !mc::THOROUGH && (n == 1 || cd > 2)) continue;
              if (!mc::THOROUGH && (b + n + cd + pat + st) % 2) continue;
              cfgs.push_back({b, n, cd, pat, st});
            }
    R_.add("shapes", cfgs.size(), [](mc::Ctx &c, uint64_t id) {
      const Cfg &g = cfgs[id];
      const Basis &b = baselib()[g.base];
      Spline m = mkspline(g, b);
      c.note_s(cfgstr(g, b.s));
      c.state(mc::hstr(c.get_note()));
      gsplines::GSpline f = m.lib();
      // points: domain ends, breakpoints (exactly representable patterns only), both sides of every
      // breakpoint, interior positions, outside
      std::vector<double> pts, single;
      for (int i = 0; i < m.n(); i++) {
        double l = (double)m.left(i), t = m.tau[i];
        if (dyadic(g.pat)) pts.push_back(l);
        for (double x : {4e-9, 1e-6, 0.09, 0.31, 0.5, 0.77, 1 - 1e-6, 1 - 4e-9}) pts.push_back(l + t * x);
      }
      if (dyadic(g.pat)) pts.push_back((double)m.left(m.n()));
      else pts.push_back(m.dom.first);
      double span = m.dom.second - m.dom.first;
      pts.push_back(m.dom.first - 0.05 * m.tau[0]);
      pts.push_back(m.dom.second + 0.05 * m.tau.back());
      pts.push_back(m.dom.first - 0.5 * m.tau[0]);
      pts.push_back(m.dom.second + 0.5 * m.tau.back());
      pts.push_back(m.dom.first - 2e-8);
      pts.push_back(m.dom.second + 2e-8);
      if (b.dim() <= 6) {
        pts.push_back(m.dom.first - 2.0 * m.tau[0]);
        pts.push_back(m.dom.second + 2.0 * m.tau.back());
      }
      (void)span;
      for (size_t i = 0; i < pts.size(); i++)
        if (!cmp_points(c, f, m, {pts[i]}, "single-point")) return;
      if (!cmp_points(c, f, m, pts, "list")) return;
      std::vector<double> rev(pts.rbegin(), pts.rend()), inter, rep;
      for (size_t i = 0; i < pts.size(); i++) inter.push_back(pts[(i * 7 + 3) % pts.size()]);
      for (size_t i = 0; i < pts.size(); i++) {
        rep.push_back(pts[i]);
        rep.push_back(pts[pts.size() - 1 - i]);
        rep.push_back(pts[i]);
      }
      if (!cmp_points(c, f, m, rev, "reversed-list") || !cmp_points(c, f, m, inter, "shuffled-list") || !cmp_points(c, f, m, rep, "repeating-list")) return;
      // into a caller's buffer (a block of a larger matrix), which must be filled completely
      {
        Eigen::MatrixXd big = Eigen::MatrixXd::Constant(pts.size() + 2, m.codom + 2, 7.25);
        Eigen::VectorXd p = Spline::e(pts);
        f.value(p, big.block(1, 1, p.size(), m.codom));
        for (long i = 0; i < big.rows(); i++)
          for (long j = 0; j < big.cols(); j++) {
            bool in = i >= 1 && i <= p.size() && j >= 1 && j <= m.codom;
            if (!in) {
              if (!c.check(big(i, j) == 7.25, "buffer", "evaluation wrote outside the given buffer")) return;
            } else {
              R mag, w = m.value(pts[i - 1], j - 1, 0, &mag);
              if (!c.close(big(i, j), w, 2e-8L, "buffer", mc::fmt("value in buffer at t=%g", pts[i - 1]), 1 + 4 * mag)) return;
            }
          }
      }
      // reported structure
      Eigen::VectorXd bp = f.get_domain_breakpoints();
      Eigen::MatrixXd wp = f.get_waypoints();
      if (!c.check((int)bp.size() == m.n() + 1 && (int)wp.rows() == m.n() + 1 && (int)wp.cols() == m.codom, "structure", "wrong number of breakpoints or waypoints")) return;
      for (int i = 0; i <= m.n(); i++) {
        if (!c.close(bp(i), m.left(i), 1e-12L, "breakpoints", mc::fmt("breakpoint %d", i), 1 + fabsl(m.left(i)))) return;
        for (int k = 0; k < m.codom; k++) {
          int iv = i == 0 ? 0 : i - 1;
          R mag, w = m.at(iv, k, i == 0 ? -1 : 1, 0, &mag);
          if (!dyadic(g.pat) && i > 0 && i < m.n()) { // rounding may put the point on the other side
            R mag2, w2 = m.at(i, k, -1, 0, &mag2);
            if (fabsl(wp(i, k) - w2) < fabsl(wp(i, k) - w)) w = w2, mag = mag2;
          }
          if (!c.close(wp(i, k), w, 2e-8L, "waypoints", mc::fmt("waypoint %d component %d", i, k), 1 + 4 * mag)) return;
        }
      }
      if (!c.check(f.get_coefficients() == Spline::e(m.coef) && f.get_interval_lengths() == Spline::e(m.tau) && (int)f.get_number_of_intervals() == m.n() &&
                       (int)f.get_basis_dim() == b.dim() && (int)f.get_codom_dim() == m.codom && f.get_domain() == m.dom,
                   "structure", "reported coefficients, lengths, sizes or domain differ from what was given"))
        return;
      // copies, moves, clones and expressions made of it
      gsplines::GSpline cp(f);
      auto cl = f.clone();
      auto ex = f.to_expression();
      if (!cmp_points(c, cp, m, inter, "copy") || !cmp_points(c, *cl, m, inter, "clone") || !cmp_points(c, ex, m, inter, "expression")) return;
      gsplines::GSpline mv(std::move(cp));
      if (!cmp_points(c, mv, m, inter, "move")) return;
      { // rvalue constructor
        auto lb = make(b.s);
        gsplines::GSpline r(m.dom, m.codom, m.tau.size(), *lb, Eigen::VectorXd(Spline::e(m.coef)), Eigen::VectorXd(Spline::e(m.tau)), "r");
        lb.reset();
        if (!cmp_points(c, r, m, inter, "rvalue-constructor")) return;
      }
      c.trace();
      if (id % 977 == 3) c.sample(c.get_note());
    });
    // wrong coefficient counts
    static std::vector<Cfg> small;
    for (int b : ids)
      for (int n : {1, 2, 3, 6})
        for (int cd : {1, 2, 4}) small.push_back({b, n, cd, 1, 0});
    R_.add("wrong-sizes", small.size(), [](mc::Ctx &c, uint64_t id) {
      const Cfg &g = small[id];
      const Basis &b = baselib()[g.base];
      Spline m = mkspline(g, b);
      int good = m.coef.size();
      for (int len : {0, 1, good - b.dim(), good - 1, good + 1, good + b.dim(), 2 * good, g.n * b.dim(), g.codom * b.dim(), good - b.dim() * g.codom, good + b.dim() * g.codom, b.dim(), good}) {
        if (len < 0) continue;
        for (int form = 0; form < 2; form++) {
          c.note("%s coefficients=%d (correct %d) form=%d", cfgstr(g, b.s).c_str(), len, good, form);
          c.trans();
          c.state(mc::hstr(c.get_note()));
          bool threw = false;
          auto lb = make(b.s);
          Eigen::VectorXd cf = Eigen::VectorXd::Ones(len), tau = Spline::e(m.tau);
          try {
            if (form) gsplines::GSpline(m.dom, g.codom, g.n, *lb, std::move(cf), std::move(tau), "x");
            else gsplines::GSpline(m.dom, g.codom, g.n, *lb, cf, tau, "x");
          } catch (const std::invalid_argument &) {
            threw = true;
          }
          if (!c.check(threw == (len != good), "coefficient-count", len != good ? "a coefficient vector of the wrong length was accepted" : "a correct one was rejected")) return;
          c.trace();
        }
      }
    });
  });
}
