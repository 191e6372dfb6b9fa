#include "splinecfg.hpp"
using namespace rs;
using gsplines::GSpline;
static std::vector<Cfg> cfgs;

// the derivative of order d of model m, as an object f
static bool cmp(mc::Ctx &c, const gsplines::functions::FunctionBase &f, const Spline &m, int d, const char *key) {
  if (!c.check((int)f.get_codom_dim() == m.codom && f.get_domain() == m.dom, key, "domain or codomain changed")) return false;
  std::vector<double> pts;
  for (int i = 0; i < m.n(); i++)
    for (double x : {0.02, 0.23, 0.5, 0.71, 0.98}) pts.push_back((double)m.left(i) + m.tau[i] * x);
  Eigen::MatrixXd v = f.value(Spline::e(pts));
  // magnitude: derivative operators amplify; scale by the largest term over the interval
  for (int i = 0; i < m.n(); i++)
    for (int k = 0; k < m.codom; k++) {
      R mag = 0, want[5];
      for (int j = 0; j < 5; j++) {
        R g;
        want[j] = m.at(i, k, 2 * ((R)pts[i * 5 + j] - m.left(i)) / m.tau[i] - 1, d, &g);
        mag = std::max(mag, g);
      }
      for (R x : {-1.0L, 1.0L}) {
        R g;
        m.at(i, k, x, d, &g);
        mag = std::max(mag, g);
      }
      // cancellation inside the derivative operator itself (products of derivative matrices)
      R cm = 0;
      for (int q = 0; q < m.b->dim(); q++) cm = std::max(cm, fabsl((R)m.coef[(i * m.codom + k) * m.b->dim() + q]));
      R op = powl(2 / (R)m.tau[i] * (m.b->s.poly() ? m.b->dim() * m.b->dim() : 2 * (1 + m.b->s.k())), d) * cm;
      for (int j = 0; j < 5; j++)
        if (!c.close(v(i * 5 + j, k), want[j], 1e-8L, key, mc::fmt("derivative %d at t=%.17g component %d", d, pts[i * 5 + j], k), 1 + 4 * mag + 1e-3L * op)) return false;
    }
  c.trans();
  return true;
}

int main(int argc, char **argv) {
  return mc::run(argc, argv, [](mc::Registry &R_) {
    auto ids = base_ids(mc::THOROUGH);
    for (int b : ids)
      for (int n : {1, 2, 3, 7})
        for (int cd : {1, 2, 3, 5})
          for (int pat = 0; pat < 8; pat++)
            for (int st = 0; st < 3; st++) {
              if (pat > 5 && (n == 1 || cd > 2)) continue;
              if (pat == 7 && baselib()[b].dim() > 6) continue;
              if (!mc::THOROUGH && (b + n + cd + pat + st) % 3) continue;
              cfgs.push_back({b, n, cd, pat, st});
            }
    R_.add("orders", cfgs.size(), [](mc::Ctx &c, uint64_t id) {
      const Cfg &g = cfgs[id];
      const Basis &b = baselib()[g.base];
      Spline m = mkspline(g, b);
      GSpline f = m.lib();
      int top = std::min(b.dim() + 2, mc::THOROUGH ? 16 : 11);
      std::vector<GSpline> chain;
      chain.push_back(f.derivate(0));
      for (int d = 0; d <= top; d++) {
        c.note("%s order=%d", cfgstr(g, b.s).c_str(), d);
        c.state(mc::hstr(c.get_note()));
        auto p = f.deriv(d);
        if (!c.check((int)p->get_number_of_intervals() == m.n() && p->get_interval_lengths() == Spline::e(m.tau) && p->get_basis() == f.get_basis(), "structure",
                     "the derivative lives on other intervals or another basis"))
          return;
        if (!cmp(c, *p, m, d, "deriv")) return;
        if (!cmp(c, f.derivate(d), m, d, "derivate")) return;
        if (b.s.poly() && d >= b.dim()) {
          if (!c.check(p->get_coefficients().cwiseAbs().maxCoeff() <= 1e-6 * powl(b.dim() * b.dim() * 2 / *std::min_element(m.tau.begin(), m.tau.end()), d), "beyond-degree", "derivative beyond the degree is not zero")) return;
        }
        // one at a time
        if (d > 0) {
          chain.push_back(chain.back().derivate(1));
          if (!cmp(c, chain.back(), m, d, "one-at-a-time")) return;
        }
        // through the polymorphic interface
        const gsplines::functions::FunctionBase &fb = f;
        auto q = fb.deriv(d);
        if (!cmp(c, *q, m, d, "polymorphic")) return;
        auto e = f.to_expression().derivate(d);
        if (!cmp(c, e, m, d, "expression")) return;
        c.trace();
      }
      // composing orders, all splits
      for (int s = 2; s <= std::min(top, 6); s++)
        for (int a = 1; a < s; a++) {
          c.note("%s orders %d then %d", cfgstr(g, b.s).c_str(), a, s - a);
          if (!cmp(c, f.derivate(a).derivate(s - a), m, s, "composed")) return;
        }
      // descending orders on one object and on a copy: the operator cache must not matter
      for (int d = top; d >= 0; d--) {
        c.note("%s order=%d (descending)", cfgstr(g, b.s).c_str(), d);
        if (!cmp(c, f.derivate(d), m, d, "descending")) return;
        GSpline h = m.lib();
        if (!cmp(c, h.derivate(d), m, d, "fresh-object")) return;
        GSpline k2(h);
        if (!cmp(c, k2.derivate((d + 3) % (top + 1)), m, (d + 3) % (top + 1), "copied-object")) return;
        GSpline k3(std::move(k2));
        if (!cmp(c, k3.derivate((d + 1) % (top + 1)), m, (d + 1) % (top + 1), "moved-object")) return;
      }
      // the original is unchanged
      if (!c.check(f.get_coefficients() == Spline::e(m.coef), "original-changed", "deriving changed the coefficients of the original")) return;
      if (!cmp(c, f, m, 0, "original-changed")) return;
      if (id % 311 == 5) c.sample(c.get_note());
    });
  });
}
