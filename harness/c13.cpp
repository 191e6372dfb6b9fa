#include "splinecfg.hpp"
using namespace rs;
// Continuity and derivative matrices against the definition, on one basis object that serves every request
// of a history (so the caches keyed by sizes and order are exercised too).
static std::vector<Cfg> cfgs;
static R opscale(const Basis &b, R tau, int d) {
  R sep = 2;
  if (b.s.kind == LAGRANGE || b.s.kind == GL)
    for (size_t i = 0; i < b.s.nodes.size(); i++)
      for (size_t j = 0; j < i; j++) sep = std::min<R>(sep, fabs(b.s.nodes[i] - b.s.nodes[j]));
  R per = b.s.poly() ? std::max<R>(b.dim() * b.dim() / 2.0, b.s.kind == LEGENDRE ? 0 : 4 / sep) * 2 / tau : 2 * sqrtl(2.0L) * b.s.k();
  return powl(per, d) * (b.s.poly() ? 1 : expl(tau * b.s.k()));
}
static Eigen::VectorXd apply(const Eigen::SparseMatrix<double, Eigen::RowMajor> &M, const std::vector<double> &x) { return M * Spline::e(x); }

static bool deriv_matrix(mc::Ctx &c, const gsplines::basis::Basis &lb, const Spline &m, int d) {
  auto &M = lb.gspline_derivative_matrix(m.n(), m.codom, d, Spline::e(m.tau));
  int N = m.n() * m.codom * m.b->dim();
  c.trans();
  if (!c.check(M.rows() == N && M.cols() == N, "derivative-matrix", "wrong size")) return false;
  Spline D = m;
  D.coef = vec(apply(M, m.coef));
  for (int i = 0; i < m.n(); i++)
    for (int k = 0; k < m.codom; k++)
      for (R x : {-1.0L, -0.63L, 0.11L, 0.5L, 1.0L}) {
        R mag, want = m.at(i, k, x, d, &mag);
        if (!c.close(D.at(i, k, x, 0), want, 1e-8L, "derivative-matrix", mc::fmt("interval %d component %d window %Lg", i, k, x), 1e-3L + mag + 1e-3L * opscale(*m.b, m.tau[i], d))) return false;
      }
  // columns: nothing else contributes (block structure)
  return true;
}
static bool cont_matrix(mc::Ctx &c, const gsplines::basis::Basis &lb, const Spline &m, int d) {
  auto &M = lb.continuity_matrix(m.n(), m.codom, d, Spline::e(m.tau));
  c.trans();
  if (!c.check(M.rows() == (m.n() - 1) * m.codom * (d + 1) && M.cols() == m.n() * m.codom * m.b->dim(), "continuity-matrix", "wrong size")) return false;
  Eigen::VectorXd v = apply(M, m.coef);
  for (int o = 0; o <= d; o++)
    for (int i = 0; i + 1 < m.n(); i++)
      for (int k = 0; k < m.codom; k++) {
        R a, b, want = m.at(i, k, 1, o, &a) - m.at(i + 1, k, -1, o, &b);
        if (!c.close(v(((m.n() - 1) * o + i) * m.codom + k), want, 1e-8L, "continuity-matrix", mc::fmt("order %d breakpoint %d component %d", o, i, k),
                     1e-3L + a + b + 1e-3L * (opscale(*m.b, m.tau[i], o) + opscale(*m.b, m.tau[i + 1], o))))
          return false;
      }
  return true;
}
int main(int argc, char **argv) {
  return mc::run(argc, argv, [](mc::Registry &R_) {
    for (int b : base_ids(mc::THOROUGH))
      for (int n : mc::THOROUGH ? std::vector<int>{1, 2, 3, 4, 6, 9, 13} : std::vector<int>{1, 2, 3, 5, 9})
        for (int cd : mc::THOROUGH ? std::vector<int>{1, 2, 3, 4, 7} : std::vector<int>{1, 2, 3, 7}) {
          if (!mc::THOROUGH && n * cd > 15) continue;
          cfgs.push_back({b, n, cd, 0, 0});
        }
    // one object, all orders x length patterns x coefficient vectors, three request orders
    R_.add("matrices", cfgs.size() * 3, [](mc::Ctx &c, uint64_t id) {
      Cfg g = cfgs[id / 3];
      int how = id % 3;
      const Basis &b = baselib()[g.base];
      auto lb = make(b.s);
      int top = std::min(b.dim() + 1, mc::THOROUGH ? 12 : 8);
      std::vector<std::pair<int, int>> req;
      for (int d = 0; d <= top; d++)
        for (int p = 0; p < 7; p++) req.push_back({d, p});
      if (how == 1) std::reverse(req.begin(), req.end());
      if (how == 2) std::stable_sort(req.begin(), req.end(), [](auto &x, auto &y) { return x.second < y.second; });
      for (auto &r : req) {
        g.pat = r.second;
        for (int seed = 1; seed <= 2; seed++) {
          Spline m = mkspline(g, b, seed);
          c.note("%s order=%d request-order=%d coefficients=%d", cfgstr(g, b.s).c_str(), r.first, how, seed);
          c.state(mc::hstr(c.get_note()));
          if (!deriv_matrix(c, *lb, m, r.first)) return;
          if (!cont_matrix(c, *lb, m, r.first)) return;
          c.trace();
        }
      }
      if (id % 97 == 3) c.sample(c.get_note());
    });
    // one basis object serving different shapes alternately
    static auto ids = base_ids(mc::THOROUGH);
    R_.add("shapes", ids.size(), [](mc::Ctx &c, uint64_t id) {
      const Basis &b = baselib()[ids[id]];
      auto lb = make(b.s);
      std::vector<std::array<int, 4>> req; // n codom order pat
      for (int n : {1, 2, 3})
        for (int cd : {1, 2, 3})
          for (int d : {0, 1, 2})
            for (int p : {1, 2}) req.push_back({n, cd, d, p});
      // every ordered pair of requests
      for (size_t i = 0; i < req.size(); i++)
        for (size_t j = 0; j < req.size(); j++)
          for (size_t q : {i, j, i}) {
            auto &r = req[q];
            Spline m = mkspline({ids[id] >= 0 ? ids[id] : 0, r[0], r[1], r[3], 0}, b, 1 + q % 2);
            c.note("%s requests %zu,%zu,%zu now intervals=%d codom=%d order=%d lengths=%d", b.s.str().c_str(), i, j, i, r[0], r[1], r[2], r[3]);
            c.state(mc::hstr(c.get_note()));
            if (!deriv_matrix(c, *lb, m, r[2])) return;
            if (!cont_matrix(c, *lb, m, r[2])) return;
            if (q == i) c.trace();
          }
      // a copy made from a used object answers for itself
      auto cp = lb->clone();
      Spline m = mkspline({0, 3, 2, 3, 0}, b, 1);
      c.note("%s clone of a used object", b.s.str().c_str());
      if (!deriv_matrix(c, *cp, m, 2) || !cont_matrix(c, *cp, m, 2)) return;
      auto mv = cp->move_clone();
      if (!deriv_matrix(c, *mv, m, 1) || !cont_matrix(c, *mv, m, 3)) return;
    });
    // almost equal requests on one object: every ordered pair of length vectors that differ in one entry, slightly or clearly
    R_.add("near", ids.size() * 4, [](mc::Ctx &c, uint64_t id) {
      const Basis &b = baselib()[ids[id / 4]];
      auto lb = make(b.s);
      int n = 2 + id % 2 * 2, cd = 1 + id / 2 % 2;
      Cfg g{ids[id / 4], n, cd, 1, 0};
      std::vector<Spline> v;
      for (int i = -1; i < n; i++)
        for (double e : {1e-2, 1e-4, 1e-5, 5e-7}) {
          if (i < 0 && e < 1e-2) continue;
          Spline m = mkspline(g, b, 1);
          if (i >= 0) m.tau[i] *= 1 + e;
          v.push_back(m);
        }
      for (int d : {1, 2, std::min(b.dim() - 1, 4)})
        for (size_t i = 0; i < v.size(); i++)
          for (size_t j = 0; j < v.size(); j++) {
            if (d < 1) continue;
            c.note("%s order=%d length variants %zu then %zu", cfgstr(g, b.s).c_str(), d, i, j);
            c.state(mc::hstr(c.get_note()));
            if (!deriv_matrix(c, *lb, v[i], d) || !deriv_matrix(c, *lb, v[j], d)) return;
            if (!cont_matrix(c, *lb, v[i], d) || !cont_matrix(c, *lb, v[j], d)) return;
            c.trace();
          }
    });
  });
}
