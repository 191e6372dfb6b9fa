#include "splinecfg.hpp"
using namespace rs;
using gsplines::basis::BasisLagrange;
static const double GRID[] = {-1, -0.9, -0.5, -0.25, 0, 0.3, 0.625, 0.8, 1};
static const int NG = 9;
struct Set {
  std::vector<double> x;
  std::string str() const {
    std::string s = "{";
    for (double v : x) s += mc::fmt("%.10g ", v);
    return s + "}";
  }
};
static std::vector<Set> sets;
static R bary(const V &nodes, int i, R x) { // Lagrange polynomial by its product definition
  R p = 1;
  for (size_t j = 0; j < nodes.size(); j++)
    if ((int)j != i) p *= (x - nodes[j]) / (nodes[i] - nodes[j]);
  return p;
}
static bool change(mc::Ctx &c, const std::vector<double> &old, const std::vector<double> &nw, Eigen::MatrixXd *out = nullptr) {
  Eigen::MatrixXd M = BasisLagrange::change_interpolation_points(Spline::e(old), Spline::e(nw));
  c.trans();
  if (!c.check(M.rows() == (long)nw.size() && M.cols() == (long)old.size(), "change-shape", "wrong size")) return false;
  V o(old.begin(), old.end());
  for (size_t k = 0; k < nw.size(); k++) {
    V w(old.size());
    R sc = 1;
    for (size_t i = 0; i < old.size(); i++) sc = std::max(sc, fabsl(w[i] = bary(o, i, nw[k])));
    for (size_t i = 0; i < old.size(); i++)
      if (!c.close(M(k, i), w[i], 1e-9L, "change", mc::fmt("new point %zu (%.12g), old node %zu", k, nw[k], i), sc)) return false;
  }
  if (out) *out = M;
  return true;
}
int main(int argc, char **argv) {
  return mc::run(argc, argv, [](mc::Registry &R_) {
    int maxn = mc::THOROUGH ? 7 : 5;
    for (int m = 1; m < (1 << NG); m++) {
      Set s;
      for (int i = 0; i < NG; i++)
        if (m >> i & 1) s.x.push_back(GRID[i]);
      if ((int)s.x.size() > maxn) continue;
      sets.push_back(s);
    }
    size_t base = sets.size();
    for (size_t i = 0; i < base; i++) { // every order for the small ones, some orders for the rest
      std::vector<double> v = sets[i].x;
      if (v.size() < 2) continue;
      if (v.size() <= (mc::THOROUGH ? 4u : 3u)) {
        std::sort(v.begin(), v.end());
        while (std::next_permutation(v.begin(), v.end())) sets.push_back({v});
      } else {
        std::reverse(v.begin(), v.end());
        sets.push_back({v});
        std::rotate(v.begin(), v.begin() + 2, v.end());
        sets.push_back({v});
      }
    }
    for (int n = 2; n <= (mc::THOROUGH ? 14 : 10); n++) sets.push_back({gl(n).nodes});
    for (int n = 2; n <= (mc::THOROUGH ? 9 : 7); n++) sets.push_back({uni(n).nodes});
    // nodes outside the window: scaled and shifted
    for (size_t i = 0; i < base; i += mc::THOROUGH ? 3 : 11) {
      auto v = sets[i].x;
      for (auto &x : v) x = 3 + 5 * x;
      sets.push_back({v});
    }
    for (size_t i = 0; i < base; i += mc::THOROUGH ? 3 : 13)
      for (double f : {1e-2, 1e-3, 100.0}) {
        auto v = sets[i].x;
        for (auto &x : v) x *= f;
        sets.push_back({v});
      }
    for (int n : {16, 20, 24}) sets.push_back({gl(n).nodes});
    // change of points: every old set x every pattern of matching / non matching / repeated new points
    R_.add("change", sets.size(), [](mc::Ctx &c, uint64_t id) {
      const std::vector<double> &o = sets[id].x;
      int n = o.size();
      double lo = *std::min_element(o.begin(), o.end()), hi = *std::max_element(o.begin(), o.end()), w = hi > lo ? hi - lo : 2;
      // alphabet of new points: up to 3 nodes, points between, just beside a node, outside
      std::vector<double> al{o[0], o[n - 1], o[n / 2], lo + 0.37 * w, lo + 0.811 * w, o[n / 2] + 2e-6 * w, lo - 0.1 * w};
      int A = al.size();
      for (int len = 1; len <= (n <= 6 ? 4 : 3); len++) {
        int tot = 1;
        for (int k = 0; k < len; k++) tot *= A;
        for (int w2 = 0; w2 < tot; w2++) {
          std::vector<double> nw;
          std::string d;
          for (int k = 0, x = w2; k < len; k++, x /= A) nw.push_back(al[x % A]), d += char('a' + x % A);
          c.note("old nodes %s new points pattern %s (a,b,c: nodes first,last,middle; d,e: between; f: beside a node; g: outside)", sets[id].str().c_str(), d.c_str());
          c.state(mc::hstr(c.get_note()));
          if (!change(c, o, nw)) return;
        }
        c.trace(tot);
      }
      // onto the old nodes themselves, reversed, and with extra points
      c.note("old nodes %s onto themselves / extended", sets[id].str().c_str());
      if (!change(c, o, o)) return;
      auto r = o;
      std::reverse(r.begin(), r.end());
      if (!change(c, o, r)) return;
      auto e = o;
      e.insert(e.begin() + n / 2, lo + 0.443 * w);
      e.push_back(lo + 0.917 * w);
      Eigen::MatrixXd there, back;
      if (!change(c, o, e, &there) || !change(c, e, o, &back)) return;
      Eigen::MatrixXd I = back * there;
      if (!c.check((I - Eigen::MatrixXd::Identity(n, n)).cwiseAbs().maxCoeff() <= 1e-8 * (1 + there.cwiseAbs().maxCoeff() * back.cwiseAbs().maxCoeff()), "change-repeated", "going to a finer set and back changes the values")) return;
      c.trace(4);
      if (id % 101 == 7) c.sample(c.get_note());
    });
    R_.add("derivatives", sets.size(), [](mc::Ctx &c, uint64_t id) {
      const std::vector<double> &o = sets[id].x;
      int n = o.size();
      Basis b(lag(o));
      R sep = 1e9;
      for (int i = 0; i < n; i++)
        for (int j = 0; j < i; j++) sep = std::min<R>(sep, fabs(o[i] - o[j]));
      if (n == 1) sep = 2;
      R wid = *std::max_element(o.begin(), o.end()) - *std::min_element(o.begin(), o.end());
      R per = std::max<R>(n > 1 ? n * n / wid : 1, 4 / sep);
      for (int d = 0; d <= n + 2; d++)
        for (int form = 0; form < 2; form++) {
          if (form == 1 && d != 1) continue;
          c.note("nodes %s derivative matrix order %d%s", sets[id].str().c_str(), d, form ? " (first order form)" : "");
          c.state(mc::hstr(c.get_note()));
          c.trans();
          Eigen::MatrixXd D = form ? BasisLagrange::derivative_matrix(Spline::e(o)) : BasisLagrange::derivative_matrix(Spline::e(o), d);
          if (!c.check(D.rows() == n && D.cols() == n, "derivative-shape", "wrong size")) return;
          for (int k = 0; k < n; k++) {
            V w = b.eval(o[k], 2, d);
            R sc = 1e-3L + powl(per, d);
            for (int i = 0; i < n; i++) sc = std::max(sc, fabsl(w[i]));
            for (int i = 0; i < n; i++)
              if (!c.close(D(k, i), w[i], 1e-9L, "derivative", mc::fmt("order %d of node polynomial %d at node %d", d, i, k), sc)) return;
          }
          c.trace();
        }
    });
  });
}
