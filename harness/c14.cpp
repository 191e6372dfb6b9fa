#include "splinecfg.hpp"
#include <gsplines/Collocation/GaussLobattoPointsWeights.hpp>
using namespace rs;
using namespace gsplines::collocation;
static const V &nodes(int n) {
  static std::vector<V> c(512);
  if (c[n].empty()) c[n] = gl_nodes(n);
  return c[n];
}
// every polynomial of degree <= 2n-3 on [a, a+len] given points p and weights w of that subinterval
static bool exact(mc::Ctx &c, const double *p, const double *w, int n, R a, R len, const char *key, int sub) {
  for (int k = 0; k <= 2 * n - 3; k++) { // Legendre polynomials of the subinterval span them all
    R s = 0;
    for (int i = 0; i < n; i++) s += (R)w[i] * legendre(k, 2 * ((R)p[i] - a) / len - 1);
    c.trans();
    // rounding of the points (absolute, scaled by how far they are from 0) moves P_k by k^2
    R tol = 1e-11L * (1 + (fabsl(a) + len) / len * k * k * 0.05L);
    if (!c.close(s / len, k ? 0 : 1, tol, key, mc::fmt("subinterval %d, polynomial of degree %d", sub, k))) return false;
  }
  return true;
}
static bool rule(mc::Ctx &c, const Eigen::VectorXd &p, const Eigen::VectorXd &w, int n, R a, const std::vector<R> &len, const char *key) {
  int m = len.size();
  if (!c.check(p.size() == (long)n * m && w.size() == (long)n * m, key, "wrong number of points or weights")) return false;
  const V &x = nodes(n);
  R lo = a;
  for (int s = 0; s < m; s++) {
    for (int i = 0; i < n; i++) {
      R want = lo + (x[i] + 1) * len[s] / 2;
      if (!c.close(p(s * n + i), want, 1e-12L, key, mc::fmt("point %d of subinterval %d", i, s), fabsl(a) + fabsl(lo) + len[s])) return false;
      if (!c.check(w(s * n + i) > 0, key, mc::fmt("weight %d of subinterval %d is not positive", i, s))) return false;
      if (i && !c.check(p(s * n + i) > p(s * n + i - 1), key, mc::fmt("points %d,%d of subinterval %d are not increasing", i - 1, i, s))) return false;
    }
    if (!exact(c, p.data() + s * n, w.data() + s * n, n, lo, len[s], key, s)) return false;
    lo += len[s];
  }
  return true;
}
int main(int argc, char **argv) {
  return mc::run(argc, argv, [](mc::Registry &R_) {
    static int N = mc::THOROUGH ? 150 : 64;
    R_.add("rules", N - 1, [](mc::Ctx &c, uint64_t id) {
      int n = 2 + id;
      c.note("%d points on [-1,1]", n);
      c.state(mc::hstr(c.get_note()));
      auto pw = legendre_gauss_lobatto_points_and_weights(n);
      Eigen::VectorXd p = legendre_gauss_lobatto_points(n), w = legendre_gauss_lobatto_weights(n);
      if (!c.check(p == pw.first && w == pw.second, "forms", "the separate and the joint forms differ")) return;
      if (!rule(c, p, w, n, -1, {2}, "rule")) return;
      if (!c.check(p(0) == -1 && p(n - 1) == 1, "ends", "the ends are not included")) return;
      V rw = gl_weights(n, nodes(n));
      for (int i = 0; i < n; i++) {
        if (!c.close(p(i), -p(n - 1 - i), 1e-14L, "symmetry", mc::fmt("point %d", i))) return;
        if (!c.close(w(i), w(n - 1 - i), 1e-13L, "symmetry", mc::fmt("weight %d", i))) return;
        if (!c.close(w(i), rw[i], 1e-11L, "weight", mc::fmt("weight %d", i), 1e-3L)) return;
      }
      c.trace();
      if (id % 13 == 2) c.sample(c.get_note());
    });
    static const std::vector<int> ns = mc::THOROUGH ? std::vector<int>{2, 3, 4, 5, 6, 7, 8, 10, 13, 16, 20} : std::vector<int>{2, 3, 4, 5, 8, 10};
    static const std::vector<int> ms = mc::THOROUGH ? std::vector<int>{1, 2, 3, 4, 5, 7, 10, 16, 24, 33, 64} : std::vector<int>{1, 2, 3, 5, 10, 19, 33};
    static const std::vector<std::pair<double, double>> doms{{0, 1}, {-1, 1}, {2, 5.5}, {-7, -3.25}, {-4, 9}, {100, 101}, {0, 0.001}, {-50, 60}};
    R_.add("uniform", ns.size() * ms.size() * doms.size(), [](mc::Ctx &c, uint64_t id) {
      int n = ns[id % ns.size()], m = ms[id / ns.size() % ms.size()];
      auto d = doms[id / ns.size() / ms.size()];
      c.note("domain [%g,%g] points=%d subintervals=%d", d.first, d.second, n, m);
      c.state(mc::hstr(c.get_note()));
      std::tuple<double, double> t(d.first, d.second);
      if (!rule(c, legendre_gauss_lobatto_points(t, n, m), legendre_gauss_lobatto_weights(t, n, m), n, d.first, std::vector<R>(m, ((R)d.second - d.first) / m), "uniform")) return;
      c.trace();
    });
    // every partition into up to K pieces with lengths from an alphabet
    static const double LEN[] = {0.25, 1.0, 3.0};
    static const double ST[] = {0.0, -2.5, 4.0};
    static int K = mc::THOROUGH ? 6 : 5;
    static std::vector<std::vector<int>> parts;
    for (int k = 1; k <= K; k++) {
      int tot = 1;
      for (int i = 0; i < k; i++) tot *= 3;
      for (int x = 0; x < tot; x++) {
        std::vector<int> v;
        for (int i = 0, y = x; i < k; i++, y /= 3) v.push_back(y % 3);
        parts.push_back(v);
      }
    }
    R_.add("partitions", parts.size(), [](mc::Ctx &c, uint64_t id) {
      auto &v = parts[id];
      Eigen::VectorXd len(v.size());
      std::vector<R> L;
      std::string s;
      for (size_t i = 0; i < v.size(); i++) {
        len(i) = LEN[v[i]];
        L.push_back(len(i));
        s += mc::fmt("%g ", LEN[v[i]]);
      }
      for (double st : ST)
        for (int n : {2, 3, 4, 6, 9}) {
          c.note("start %g lengths %s points=%d", st, s.c_str(), n);
          c.state(mc::hstr(c.get_note()));
          if (!rule(c, legendre_gauss_lobatto_points(st, n, len), legendre_gauss_lobatto_weights(n, len), n, st, L, "partition")) return;
          c.trace();
        }
      if (id % 97 == 2) c.sample(c.get_note());
    });
    // long partitions whose lengths all differ, and with one odd interval at every position
    R_.add("long-partitions", 30, [](mc::Ctx &c, uint64_t id) {
      int k = 4 + id;
      for (int odd = -1; odd < k; odd++) {
        Eigen::VectorXd len(k);
        std::vector<R> L;
        for (int i = 0; i < k; i++) {
          len(i) = odd < 0 ? 0.25 + 0.125 * i : i == odd ? 2.0 : 0.5;
          L.push_back(len(i));
        }
        for (double st : ST)
          for (int n : {2, 3, 5}) {
            c.note("start %g, %d intervals, %s, points=%d", st, k, odd < 0 ? "growing lengths" : mc::fmt("interval %d longer", odd).c_str(), n);
            c.state(mc::hstr(c.get_note()));
            if (!rule(c, legendre_gauss_lobatto_points(st, n, len), legendre_gauss_lobatto_weights(n, len), n, st, L, "partition")) return;
            c.trace();
          }
      }
    });
  });
}
