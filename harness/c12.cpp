#include "interpcfg.hpp"
#include <gsplines/FunctionalAnalysis/Sobolev.hpp>
using namespace rs;
using gsplines::functional_analysis::SobolevNorm;
typedef std::vector<std::pair<std::size_t, double>> W;
static std::vector<Basis> bl;
struct P {
  int b, n, cd, pat;
};
static std::vector<P> ps;
static std::vector<W> small_lists, all_lists;
static std::string wstr(const W &w) {
  std::string s = "[";
  for (auto &t : w) s += mc::fmt("(%zu,%g)", t.first, t.second);
  return s + "]";
}
struct Ref {
  R cost = 0, mag = 0;
  V grad, gmag;
};
static Ref reference(const Basis &b, const std::vector<double> &tau, const Eigen::MatrixXd &wp, const Interp &I, const W &w, const std::vector<Mat> &dsol) {
  int n = tau.size(), dim = b.dim(), cd = wp.cols();
  Ref r;
  r.grad.assign(n, 0);
  r.gmag.assign(n, 0);
  std::vector<Mat> Q(n, Mat::Zero(dim, dim)), dQ = Q;
  for (int i = 0; i < n; i++)
    for (auto &t : w) {
      Q[i] += (R)t.second * b.gram(tau[i], t.first);
      dQ[i] += (R)t.second * b.gram_dtau(tau[i], t.first);
    }
  for (int i = 0; i < n; i++)
    for (int k = 0; k < cd; k++) {
      Vec y = I.sol.block(i * dim, k, dim, 1);
      r.cost += y.dot(Q[i] * y);
      r.mag += y.cwiseAbs().dot(Q[i].cwiseAbs() * y.cwiseAbs());
      r.grad[i] += y.dot(dQ[i] * y);
      r.gmag[i] += y.cwiseAbs().dot(dQ[i].cwiseAbs() * y.cwiseAbs());
      for (int j = 0; j < n; j++) {
        Vec d = dsol[j].block(i * dim, k, dim, 1);
        r.grad[j] += 2 * y.dot(Q[i] * d);
        r.gmag[j] += 2 * y.cwiseAbs().dot(Q[i].cwiseAbs() * d.cwiseAbs());
      }
    }
  return r;
}
static bool grad_ok(const Basis &b, const W &w) { // which lists a basis has to support
  if (b.s.kind != B0101) return true;
  for (auto &t : w)
    if (t.first != 1 && t.first != 3) return false;
  return true;
}
static bool cost_ok(const Basis &b, const W &w) {
  if (b.s.kind != B0101) return true;
  for (auto &t : w)
    if (t.first > 3) return false;
  return true;
}
static bool one(mc::Ctx &c, SobolevNorm &S, const Basis &b, const std::vector<double> &tau, const Eigen::MatrixXd &wp, const Interp &I, const W &w, const std::vector<Mat> &ds, int order) {
  Ref r = reference(b, tau, wp, I, w, ds);
  int n = tau.size();
  for (int step = 0; step < 2; step++) {
    c.trans();
    if ((step == 0) == (order == 0)) {
      bool threw = false;
      double v = 0;
      try {
        v = S(Spline::e(tau));
      } catch (const std::exception &e) {
        threw = true;
      }
      if (!c.check(!threw || !cost_ok(b, w), "refused", "the cost of a supported list was refused")) return false;
      // Gram cancellation is measured by mag; tolerance relative to it
      if (!threw && !c.close(v, r.cost, 1e-7L, "cost", "cost", 1e-2L * r.mag + 1e-9L)) return false;
    } else {
      bool threw = false;
      Eigen::VectorXd g = Eigen::VectorXd::Constant(n, 77.0);
      try {
        S.deriv_wrt_interval_len(Spline::e(tau), g);
      } catch (const std::exception &e) {
        threw = true;
      }
      if (!c.check(!threw || !grad_ok(b, w), "refused", "the gradient of a supported list was refused")) return false;
      if (!threw)
        for (int i = 0; i < n; i++)
          if (!c.close(g(i), r.grad[i], 1e-7L, "gradient", mc::fmt("component %d", i), 1e-2L * r.gmag[i] + 1e-2L * r.mag + 1e-9L)) return false;
    }
  }
  c.trace();
  return true;
}
int main(int argc, char **argv) {
  return mc::run(argc, argv, [](mc::Registry &R_) {
    for (auto &s : ibases(mc::THOROUGH)) bl.emplace_back(s);
    for (size_t b = 0; b < bl.size(); b++)
      for (int n : mc::THOROUGH ? std::vector<int>{1, 2, 3, 5, 7} : std::vector<int>{1, 2, 4, 9})
        for (int cd : mc::THOROUGH ? std::vector<int>{1, 2, 3, 7} : std::vector<int>{1, 2, 3, 8}) {
          if (n * cd * bl[b].dim() > (mc::THOROUGH ? 250 : 110)) continue;
          if (!mc::THOROUGH && (n == 9 || cd == 8) && n * cd * bl[b].dim() > 60) continue;
          for (int pat = 0; pat < 7; pat++) ps.push_back({(int)b, n, cd, pat});
        }
    small_lists = {{}, {{0, 1}}, {{1, 1}}, {{2, 1}}, {{3, 1}}, {{3, 2.5}}, {{1, 0.3}, {3, 0.7}}, {{3, 0.7}, {1, 0.3}}, {{1, 1.5}, {3, 0.25}, {1, 0.5}}, {{0, 2}, {1, 0.5}, {2, 3}, {3, 0.1}}, {{2, 0.0}, {1, 2.0}}, {{1, 2.0}, {3, 0.0}}, {{4, 0.5}}, {{5, 1}, {1, 0.5}}, {{9, 1.0}, {3, 2}}, {{1, 1e-5}, {3, 1e-4}}, {{1, 1.0}, {3, 1e-5}}};
    std::vector<std::pair<std::size_t, double>> T;
    for (std::size_t o : {0, 1, 2, 3})
      for (double w : {1.0, 0.25, -0.5}) T.push_back({o, w});
    int maxlen = mc::THOROUGH ? 4 : 3;
    for (int len = 0; len <= maxlen; len++) {
      long tot = 1;
      for (int k = 0; k < len; k++) tot *= T.size();
      for (long x = 0; x < tot; x++) {
        W w;
        for (long k = 0, y = x; k < len; k++, y /= T.size()) w.push_back(T[y % T.size()]);
        all_lists.push_back(w);
      }
    }
    R_.add("problems", ps.size(), [](mc::Ctx &c, uint64_t id) {
      P p = ps[id];
      const Basis &b = bl[p.b];
      auto lb = make(b.s);
      auto tau = ilengths(p.n, p.pat);
      Eigen::MatrixXd wp = waypoints(p.n + 1, p.cd, 1 + id % 3);
      Interp I(b, tau, wp);
      std::vector<Mat> ds;
      for (int i = 0; i < p.n; i++) ds.push_back(I.deriv(b, tau, i));
      for (auto &w : small_lists)
        for (int order = 0; order < 2; order++) {
          c.note("%s terms=%s %s first", ilabel(b.s, p.n, p.cd, p.pat).c_str(), wstr(w).c_str(), order ? "gradient" : "cost");
          c.state(mc::hstr(c.get_note()));
          SobolevNorm S(wp, *lb, w);
          if (!one(c, S, b, tau, wp, I, w, ds, order)) return;
        }
      if (id % 61 == 3) c.sample(c.get_note());
    });
    // every weight list up to the depth, on one problem per basis kind
    static const std::vector<int> bsel{2, 8, 13}; // leg(6), gl(8), 0101
    R_.add("weight-lists", all_lists.size(), [](mc::Ctx &c, uint64_t id) {
      const W &w = all_lists[id];
      for (int bi : bsel) {
        const Basis &b = bl[bi];
        auto lb = make(b.s);
        for (int pat : {1, 5}) {
          auto tau = ilengths(2, pat);
          Eigen::MatrixXd wp = waypoints(3, 2, 1);
          Interp I(b, tau, wp);
          std::vector<Mat> ds;
          for (int i = 0; i < 2; i++) ds.push_back(I.deriv(b, tau, i));
          c.note("%s terms=%s", ilabel(b.s, 2, 2, pat).c_str(), wstr(w).c_str());
          c.state(mc::hstr(c.get_note()));
          SobolevNorm S(wp, *lb, w);
          if (!one(c, S, b, tau, wp, I, w, ds, id % 2)) return;
        }
      }
    });
    // one functional object evaluated along every path of length 3 over a grid of interval lengths (what an optimizer does)
    R_.add("iterates", bl.size() * 4, [](mc::Ctx &c, uint64_t id) {
      const Basis &b = bl[id / 4];
      int n = 1 + id % 4, cd = 2;
      auto lb = make(b.s);
      W w{{1, 0.4}, {3, 0.6}};
      Eigen::MatrixXd wp = waypoints(n + 1, cd, 2);
      struct It {
        std::vector<double> tau;
        std::unique_ptr<Interp> I;
        std::vector<Mat> ds;
      };
      std::vector<It> grid;
      for (int pat = 0; pat < 5; pat++) {
        It t;
        t.tau = ilengths(n, pat);
        t.I.reset(new Interp(b, t.tau, wp));
        for (int i = 0; i < n; i++) t.ds.push_back(t.I->deriv(b, t.tau, i));
        grid.push_back(std::move(t));
      }
      for (size_t x = 0; x < grid.size(); x++)
        for (size_t y = 0; y < grid.size(); y++) {
          SobolevNorm S(wp, *lb, w);
          int k = 0;
          for (size_t q : {x, y, x}) {
            c.note("%s iterates %zu,%zu,%zu step %d", ilabel(b.s, n, cd, 0).c_str(), x, y, x, k);
            c.state(mc::hstr(c.get_note()));
            if (!one(c, S, b, grid[q].tau, wp, *grid[q].I, w, grid[q].ds, k++ % 2)) return;
          }
        }
    });
  });
}
