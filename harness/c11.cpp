#include "interpcfg.hpp"
#include <gsplines/Interpolator.hpp>
using namespace rs;
using gsplines::Interpolator;
static std::vector<Basis> bl;
struct P {
  int b, n, cd, pat;
};
static std::vector<P> ps;
// coefficients in the library's layout
static V flat(const Mat &m, int n, int cd, int dim) {
  V v(n * cd * dim);
  for (int i = 0; i < n; i++)
    for (int k = 0; k < cd; k++)
      for (int q = 0; q < dim; q++) v[(i * cd + k) * dim + q] = m(i * dim + q, k);
  return v;
}
static R big(const V &v) {
  R m = 0;
  for (R x : v) m = std::max(m, fabsl(x));
  return m;
}
static bool same(mc::Ctx &c, const Eigen::VectorXd &got, const V &want, R scale, const char *key, const std::string &what) {
  if (!c.check(got.size() == (long)want.size(), key, what + ": wrong size")) return false;
  for (size_t i = 0; i < want.size(); i++)
    if (!c.close(got(i), want[i], 1e-6L, key, mc::fmt("%s, coefficient %zu", what.c_str(), i), scale)) return false;
  return true;
}
template <class F> static bool refuses(F f) {
  try {
    f();
  } catch (const std::exception &) {
    return true;
  }
  return false;
}
int main(int argc, char **argv) {
  return mc::run(argc, argv, [](mc::Registry &R_) {
    for (auto &s : ibases(mc::THOROUGH)) bl.emplace_back(s);
    for (size_t b = 0; b < bl.size(); b++)
      for (int n : mc::THOROUGH ? std::vector<int>{1, 2, 3, 4, 5, 7, 10} : std::vector<int>{1, 2, 3, 4, 6, 11})
        for (int cd : mc::THOROUGH ? std::vector<int>{1, 2, 3, 4, 7} : std::vector<int>{1, 2, 3, 7}) {
          if (n * cd * bl[b].dim() > (mc::THOROUGH ? 350 : 200)) continue;
          if (!mc::THOROUGH && (n == 11 || cd == 7) && n * cd * bl[b].dim() > 90) continue;
          for (int pat = 0; pat < 7; pat++) ps.push_back({(int)b, n, cd, pat});
        }
    R_.add("sensitivities", ps.size(), [](mc::Ctx &c, uint64_t id) {
      P p = ps[id];
      const Basis &b = bl[p.b];
      auto lb = make(b.s);
      auto tau = ilengths(p.n, p.pat);
      R tmin = *std::min_element(tau.begin(), tau.end());
      for (int seed = 1; seed <= 2; seed++) {
        Eigen::MatrixXd wp = waypoints(p.n + 1, p.cd, seed);
        Interp ref(b, tau, wp);
        V sol = flat(ref.sol, p.n, p.cd, b.dim());
        for (int how = 0; how < 5; how++) { // request order, whether the interpolator is fresh, and what it was last used for
          std::unique_ptr<Interpolator> I(new Interpolator(p.cd, p.n, *lb));
          Eigen::VectorXd coef = I->solve_interpolation(Spline::e(tau), wp);
          c.note("%s waypoints=%d", ilabel(b.s, p.n, p.cd, p.pat).c_str(), seed);
          if (!same(c, coef, sol, big(sol), "coefficients", "interpolating coefficients")) return;
          for (int q = 0; q < p.n; q++) {
            int i = how == 1 ? p.n - 1 - q : q;
            if (how == 2) I.reset(new Interpolator(p.cd, p.n, *lb));
            if (how >= 3) { // last used with other lengths (and other waypoints)
              auto other = tau;
              for (size_t z = 0; z < other.size(); z++) other[z] *= (z + i) % 2 ? 1.5 : 1.25;
              Eigen::VectorXd oc = I->solve_interpolation(Spline::e(other), waypoints(p.n + 1, p.cd, seed + 3));
              if (how == 4) I->get_coeff_derivative_wrt_tau(oc, Spline::e(other), seed == 1 ? i : (i + 1) % p.n);
            }
            c.note("%s waypoints=%d index=%d request-order=%d", ilabel(b.s, p.n, p.cd, p.pat).c_str(), seed, i, how);
            c.state(mc::hstr(c.get_note()));
            c.trans();
            V want = flat(ref.deriv(b, tau, i), p.n, p.cd, b.dim());
            Eigen::VectorXd got = I->get_coeff_derivative_wrt_tau(coef, Spline::e(tau), i);
            if (!same(c, got, want, big(want) + big(sol) * (1 / tmin + (b.s.poly() ? 0 : b.s.k())), "sensitivity", mc::fmt("derivative with respect to length %d", i))) return;
            c.trace();
          }
        }
      }
      if (id % 41 == 3) c.sample(c.get_note());
    });
    R_.add("refusals", bl.size() * 4 * 3, [](mc::Ctx &c, uint64_t id) {
      const Basis &b = bl[id / 12];
      int n = 1 + id / 3 % 4, cd = 1 + id % 3;
      auto lb = make(b.s);
      auto tau = ilengths(n, 1);
      Eigen::VectorXd T = Spline::e(tau);
      Eigen::MatrixXd wp = waypoints(n + 1, cd, 1);
      Interpolator I(cd, n, *lb);
      Eigen::VectorXd coef = I.solve_interpolation(T, wp);
      Interp ref(b, tau, wp);
      V sol = flat(ref.sol, n, cd, b.dim());
      auto must = [&](const std::string &what, const Eigen::VectorXd &cc, const Eigen::VectorXd &tt, std::size_t idx) {
        c.note("%s intervals=%d codom=%d: %s", b.s.str().c_str(), n, cd, what.c_str());
        c.state(mc::hstr(c.get_note()));
        c.trans();
        if (!c.check(refuses([&] { I.get_coeff_derivative_wrt_tau(cc, tt, idx); }), "answered", "answered instead of refused: " + what)) return false;
        V want = flat(ref.deriv(b, tau, n - 1), n, cd, b.dim());
        Eigen::VectorXd got = I.get_coeff_derivative_wrt_tau(coef, T, n - 1);
        if (!same(c, got, want, big(want) + big(sol) * 4, "after-refusal", "a legal request after the refusal")) return false;
        c.trace();
        return true;
      };
      for (std::size_t idx : {(std::size_t)n, (std::size_t)n + 1, (std::size_t)1000000, (std::size_t)-1})
        if (!must(mc::fmt("index %zu", idx), coef, T, idx)) return;
      Eigen::VectorXd tt(n + 1);
      tt << T, 1.0;
      if (!must("one length too many", coef, tt, 0)) return;
      if (!must("one length too many", coef, tt, n)) return;
      if (n > 1 && !must("one length too few", coef, T.head(n - 1), 0)) return;
      if (!must("one coefficient too few", coef.head(coef.size() - 1), T, 0)) return;
      Eigen::VectorXd cc(coef.size() + 1);
      cc << coef, 1.0;
      if (!must("one coefficient too many", cc, T, 0)) return;
      for (int i = 0; i < n; i++)
        for (double bad : {0.0, -1.0, 1e-7}) {
          tt = T;
          tt(i) = bad;
          for (int k = 0; k < n; k++)
            if (!must(mc::fmt("length %d = %g, index %d", i, bad, k), coef, tt, k)) return;
        }
    });
  });
}
