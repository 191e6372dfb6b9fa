// Collocation functionals: every operator on every small grid, before and after every short update sequence,
// and as terms of an optimisation problem, against the definitions on the reference grid.
#include "fnpool.hpp"
#include "splinecfg.hpp"
#include <gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp>
#include <ifopt/problem.h>
using namespace rs;
using namespace gsplines::collocation;
using gsplines::collocation::Integral;
typedef Eigen::VectorXd EV;
typedef Eigen::MatrixXd EM;

static const Basis &glb(int g) {
  static std::map<int, Basis> m;
  auto it = m.find(g);
  if (it == m.end()) it = m.emplace(g, Basis(gl(g))).first;
  return it->second;
}
static const V &nodes(int n) {
  static std::vector<V> c(64);
  if (c[n].empty()) c[n] = gl_nodes(n);
  return c[n];
}
static const V &weights(int n) {
  static std::vector<V> c(64);
  if (c[n].empty()) c[n] = gl_weights(n, nodes(n));
  return c[n];
}
struct G {
  int g, n, codom, pat;
  double start;
};
static std::string gs(const G &x) { return mc::fmt("points=%d intervals=%d codom=%d lengths-pattern=%d start=%g", x.g, x.n, x.codom, x.pat, x.start); }
static Spline mk(const G &x, int seed, const std::vector<double> *tau = nullptr) {
  Spline s;
  s.b = &glb(x.g);
  s.codom = x.codom;
  s.tau = tau ? *tau : lengths(x.n, x.pat);
  double e = x.start;
  for (double t : s.tau) e += t;
  s.dom = {x.start, e};
  int N = (int)s.tau.size() * x.codom * x.g;
  if (seed >= 0) s.coef = coefs(N, seed);
  else { // unit impulse
    s.coef.assign(N, 0.0);
    s.coef[(-seed - 1) % N] = 1.0;
  }
  return s;
}
static GLLSpline lib(const Spline &s) { return GLLSpline(s.dom, s.codom, s.tau.size(), s.b->dim(), Spline::e(s.coef), Spline::e(s.tau)); }
static R node(const Spline &s, int i, int j, int k, int d = 0) { return s.at(i, j, nodes(s.b->dim())[k], d); }
static R mag(const Spline &s, int d) {
  R m = 1;
  for (double x : s.coef) m = std::max(m, (R)fabs(x));
  R t = *std::min_element(s.tau.begin(), s.tau.end());
  return m * powl(2 * s.b->dim() * s.b->dim() / t, d);
}
// values at the nodes of a library spline against f(interval, component, node)
static bool samenodes(mc::Ctx &c, const GLLSpline &r, const Spline &s, int codom, const std::function<R(int, int, int)> &f, R sc, const char *key) {
  int g = s.b->dim(), n = (int)s.tau.size();
  if (!c.check((int)r.get_codom_dim() == codom && (int)r.get_number_of_intervals() == n && (int)r.get_nglp() == g && r.get_domain() == s.dom, key,
               "shape or domain of the result"))
    return false;
  for (int i = 0; i < n; i++) {
    if (!c.close(r.get_interval_lengths()(i), s.tau[i], 1e-14L, key, "partition of the result")) return false;
    for (int k = 0; k < g; k++) {
      EV v = r.value_at(i * g + k);
      for (int j = 0; j < codom; j++)
        if (!c.close(v(j), f(i, j, k), 1e-11L, key, mc::fmt("interval %d node %d component %d", i, k, j), sc)) return false;
    }
  }
  return true;
}
static std::vector<G> grids() {
  std::vector<G> r;
  for (int g = 2; g <= (mc::THOROUGH ? 9 : 6); g++)
    for (int n = 1; n <= (mc::THOROUGH ? 5 : 4); n++)
      for (int cd = 1; cd <= 3; cd++)
        for (int p : {0, 1, 2, 4, 5})
          for (double st : {0.0, -3.5}) {
            if (n == 1 && p > 1) continue;
            r.push_back({g, n, cd, p, st});
          }
  return r;
}
template <typename L> static bool consistent(mc::Ctx &c, const L &op, const GLLSpline &s) { // all forms of one operator agree
  EM d = op.to_dense_matrix();
  EM sp(op.to_sparse_matrix());
  EV a = op(s), b = d * s.get_coefficients();
  EM df = op.differential(s)->to_dense_matrix();
  return c.check(d.rows() == (long)op.get_codom_dim() && d == sp && d == df && d == EM(op.to_matrix()) && a.size() == b.size() &&
                     (a - b).cwiseAbs().maxCoeff() <= 1e-12 * (1 + d.cwiseAbs().maxCoeff() * s.get_coefficients().cwiseAbs().sum()),
                 "forms", "matrix, dense, sparse, differential and application disagree");
}

int main(int argc, char **argv) {
  return mc::run(argc, argv, [](mc::Registry &R) {
    static auto GR = grids();
    R.add("derivative", GR.size(), [](mc::Ctx &c, uint64_t idx) {
      G x = GR[idx];
      int N = x.g * x.n * x.codom;
      for (int deg = 0; deg <= 3; deg++)
        for (int how = 0; how < 3; how++) {
          if (how == 1 && x.pat != 0) continue;
          if (how == 2 && deg != 1) continue;
          Spline s0 = mk(x, 1);
          // every sequence of up to two updates over (none, pattern p, uniform length u)
          for (int u1 = 0; u1 < 6; u1++)
            for (int u2 = 0; u2 < 6; u2++) {
              if (u1 == 0 && u2) continue;
              c.note("derivative %s order=%d constructor=%d updates=%d,%d", gs(x).c_str(), deg, how, u1, u2);
              c.trans();
              std::unique_ptr<Derivative> D;
              if (how == 0) D = std::make_unique<Derivative>(x.codom, x.g, Spline::e(s0.tau), deg);
              else if (how == 1) D = std::make_unique<Derivative>(s0.dom, x.codom, x.g, x.n, deg);
              else D = std::make_unique<Derivative>(lib(s0));
              std::vector<double> tau = s0.tau;
              for (int u : {u1, u2}) {
                if (!u) continue;
                if (u <= 3) {
                  tau = lengths(x.n, u == 1 ? 1 : u == 2 ? 2 : 5);
                  D->update(Spline::e(tau));
                } else {
                  tau.assign(x.n, u == 4 ? 0.5 : 1.75);
                  D->update(tau[0]);
                }
              }
              for (int seed : {1, 2, -(int)(idx % N) - 1, -(int)((idx * 7 + u1) % N) - 1}) {
                Spline s = mk(x, seed, &tau);
                GLLSpline l = lib(s);
                if (!samenodes(c, *D * l, s, x.codom, [&](int i, int j, int k) { return node(s, i, j, k, deg); }, mag(s, deg), "derivative")) return;
                if (!samenodes(c, l, s, x.codom, [&](int i, int j, int k) { return node(s, i, j, k); }, mag(s, 0), "operand")) return;
                if (!consistent(c, *D, l)) return;
              }
              c.state(mc::mix(mc::mix(idx, deg * 3 + how), u1 * 6 + u2));
              c.trace();
            }
        }
      if (idx % 97 == 5) c.sample(c.get_note());
    });
    R.add("integral", GR.size(), [](mc::Ctx &c, uint64_t idx) {
      G x = GR[idx];
      if (x.codom != 1) return;
      for (int how = 0; how < 2; how++) {
        if (how == 0 && x.pat != 0) continue;
        Spline s0 = mk(x, 1);
        for (int u1 = 0; u1 < 7; u1++)
          for (int u2 = 0; u2 < 7; u2++) {
            if (u1 == 0 && u2) continue;
            c.note("integral %s constructor=%d updates=%d,%d", gs(x).c_str(), how, u1, u2);
            c.trans();
            std::unique_ptr<Integral> I;
            if (how == 0) I = std::make_unique<Integral>(s0.dom, x.g, x.n);
            else I = std::make_unique<Integral>(lib(s0));
            G y = x;
            std::vector<double> tau = s0.tau;
            for (int u : {u1, u2}) {
              if (!u) continue;
              if (u <= 3) {
                tau = lengths(y.n, u == 1 ? 1 : u == 2 ? 2 : 5);
                I->update(Spline::e(tau));
              } else { // another domain, number of points or number of intervals
                y.g = u == 5 ? 4 : u == 6 ? 3 : x.g;
                y.n = u == 6 ? x.n + 1 : x.n;
                double T = u == 4 ? 2.0 : 0.75 * y.n;
                tau.assign(y.n, T / y.n);
                I->update(std::make_tuple(y.start, y.start + T), y.g, y.n);
              }
            }
            for (int seed : {1, 2, 3}) {
              Spline s = mk(y, seed, &tau);
              ::rs::R want = 0, sc = 1;
              auto &q = gauss_rule(y.g + 1);
              for (int i = 0; i < y.n; i++)
                for (size_t p = 0; p < q.first.size(); p++) want += q.second[p] * s.at(i, 0, q.first[p], 0) * tau[i] / 2;
              for (double t : tau) sc += t * mag(s, 0);
              EV v = (*I)(lib(s));
              if (!c.check(v.size() == 1, "integral-size", "not one number")) return;
              if (!c.close(v(0), want, 1e-12L, "integral", "value of the integral", sc)) return;
              if (!consistent(c, *I, lib(s))) return;
            }
            c.state(mc::mix(mc::mix(idx, how), 1000 + u1 * 7 + u2));
            c.trace();
          }
      }
    });
    R.add("transpose-multiplication", GR.size(), [](mc::Ctx &c, uint64_t idx) {
      G x = GR[idx];
      for (int how = 0; how < 2; how++)
        for (int u1 = 0; u1 < 3; u1++)
          for (int u2 = 0; u2 < 3; u2++) {
            if (how == 1 && u1 == 0) continue;
            if (u1 == 0 && u2) continue;
            c.note("transpose multiplication %s constructor=%d assignments=%d,%d", gs(x).c_str(), how, u1, u2);
            c.trans();
            Spline a = mk(x, 3);
            std::unique_ptr<TransposeLeftMultiplication> T;
            if (how == 0) T = std::make_unique<TransposeLeftMultiplication>(lib(a));
            else T = std::make_unique<TransposeLeftMultiplication>(x.codom, x.g, x.n);
            int seed = 4;
            for (int u : {u1, u2}) {
              if (!u) continue;
              a = mk(x, ++seed);
              if (u == 1) *T = lib(a);
              else { // from any function: its values at the points of the uniform grid
                double L = a.dom.second - a.dom.first;
                a.tau.assign(x.n, L / x.n);
                gsplines::functions::FunctionExpression f(static_cast<const gsplines::functions::FunctionBase &>(lib(a)));
                *T = static_cast<const gsplines::functions::FunctionBase &>(f);
                if (!dyadic(x.pat)) a.coef.clear();
              }
            }
            if (a.coef.empty() || (u2 ? u2 == 2 : u1 == 2)) {
              // nodes at breakpoints take the left value of a discontinuous spline: compare through its evaluation
              auto ap = GLLSpline::approximate(lib([&] { Spline z = mk(x, seed); z.tau.assign(x.n, (z.dom.second - z.dom.first) / x.n); return z; }()), x.g, x.n);
              a = mk(x, seed);
              a.tau.assign(x.n, (a.dom.second - a.dom.first) / x.n);
              a.coef = vec(ap.get_coefficients());
            }
            Spline b = mk(x, 9);
            if (!samenodes(c, *T * lib(b), b, 1, [&](int i, int, int k) {
                  ::rs::R v = 0;
                  for (int j = 0; j < x.codom; j++) v += node(a, i, j, k) * node(b, i, j, k);
                  return v;
                }, 50 * x.codom, "transpose-multiplication"))
              return;
            if (!consistent(c, *T, lib(b))) return;
            c.state(mc::mix(mc::mix(idx, how), 2000 + u1 * 7 + u2));
            c.trace();
          }
      TransposeLeftMultiplication T(x.codom, x.g, x.n);
      G z = x;
      z.codom = x.codom + 1;
      bool threw = false;
      try { T = lib(mk(z, 1)); } catch (const std::invalid_argument &) { threw = true; }
      c.check(threw, "transpose-refusal", "a spline of another codomain was accepted");
    });
    R.add("matrix-multiplication", GR.size(), [](mc::Ctx &c, uint64_t idx) {
      G x = GR[idx];
      if (x.pat > 1) return;
      for (int rows = 1; rows <= 3; rows++) {
        int nn = x.g * x.n;
        auto mats = [&](int seed) {
          std::vector<EM> m;
          for (int q = 0; q < nn; q++) {
            EM a(rows, x.codom);
            for (int i = 0; i < rows; i++)
              for (int j = 0; j < x.codom; j++) a(i, j) = std::sin(seed + 1.3 * q + 2.1 * i + 3.7 * j);
            m.push_back(a);
          }
          return m;
        };
        for (int u1 = 0; u1 < 4; u1++)
          for (int u2 = 0; u2 < 4; u2++) {
            if (u1 == 0 && u2) continue;
            c.note("matrix multiplication %s rows=%d updates=%d,%d", gs(x).c_str(), rows, u1, u2);
            c.trans();
            MatrixLeftMultiplication L(x.codom, x.g, x.n, rows);
            std::vector<EM> m(nn, EM::Zero(rows, x.codom));
            int seed = 1;
            for (int u : {u1, u2}) {
              if (!u) continue;
              seed++;
              if (u == 1) {
                m = mats(seed);
                L.update(m.cbegin(), m.cend());
              } else if (u == 2) {
                auto w = mats(seed);
                L.update(w.cbegin(), w.cend(), [](const EM &a) { return EM(2.0 * a); });
                for (int q = 0; q < nn; q++) m[q] = 2.0 * w[q];
              } else {
                EM a = mats(seed)[0];
                L.update(a);
                m.assign(nn, a);
              }
            }
            for (int seed2 : {1, 2}) {
              Spline s = mk(x, seed2);
              if (!samenodes(c, L * lib(s), s, rows, [&](int i, int r, int k) {
                    ::rs::R v = 0;
                    for (int j = 0; j < x.codom; j++) v += (::rs::R)m[i * x.g + k](r, j) * node(s, i, j, k);
                    return v;
                  }, 30, "matrix-multiplication"))
                return;
              if (!consistent(c, L, lib(s))) return;
            }
            // wrong shapes are refused and leave the operator as it was
            EM before = L.to_dense_matrix();
            int refused = 0;
            auto wrong = mats(7);
            wrong.pop_back();
            try { L.update(wrong.cbegin(), wrong.cend()); } catch (const std::runtime_error &) { refused++; }
            try { L.update(EM(EM::Ones(rows + 1, x.codom))); } catch (const std::runtime_error &) { refused++; }
            try { L.update(EM(EM::Ones(rows, x.codom + 1))); } catch (const std::runtime_error &) { refused++; }
            if (!c.check(refused == 3 && before == L.to_dense_matrix(), "matrix-refusal", "a matrix list of the wrong shape was not refused")) return;
            c.state(mc::mix(mc::mix(idx, rows), 3000 + u1 * 4 + u2));
            c.trace();
          }
      }
    });
    R.add("continuity", GR.size(), [](mc::Ctx &c, uint64_t idx) {
      G x = GR[idx];
      if (x.n < 2) return;
      for (int deg = 0; deg <= std::min(3, x.g - 1); deg++)
        for (int how = 0; how < 2; how++)
          for (int u1 = 0; u1 < 4; u1++)
            for (int u2 = 0; u2 < 4; u2++) {
              if (u1 == 0 && u2) continue;
              c.note("continuity %s order=%d constructor=%d updates=%d,%d", gs(x).c_str(), deg, how, u1, u2);
              c.trans();
              Spline s0 = mk(x, 1);
              std::unique_ptr<ContinuityError> E;
              if (how == 0) E = std::make_unique<ContinuityError>(lib(s0), deg);
              else E = std::make_unique<ContinuityError>(x.g, Spline::e(s0.tau), x.codom, deg);
              std::vector<double> tau = s0.tau;
              for (int u : {u1, u2})
                if (u) {
                  tau = lengths(x.n, u == 1 ? 1 : u == 2 ? 2 : 5);
                  E->update(Spline::e(tau));
                }
              for (int seed : {1, 2}) {
                Spline s = mk(x, seed, &tau);
                EV v = (*E)(lib(s));
                // the jumps of all orders 0..deg at all inner breakpoints, as a list in the order of the continuity matrix (C13)
                EM ref = EM(gsplines::basis::BasisLagrangeGaussLobatto(x.g).continuity_matrix(x.n, x.codom, deg, Spline::e(tau)));
                if (!c.check(v.size() == (x.n - 1) * x.codom * (deg + 1) && ref.rows() == v.size(), "continuity-size", "number of jumps")) return;
                std::vector<::rs::R> want;
                EV rv = ref * Spline::e(s.coef);
                std::vector<double> got(v.data(), v.data() + v.size()), exp;
                for (int b = 0; b + 1 < x.n; b++)
                  for (int d = 0; d <= deg; d++)
                    for (int j = 0; j < x.codom; j++) exp.push_back((double)(s.at(b, j, 1, d) - s.at(b + 1, j, -1, d)));
                for (long q = 0; q < v.size(); q++)
                  if (!c.close(v(q), rv(q), 1e-12L, "continuity", "jump", mag(s, deg))) return;
                std::sort(got.begin(), got.end());
                std::sort(exp.begin(), exp.end());
                for (size_t q = 0; q < got.size(); q++)
                  if (!c.close(got[q], exp[q], 1e-11L, "jumps", "set of jumps", mag(s, deg))) return;
                if (!consistent(c, *E, lib(s))) return;
              }
              c.state(mc::mix(mc::mix(idx, how), 4000 + (u1 * 4 + u2) * 4 + deg));
              c.trace();
            }
    });
    // Sobolev distance (order 1) to a function: value and exact differential at every point of a sequence of splines
    R.add("sobolev-distance", GR.size(), [](mc::Ctx &c, uint64_t idx) {
      G x = GR[idx];
      if (x.pat != 0) return;
      namespace gf = gsplines::functions;
      double T = 1.5 * x.n;
      Dom d{x.start, x.start + T};
      auto mkf = [&](int kind) -> gf::FunctionExpression {
        gf::FunctionExpression one(gf::ConstFunction(d, x.codom, 1.0));
        switch (kind) {
        case 0: return gf::FunctionExpression(gf::ConstFunction(d, x.codom, 0.75));
        case 1: return one * gf::FunctionExpression(gf::Sin(d));
        default: return one * gf::FunctionExpression(gf::Exponential(d)) * gf::FunctionExpression(gf::ConstFunction(d, 1, 0.25));
        }
      };
      auto val = [&](int kind, ::rs::R t, int o) -> ::rs::R {
        if (kind == 0) return o ? 0 : 0.75L;
        if (kind == 1) return o ? cosl(t) : sinl(t);
        return 0.25L * expl(t);
      };
      std::vector<double> tau(x.n, T / x.n);
      for (int kind = 0; kind < 3; kind++) {
        SobolevDistance S(mkf(kind), x.g, x.n, 1);
        for (int a = 0; a < 3; a++)
          for (int b = 0; b < 3; b++) {
            c.note("sobolev distance %s function=%d points=%d,%d", gs(x).c_str(), kind, a, b);
            c.trans();
            for (int seed : {a, b}) {
              Spline s = mk(x, seed + 1, &tau);
              s.dom = d;
              auto dist = [&](const Spline &z) {
                ::rs::R r = 0;
                for (int i = 0; i < x.n; i++)
                  for (int k = 0; k < x.g; k++) {
                    ::rs::R t = d.first + i * (::rs::R)tau[0] + (nodes(x.g)[k] + 1) * tau[0] / 2, p = 0;
                    for (int j = 0; j < x.codom; j++)
                      p += powl(val(kind, t, 0) - node(z, i, j, k), 2) + powl(val(kind, t, 1) - node(z, i, j, k, 1), 2);
                    r += weights(x.g)[k] * p * tau[0] / 2;
                  }
                return r;
              };
              ::rs::R want = dist(s), sc = 1 + fabsl(want);
              EV v = S(lib(s));
              if (!c.check(v.size() == 1 && S.get_codom_dim() == 1, "sobolev-size", "not one number")) return;
              if (!c.close(v(0), want, 1e-9L, "sobolev-value", "distance", sc)) return;
              EM J = S.differential(lib(s))->to_dense_matrix();
              if (!c.check(J.rows() == 1 && J.cols() == (long)s.coef.size(), "sobolev-size", "size of the differential")) return;
              for (size_t q = 0; q < s.coef.size(); q++) { // a quadratic: the central difference is exact
                Spline p = s, m = s;
                p.coef[q] += 0.5;
                m.coef[q] -= 0.5;
                if (!c.close(J(0, q), dist(p) - dist(m), 1e-9L, "sobolev-differential", mc::fmt("derivative with respect to node value %zu", q), sc * x.g * x.g)) return;
              }
            }
            c.state(mc::mix(mc::mix(idx, kind), 5000 + a * 3 + b));
            c.trace();
          }
      }
    });
    // the same operators as terms of an optimisation problem
    R.add("problem-terms", GR.size(), [](mc::Ctx &c, uint64_t idx) {
      G x = GR[idx];
      Spline s0 = mk(x, 1);
      int N = (int)s0.coef.size();
      ifopt::Problem nlp;
      auto var = std::make_shared<GLLSplineVariable>(lib(s0));
      nlp.AddVariableSet(var);
      int deg = std::min(1, x.g - 1);
      std::vector<EM> mats;
      std::vector<std::pair<double, double>> bnd;
      auto addc = [&](auto con, double lo, double hi, const EM &m) {
        nlp.AddConstraintSet(con);
        mats.push_back(m);
        for (long i = 0; i < m.rows(); i++) bnd.push_back({lo, hi});
      };
      {
        Derivative D(lib(s0));
        addc(std::make_shared<ConstraintWrapper<Derivative>>(-1.0, 2.0, lib(s0)), -1.0, 2.0, D.to_dense_matrix());
      }
      if (x.n > 1) {
        ContinuityError E(lib(s0), deg);
        addc(std::make_shared<ConstraintWrapper<ContinuityError>>(0.0, 0.0, lib(s0), deg), 0.0, 0.0, E.to_dense_matrix());
        addc(std::make_shared<ConstraintWrapper<ContinuityError>>(-0.5, 0.25, lib(s0), 0), -0.5, 0.25, ContinuityError(lib(s0), 0).to_dense_matrix());
      }
      namespace gf = gsplines::functions;
      double T = s0.dom.second - s0.dom.first;
      bool uniform = x.pat == 0;
      gf::FunctionExpression f(gf::ConstFunction(s0.dom, x.codom, 1.5));
      SobolevDistance ref(f, x.g, x.n, 1);
      if (uniform) nlp.AddCostSet(std::make_shared<CostWrapper<SobolevDistance>>(f, x.g, x.n, 1));
      else if (x.codom == 1) nlp.AddCostSet(std::make_shared<CostWrapper<Integral>>(lib(s0)));
      (void)T;
      auto vb = nlp.GetBoundsOnOptimizationVariables();
      if (!c.check((int)vb.size() == N && nlp.GetNumberOfOptimizationVariables() == N, "variables", "one variable per node value")) return;
      for (auto &b : vb)
        if (!c.check(b.lower_ <= -1e19 && b.upper_ >= 1e19, "variable-bounds", "free variables expected")) return;
      auto cb = nlp.GetBoundsOnConstraints();
      if (!c.check(cb.size() == bnd.size(), "constraint-bounds", "number of constraints")) return;
      for (size_t i = 0; i < cb.size(); i++)
        if (!c.check(cb[i].lower_ == bnd[i].first && cb[i].upper_ == bnd[i].second, "constraint-bounds", "bounds of a constraint")) return;
      // every sequence of two iterates
      for (int a = 0; a < 4; a++)
        for (int b = 0; b < 4; b++) {
          c.note("problem terms %s iterates=%d,%d", gs(x).c_str(), a, b);
          c.trans();
          for (int seed : {a, b}) {
            Spline s = mk(x, seed + 2);
            EV v = Spline::e(s.coef);
            EV got = nlp.EvaluateConstraints(v.data());
            if (!c.check(nlp.GetVariableValues() == v && var->get_coefficients() == v && var->GetValues() == v, "iterate", "the spline does not take the solver's values")) return;
            EM J(nlp.GetJacobianOfConstraints());
            long row = 0;
            for (auto &m : mats) {
              EV w = m * v;
              for (long i = 0; i < m.rows(); i++, row++) {
                if (!c.close(got(row), w(i), 1e-11L, "constraint", "constraint value", mag(s, 1))) return;
                if (!c.check(J.row(row) == m.row(i), "constraint-jacobian", "row of the Jacobian")) return;
              }
            }
            if (uniform) {
              double cost = nlp.EvaluateCostFunction(v.data());
              EV gr = nlp.EvaluateCostFunctionGradient(v.data());
              if (!c.close(cost, ref(lib(s))(0), 1e-12L, "cost", "cost")) return;
              EM D = ref.differential(lib(s))->to_dense_matrix();
              for (int q = 0; q < N; q++)
                if (!c.close(gr(q), D(0, q), 1e-12L, "cost-gradient", "cost gradient", D.cwiseAbs().maxCoeff())) return;
            } else if (x.codom == 1) {
              ::rs::R want = 0;
              for (int i = 0; i < x.n; i++)
                for (int k = 0; k < x.g; k++) want += weights(x.g)[k] * node(s, i, 0, k) * s.tau[i] / 2;
              if (!c.close(nlp.EvaluateCostFunction(v.data()), want, 1e-11L, "cost", "integral cost", 20.0L * x.n)) return;
              EV gr = nlp.EvaluateCostFunctionGradient(v.data());
              for (int i = 0; i < x.n; i++)
                for (int k = 0; k < x.g; k++)
                  if (!c.close(gr(i * x.g + k), weights(x.g)[k] * s.tau[i] / 2, 1e-11L, "cost-gradient", "integral gradient")) return;
            }
          }
          c.state(mc::mix(idx, 6000 + a * 4 + b));
          c.trace();
        }
    });
    // algebra of the operators
    R.add("algebra", GR.size(), [](mc::Ctx &c, uint64_t idx) {
      G x = GR[idx];
      Spline s = mk(x, 2), a = mk(x, 3);
      c.note("operator algebra %s", gs(x).c_str());
      Derivative D(x.codom, x.g, Spline::e(s.tau), 1), D2(x.codom, x.g, Spline::e(s.tau), 2);
      TransposeLeftMultiplication T(lib(a));
      EM d = D.to_dense_matrix(), d2 = D2.to_dense_matrix(), t = T.to_dense_matrix();
      auto is = [&](const EM &got, const EM &want, const char *what) {
        c.trans();
        return c.check(got.rows() == want.rows() && got.cols() == want.cols() && (got - want).cwiseAbs().maxCoeff() <= 1e-12 * (1 + want.cwiseAbs().maxCoeff()), "algebra", what);
      };
      LinearFunctionalSparse A(d.rows(), d.cols());
      A.set(D * D);
      if (!is(A.to_dense_matrix(), d * d, "product")) return;
      A.set(D + D2);
      if (!is(A.to_dense_matrix(), d + d2, "sum")) return;
      A.set(D - D2);
      if (!is(A.to_dense_matrix(), d - d2, "difference")) return;
      if (!is((-D).to_dense_matrix(), -d, "negative")) return;
      if (!is((2.5 * D).to_dense_matrix(), 2.5 * d, "multiple")) return;
      if (!is((2.5 * (-D)).to_dense_matrix(), -2.5 * d, "multiple of a temporary")) return;
      LinearFunctionalSparse B(t.rows(), t.cols());
      B.set(T * D);
      if (!is(B.to_dense_matrix(), t * d, "mixed product")) return;
      if (!samenodes(c, B * lib(s), s, 1, [&](int i, int, int k) {
            ::rs::R v = 0;
            for (int j = 0; j < x.codom; j++) v += node(a, i, j, k) * node(s, i, j, k, 1);
            return v;
          }, 10 * mag(s, 1), "composition"))
        return;
      if (!is(D.to_dense_matrix(), d, "left operand changed") || !is(D2.to_dense_matrix(), d2, "right operand changed") || !is(T.to_dense_matrix(), t, "operand changed")) return;
      c.state(mc::mix(idx, 7000));
      c.trace();
    });
  });
}
