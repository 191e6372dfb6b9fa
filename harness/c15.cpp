// Integrals, L2/Sobolev inner products and norms against reference quadrature in long double.
#include "fnpool.hpp"
#include "splinecfg.hpp"
#include <gsplines/Collocation/GaussLobattoLagrange.hpp>
#include <gsplines/FunctionalAnalysis/Integral.hpp>
#include <gsplines/FunctionalAnalysis/Sobolev.hpp>
using namespace rs;
namespace fa = gsplines::functional_analysis;
typedef gsplines::functions::FunctionBase FB;
typedef gsplines::functions::FunctionExpression FE;
typedef std::vector<std::pair<std::size_t, double>> Terms;

struct Fn { // a library function together with its mathematical meaning
  std::string name;
  Dom dom;
  int codom;
  int pieces;  // uniform pieces it is smooth on
  int degree;  // polynomial degree on every piece, -1: analytic
  std::shared_ptr<FB> f;
  std::function<V(R, int, int)> d; // d(t, order, piece)
};
static std::vector<Fn> pool;
static std::vector<std::unique_ptr<Basis>> keep;

static void add_node(const std::string &name, const ref::P &m, std::shared_ptr<FB> f, int degree) {
  pool.push_back({name, m->dom, (int)m->codom, 1, degree, f, [m](R t, int k, int) {
                    ref::Env e;
                    e.K = k;
                    ref::VJet j = ref::eval(m, t, e);
                    V v;
                    R fact = 1;
                    for (int i = 2; i <= k; i++) fact *= i;
                    for (auto &x : j) v.push_back(x[k] * fact);
                    return v;
                  }});
}
static void add_spline(Dom dom, int codom, int n, const BSpec &b, int seed) {
  keep.push_back(std::make_unique<Basis>(b));
  auto s = std::make_shared<Spline>();
  s->b = keep.back().get();
  s->dom = dom;
  s->codom = codom;
  s->tau.assign(n, (dom.second - dom.first) / n);
  Interp it(*s->b, s->tau, waypoints(n + 1, codom, seed));
  for (int i = 0; i < n; i++)
    for (int c = 0; c < codom; c++)
      for (int k = 0; k < b.dim; k++) s->coef.push_back((double)it.sol(i * b.dim + k, c));
  pool.push_back({mc::fmt("spline %s x%d", b.str().c_str(), n), dom, codom, n, b.poly() ? b.dim - 1 : -1,
                  std::make_shared<gsplines::GSpline>(s->lib()), [s](R t, int k, int i) {
                    V v;
                    for (int c = 0; c < s->codom; c++) v.push_back(s->at(i, c, 2 * (t - s->left(i)) / s->tau[i] - 1, k));
                    return v;
                  }});
}
static const std::vector<Dom> DOMS{{0, 1}, {-2, 1}, {2, 4.5}};
static void build_pool() {
  auto vec = [](std::vector<double> v) { return Eigen::VectorXd(Eigen::Map<Eigen::VectorXd>(v.data(), v.size())); };
  for (Dom d : DOMS) {
    using namespace gsplines::functions;
    auto C = [&](std::vector<double> v) { Eigen::VectorXd x = vec(v); return std::make_shared<ConstFunction>(d, x); };
    auto mC = [&](std::vector<double> v) { return ref::leaf(ref::CONST, d, v.size(), v); };
    auto pol = [&](std::vector<double> v) { return std::make_shared<CanonicPolynomial>(d, vec(v)); };
    auto mP = [&](std::vector<double> v) { return ref::leaf(ref::POLY, d, 1, v); };
    std::vector<double> p3{1, -2, 0.5, 0.25}, p5{0.5, 0, -0.3, 0.1, 0.07, -0.05}, c2{0.5, -2}, c3{-1, 0.25, 3};
    add_node("const", mC({1.5}), C({1.5}), 0);
    add_node("poly3", mP(p3), pol(p3), 3);
    add_node("poly5", mP(p5), pol(p5), 5);
    add_node("sin", ref::leaf(ref::SIN, d, 1, {}), std::make_shared<Sin>(d), -1);
    add_node("exp", ref::leaf(ref::EXP, d, 1, {}), std::make_shared<Exponential>(d), -1);
    add_node("id*cos", ref::bin(ref::MUL, ref::leaf(ref::LIN, d, 1, {1.0}), ref::leaf(ref::COS, d, 1, {})),
             std::make_shared<FE>(Identity(d) * Cos(d)), -1);
    add_node("poly3-poly5", ref::bin(ref::SUM, mP(p3), ref::un(ref::NEG, mP(p5))), std::make_shared<FE>(*pol(p3) - *pol(p5)), 5);
    add_node("const2", mC(c2), C(c2), 0);
    add_node("poly3*const2", ref::bin(ref::MUL, mP(p3), mC(c2)), std::make_shared<FE>(*pol(p3) * *C(c2)), 3);
    add_node("const3", mC(c3), C(c3), 0);
    add_node("poly5*const3+const3", ref::bin(ref::SUM, ref::bin(ref::MUL, mP(p5), mC(c3)), mC(c3)), std::make_shared<FE>(*pol(p5) * *C(c3) + *C(c3)), 5);
    add_node("sin*const3", ref::bin(ref::MUL, ref::leaf(ref::SIN, d, 1, {}), mC(c3)), std::make_shared<FE>(Sin(d) * *C(c3)), -1);
    add_spline(d, 1, 2, leg(6), 1);
    add_spline(d, 1, 3, gl(6), 2);
    add_spline(d, 2, 1, leg(6), 3);
    add_spline(d, 2, 3, leg(8), 4);
    add_spline(d, 3, 2, leg(6), 5);
    add_spline(d, 3, 3, uni(6), 6);
    add_spline(d, 3, 2, b0101(0.8), 7);
  }
}
static int gcd_(int a, int b) { return b ? gcd_(b, a % b) : a; }
// integral of sum_k w_k f^(k).g^(k), and of the absolute values (for the tolerance)
static R ref_inner(const Fn &f, const Fn &g, const Terms &ts, R *mag) {
  int m = f.pieces * g.pieces / gcd_(f.pieces, g.pieces);
  auto &q = gauss_rule(40);
  R s = 0, a = 0, L = ((R)f.dom.second - f.dom.first) / m;
  for (int i = 0; i < m; i++)
    for (size_t k = 0; k < q.first.size(); k++) {
      R t = f.dom.first + L * (i + (q.first[k] + 1) / 2);
      for (auto &w : ts) {
        V x = f.d(t, w.first, i * f.pieces / m), y = g.d(t, w.first, i * g.pieces / m);
        for (size_t j = 0; j < x.size(); j++) {
          R v = (R)w.second * x[j] * y[j] * q.second[k] * L / 2;
          s += v;
          a += fabsl(v);
        }
      }
    }
  if (mag) *mag = a;
  return s;
}
// rules that are exact (or converged) for f and g: smallest number of points, several subdivisions
static std::vector<std::pair<int, int>> rules(const Fn &f, const Fn &g) {
  int m = f.pieces * g.pieces / gcd_(f.pieces, g.pieces);
  std::vector<std::pair<int, int>> r;
  if (f.degree >= 0 && g.degree >= 0) {
    int n = std::max(2, (f.degree + g.degree + 3 + 1) / 2);
    r.push_back({n, m});
    r.push_back({n + 3, 2 * m});
    if (m == 1) r.push_back({n, 3});
  } else {
    r.push_back({16, 2 * m});
    r.push_back({12, 4 * m});
  }
  return r;
}
static std::string tstr(const Terms &t) {
  std::string s;
  for (auto &x : t) s += mc::fmt("(%zu,%g)", x.first, x.second);
  return s.empty() ? "()" : s;
}
static std::vector<std::pair<int, int>> pairs;
static std::vector<Terms> lists;

int main(int argc, char **argv) {
  return mc::run(argc, argv, [](mc::Registry &R_) {
    build_pool();
    for (size_t i = 0; i < pool.size(); i++)
      for (size_t j = 0; j < pool.size(); j++)
        if (pool[i].dom == pool[j].dom && pool[i].codom == pool[j].codom) pairs.push_back({i, j});
    // every list of up to two terms, and the structured longer ones
    std::vector<double> W = mc::THOROUGH ? std::vector<double>{1, -0.5, 2, 0} : std::vector<double>{1, -0.5};
    Terms one;
    for (int k = 0; k <= 3; k++)
      for (double w : W) one.push_back({k, w});
    lists.push_back({});
    for (auto &a : one) lists.push_back({a});
    for (auto &a : one)
      for (auto &b : one) lists.push_back({a, b});
    lists.push_back({{0, 1}, {1, 2}, {2, 3}, {3, 4}});
    lists.push_back({{3, 0.1}, {1, 1}, {2, 0.5}});
    lists.push_back({{2, 1}, {2, 1}, {2, 1}});
    lists.push_back({{4, 1}, {0, 2}});

    // --- the plain integral: every monomial of every admissible degree
    static const std::vector<Dom> ID{{0, 1}, {-1, 1}, {-2.5, 3}, {4, 4.75}, {-3, -1}, {0, 0.01}};
    static const int NN = mc::THOROUGH ? 16 : 11, MM = mc::THOROUGH ? 8 : 6;
    R_.add("polynomials", ID.size() * NN * MM, [](mc::Ctx &c, uint64_t id) {
      Dom d = ID[id % ID.size()];
      int n = 2 + id / ID.size() % NN, m = 1 + id / ID.size() / NN;
      R mid = ((R)d.first + d.second) / 2, hl = ((R)d.second - d.first) / 2;
      for (int k = 0; k <= std::min(2 * n - 3, 20); k++) {
        c.note("[%g,%g] points=%d subintervals=%d degree=%d", d.first, d.second, n, m, k);
        c.state(mc::hstr(c.get_note()));
        // ((t-mid)/hl)^k + ((t-lo)/len)^k expanded
        Eigen::VectorXd co = Eigen::VectorXd::Zero(k + 1);
        R b = 1, want = 0, mag = 0;
        for (int j = 0; j <= k; j++) {
          co(j) = (double)(b * powl(-mid, k - j) / powl(hl, k));
          b = b * (k - j) / (j + 1);
        }
        for (int j = 0; j <= k; j++) {
          R v = (powl(d.second, j + 1) - powl(d.first, j + 1)) / (j + 1) * (R)co(j);
          want += v;
          mag += fabsl(v) + fabsl((R)co(j)) * powl(std::max(fabs(d.first), fabs(d.second)), j) * 2 * hl;
        }
        gsplines::functions::CanonicPolynomial p(d, co);
        c.trans();
        if (mag > 1e4L * hl) continue; // expansion too badly conditioned to say anything
        if (!c.close(fa::integral(p, n, m), want, 1e-10L, "integral", "integral", mag)) return;
        FE e = p.to_expression();
        if (!c.close(fa::integral(e, n, m), want, 1e-10L, "integral", "integral of an expression", mag)) return;
        if (n == 10 && m == 1 && !c.close(fa::integral(p), want, 1e-10L, "integral-default", "default rule", mag)) return;
        if (m == 1 && !c.close(fa::integral(p, n), want, 1e-10L, "integral-default", "default subdivision", mag)) return;
        c.trace();
      }
      if (id % 101 == 7) c.sample(c.get_note());
    });
    R_.add("piecewise", pool.size() * 4, [](mc::Ctx &c, uint64_t id) {
      const Fn &f = pool[id % pool.size()];
      int mul = 1 + id / pool.size();
      if (f.codom != 1) return;
      static const Fn one{"1", {0, 1}, 1, 1, 0, nullptr, [](R, int, int) { return V{1}; }};
      Fn g = one;
      g.dom = f.dom;
      for (auto &r : rules(f, g)) {
        c.note("%s on [%g,%g] points=%d subintervals=%d", f.name.c_str(), f.dom.first, f.dom.second, r.first, r.second * mul);
        c.state(mc::hstr(c.get_note()));
        R mag, want = ref_inner(f, g, {{0, 1}}, &mag);
        c.trans();
        if (!c.close(fa::integral(*f.f, r.first, r.second * mul), want, 1e-9L, "piecewise", "integral", mag)) return;
        c.trace();
      }
    });
    // --- every pair of functions x every list of terms x exact rules
    R_.add("semi-inner-product", pairs.size(), [](mc::Ctx &c, uint64_t id) {
      const Fn &f = pool[pairs[id].first], &g = pool[pairs[id].second];
      auto rs_ = rules(f, g);
      size_t ti = 0;
      for (auto &t : lists) {
        R mag, want = ref_inner(f, g, t, &mag);
        for (size_t k = 0; k < rs_.size(); k++) {
          if (!mc::THOROUGH && t.size() > 1 && k != ti % rs_.size()) continue;
          auto r = rs_[k];
          c.note("<%s , %s> on [%g,%g] terms %s points=%d subintervals=%d", f.name.c_str(), g.name.c_str(), f.dom.first, f.dom.second, tstr(t).c_str(), r.first, r.second);
          c.state(mc::hstr(c.get_note()));
          c.trans();
          double got = fa::sobolev_semi_inner_product(*f.f, *g.f, t, r.first, r.second);
          if (!c.close(got, want, 1e-7L, "semi-inner-product", "value", 1e-3L + mag)) return;
          if (t.size() <= 1) {
            double sw = fa::sobolev_semi_inner_product(*g.f, *f.f, t, r.first, r.second);
            if (!c.close(sw, want, 1e-7L, "symmetry", "exchanged operands", 1e-3L + mag)) return;
          }
          if (&f == &g) {
            double nm = fa::sobolev_semi_norm(*f.f, t, r.first, r.second);
            if (!c.close(nm, want, 1e-7L, "semi-norm", "semi norm", 1e-3L + mag)) return;
            bool pos = true;
            for (auto &x : t) pos = pos && x.second >= 0;
            if (pos && !c.check(nm >= -1e-9 * (1 + (double)mag), "semi-norm", "negative")) return;
          }
          c.trace();
        }
        ti++;
      }
      if (id % 31 == 5) c.sample(c.get_note());
    });
    R_.add("named-forms", pairs.size(), [](mc::Ctx &c, uint64_t id) {
      const Fn &f = pool[pairs[id].first], &g = pool[pairs[id].second];
      for (auto &r : rules(f, g)) {
        c.note("<%s , %s> on [%g,%g] points=%d subintervals=%d", f.name.c_str(), g.name.c_str(), f.dom.first, f.dom.second, r.first, r.second);
        c.state(mc::hstr("named" + c.get_note()));
        Terms t;
        for (int k = 0; k <= (mc::THOROUGH ? 5 : 4); k++) {
          t.push_back({k, 1});
          if (k > 4 && f.pieces * g.pieces > 1) break; // derivatives jump at breakpoints
          R mag, want = ref_inner(f, g, t, &mag);
          c.trans(4);
          if (!c.close(fa::sobolev_inner_product(*f.f, *g.f, k, r.first, r.second), want, 1e-7L, "sobolev-inner-product", mc::fmt("up to order %d", k), 1e-3L + mag)) return;
          if (&f == &g && !c.close(fa::sobolev_norm(*f.f, k, r.first, r.second), want, 1e-7L, "sobolev-norm", mc::fmt("up to order %d", k), 1e-3L + mag)) return;
          if (k == 0) {
            if (!c.close(fa::l2_inner_product(*f.f, *g.f, r.first, r.second), want, 1e-7L, "l2-inner-product", "L2 product", 1e-3L + mag)) return;
            if (&f == &g && !c.close(fa::l2_norm(*f.f, r.first, r.second), want, 1e-7L, "l2-norm", "L2 norm", 1e-3L + mag)) return;
            int need = f.degree >= 0 && g.degree >= 0 ? f.degree + g.degree : 99;
            if (need <= 17 && f.pieces * g.pieces == 1) { // the default rule is exact
              if (!c.close(fa::l2_inner_product(*f.f, *g.f), want, 1e-7L, "default-rule", "L2 product", 1e-3L + mag)) return;
              if (&f == &g && !c.close(fa::l2_norm(*f.f), want, 1e-7L, "default-rule", "L2 norm", 1e-3L + mag)) return;
            }
          }
        }
        c.trace();
      }
    });
    // --- bilinearity through the library's own algebra, every triple
    R_.add("bilinear", pairs.size(), [](mc::Ctx &c, uint64_t id) {
      const Fn &f = pool[pairs[id].first], &g = pool[pairs[id].second];
      const double a = -1.25, b = 0.75;
      FE h = a * f.f->to_expression() + b * g.f->to_expression();
      for (auto &k : pool) {
        if (k.dom != f.dom || k.codom != f.codom) continue;
        auto l = [&](int n, int m, const Terms &t) {
          R m1, m2, w = a * ref_inner(f, k, t, &m1) + b * ref_inner(g, k, t, &m2);
          c.note("<%g %s + %g %s , %s> on [%g,%g] terms %s", a, f.name.c_str(), b, g.name.c_str(), k.name.c_str(), f.dom.first, f.dom.second, tstr(t).c_str());
          c.state(mc::hstr("bil" + c.get_note()));
          c.trans(2);
          c.trace();
          return c.close(fa::sobolev_semi_inner_product(h, *k.f, t, n, m), w, 1e-7L, "bilinear", "first argument", 1e-3L + m1 + m2) &&
                 c.close(fa::sobolev_semi_inner_product(*k.f, h, t, n, m), w, 1e-7L, "bilinear", "second argument", 1e-3L + m1 + m2);
        };
        int m = f.pieces * g.pieces * k.pieces;
        if (!l(14, 2 * m, {{0, 1}})) return;
        if (!l(14, 2 * m, {{1, 0.5}, {2, -2}})) return;
      }
    });
    // --- integral of |path|^2 along a change of parameter
    R_.add("path-energy", pool.size(), [](mc::Ctx &c, uint64_t id) {
      const Fn &f = pool[id];
      if (f.pieces > 1 || f.degree < 0 || 4 * f.degree > 17) return;
      Dom d = f.dom;
      for (int q = 0; q < 2; q++) {
        c.note("integral of |%s|^2 along a reparametrisation %d", f.name.c_str(), q);
        c.state(mc::hstr(c.get_note()));
        // u in [0,2] -> lo + len * (u/2)^(q+1)
        Eigen::VectorXd co = Eigen::VectorXd::Zero(q + 2);
        co(0) = d.first;
        co(q + 1) = (d.second - d.first) / (q ? 4 : 2);
        gsplines::functions::CanonicPolynomial g({0, 2}, co);
        auto &gr = gauss_rule(40);
        R want = 0;
        for (size_t k = 0; k < gr.first.size(); k++) {
          R u = gr.first[k] + 1, t = co(0) + co(q + 1) * powl(u, q + 1);
          for (R x : f.d(t, 0, 0)) want += gr.second[k] * x * x;
        }
        c.trans();
        if (!c.close(gsplines::collocation::integral(g, *f.f), want, 1e-8L, "path-energy", "value")) return;
        c.trace();
      }
    });
  });
}
