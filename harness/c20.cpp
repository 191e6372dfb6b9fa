// Programs run by the two threads: compiled with the same instrumentation as the library, so that every
// access of inlined library code is seen too. prepare() runs beforehand on the main thread and leaves each
// thread objects of its own: fresh ones, copies, clones or results of a common original.
#include "c20.hpp"
#include <Eigen/Core>
#include <functional>
#include <gsplines/Basis/Basis.hpp>
#include <gsplines/Basis/Basis0101.hpp>
#include <gsplines/Basis/BasisLagrange.hpp>
#include <gsplines/Basis/BasisLegendre.hpp>
#include <gsplines/Collocation/GaussLobattoLagrange.hpp>
#include <gsplines/Collocation/GaussLobattoPointsWeights.hpp>
#include <gsplines/FunctionalAnalysis/Integral.hpp>
#include <gsplines/FunctionalAnalysis/Sobolev.hpp>
#include <gsplines/Functions/ElementalFunctions.hpp>
#include <gsplines/Functions/FunctionExpression.hpp>
#include <gsplines/GSpline.hpp>
#include <gsplines/Interpolator.hpp>
#include <gsplines/Tools.hpp>
#include <memory>
#include <string>
#include <vector>

using namespace gsplines;
namespace gf = gsplines::functions;
namespace fa = gsplines::functional_analysis;
namespace gc = gsplines::collocation;
using gf::FunctionBase;
using gf::FunctionExpression;
using V = Eigen::VectorXd;
using M = Eigen::MatrixXd;
using Dom = std::pair<double, double>;
using Run = std::function<void(struct Out &)>;

struct Out {
  Result *r;
  void operator()(double v) {
    if (r->n >= sizeof r->v / sizeof r->v[0]) r->overflow = 1;
    else r->v[r->n++] = v;
  }
  void m(const M &x) {
    (*this)((double)x.rows());
    (*this)((double)x.cols());
    for (long j = 0; j < x.cols(); j++)
      for (long i = 0; i < x.rows(); i++) (*this)(x(i, j));
  }
};
struct Prog {
  std::string name;
  std::function<Run(int)> prep;
};
static const Dom D{0.0, 2.0};
static V pts(int who, int n = 3) { // the two threads never use the same data
  V p(n);
  for (int i = 0; i < n; i++) p(i) = 0.1 + 0.23 * who + 0.41 * i;
  return p;
}
static V lens(int who, int n) {
  V t(n);
  for (int i = 0; i < n; i++) t(i) = 0.5 + 0.25 * i + 0.3 * who;
  return t;
}
static V coef(int who, int n) {
  V t(n);
  for (int i = 0; i < n; i++) t(i) = (i * 7 + who * 5) % 11 - 4.5;
  return t;
}
static M wps(int who, int n, int c) {
  M w(n + 1, c);
  for (int i = 0; i <= n; i++)
    for (int j = 0; j < c; j++) w(i, j) = ((i * 3 + j * 5 + who * 2) % 7) - 2.5;
  return w;
}
static std::unique_ptr<basis::Basis> mkbasis(int k, int who = 0) {
  V n(5);
  n << -0.9, -0.4, 0.1, 0.45, 1.0;
  switch (k) {
  case 0: return std::make_unique<basis::BasisLegendre>(6);
  case 1: return std::make_unique<basis::BasisLagrange>(n);
  case 2: return std::make_unique<basis::BasisLagrange>(gc::legendre_gauss_lobatto_points(6));
  default: return std::make_unique<basis::Basis0101>(0.4);
  }
}
static const char *BN[] = {"legendre", "lagrange", "gauss-lobatto", "0101"};
static GSpline mkspline(int k, int who, int n = 2, int c = 2) {
  auto b = mkbasis(k);
  V t = lens(0, n);
  return GSpline({0.0, t.sum()}, c, n, *b, coef(who, (int)b->get_dim() * n * c), t);
}
static FunctionExpression E(const FunctionBase &f) { return FunctionExpression(f); }
static FunctionExpression mkexpr(int k) {
  V p(4);
  p << 1.0, -0.5, 0.25, 2.0;
  FunctionExpression s(gf::Sin{D}), e(gf::Exponential{D}), i(gf::Identity{D}), q(gf::CanonicPolynomial{D, p});
  switch (k) {
  case 0: return s + e + q;
  case 1: return s * e * q;
  case 2: return e.compose(s).compose(q);
  case 3: {
    FunctionExpression r(gf::Cos{{2.0, 4.0}});
    return (s * q).concat(r);
  }
  case 4: return -(s + q);
  case 5: return E(s.dot(e)) * i;
  case 6: return E(mkspline(0, 0, 2, 1)) * FunctionExpression(gf::ConstFunction({0.0, lens(0, 2).sum()}, 1, 2.5)) + E(mkspline(0, 1, 2, 1));
  default: return E(gf::ConstFunction(D, 3, 1.5)) * (s + e) - E(gf::ConstFunction(D, 3, 0.5)) * q;
  }
}
static const char *EN[] = {"sum", "product", "composition", "concatenation", "negation", "dot", "spline expression", "vector"};
static const int NE = 8;

static void use_fn(Out &o, const FunctionBase &f, int who) {
  o.m(f(pts(who)));
  auto d = f.deriv(1);
  o.m((*d)(pts(who)));
  o.m((*f.deriv(2))(pts(who, 2)));
  auto c = f.clone();
  o.m((*c)(pts(who, 1)));
  o(f.get_domain().second);
}
static void use_basis(Out &o, basis::Basis &b, int who) {
  int n = (int)b.get_dim();
  double tau = 0.7 + 0.4 * who;
  for (double s : {-1.0, 0.3 * who - 0.5, 0.77}) {
    V v(n);
    b.eval_on_window(s, tau, v);
    o.m(v);
    for (unsigned d : {1u, 2u}) {
      b.eval_derivative_on_window(s, tau, d, v);
      o.m(v);
      b.eval_derivative_wrt_tau_on_window(s, tau, d, v);
      o.m(v);
    }
  }
}
static void use_basis_mat(Out &o, basis::Basis &b, int who) {
  int n = (int)b.get_dim();
  double tau = 0.7 + 0.4 * who;
  o.m(b.get_derivative_matrix_block(who + 1));
  o.m(b.get_derivative_matrix_block(3 - who));
  for (std::size_t d : {0, 1, 2}) {
    M m = M::Zero(n, n);
    try {
      b.add_derivative_matrix(tau, d, m);
      b.add_derivative_matrix_deriv_wrt_tau(tau, d, m);
    } catch (const std::exception &) {
      o(-1.0);
    }
    o.m(m);
  }
  V t = lens(who, 2);
  try {
    o.m(M(b.gspline_derivative_matrix(2, 1, 1, t)));
    o.m(M(b.continuity_matrix(2, 1, 2, t)));
    o.m(M(b.continuity_matrix(2, 1, 2, 2.0 * t)));
  } catch (const std::exception &) {
    o(-2.0);
  }
}

static std::vector<Prog> &progs() {
  static std::vector<Prog> P;
  if (!P.empty()) return P;
  auto add = [&](std::string n, std::function<Run(int)> f) { P.push_back({std::move(n), std::move(f)}); };
  // --- expressions: built on the thread / copies, clones and results of a common original
  static std::vector<std::shared_ptr<FunctionExpression>> orig(NE);
  static std::vector<std::shared_ptr<FunctionBase>> hold;
  auto O = [](int k) -> FunctionExpression & {
    if (!orig[k]) orig[k] = std::make_shared<FunctionExpression>(mkexpr(k));
    return *orig[k];
  };
  add("build and use expressions", [](int who) {
    return Run([who](Out &o) {
      FunctionExpression a = mkexpr(who == 1 ? 1 : 7), b = mkexpr(who == 1 ? 2 : 4);
      use_fn(o, a, who);
      use_fn(o, b, who);
      b += b;
      o.m(b(pts(who)));
    });
  });
  for (int k = 0; k < NE; k++)
    add(std::string("clone / copy of one ") + EN[k], [k, O](int who) {
      std::shared_ptr<FunctionBase> f;
      if (who == 1) f = O(k).clone();
      else f = std::make_shared<FunctionExpression>(O(k));
      return Run([f, who](Out &o) { use_fn(o, *f, who); });
    });
  for (int k = 0; k < NE; k++)
    add(std::string("results derived from one ") + EN[k], [k, O](int who) {
      std::shared_ptr<FunctionBase> f;
      FunctionExpression &x = O(k);
      if (who == 1) f = x.deriv(1);
      else f = std::make_shared<FunctionExpression>(-(x + x));
      return Run([f, who](Out &o) { use_fn(o, *f, who); });
    });
  add("elementary functions", [](int who) {
    V p(4);
    p << 1.0, who, 0.25, 2.0;
    auto q = std::make_shared<gf::CanonicPolynomial>(D, p);
    return Run([q, who](Out &o) {
      use_fn(o, *q, who);
      use_fn(o, gf::Exponential(D), who);
      use_fn(o, gf::DomainLinearDilation(D, 1.0 + who), who);
      use_fn(o, gf::Cos(D), who);
    });
  });
  add("refused combinations", [](int who) {
    return Run([who](Out &o) {
      FunctionExpression a(gf::Sin{D}), b(gf::ConstFunction{D, 3, 1.0 * who}), c(gf::Exponential{{0.0, 1.0 + 2 * who}});
      int n = 0;
      try { FunctionExpression r = a + b; } catch (const std::invalid_argument &e) { n += (int)std::string(e.what()).size() > 0; }
      try { FunctionExpression r = a * c; } catch (const std::invalid_argument &e) { n += (int)std::string(e.what()).size() > 0; }
      try { FunctionExpression r = a.concat(c); } catch (const std::invalid_argument &e) { n += 10; }
      o(n);
      use_fn(o, a, who);
    });
  });
  // --- bases
  static std::vector<std::shared_ptr<basis::Basis>> ob(4);
  auto B = [](int k) -> basis::Basis & {
    if (!ob[k]) {
      ob[k] = mkbasis(k);
      V v(ob[k]->get_dim());
      ob[k]->eval_on_window(0.2, 1.0, v); // used before it is cloned
      ob[k]->get_derivative_matrix_block(1);
    }
    return *ob[k];
  };
  for (int k = 0; k < 4; k++) {
    add(std::string("values of clones of one basis ") + BN[k], [k, B](int who) {
      std::shared_ptr<basis::Basis> b = B(k).clone();
      return Run([b, who](Out &o) { use_basis(o, *b, who); });
    });
    add(std::string("matrices of clones of one basis ") + BN[k], [k, B](int who) {
      std::shared_ptr<basis::Basis> b = B(k).clone();
      return Run([b, who](Out &o) { use_basis_mat(o, *b, who); });
    });
  }
  add("bases from the factory", [](int who) {
    return Run([who](Out &o) {
      for (int r = 0; r < 2; r++) { // asked twice: a shared cache would answer the second time
        auto a = basis::get_basis("legendre", 4, std::vector<double>{});
        use_basis(o, *a, who);
        auto b = basis::get_basis("lagrange", 3, std::vector<double>{-1.0, 0.2, 1.0});
        use_basis(o, *b, who);
        auto c = basis::get_basis("basis0101", 6, std::vector<double>{0.3});
        use_basis(o, *c, who);
        auto d = basis::BasisLegendre::get(4);
        use_basis_mat(o, *d, who);
      }
    });
  });
  add("fresh bases of different sizes", [](int who) {
    return Run([who](Out &o) {
      basis::BasisLegendre a(4 + 2 * who);
      use_basis(o, a, who);
      basis::BasisLagrange b(gc::legendre_gauss_lobatto_points(4 + who));
      use_basis(o, b, who);
      use_basis_mat(o, b, who);
      basis::Basis0101 c(0.3 * who);
      use_basis(o, c, who);
      use_basis_mat(o, c, who);
      V np(4);
      np << -1, -0.3 * who, 0.2, 0.9;
      o.m(b.barycentric_weights(gc::legendre_gauss_lobatto_points(5)));
      o.m(basis::BasisLagrange::change_interpolation_points(gc::legendre_gauss_lobatto_points(5), np));
      o.m(basis::BasisLagrange::derivative_matrix(np));
    });
  });
  // --- splines
  static std::vector<std::shared_ptr<GSpline>> os(4);
  auto SP = [](int k) -> GSpline & {
    if (!os[k]) os[k] = std::make_shared<GSpline>(mkspline(k, 0));
    return *os[k];
  };
  for (int k = 0; k < 4; k++) {
    add(std::string("clone / copy of one spline on ") + BN[k], [k, SP](int who) {
      std::shared_ptr<FunctionBase> f;
      if (who == 1) f = SP(k).clone();
      else f = std::make_shared<GSpline>(SP(k));
      return Run([f, who](Out &o) {
        use_fn(o, *f, who);
        auto &g = dynamic_cast<GSpline &>(*f);
        o.m(g.get_waypoints());
        o.m(g.get_domain_breakpoints());
      });
    });
    add(std::string("results derived from one spline on ") + BN[k], [k, SP](int who) {
      std::shared_ptr<GSpline> f;
      GSpline &s = SP(k);
      if (who == 1) f = std::make_shared<GSpline>(s.derivate(1));
      else f = std::make_shared<GSpline>(s + s);
      auto g = std::make_shared<GSpline>(who == 1 ? s.linear_scaling_new_execution_time(3.0) : -s);
      return Run([f, g, who](Out &o) {
        use_fn(o, *f, who);
        use_fn(o, *g, who);
      });
    });
    add(std::string("vector space of splines on ") + BN[k], [k](int who) {
      return Run([k, who](Out &o) {
        GSpline a = mkspline(k, who), b = mkspline(k, who + 3);
        GSpline c = a + b, d = a - b, e = 2.5 * a;
        c += d;
        d -= e;
        o.m(c(pts(who)));
        o.m(d(pts(who)));
        o(a == b);
        o(a == a);
        o(a.same_vector_space(b));
        try {
          GSpline z = a + mkspline(k, who, 3);
          o(0);
        } catch (const std::exception &) {
          o(1);
        }
        GSpline t = a.linear_scaling_new_execution_time(1.0 + who);
        o.m(t(pts(who)));
        GSpline u = a.linear_scaling_new_execution_time_max_velocity_max_acceleration(std::optional<double>(1.0 + who), std::optional<double>(3.0 * who), 0.2);
        o(u.get_domain_length());
      });
    });
  }
  // --- interpolation
  for (int k : {0, 2, 3})
    add(std::string("interpolation on ") + BN[k], [k, B](int who) {
      std::shared_ptr<basis::Basis> b = B(k).clone();
      auto ip = std::make_shared<Interpolator>(2, 2, *b);
      return Run([b, ip, who](Out &o) {
        V t = lens(who, 2);
        GSpline g = ip->interpolate(t, wps(who, 2, 2));
        o.m(g(pts(who)));
        V c = g.get_coefficients();
        o.m(ip->get_coeff_derivative_wrt_tau(c, t, who - 1));
        GSpline h = interpolate(2.0 * t, wps(who + 1, 2, 2), *b);
        o.m(h(pts(who)));
        try {
          ip->interpolate(V::Zero(2), wps(who, 2, 2));
          o(0);
        } catch (const std::exception &) {
          o(1);
        }
        o.m(ip->solve_interpolation(t, wps(who + 2, 2, 2)));
      });
    });
  add("piecewise polynomial interpolation", [](int who) {
    return Run([who](Out &o) {
      GSpline g = pw_polynomial_interpolation(lens(who, 3), wps(who, 3, 2), 2 + who % 2);
      use_fn(o, g, who);
      o.m(g.get_waypoints());
    });
  });
  for (int k : {0, 3})
    add(std::string("cost and gradient on ") + BN[k], [k, B](int who) {
      std::shared_ptr<basis::Basis> b = B(k).clone();
      std::vector<std::pair<std::size_t, double>> w{{1, 0.5 * who}, {3, 1.0}};
      auto n = std::make_shared<fa::SobolevNorm>(wps(who, 2, 2), *b, w);
      return Run([n, who](Out &o) {
        for (int r = 0; r < 2; r++) {
          V t = lens(who + r, 2), g(2);
          o((*n)(t));
          n->deriv_wrt_interval_len(t, g);
          o.m(g);
        }
      });
    });
  // --- integrals, quadrature, collocation
  add("integrals", [O](int who) {
    auto f = std::make_shared<FunctionExpression>(O(1));
    auto g = std::make_shared<FunctionExpression>(O(0));
    return Run([f, g, who](Out &o) {
      o(fa::integral(*f, 5 + who, who));
      o(fa::l2_inner_product(*f, *g, 5, 2));
      o(fa::l2_norm(*g, 4 + who, 2));
    });
  });
  add("Sobolev inner products", [O](int who) {
    auto f = std::make_shared<FunctionExpression>(O(0));
    auto g = std::make_shared<FunctionExpression>(O(4));
    return Run([f, g, who](Out &o) {
      o(fa::sobolev_inner_product(*f, *g, 1, 5, who));
      o(fa::sobolev_norm(*f, 1, 4 + who, 1));
      o(fa::sobolev_semi_inner_product(*f, *g, {{1, 1.0 * who}, {0, 2.0}}, 5, 1));
    });
  });
  add("Gauss-Lobatto rules", [](int who) {
    return Run([who](Out &o) {
      for (int r = 0; r < 2; r++) {
        for (int n : {4, 3 + who, 7}) {
          o.m(gc::legendre_gauss_lobatto_points(n));
          o.m(gc::legendre_gauss_lobatto_weights(n));
        }
        auto pw = gc::legendre_gauss_lobatto_points_and_weights(5);
        o.m(std::get<0>(pw));
        o.m(std::get<1>(pw));
        o.m(gc::legendre_gauss_lobatto_points(std::make_tuple(0.0, 1.0 * who), 4, 2));
        o.m(gc::legendre_gauss_lobatto_weights(std::make_tuple(0.0, 1.0 * who), 4, 2));
        o.m(gc::legendre_gauss_lobatto_points(0.5 * who, 4, lens(who, 2)));
        o.m(gc::legendre_gauss_lobatto_weights(4, lens(who, 2)));
      }
    });
  });
  using GLL = gc::GaussLobattoLagrangeSpline;
  static std::shared_ptr<GLL> oc;
  add("clone / copy of one collocation spline", [O](int who) {
    if (!oc) oc = std::make_shared<GLL>(GLL::approximate(O(7), 4, 2));
    std::shared_ptr<FunctionBase> f;
    if (who == 1) f = oc->clone();
    else f = std::make_shared<GLL>(*oc);
    return Run([f, who](Out &o) {
      use_fn(o, *f, who);
      auto &g = dynamic_cast<GLL &>(*f);
      o.m(g.get_domain_discretization());
      GLL h(g * GLL::identity(D, 4, 2));
      o.m(h(pts(who)));
      o.m((2.0 * who * g - h)(pts(who)));
      o.m(g.deriv(1)->operator()(pts(who)));
    });
  });
  add("collocation algebra", [](int who) {
    return Run([who](Out &o) {
      FunctionExpression e = mkexpr(who - 1);
      GLL a = GLL::approximate(e, 3 + who, 2), b = GLL::identity(D, 3 + who, 2);
      o.m((a * b + a)(pts(who)));
      o.m((a - b)(pts(who)));
      b = a;
      o.m(gc::pow(b, 2.0)(pts(who)));
      o.m((-b)(pts(who)));
    });
  });
  add("approximate comparison", [](int who) {
    return Run([who](Out &o) {
      GSpline a = mkspline(0, who), b = mkspline(0, who) * (1.0 + 1e-9), c = mkspline(0, who + 1);
      o(tools::approx_equal(a, b, 1e-6));
      o(tools::approx_equal(a, c, 1e-6));
      o(tools::approx_equal(1.0 * who, 1.0 * who + 1e-12, 1e-6));
      o(tools::approx_zero(1e-9 * who, 1e-6));
      o(tools::approx_zero(M::Constant(2, 2, 1.0 * who), 1e-6));
    });
  });
  return P;
}

static Run g_run[3];
int c20_count() { return (int)progs().size(); }
const char *c20_name(int p) { return progs()[p].name.c_str(); }
void c20_prepare(int who, int p) { g_run[who] = progs()[p].prep(who); }
void c20_run(int who, Result *r) {
  r->n = 0;
  r->overflow = 0;
  Out o{r};
  try {
    g_run[who](o);
  } catch (const std::exception &e) {
    o(-12345.0);
    o((double)std::string(e.what()).size());
  }
}
