// Reference model of bases, generalized splines, interpolation and quadrature in long double,
// written from the mathematical definitions only (no code shared with the library).
#pragma once
#include "mc.hpp"
#include <eigen3/Eigen/Dense>
#include <gsplines/Basis/Basis0101.hpp>
#include <gsplines/Basis/BasisLagrange.hpp>
#include <gsplines/Basis/BasisLegendre.hpp>
#include <gsplines/GSpline.hpp>
#include <memory>
#include <string>
#include <vector>

namespace rs {
typedef long double R;
typedef Eigen::Matrix<R, Eigen::Dynamic, Eigen::Dynamic> Mat;
typedef Eigen::Matrix<R, Eigen::Dynamic, 1> Vec;
typedef std::vector<R> V;
typedef std::pair<double, double> Dom;

enum BKind { LEGENDRE, LAGRANGE, GL, B0101 };
struct BSpec {
  BKind kind;
  int dim;
  std::vector<double> nodes; // LAGRANGE/GL
  double alpha = 0.5;
  std::string str() const {
    if (kind == LEGENDRE) return mc::fmt("legendre(%d)", dim);
    if (kind == GL) return mc::fmt("gauss-lobatto(%d)", dim);
    if (kind == B0101) return mc::fmt("0101(%g)", alpha);
    std::string s = "lagrange(";
    for (double x : nodes) s += mc::fmt("%g ", x);
    return s + ")";
  }
  bool poly() const { return kind != B0101; }
  R k() const { return sqrtl(2.0L) / 4 * powl((R)alpha, 0.25L) / powl(1.0L - (R)alpha, 0.25L); }
};

inline R legendre(int n, R x) {
  R a = 1, b = x;
  if (n == 0) return 1;
  for (int i = 2; i <= n; i++) {
    R c = ((2 * i - 1) * x * b - (i - 1) * a) / i;
    a = b;
    b = c;
  }
  return b;
}
inline R dlegendre(int n, R x) { // |x|<1 : from P_{n-1}, P_n
  if (n == 0) return 0;
  if (fabsl(x) > 1 - 1e-15L) return (x < 0 && n % 2 == 0 ? -1.0L : 1.0L) * n * (n + 1) / 2.0L;
  return n * (legendre(n - 1, x) - x * legendre(n, x)) / (1 - x * x);
}
// zeros of P'_{n-1} by bisection between the extrema interlaced by zeros of P_{n-1}; plus +-1
inline V gl_nodes(int n) {
  V x(n);
  x[0] = -1;
  x[n - 1] = 1;
  // interior: roots of derivative of P_{n-1}; locate sign changes on a fine Chebyshev grid
  int N = n - 1, M = 64 * n, found = 0;
  R prev = -1 + 1e-12L, pv = dlegendre(N, prev);
  for (int i = 1; i <= M && found < n - 2; i++) {
    R cur = i == M ? 1 - 1e-12L : -cosl(M_PIl * i / M), cv = dlegendre(N, cur);
    if (cv == 0) x[++found] = cur;
    else if (pv * cv < 0) {
      R lo = prev, hi = cur, lv = pv;
      for (int k = 0; k < 200 && hi - lo > 1e-19L; k++) {
        R m = (lo + hi) / 2, mv = dlegendre(N, m);
        if (mv == 0) { lo = hi = m; break; }
        if (lv * mv < 0) hi = m;
        else lo = m, lv = mv;
      }
      x[++found] = (lo + hi) / 2;
    }
    prev = cur;
    pv = cv;
  }
  if (n % 2) x[n / 2] = 0;
  return x;
}
inline V gl_weights(int n, const V &x) {
  V w(n);
  for (int i = 0; i < n; i++) {
    R p = legendre(n - 1, x[i]);
    w[i] = 2 / ((R)n * (n - 1) * p * p);
  }
  return w;
}
// Gauss-Legendre rule (used as the reference quadrature)
inline void gauss(int n, V &x, V &w) {
  x.resize(n);
  w.resize(n);
  for (int i = 0; i < n; i++) {
    R z = cosl(M_PIl * (i + 0.75L) / (n + 0.5L));
    for (int k = 0; k < 100; k++) {
      R d = legendre(n, z) / dlegendre(n, z);
      z -= d;
      if (fabsl(d) < 1e-19L) break;
    }
    x[i] = z;
    R d = dlegendre(n, z);
    w[i] = 2 / ((1 - z * z) * d * d);
  }
}
inline const std::pair<V, V> &gauss_rule(int n) {
  static std::vector<std::pair<V, V>> c(200);
  if (c[n].first.empty()) gauss(n, c[n].first, c[n].second);
  return c[n];
}

// coefficients (monomials in s) of every polynomial basis function
inline std::vector<V> monomials(const BSpec &b) {
  std::vector<V> p(b.dim, V(b.dim, 0.0L));
  if (b.kind == LEGENDRE) {
    p[0][0] = 1;
    if (b.dim > 1) p[1][1] = 1;
    for (int n = 2; n < b.dim; n++)
      for (int j = 0; j <= n; j++)
        p[n][j] = ((j ? (2 * n - 1) * p[n - 1][j - 1] : 0.0L) - (n - 1) * p[n - 2][j]) / n;
  } else {
    for (int i = 0; i < b.dim; i++) {
      V q{1};
      for (int j = 0; j < b.dim; j++) {
        if (j == i) continue;
        V r(q.size() + 1, 0.0L);
        R den = (R)b.nodes[i] - (R)b.nodes[j];
        for (size_t m = 0; m < q.size(); m++) {
          r[m + 1] += q[m] / den;
          r[m] -= q[m] * b.nodes[j] / den;
        }
        q = r;
      }
      p[i] = q;
    }
  }
  return p;
}

// A basis ready for evaluation
struct Basis {
  BSpec s;
  std::vector<V> mono;
  explicit Basis(const BSpec &b) : s(b) {
    if (b.poly()) mono = monomials(b);
  }
  int dim() const { return s.dim; }
  // n-th derivative with respect to time at window position x on an interval of length tau
  V eval(R x, R tau, int n) const {
    V v(s.dim, 0.0L);
    if (s.poly()) {
      if (n == 0 && s.kind == LEGENDRE) {
        for (int i = 0; i < s.dim; i++) v[i] = legendre(i, x);
        return v;
      }
      R f = powl(2 / tau, n);
      for (int i = 0; i < s.dim; i++) {
        R a = 0;
        for (int j = s.dim - 1; j >= n; j--) {
          R c = mono[i][j];
          for (int m = 0; m < n; m++) c *= (j - m);
          a = a * x + c;
        }
        v[i] = a * f;
      }
    } else {
      // e^p cos p = Re e^{(1+i)p}, e^p sin p = Im e^{(1+i)p}, e^-p cos p = Re e^{(-1+i)p}, e^-p sin p = Im
      R p = tau * s.k() * x, K = powl(2 * s.k(), n);
      for (int h = 0; h < 2; h++) {
        R sg = h ? -1 : 1, mod = powl(2.0L, n / 2.0L), arg = n * (h ? 3 * M_PIl / 4 : M_PIl / 4);
        R e = expl(sg * p);
        v[2 * h] = K * mod * e * cosl(p + arg);
        v[2 * h + 1] = K * mod * e * sinl(p + arg);
      }
      v[4] = n == 0 ? p : n == 1 ? K : 0;
      v[5] = n == 0 ? 1 : 0;
    }
    return v;
  }
  // derivative of the above with respect to tau at fixed window position
  V eval_dtau(R x, R tau, int n) const {
    if (s.poly()) {
      V v = eval(x, tau, n);
      for (auto &y : v) y *= -(R)n / tau;
      return v;
    }
    // (2k)^n g^(n)(tau k x)  ->  (2k)^n g^(n+1) k x = eval(n+1) * x/2
    V v = eval(x, tau, n + 1);
    for (auto &y : v) y *= x / 2;
    return v;
  }
  int qpoints() const { return s.poly() ? s.dim + 2 : 60; }
  Mat gram(R tau, int n) const {
    auto &g = gauss_rule(qpoints());
    Mat M = Mat::Zero(s.dim, s.dim);
    for (size_t q = 0; q < g.first.size(); q++) {
      V v = eval(g.first[q], tau, n);
      for (int i = 0; i < s.dim; i++)
        for (int j = 0; j < s.dim; j++) M(i, j) += g.second[q] * v[i] * v[j];
    }
    return M * (tau / 2);
  }
  Mat gram_dtau(R tau, int n) const {
    auto &g = gauss_rule(qpoints());
    Mat M = Mat::Zero(s.dim, s.dim);
    for (size_t q = 0; q < g.first.size(); q++) {
      V v = eval(g.first[q], tau, n), d = eval_dtau(g.first[q], tau, n);
      for (int i = 0; i < s.dim; i++)
        for (int j = 0; j < s.dim; j++) M(i, j) += g.second[q] * (v[i] * v[j] / 2 + (d[i] * v[j] + v[i] * d[j]) * tau / 2);
    }
    return M;
  }
};

inline std::unique_ptr<gsplines::basis::Basis> make(const BSpec &b) {
  using namespace gsplines::basis;
  switch (b.kind) {
  case LEGENDRE: return std::make_unique<BasisLegendre>(b.dim);
  case LAGRANGE: return std::make_unique<BasisLagrange>(b.nodes);
  case GL: return std::make_unique<BasisLagrangeGaussLobatto>(b.dim);
  default: return std::make_unique<Basis0101>(b.alpha);
  }
}
inline BSpec leg(int n) { return {LEGENDRE, n, {}, 0}; }
inline BSpec lag(std::vector<double> x) { return {LAGRANGE, (int)x.size(), x, 0}; }
inline BSpec b0101(double a) { return {B0101, 6, {}, a}; }
inline BSpec gl(int n) {
  BSpec b{GL, n, {}, 0};
  for (R x : gl_nodes(n)) b.nodes.push_back((double)x);
  return b;
}
inline BSpec uni(int n) { // uniform nodes with both ends
  std::vector<double> x;
  for (int i = 0; i < n; i++) x.push_back(-1 + 2.0 * i / (n - 1));
  return lag(x);
}

// the bases explored; full = every size
inline std::vector<BSpec> bases(bool full) {
  std::vector<BSpec> b;
  for (int n = 1; n <= (full ? 14 : 9); n++) b.push_back(leg(n));
  for (int n : full ? std::vector<int>{2, 3, 4, 5, 6, 7, 8, 9, 10, 12} : std::vector<int>{2, 3, 4, 6, 7, 9}) b.push_back(gl(n));
  b.push_back(lag({0.25}));
  b.push_back(lag({-1, 1}));
  b.push_back(lag({-1, 0, 1}));
  b.push_back(lag({-0.9, -0.2, 0.3, 0.8}));
  b.push_back(lag({0.5, -1, 1, -0.3}));
  b.push_back(lag({1, 0.4, -0.1, -0.5, -1}));
  b.push_back(lag({-0.7, -0.1, 0.2, 0.6, 0.95, 1}));
  b.push_back(uni(6));
  if (full) {
    b.push_back(uni(4));
    b.push_back(uni(8));
    b.push_back(lag({0.0, 0.25}));
    b.push_back(lag({-1, -0.999, 0.5}));
    b.push_back(lag({-1.5, -0.5, 0.5, 1.5}));
  }
  for (double a : full ? std::vector<double>{0.01, 0.05, 0.3, 0.5, 0.9, 0.99, 0.9999} : std::vector<double>{0.05, 0.5, 0.99}) b.push_back(b0101(a));
  return b;
}

// A piecewise function by its definition
struct Spline {
  const Basis *b;
  Dom dom;
  int codom;
  std::vector<double> tau;
  std::vector<double> coef;
  int n() const { return (int)tau.size(); }
  R left(int i) const {
    R l = dom.first;
    for (int k = 0; k < i; k++) l += tau[k];
    return l;
  }
  int interval(R t) const { // breakpoints belong to the left
    for (int i = 0; i < n(); i++)
      if (t <= left(i + 1)) return i;
    return n() - 1;
  }
  // value of derivative d of component c at window position x of interval i, and magnitude of the terms
  R at(int i, int c, R x, int d, R *mag = nullptr) const {
    V v = b->eval(x, tau[i], d);
    R s = 0, m = 0;
    for (int k = 0; k < b->dim(); k++) {
      R y = (R)coef[(i * codom + c) * b->dim() + k] * v[k];
      s += y;
      m = std::max(m, fabsl(y));
    }
    if (mag) *mag = m;
    return s;
  }
  R value(R t, int c, int d = 0, R *mag = nullptr) const {
    int i = interval(t);
    return at(i, c, 2 * (t - left(i)) / tau[i] - 1, d, mag);
  }
  static Eigen::VectorXd e(const std::vector<double> &v) { return Eigen::Map<const Eigen::VectorXd>(v.data(), v.size()); }
  gsplines::GSpline lib() const {
    auto lb = make(b->s);
    return gsplines::GSpline(dom, codom, tau.size(), *lb, e(coef), e(tau), "x");
  }
};
inline std::vector<double> vec(const Eigen::VectorXd &v) { return std::vector<double>(v.data(), v.data() + v.size()); }
// deterministic, distinct, well spread coefficients
inline std::vector<double> coefs(int n, int seed) {
  std::vector<double> c(n);
  for (int i = 0; i < n; i++) c[i] = std::sin(1.7 * i + 0.9 * seed + 0.3) * (1 + (i * 7 + seed) % 5) * 0.5;
  return c;
}
inline Eigen::MatrixXd waypoints(int rows, int cols, int seed) {
  Eigen::MatrixXd w(rows, cols);
  for (int i = 0; i < rows; i++)
    for (int j = 0; j < cols; j++) w(i, j) = std::sin(2.1 * i + 1.3 * j + 0.7 * seed) * (1 + (i + 2 * j + seed) % 3);
  return w;
}

// Reference interpolation: square system solved densely in long double.
struct Interp {
  Mat A;   // one scalar component: n*dim unknowns
  Mat rhs; // columns: components
  Mat sol;
  int n, dim;
  Interp(const Basis &b, const std::vector<double> &tau, const Eigen::MatrixXd &wp) { build(b, tau, wp); }
  void rows(const Basis &b, const std::vector<double> &tau, Mat &M, int dtau) const {
    // dtau<0: the system itself; else its derivative with respect to tau[dtau]
    M = Mat::Zero(n * dim, n * dim);
    int r = 0;
    auto put = [&](int row, int i, R x, int d, R sgn) {
      if (dtau >= 0 && i != dtau) return;
      V v = dtau < 0 ? b.eval(x, tau[i], d) : b.eval_dtau(x, tau[i], d);
      for (int k = 0; k < dim; k++) M(row, i * dim + k) += sgn * v[k];
    };
    for (int i = 0; i < n; i++) {
      put(r++, i, -1, 0, 1);
      put(r++, i, 1, 0, 1);
    }
    for (int d = 1; d < dim / 2; d++) {
      put(r++, 0, -1, d, 1);
      put(r++, n - 1, 1, d, 1);
    }
    for (int i = 0; i + 1 < n; i++)
      for (int d = 1; d <= dim - 2; d++) {
        put(r, i, 1, d, 1);
        put(r++, i + 1, -1, d, -1);
      }
  }
  Eigen::PartialPivLU<Mat> lu;
  Vec scale;
  void build(const Basis &b, const std::vector<double> &tau, const Eigen::MatrixXd &wp) {
    n = tau.size();
    dim = b.dim();
    rows(b, tau, A, -1);
    rhs = Mat::Zero(n * dim, wp.cols());
    for (int i = 0; i < n; i++)
      for (int c = 0; c < wp.cols(); c++) {
        rhs(2 * i, c) = wp(i, c);
        rhs(2 * i + 1, c) = wp(i + 1, c);
      }
    scale = Vec::Ones(n * dim);
    for (int r = 0; r < n * dim; r++) {
      R m = A.row(r).cwiseAbs().maxCoeff();
      if (m > 0) scale(r) = 1 / m;
    }
    lu.compute(scale.asDiagonal() * A);
    sol = lu.solve(scale.asDiagonal() * rhs);
    sol += lu.solve(scale.asDiagonal() * (rhs - A * sol));
  }
  Mat deriv(const Basis &b, const std::vector<double> &tau, int i) const {
    Mat dA;
    rows(b, tau, dA, i);
    Mat r = -(dA * sol);
    Mat d = lu.solve(scale.asDiagonal() * r);
    d += lu.solve(scale.asDiagonal() * (r - A * d));
    return d;
  }
};
} // namespace rs
