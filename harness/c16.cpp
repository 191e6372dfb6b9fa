// Collocation splines: node-by-node algebra on every grid, operand pair, overload and short history.
#include "fnpool.hpp"
#include "splinecfg.hpp"
#include <gsplines/Collocation/GaussLobattoLagrange.hpp>
using namespace rs;
using gsplines::collocation::GLLSpline;
typedef gsplines::functions::FunctionBase FB;
typedef gsplines::functions::FunctionExpression FE;

static const V &nodes(int n) {
  static std::vector<V> c(64);
  if (c[n].empty()) c[n] = gl_nodes(n);
  return c[n];
}
struct M { // the meaning of a collocation spline: values at the nodes
  Dom dom{0, 1};
  int codom = 1, n = 1, g = 2;
  std::vector<double> tau;
  std::vector<V> v; // v[interval*g+node][component]
  bool ok = true;   // false: some value is not a finite moderate number
  R time(int i, int k) const {
    R l = dom.first;
    for (int j = 0; j < i; j++) l += tau[j];
    return l + (nodes(g)[k] + 1) * (R)tau[i] / 2;
  }
  uint64_t hash() const {
    uint64_t h = mc::mix(codom * 100 + n * 10 + g, mc::hdbl(dom.first) * 31 + mc::hdbl(dom.second));
    for (double t : tau) h = mc::mix(h, mc::hdbl(t));
    for (auto &x : v)
      for (R y : x) h = mc::mix(h, mc::hdbl((double)y));
    return h;
  }
};
static Eigen::VectorXd coef_of(const M &m) {
  Eigen::VectorXd c(m.n * m.codom * m.g);
  for (int i = 0; i < m.n; i++)
    for (int j = 0; j < m.codom; j++)
      for (int k = 0; k < m.g; k++) c((i * m.codom + j) * m.g + k) = (double)m.v[i * m.g + k][j];
  return c;
}
static GLLSpline lib(const M &m) { return GLLSpline(m.dom, m.codom, m.n, m.g, coef_of(m), Spline::e(m.tau)); }
// node (k) of interval (i) of the model against a library object
static bool same(mc::Ctx &c, const GLLSpline &s, const M &m, const std::string &key) {
  if (!c.check((int)s.get_codom_dim() == m.codom && (int)s.get_number_of_intervals() == m.n && (int)s.get_nglp() == m.g &&
                   s.get_coefficients().size() == (long)m.codom * m.n * m.g,
               key + "-shape", mc::fmt("codomain %zu intervals %zu points %zu coefficients %ld, expected %d %d %d", s.get_codom_dim(),
                                       s.get_number_of_intervals(), s.get_nglp(), (long)s.get_coefficients().size(), m.codom, m.n, m.g)))
    return false;
  if (!c.close(s.get_domain().first, m.dom.first, 1e-10L, key + "-domain", "domain start")) return false;
  if (!c.close(s.get_domain().second, m.dom.second, 1e-10L, key + "-domain", "domain end")) return false;
  for (int i = 0; i < m.n; i++)
    if (!c.close(s.get_interval_lengths()(i), m.tau[i], 1e-10L, key + "-partition", mc::fmt("length of interval %d", i))) return false;
  Eigen::VectorXd d = s.get_domain_discretization();
  if (!c.check(d.size() == m.n * m.g, key + "-discretization", "number of discretization points")) return false;
  for (int i = 0; i < m.n; i++)
    for (int k = 0; k < m.g; k++) {
      if (!c.close(d(i * m.g + k), m.time(i, k), 1e-10L, key + "-discretization", mc::fmt("collocation point %d of interval %d", k, i))) return false;
      Eigen::VectorXd x = s.value_at(i * m.g + k);
      if (!c.check(x.size() == m.codom, key + "-shape", "value_at size")) return false;
      for (int j = 0; j < m.codom; j++)
        if (!c.close(x(j), m.v[i * m.g + k][j], 1e-9L, key + "-node", mc::fmt("interval %d node %d component %d", i, k, j))) return false;
      if (k > 0 && k < m.g - 1) { // evaluation at a point strictly inside the interval
        Eigen::VectorXd t(1);
        t(0) = (double)m.time(i, k);
        Eigen::MatrixXd y = s(t);
        for (int j = 0; j < m.codom; j++) {
          R sc = 1;
          for (int q = 0; q < m.g; q++) sc = std::max(sc, fabsl(m.v[i * m.g + q][j]));
          if (!c.close(y(0, j), m.v[i * m.g + k][j], 1e-8L, key + "-value", mc::fmt("value at node %d of interval %d component %d", k, i, j), sc)) return false;
        }
      }
    }
  return true;
}
struct Shape {
  int codom, n, g, pat, start;
};
// pat 0: uniform, 1..: non uniform
static std::vector<double> part(int n, int pat) {
  std::vector<double> t(n);
  for (int i = 0; i < n; i++) t[i] = pat == 0 ? 1.5 : pat == 1 ? 0.5 + 0.75 * (i % 3) : (i % 2 ? 0.25 : 2.0);
  if (pat >= 4) { // almost pattern 1: two lengths differ a little, the total is the same
    for (int i = 0; i < n; i++) t[i] = 0.5 + 0.75 * (i % 3);
    double e = pat == 4 ? 1.0 / 64 : 1.0 / 4096;
    t[0] += e;
    t[n - 1] -= e;
  }
  if (pat == 3) // same total as pattern 1, other lengths
    for (int i = 0; i < n; i++) t[i] = 0.5 + 0.75 * ((n - 1 - i) % 3);
  return t;
}
static double startof(const Shape &s) { return s.start < 5 ? STARTS[s.start] : 1.0 / 512; }
static M mk(const Shape &s, int seed) {
  M m;
  m.codom = s.codom;
  m.n = s.n;
  m.g = s.g;
  m.tau = part(s.n, s.pat);
  R e = startof(s);
  for (double t : m.tau) e += t;
  m.dom = {startof(s), (double)e};
  for (int i = 0; i < m.n * m.g; i++) {
    V x;
    for (int j = 0; j < m.codom; j++) {
      double v = (1 + (i * 7 + j * 3 + seed) % 5) * 0.5 + 0.1 * j + 0.01 * i;
      if (seed % 2 == 0 && (i + j) % 3 == 0) v = -v;
      x.push_back(v);
    }
    m.v.push_back(x);
  }
  return m;
}
static std::string str(const Shape &s) { return mc::fmt("(codom=%d intervals=%d points=%d partition=%d start=%g)", s.codom, s.n, s.g, s.pat, startof(s)); }

// ---- operations on models
static M map1(const M &a, const std::function<R(R, int)> &f) {
  M r = a;
  for (auto &x : r.v)
    for (int j = 0; j < r.codom; j++) {
      x[j] = f(x[j], j);
      if (!std::isfinite((double)x[j]) || fabsl(x[j]) > 1e7L) r.ok = false;
    }
  return r;
}
static M zip(const M &a, const M &b, const std::function<R(R, R)> &f) {
  M r = a.codom >= b.codom ? a : b;
  for (size_t i = 0; i < r.v.size(); i++)
    for (int j = 0; j < r.codom; j++) {
      r.v[i][j] = f(a.v[i][a.codom == 1 ? 0 : j], b.v[i][b.codom == 1 ? 0 : j]);
      if (!std::isfinite((double)r.v[i][j]) || fabsl(r.v[i][j]) > 1e7L) r.ok = false;
    }
  return r;
}
static bool same_grid(const M &a, const M &b) { return a.n == b.n && a.g == b.g && a.tau == b.tau && a.dom == b.dom; }
enum B { MUL, ADD, SUB, ADDEQ, SUBEQ, ASSIGN, NB };
static const char *BN[] = {"*", "+", "-", "+=", "-=", "="};
static bool allowed(B o, const M &a, const M &b) {
  if (o == MUL) return same_grid(a, b) && (a.codom == 1 || b.codom == 1);
  if (o == ASSIGN) return a.n == b.n && a.g == b.g && a.codom == b.codom;
  return same_grid(a, b) && a.codom == b.codom;
}
static M model(B o, const M &a, const M &b) {
  switch (o) {
  case MUL: return zip(a, b, [](R x, R y) { return x * y; });
  case ADD: case ADDEQ: return zip(a, b, [](R x, R y) { return x + y; });
  case SUB: case SUBEQ: return zip(a, b, [](R x, R y) { return x - y; });
  default: return b;
  }
}
typedef std::unique_ptr<GLLSpline> U;
static U apply(B o, int cat, GLLSpline &a, GLLSpline &b) {
  const GLLSpline &ca = a, &cb = b;
  bool ma = cat & 1, mb = cat & 2;
#define FOUR(OP) return std::make_unique<GLLSpline>(!ma && !mb ? ca OP cb : ma && !mb ? std::move(a) OP cb : !ma ? ca OP std::move(b) : std::move(a) OP std::move(b))
  switch (o) {
  case MUL: FOUR(*);
  case ADD: FOUR(+);
  case SUB: FOUR(-);
  case ADDEQ: {
    GLLSpline &r = (a += cb);
    return std::make_unique<GLLSpline>(r);
  }
  case SUBEQ: {
    GLLSpline &r = (a -= cb);
    return std::make_unique<GLLSpline>(r);
  }
  default:
    if (mb) a = std::move(b);
    else a = cb;
    return std::make_unique<GLLSpline>(a);
  }
}
static int ncat(B o) { return o <= SUB ? 4 : o == ASSIGN ? 2 : 1; }
static int catv(B o, int k) { return o == ASSIGN ? 2 * k : k; }
static bool mutates(B o) { return o == ADDEQ || o == SUBEQ || o == ASSIGN; }

enum Un { NEG, SL, SR, DIV, VADD, ADDV, VSUB, SUBV, POW2, POWH, POWM1, POW0, NORM, CP, CLONE, NU };
static const char *UN[] = {"neg", "d*a", "a*d", "d/a", "v+a", "a+v", "v-a", "a-v", "pow2", "pow0.5", "pow-1", "pow0", "norm", "copy", "clone"};
static const double D = -2.25;
static Eigen::VectorXd off(int n) {
  Eigen::VectorXd v(n);
  for (int i = 0; i < n; i++) v(i) = 0.75 - 1.5 * i;
  return v;
}
static bool allowed(Un u, const M &a) { return a.codom == 1 || !(u == DIV || (u >= POW2 && u <= POW0)); }
static M model(Un u, const M &a) {
  Eigen::VectorXd v = off(a.codom);
  switch (u) {
  case NEG: return map1(a, [](R x, int) { return -x; });
  case SL: case SR: return map1(a, [](R x, int) { return x * D; });
  case DIV: return map1(a, [](R x, int) { return D / x; });
  case VADD: case ADDV: return map1(a, [&](R x, int j) { return x + (R)v(j); });
  case VSUB: return map1(a, [&](R x, int j) { return v(j) - x; });
  case SUBV: return map1(a, [&](R x, int j) { return x - v(j); });
  case POW2: return map1(a, [](R x, int) { return x * x; });
  case POWH: return map1(a, [](R x, int) { return sqrtl(x); });
  case POWM1: return map1(a, [](R x, int) { return 1 / x; });
  case POW0: return map1(a, [](R, int) { return 1.0L; });
  case NORM: {
    M r = a;
    r.codom = 1;
    for (size_t i = 0; i < r.v.size(); i++) {
      R s = 0;
      for (R x : a.v[i]) s += x * x;
      r.v[i] = V{sqrtl(s)};
    }
    return r;
  }
  default: return a;
  }
}
static U apply(Un u, bool mv, GLLSpline &a) {
  const GLLSpline &ca = a;
  Eigen::VectorXd v = off(a.get_codom_dim());
#define TWO(L, RR) return std::make_unique<GLLSpline>(mv ? RR : L)
  switch (u) {
  case NEG: TWO(-ca, -std::move(a));
  case SL: TWO(D * ca, D * std::move(a));
  case SR: TWO(ca * D, std::move(a) * D);
  case DIV: TWO(D / ca, D / std::move(a));
  case VADD: TWO(v + ca, v + std::move(a));
  case ADDV: TWO(ca + v, std::move(a) + v);
  case VSUB: TWO(v - ca, v - std::move(a));
  case SUBV: TWO(ca - v, std::move(a) - v);
  case POW2: TWO(pow(ca, 2.0), pow(std::move(a), 2.0));
  case POWH: TWO(pow(ca, 0.5), pow(std::move(a), 0.5));
  case POWM1: TWO(pow(ca, -1.0), pow(std::move(a), -1.0));
  case POW0: TWO(pow(ca, 0.0), pow(std::move(a), 0.0));
  case NORM: return std::make_unique<GLLSpline>(norm(ca));
  case CP: TWO(GLLSpline(ca), GLLSpline(std::move(a)));
  default: {
    std::unique_ptr<FB> x = static_cast<const FB &>(ca).clone();
    GLLSpline *g = dynamic_cast<GLLSpline *>(x.get());
    if (!g) return nullptr;
    return std::make_unique<GLLSpline>(*g);
  }
  }
}
static std::vector<Shape> shapes, objs;

// smooth functions to approximate, with their meaning
struct Fun {
  std::string name;
  std::unique_ptr<FB> f;
  std::function<R(R, int)> v;
};
static std::vector<Fun> funs(Dom d, int codom) {
  using namespace gsplines::functions;
  std::vector<Fun> r;
  auto add = [&](const char *n, FE e, std::function<R(R, int)> v) { r.push_back({n, std::make_unique<FE>(e), v}); };
  Eigen::VectorXd cv(codom), p(3);
  for (int i = 0; i < codom; i++) cv(i) = 1.5 - i;
  p << 0.5, -1.0, 0.25;
  if (codom == 1) {
    r.push_back({"sin", std::make_unique<Sin>(d), [](R t, int) { return sinl(t); }});
    r.push_back({"poly", std::make_unique<CanonicPolynomial>(d, p), [](R t, int) { return 0.5L - t + 0.25L * t * t; }});
    add("exp*id", Exponential(d) * Identity(d), [](R t, int) { return expl(t) * t; });
  }
  r.push_back({"const", std::make_unique<ConstFunction>(d, cv), [](R, int j) { return 1.5L - j; }});
  add("cos*const", Cos(d) * ConstFunction(d, cv), [](R t, int j) { return cosl(t) * (1.5L - j); });
  return r;
}
static M sampled(Dom d, int codom, int g, const std::vector<double> &tau, const Fun &f) {
  M m;
  m.dom = d;
  m.codom = codom;
  m.n = tau.size();
  m.g = g;
  m.tau = tau;
  for (int i = 0; i < m.n; i++)
    for (int k = 0; k < g; k++) {
      V x;
      for (int j = 0; j < codom; j++) x.push_back(f.v(m.time(i, k), j));
      m.v.push_back(x);
    }
  return m;
}
static bool throws(const std::function<void()> &f) {
  try {
    f();
  } catch (const std::exception &) {
    return true;
  }
  return false;
}

int main(int argc, char **argv) {
  return mc::run(argc, argv, [](mc::Registry &R_) {
    for (int cd = 1; cd <= 3; cd++)
      for (int n = 1; n <= (mc::THOROUGH ? 5 : 4); n++)
        for (int g = 2; g <= (mc::THOROUGH ? 8 : 6); g++)
          for (int p = 0; p < 4; p++)
            for (int s = 0; s < (mc::THOROUGH ? 3 : 2); s++) shapes.push_back({cd, n, g, p, s});
    // operand pool for pairs: includes grids that differ in exactly one respect
    for (int cd : {1, 2, 3})
      for (Shape s : {Shape{0, 3, 4, 1, 0}, Shape{0, 3, 4, 3, 0}, Shape{0, 3, 4, 0, 0}, Shape{0, 3, 4, 1, 1}, Shape{0, 3, 3, 1, 0}, Shape{0, 2, 4, 1, 0}, Shape{0, 2, 6, 0, 0}, Shape{0, 1, 5, 0, 2}, Shape{0, 4, 3, 2, 1}, Shape{0, 3, 4, 2, 0}, Shape{0, 1, 2, 1, 0}, Shape{0, 3, 4, 4, 0}, Shape{0, 3, 4, 5, 0}, Shape{0, 3, 4, 1, 5}}) {
        s.codom = cd;
        objs.push_back(s);
      }
    R_.add("shapes", shapes.size(), [](mc::Ctx &c, uint64_t id) {
      Shape s = shapes[id];
      M m = mk(s, id % 2);
      c.note("%s construction", str(s).c_str());
      c.state(mc::mix(m.hash(), 1));
      GLLSpline a = lib(m);
      c.trans(4);
      if (!same(c, a, m, "construct")) return;
      GLLSpline b(m.dom, m.codom, m.n, m.g, coef_of(m), Eigen::VectorXd(Spline::e(m.tau)));
      if (!same(c, b, m, "construct-moving")) return;
      auto bs = make(gl(s.g));
      gsplines::GSpline gs(m.dom, m.codom, m.n, *bs, coef_of(m), Spline::e(m.tau), "x");
      if (!same(c, GLLSpline(gs), m, "from-spline")) return;
      if (!same(c, GLLSpline(std::move(gs)), m, "from-moved-spline")) return;
      GLLSpline z(m.dom, m.codom, m.n, m.g);
      M zm = map1(m, [](R, int) { return 0.0L; });
      for (auto &t : zm.tau) t = (m.dom.second - m.dom.first) / m.n;
      if (!same(c, z, zm, "zero")) return;
      if (!c.check(throws([&] { a.value_at(m.n * m.g); }), "value_at", "a node beyond the last is accepted")) return;
      c.trace();
      // derivative keeps the grid; node values of the derivative of the interpolating polynomial
      GLLSpline d = a.derivate();
      M dm = m;
      Basis rb(gl(s.g));
      for (int i = 0; i < m.n; i++)
        for (int k = 0; k < m.g; k++) {
          V b1 = rb.eval(nodes(s.g)[k], m.tau[i], 1);
          for (int j = 0; j < m.codom; j++) {
            R x = 0;
            for (int q = 0; q < m.g; q++) x += b1[q] * m.v[i * m.g + q][j];
            dm.v[i * m.g + k][j] = x;
          }
        }
      if (!same(c, d, dm, "derivative")) return;
      if (!same(c, a, m, "unchanged")) return;
      c.trace();
      if (id % 61 == 3) c.sample(c.get_note());
    });
    R_.add("unary", shapes.size(), [](mc::Ctx &c, uint64_t id) {
      Shape s = shapes[id];
      for (int seed = 0; seed < 2; seed++)
        for (int u = 0; u < NU; u++)
          for (int mv = 0; mv < 2; mv++) {
            M m = mk(s, seed);
            GLLSpline a = lib(m);
            c.note("%s seed %d %s %s", str(s).c_str(), seed, UN[u], mv ? "moved" : "lvalue");
            c.trans();
            if (!allowed((Un)u, m)) {
              if (!c.check(throws([&] { apply((Un)u, mv, a); }), "accepted", "a vector-valued operand is accepted")) return;
              if (!same(c, a, m, "unchanged-after-refusal")) return;
              c.trace();
              continue;
            }
            M w = model((Un)u, m);
            U r = apply((Un)u, mv, a);
            c.state(mc::mix(w.hash(), u));
            if (!c.check(r != nullptr, "clone", "clone has another type")) return;
            if (w.ok && !same(c, *r, w, UN[u])) return;
            if ((!mv || u == NORM || u == CLONE) && !same(c, a, m, "unchanged")) return;
            c.trace();
          }
      // offsets of the wrong size
      M m = mk(s, 0);
      GLLSpline a = lib(m);
      for (int k : {m.codom - 1, m.codom + 1}) {
        Eigen::VectorXd v = Eigen::VectorXd::Ones(k);
        c.note("%s offset of size %d", str(s).c_str(), k);
        c.trans(4);
        if (!c.check(throws([&] { (void)(a + v); }) && throws([&] { (void)(v + a); }) && throws([&] { (void)(a - v); }) && throws([&] { (void)(v - a); }),
                     "offset-size", "an offset of the wrong size is accepted"))
          return;
        if (!c.check(throws([&] { (void)(GLLSpline(a) + v); }) && throws([&] { (void)(v + GLLSpline(a)); }) && throws([&] { (void)(GLLSpline(a) - v); }) && throws([&] { (void)(v - GLLSpline(a)); }),
                     "offset-size", "an offset of the wrong size is accepted"))
          return;
        if (!same(c, a, m, "unchanged")) return;
        c.trace();
      }
    });
    R_.add("pairs", objs.size() * objs.size(), [](mc::Ctx &c, uint64_t id) {
      const Shape &x = objs[id / objs.size()], &y = objs[id % objs.size()];
      for (int o = 0; o < NB; o++)
        for (int k = 0; k < ncat((B)o); k++) {
          M a = mk(x, 0), b = mk(y, 1);
          GLLSpline la = lib(a), lb = lib(b);
          int cat = catv((B)o, k);
          c.note("%s %s %s overload %d", str(x).c_str(), BN[o], str(y).c_str(), cat);
          c.trans();
          c.state(mc::hstr(c.get_note()));
          if (!allowed((B)o, a, b)) {
            bool inv = false;
            try {
              apply((B)o, cat, la, lb);
            } catch (const std::exception &) {
              inv = true;
            }
            if (!c.check(inv, std::string("accepted") + BN[o], "operands on different grids or of different shape are accepted")) return;
            if (!same(c, la, a, "left-after-refusal") || !same(c, lb, b, "right-after-refusal")) return;
            c.trace();
            continue;
          }
          M w = model((B)o, a, b);
          U r = apply((B)o, cat, la, lb);
          if (!same(c, *r, w, std::string("result") + BN[o])) return;
          if (mutates((B)o) && !same(c, la, w, std::string("target") + BN[o])) return;
          if (!mutates((B)o) && !(cat & 1) && !same(c, la, a, "left-unchanged")) return;
          if (!(cat & 2) && !same(c, lb, b, "right-unchanged")) return;
          // the result is a value: it survives its operands
          if (!(cat & 1) && !mutates((B)o)) la += GLLSpline(la);
          if (!(cat & 2)) lb += GLLSpline(lb);
          if (!same(c, *r, w, "result-independent")) return;
          c.trace();
        }
      if (id / objs.size() == id % objs.size()) { // one object with itself
        M a = mk(x, 0);
        for (int o = 0; o < NB; o++) {
          GLLSpline la = lib(a);
          c.note("%s %s itself", str(x).c_str(), BN[o]);
          c.trans();
          if (!allowed((B)o, a, a)) continue;
          U r = apply((B)o, 0, la, la);
          M w = model((B)o, a, a);
          if (!same(c, *r, w, "self")) return;
          if (!same(c, la, mutates((B)o) ? w : a, "self-operand")) return;
          c.trace();
        }
      }
      if (id % 97 == 11) c.sample(c.get_note());
    });
    // approximation and assignment of functions
    R_.add("approximate", shapes.size(), [](mc::Ctx &c, uint64_t id) {
      Shape s = shapes[id];
      M m = mk(s, 0);
      std::vector<double> uni_(s.n, (m.dom.second - m.dom.first) / s.n);
      for (auto &f : funs(m.dom, s.codom)) {
        c.note("%s approximate %s", str(s).c_str(), f.name.c_str());
        c.state(mc::hstr(c.get_note()));
        M w = sampled(m.dom, s.codom, s.g, uni_, f);
        c.trans(3);
        if (!same(c, GLLSpline::approximate(*f.f, s.g, s.n), w, "approximate")) return;
        if (!same(c, GLLSpline(*f.f, s.n, s.g), w, "from-function")) return;
        // assignment of a function: same relative partition, stretched to the function's domain
        for (double stretch : {1.0, 0.5, 3.0}) {
          Dom d2{m.dom.first + (stretch != 1 ? 0.5 : 0), 0};
          R e = d2.first;
          std::vector<double> t2;
          for (double t : m.tau) {
            t2.push_back(t * stretch);
            e += t2.back();
          }
          d2.second = (double)e;
          auto fs2 = funs(d2, s.codom);
          for (auto &f2 : fs2) {
            GLLSpline a = lib(m);
            c.note("%s = %s on [%g,%g]", str(s).c_str(), f2.name.c_str(), d2.first, d2.second);
            c.trans();
            GLLSpline &r = (a = *f2.f);
            if (!c.check(&r == &a, "assign-function", "does not return its target")) return;
            if (!same(c, a, sampled(d2, s.codom, s.g, t2, f2), "assign-function")) return;
            c.trace();
          }
        }
        for (int cd : {1, 2, 3}) {
          if (cd == s.codom) continue;
          GLLSpline a = lib(m);
          auto other = funs(m.dom, cd);
          c.note("%s = function with codomain %d", str(s).c_str(), cd);
          if (!c.check(throws([&] { a = *other[0].f; }), "assign-codomain", "a function of another codomain is accepted")) return;
          if (!same(c, a, m, "unchanged")) return;
        }
        c.trace();
      }
      // a spline given as a function, sampled on another grid
      {
        auto fs = funs(m.dom, s.codom);
        GLLSpline fine = GLLSpline::approximate(*fs.back().f, 20, 1), a = lib(m);
        c.note("%s = finer collocation spline given as a function", str(s).c_str());
        a = static_cast<const FB &>(fine);
        M w = sampled(m.dom, s.codom, s.g, m.tau, fs.back());
        if (m.dom.second - m.dom.first < 5 && !same(c, a, w, "assign-spline-function")) return;
        c.trace();
      }
      if (s.codom == 1) {
        c.note("%s identity", str(s).c_str());
        Fun idf{"id", nullptr, [](R t, int) { return t; }};
        if (!same(c, GLLSpline::identity(m.dom, s.g, s.n), sampled(m.dom, 1, s.g, uni_, idf), "identity")) return;
        c.trace();
      }
      // filling from an array of node values
      for (double stretch : {1.0, 2.5}) {
        GLLSpline a = lib(m);
        M w = mk(s, 3);
        w.dom = {m.dom.first - 1, m.dom.first - 1 + (m.dom.second - m.dom.first) * stretch};
        for (auto &t : w.tau) t *= stretch;
        std::vector<Eigen::VectorXd> arr;
        for (auto &x : w.v) {
          Eigen::VectorXd y(s.codom);
          for (int j = 0; j < s.codom; j++) y(j) = (double)x[j];
          arr.push_back(y);
        }
        c.note("%s set_from_array stretch %g", str(s).c_str(), stretch);
        c.trans();
        a.set_from_array(w.dom, arr.begin(), arr.end(), [](const Eigen::VectorXd &v) -> const Eigen::VectorXd & { return v; });
        if (!same(c, a, w, "set-from-array")) return;
        GLLSpline a2 = lib(m);
        a2.set_from_array(w.dom, arr.begin(), arr.end());
        if (!same(c, a2, w, "set-from-array-plain")) return;
        GLLSpline b = lib(m);
        arr.pop_back();
        auto idf = [](const Eigen::VectorXd &v) -> const Eigen::VectorXd & { return v; };
        if (!c.check(throws([&] { b.set_from_array(w.dom, arr.begin(), arr.end(), idf); }), "array-size", "too few values are accepted")) return;
        if (!same(c, b, m, "array-refused")) return;
        arr.push_back(Eigen::VectorXd::Ones(s.codom + 1));
        if (!c.check(throws([&] { b.set_from_array(w.dom, arr.begin(), arr.end(), idf); }), "array-size", "a value of the wrong size is accepted")) return;
        c.trace();
      }
    });
    // histories: three live objects, every sequence of operations up to a depth
    static std::vector<std::pair<Shape, int>> starts;
    for (int v : {1, 2, 3})
      for (Shape s : {Shape{0, 2, 3, 1, 0}, Shape{0, 1, 4, 0, 1}, Shape{0, 3, 2, 2, 0}})
        if (mc::THOROUGH || v == 2 || s.n == 2) starts.push_back({s, v});
    static int DEPTH = mc::THOROUGH ? 4 : 3;
    // moves: binary o on (i,j) -> stored in k ; unary u on i -> stored in k
    struct Mv {
      bool bin;
      int o, i, j, k, cat;
    };
    static std::vector<Mv> mvs;
    for (int o = 0; o < NB; o++)
      for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
          for (int k = 0; k < ncat((B)o); k++) {
            if (i == j && catv((B)o, k)) continue;
            mvs.push_back({true, o, i, j, i == j ? (i + 1) % 3 : 3 - i - j, catv((B)o, k)});
          }
    for (int u : {NEG, DIV, VSUB, POW2, NORM, ADDV})
      for (int i = 0; i < 3; i++)
        for (int mv = 0; mv < 2; mv++) mvs.push_back({false, u, i, i, (i + 2) % 3, mv});
    R_.add("histories", starts.size() * mvs.size(), [](mc::Ctx &c, uint64_t id) {
      auto st = starts[id % starts.size()];
      Shape s1 = st.first, s2 = st.first, s3 = st.first;
      s1.codom = 1;
      s2.codom = st.second;
      s3.codom = 1;
      s3.pat = s3.pat == 0 ? 0 : 0; // third object on the uniform grid
      std::vector<int> path{(int)(id / starts.size())};
      // run one full path from scratch; returns false when a move of the prefix is not applicable
      std::function<bool(bool)> run = [&](bool verify) {
        std::vector<M> ms{mk(s1, 1), mk(s2, 1), mk(s3, 3)};
        std::vector<U> os;
        for (auto &m : ms) os.push_back(std::make_unique<GLLSpline>(lib(m)));
        std::string txt;
        for (size_t q = 0; q < path.size(); q++) {
          const Mv &v = mvs[path[q]];
          bool last = q + 1 == path.size();
          txt += v.bin ? mc::fmt("o%d:=o%d%so%d[%d] ", v.k, v.i, BN[v.o], v.j, v.cat) : mc::fmt("o%d:=%s(o%d)[%d] ", v.k, UN[v.o], v.i, v.cat);
          c.note("%s / %s / %s : %s", str(s1).c_str(), str(s2).c_str(), str(s3).c_str(), txt.c_str());
          bool okk = v.bin ? allowed((B)v.o, ms[v.i], ms[v.j]) : allowed((Un)v.o, ms[v.i]);
          if (!okk) {
            if (!last) return false;
            c.trans();
            c.check(throws([&] { if (v.bin) apply((B)v.o, v.cat, *os[v.i], *os[v.j]); else apply((Un)v.o, v.cat, *os[v.i]); }), "accepted", "should be refused");
            for (int z = 0; z < 3; z++) same(c, *os[z], ms[z], "after-refusal");
            return false;
          }
          M w = v.bin ? model((B)v.o, ms[v.i], ms[v.j]) : model((Un)v.o, ms[v.i]);
          if (!w.ok) return false;
          U r = v.bin ? apply((B)v.o, v.cat, *os[v.i], *os[v.j]) : apply((Un)v.o, v.cat, *os[v.i]);
          // moved-from objects are replaced by fresh ones
          if (v.bin && mutates((B)v.o)) ms[v.i] = w;
          else {
            if (v.bin ? (v.cat & 1) : v.cat && v.o != NORM) os[v.i] = std::make_unique<GLLSpline>(lib(ms[v.i]));
          }
          if (v.bin && (v.cat & 2)) os[v.j] = std::make_unique<GLLSpline>(lib(ms[v.j]));
          os[v.k] = std::move(r);
          ms[v.k] = w;
          if (last) {
            c.trans();
            for (int z = 0; z < 3; z++)
              if (!same(c, *os[z], ms[z], mc::fmt("object%d", z))) return false;
            c.trace();
            uint64_t h = path.size();
            for (auto &m : ms) h = mc::mix(h, m.hash());
            return c.state(mc::mix(h, id % starts.size()));
          }
        }
        return true;
      };
      (void)0;
      std::function<void()> rec = [&]() {
        if (c.failed) return;
        bool fresh = run(true);
        if (!fresh || (int)path.size() >= DEPTH) return;
        for (size_t i = 0; i < mvs.size() && !c.failed; i++) {
          path.push_back(i);
          rec();
          path.pop_back();
        }
      };
      rec();
      if (id % 401 == 9) c.sample(c.get_note());
    }, 300);
  });
}
