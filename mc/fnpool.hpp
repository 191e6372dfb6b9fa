// Expressions built twice: in the library (real objects, chosen lvalue/rvalue
// overload) and in the reference model.
#pragma once
#include "mc.hpp"
#include "reffn.hpp"
#include <eigen3/Eigen/Core>
#include <gsplines/Functions/ElementalFunctions.hpp>
#include <gsplines/Functions/FunctionBase.hpp>
#include <gsplines/Functions/FunctionExpression.hpp>
#include <map>
#include <set>

namespace fp {
using gsplines::functions::FunctionBase;
using gsplines::functions::FunctionExpression;
namespace gf = gsplines::functions;
typedef std::unique_ptr<FunctionBase> UB;
using ref::Dom;

// ----- recipes: a term is a deterministic program that rebuilds library object + model
enum Op { ATOM, ADD, SUB, MUL, COMP, CONCAT, DOTP, NEG, SCAL, WRAP, TOEXPR, CLONE, MCLONE, COPY, MOVE, DERIV0, ADDEQ, MULEQ };
inline const char *opname(Op o) {
  static const char *n[] = {"atom", "add", "sub", "mul", "compose", "concat", "dot", "neg", "scal", "wrap",
                            "to_expression", "clone", "move_clone", "copy", "move", "deriv0", "add-assign", "mul-assign"};
  return n[o];
}
struct Term;
typedef std::shared_ptr<const Term> T;
struct Term {
  Op op;
  int cat = 0;  // bit0: first operand moved, bit1: second operand moved
  int atom = -1;
  T a, b;
  ref::P model;
  std::string str() const {
    if (op == ATOM) return "a" + std::to_string(atom);
    std::string s = opname(op);
    s += cat == 0 ? "" : cat == 1 ? "[R_]" : cat == 2 ? "[_R]" : "[RR]";
    s += "(" + a->str();
    if (b) s += "," + b->str();
    return s + ")";
  }
};

struct AtomDef {
  std::string name;
  ref::P model;
  std::function<UB()> make;
};

inline std::vector<AtomDef> &atoms() {
  static std::vector<AtomDef> A;
  return A;
}
inline void def_atoms() {
  auto &A = atoms();
  if (!A.empty()) return;
  auto vec = [](std::vector<double> v) {
    return Eigen::VectorXd(Eigen::Map<Eigen::VectorXd>(v.data(), v.size()));
  };
  auto cst = [&](Dom d, std::vector<double> v) {
    A.push_back({"const", ref::leaf(ref::CONST, d, v.size(), v), [=]() -> UB {
                   Eigen::VectorXd x = vec(v);
                   return std::make_unique<gf::ConstFunction>(d, x);
                 }});
  };
  auto poly = [&](Dom d, std::vector<double> v) {
    A.push_back({"poly", ref::leaf(ref::POLY, d, 1, v),
                 [=]() -> UB { return std::make_unique<gf::CanonicPolynomial>(d, vec(v)); }});
  };
  Dom D0{0.0, 1.0}, D1{1.0, 2.5}, D2{2.5, 3.0}, Dm{-1.25, 0.0};
  /*0*/ A.push_back({"const", ref::leaf(ref::CONST, D0, 1, {1.5}), [=]() -> UB { return std::make_unique<gf::ConstFunction>(D0, 1, 1.5); }});
  /*1*/ cst(D0, {0.5, -2.0});
  /*2*/ cst(D0, {-1.0, 0.25, 3.0});
  /*3*/ A.push_back({"id", ref::leaf(ref::LIN, D0, 1, {1.0}), [=]() -> UB { return std::make_unique<gf::Identity>(D0); }});
  /*4*/ A.push_back({"lin", ref::leaf(ref::LIN, D0, 1, {-0.7}), [=]() -> UB { return std::make_unique<gf::DomainLinearDilation>(D0, -0.7); }});
  /*5*/ A.push_back({"exp", ref::leaf(ref::EXP, D0, 1, {}), [=]() -> UB { return std::make_unique<gf::Exponential>(D0); }});
  /*6*/ A.push_back({"cos", ref::leaf(ref::COS, D0, 1, {}), [=]() -> UB { return std::make_unique<gf::Cos>(D0); }});
  /*7*/ A.push_back({"sin", ref::leaf(ref::SIN, D0, 1, {}), [=]() -> UB { return std::make_unique<gf::Sin>(D0); }});
  /*8*/ poly(D0, {1.0, -2.0, 0.5, 3.0});
  /*9*/ poly(D0, {-0.75});
  /*10*/ A.push_back({"sin", ref::leaf(ref::SIN, D1, 1, {}), [=]() -> UB { return std::make_unique<gf::Sin>(D1); }});
  /*11*/ cst(D1, {2.0, 0.5});
  /*12*/ poly(D1, {0.5, 1.0, -0.25});
  /*13*/ poly(D2, {2.0, -1.0});
  /*14*/ A.push_back({"cos", ref::leaf(ref::COS, Dm, 1, {}), [=]() -> UB { return std::make_unique<gf::Cos>(Dm); }});
  /*15*/ A.push_back({"const", ref::leaf(ref::CONST, D1, 3, {0.4, 0.4, 0.4}), [=]() -> UB { return std::make_unique<gf::ConstFunction>(D1, 3, 0.4); }});
  /*16*/ cst(D2, {1.0, -1.0});
  /*17*/ A.push_back({"zero", ref::leaf(ref::CONST, D0, 2, {0.0, 0.0}), [=]() -> UB { return std::make_unique<FunctionExpression>(D0, 2); }});
}

inline T atom(int i) {
  auto t = std::make_shared<Term>();
  t->op = ATOM;
  t->atom = i;
  t->model = atoms()[i].model;
  return t;
}

inline bool same_dom(const ref::P &a, const ref::P &b) {
  return fabs(a->dom.first - b->dom.first) < 0.999e-9 && fabs(a->dom.second - b->dom.second) < 0.999e-9;
}
// well-typedness rules
inline bool well_typed(Op op, const ref::P &a, const ref::P &b) {
  switch (op) {
  case ADD:
  case SUB:
    return same_dom(a, b) && a->codom == b->codom;
  case ADDEQ:
    return same_dom(a, b) && a->codom == b->codom;
  case MUL:
    return same_dom(a, b) && (a->codom == 1 || b->codom == 1);
  case MULEQ:
    return same_dom(a, b) && b->codom == 1;
  case COMP:
    return b->codom == 1;
  case CONCAT:
    return a->codom == b->codom && fabs(a->dom.second - b->dom.first) <= 1.001e-9;
  case DOTP:
    return same_dom(a, b) && a->codom == b->codom;
  default:
    return true;
  }
}
const double kScal = -2.5;
inline ref::P model_of(Op op, const ref::P &a, const ref::P &b) {
  switch (op) {
  case ADD:
  case ADDEQ:
    return ref::bin(ref::SUM, a, b);
  case SUB:
    return ref::bin(ref::SUM, a, ref::un(ref::NEG, b));
  case MUL:
  case MULEQ:
    return ref::bin(ref::MUL, a, b);
  case COMP:
    return ref::bin(ref::COMP, a, b);
  case CONCAT:
    return ref::bin(ref::CONCAT, a, b);
  case DOTP:
    return ref::bin(ref::DOT, a, b);
  case NEG:
    return ref::un(ref::NEG, a);
  case SCAL:
    return ref::un(ref::SCAL, a, {kScal});
  default:
    return a;
  }
}
inline T mk(Op op, int cat, const T &a, const T &b = nullptr) {
  auto t = std::make_shared<Term>();
  t->op = op;
  t->cat = cat;
  t->a = a;
  t->b = b;
  t->model = model_of(op, a->model, b ? b->model : nullptr);
  return t;
}

inline bool is_expr(const FunctionBase &f) { return dynamic_cast<const FunctionExpression *>(&f) != nullptr; }
template <class X> UB up(X &&x) {
  typedef typename std::decay<X>::type D;
  return std::make_unique<D>(std::forward<X>(x));
}

// Applies op to real objects. `a`, `b` may be given away according to cat.
inline UB apply(Op op, int cat, FunctionBase &a, FunctionBase *b) {
  FunctionExpression *ea = dynamic_cast<FunctionExpression *>(&a);
  FunctionExpression *eb = b ? dynamic_cast<FunctionExpression *>(b) : nullptr;
  bool ma = cat & 1, mb = cat & 2;
#define BINOP(EXPR_LL, EXPR_RL, EXPR_LR, EXPR_RR)                                                  \
  if (eb) {                                                                                        \
    FunctionExpression &y = *eb;                                                                   \
    if (ea) {                                                                                      \
      FunctionExpression &x = *ea;                                                                 \
      return !ma && !mb ? up(EXPR_LL) : ma && !mb ? up(EXPR_RL) : !ma ? up(EXPR_LR) : up(EXPR_RR); \
    }                                                                                              \
    FunctionBase &x = a;                                                                           \
    return !ma && !mb ? up(EXPR_LL) : ma && !mb ? up(EXPR_RL) : !ma ? up(EXPR_LR) : up(EXPR_RR);   \
  } else {                                                                                         \
    FunctionBase &y = *b;                                                                          \
    if (ea) {                                                                                      \
      FunctionExpression &x = *ea;                                                                 \
      return !ma && !mb ? up(EXPR_LL) : ma && !mb ? up(EXPR_RL) : !ma ? up(EXPR_LR) : up(EXPR_RR); \
    }                                                                                              \
    FunctionBase &x = a;                                                                           \
    return !ma && !mb ? up(EXPR_LL) : ma && !mb ? up(EXPR_RL) : !ma ? up(EXPR_LR) : up(EXPR_RR);   \
  }
#define CX(v) static_cast<const std::decay_t<decltype(v)> &>(v)
#define CB(v) static_cast<const FunctionBase &>(v)
  switch (op) {
  case ADD:
    BINOP(CX(x) + CX(y), std::move(x) + CX(y), CX(x) + std::move(y), std::move(x) + std::move(y))
  case SUB:
    BINOP(CX(x) - CX(y), std::move(x) - CX(y), CX(x) - std::move(y), std::move(x) - std::move(y))
  case MUL:
    BINOP(CX(x) * CX(y), std::move(x) * CX(y), CX(x) * std::move(y), std::move(x) * std::move(y))
  case COMP:
    BINOP(CX(x).compose(CX(y)), std::move(x).compose(CX(y)), CX(x).compose(std::move(y)), std::move(x).compose(std::move(y)))
  case CONCAT:
    BINOP(CX(x).concat(CX(y)), std::move(x).concat(CX(y)), CX(x).concat(std::move(y)), std::move(x).concat(std::move(y)))
  case DOTP:
    if (!ma && !mb) return up(CB(a).dot(CB(*b)));
    if (ma && !mb) return up(std::move(a).dot(CB(*b)));
    if (!ma) return up(CB(a).dot(std::move(*b)));
    return up(std::move(a).dot(std::move(*b)));
  case NEG:
    if (ea) return ma ? up(-std::move(*ea)) : up(-CX(*ea));
    return ma ? up(-std::move(a)) : up(-CB(a));
  case SCAL:
    if (ea) return ma ? up(kScal * std::move(*ea)) : up(kScal * CX(*ea));
    return up(kScal * FunctionExpression(CB(a)));
  case WRAP:
    if (ma) return up(FunctionExpression(std::move(a)));
    return up(FunctionExpression(CB(a)));
  case TOEXPR:
    if (ma) return up(std::move(a).to_expression());
    return up(CB(a).to_expression());
  case CLONE:
    if (ma) return std::move(a).clone();
    return CB(a).clone();
  case MCLONE:
    return a.move_clone();
  case COPY:
    if (ea) return up(FunctionExpression(CX(*ea)));
    return CB(a).clone();
  case MOVE:
    if (ea) return up(FunctionExpression(std::move(*ea)));
    return a.move_clone();
  case DERIV0:
    if (ea && ma) return ea->deriv(0);
    return CB(a).deriv(0);
  case ADDEQ: {
    auto r = ea ? std::make_unique<FunctionExpression>(*ea) : std::make_unique<FunctionExpression>(CB(a));
    if (mb) {
      if (eb) *r += std::move(*eb);
      else *r += FunctionExpression(std::move(*b));
    } else {
      if (eb) *r += CX(*eb);
      else *r += FunctionExpression(CB(*b));
    }
    return r;
  }
  case MULEQ: {
    auto r = ea ? std::make_unique<FunctionExpression>(*ea) : std::make_unique<FunctionExpression>(CB(a));
    if (mb) {
      if (eb) *r *= std::move(*eb);
      else *r *= FunctionExpression(std::move(*b));
    } else {
      if (eb) *r *= CX(*eb);
      else *r *= FunctionExpression(CB(*b));
    }
    return r;
  }
  default:
    abort();
  }
}

inline UB build(const T &t) {
  if (t->op == ATOM) return atoms()[t->atom].make();
  UB a = build(t->a);
  UB b = t->b ? build(t->b) : nullptr;
  return apply(t->op, t->cat, *a, b.get());
}

// structural class used to choose representatives for the next level
inline std::string shape(const T &t, int d) {
  if (t->op == ATOM) return atoms()[t->atom].name + (t->model->codom > 1 ? "v" : "s");
  if (d == 0) return std::string(opname(t->op)) + (t->model->codom > 1 ? "v" : "s");
  std::string s = opname(t->op);
  s += "(" + shape(t->a, d - 1);
  if (t->b) s += "," + shape(t->b, d - 1);
  return s + ")";
}

inline Eigen::VectorXd test_points(const ref::P &m, bool outside) {
  double a = m->dom.first, b = m->dom.second, L = b - a;
  std::vector<double> p{a + 0.37 * L, b, a, a + 0.81 * L, a + 0.09 * L};
  if (outside) {
    p.push_back(b + 0.15 * L);
    p.push_back(a - 0.2 * L);
  }
  std::vector<double> bp;
  ref::breakpoints(m, bp);
  std::sort(bp.begin(), bp.end());
  bp.erase(std::unique(bp.begin(), bp.end()), bp.end());
  for (size_t i = 0; i < bp.size() && i < 4; i++) {
    p.push_back(bp[i]);
    p.push_back(bp[i] - 0.03);
    p.push_back(bp[i] + 0.02);
    p.push_back(bp[i] - 2e-8); // the pieces meet exactly there, not nearby
    p.push_back(bp[i] + 2e-8);
    p.push_back(bp[i] - 3e-5);
  }
  p.push_back(a + 0.37 * L); // repeated point, unsorted list
  if (!outside) p.erase(std::remove_if(p.begin(), p.end(), [&](double x) { return x < a || x > b; }), p.end());
  return Eigen::Map<Eigen::VectorXd>(p.data(), p.size());
}

// compares value, domain and codomain of a library object with the model
inline bool agrees(mc::Ctx &c, const FunctionBase &f, const ref::P &m, const std::string &key, bool outside = true,
                   int extra_modes = 1) {
  if (!c.check(f.get_codom_dim() == m->codom, key + "-codomain",
               mc::fmt("codomain dimension %zu, expected %zu", f.get_codom_dim(), m->codom)))
    return false;
  if (!c.check(fabs(f.get_domain().first - m->dom.first) < 1e-8 && fabs(f.get_domain().second - m->dom.second) < 1e-8,
               key + "-domain",
               mc::fmt("domain [%.12g,%.12g], expected [%.12g,%.12g]", f.get_domain().first, f.get_domain().second,
                       m->dom.first, m->dom.second)))
    return false;
  Eigen::VectorXd pts = test_points(m, outside);
  Eigen::MatrixXd v = f(pts);
  if (!c.check(v.rows() == pts.size() && v.cols() == (long)m->codom, key + "-shape", "wrong result shape")) return false;
  for (long i = 0; i < pts.size(); i++) {
    ref::Env e;
    ref::VJet w = ref::eval(m, pts[i], e);
    if (e.maxabs > 1e7L) continue;
    for (size_t j = 0; j < m->codom; j++)
      if (!c.close(v(i, j), w[j][0], 1e-8L, key + "-value",
                   mc::fmt("value at t=%.12g component %zu", pts[i], j), 1 + e.maxabs))
        return false;
  }
  if (extra_modes) {
    // one point at a time, and into a strided block of a larger matrix
    Eigen::MatrixXd big = Eigen::MatrixXd::Constant(pts.size() + 3, m->codom + 2, 7.25);
    f.value(pts, big.block(2, 1, pts.size(), m->codom));
    for (long i = 0; i < pts.size(); i++) {
      Eigen::MatrixXd s = f.value(pts.segment(i, 1));
      for (size_t j = 0; j < m->codom; j++) {
        double x = v(i, j), sc = 1 + fabs(x);
        if (!c.check((fabs(s(0, j) - x) <= 1e-10 * sc && fabs(big(2 + i, 1 + j) - x) <= 1e-10 * sc) || !(fabs(x) < 1e7),
                     key + "-batch",
                     mc::fmt("t=%.12g comp %zu: list value %.17g single %.17g block %.17g", pts[i], j, x, s(0, j), big(2 + i, 1 + j))))
          return false;
      }
    }
    for (long i = 0; i < big.rows(); i++)
      for (long j = 0; j < big.cols(); j++)
        if ((i < 2 || i >= 2 + pts.size() || j < 1 || j >= 1 + (long)m->codom) && big(i, j) != 7.25) {
          c.fail(key + "-overrun", "evaluation wrote outside its result block");
          return false;
        }
  }
  return true;
}

// order-n derivative comparison in the interior of the pieces
inline bool deriv_agrees(mc::Ctx &c, const FunctionBase &df, const ref::P &m, int n, const std::string &key) {
  if (!c.check(df.get_codom_dim() == m->codom, key + "-codomain", mc::fmt("order %d: codomain %zu, expected %zu", n, df.get_codom_dim(), m->codom)))
    return false;
  if (!c.check(fabs(df.get_domain().first - m->dom.first) < 1e-8 && fabs(df.get_domain().second - m->dom.second) < 1e-8,
               key + "-domain", mc::fmt("order %d: domain [%.12g,%.12g], expected [%.12g,%.12g]", n, df.get_domain().first,
                                        df.get_domain().second, m->dom.first, m->dom.second)))
    return false;
  Eigen::VectorXd pts = test_points(m, false);
  Eigen::MatrixXd v = df(pts);
  long double fact = 1;
  for (int i = 2; i <= n; i++) fact *= i;
  for (long i = 0; i < pts.size(); i++) {
    ref::Env e;
    e.K = n;
    ref::VJet w = ref::eval(m, pts[i], e);
    if (e.maxabs > 1e7L || (n > 0 && (e.clamped || e.onbreak))) continue;
    for (size_t j = 0; j < m->codom; j++)
      if (!c.close(v(i, j), w[j][n] * fact, 1e-7L, key + "-value",
                   mc::fmt("order %d derivative at t=%.12g component %zu", n, pts[i], j), 1 + e.maxabs * (n > 2 ? 10 : 1)))
        return false;
  }
  return true;
}

// ----- level-wise enumeration of terms -----
inline const std::vector<Op> &binops() {
  static std::vector<Op> o{ADD, SUB, MUL, COMP, CONCAT, DOTP, ADDEQ, MULEQ};
  return o;
}
inline const std::vector<Op> &unops() {
  static std::vector<Op> o{NEG, SCAL, WRAP, TOEXPR, CLONE, MCLONE, COPY, MOVE, DERIV0};
  return o;
}
inline int ncat(Op o) {
  switch (o) {
  case ADD: case SUB: case MUL: case COMP: case CONCAT: case DOTP: return 4;
  case ADDEQ: case MULEQ: return 2; // right operand copied or moved
  case MCLONE: case MOVE: return 1;
  default: return 2;
  }
}
inline int catval(Op o, int k) { return (o == ADDEQ || o == MULEQ) ? 2 * k : k; }

// representatives: one term per (depth-2 shape, domain, codomain)
inline std::vector<T> representatives(const std::vector<T> &in, int per_class, int depth) {
  std::map<std::string, int> seen;
  std::vector<T> out;
  for (auto &t : in) {
    std::string k = shape(t, depth) + mc::fmt("|%g,%g|%zu", t->model->dom.first, t->model->dom.second, t->model->codom);
    if (seen[k]++ < per_class) out.push_back(t);
  }
  return out;
}

// A family of long/wide terms: n-ary chains of every operator, associated to the left, to the right and
// balanced, in every overload, over alternating operands.
struct Wide {
  Op op;
  int n, assoc, cat, flavour;
};
inline std::vector<Wide> wides() {
  std::vector<Wide> w;
  int N = mc::THOROUGH ? 12 : 9;
  for (Op o : {ADD, SUB, MUL, COMP, CONCAT, ADDEQ, MULEQ})
    for (int n = 2; n <= N; n++)
      for (int as = 0; as < 3; as++)
        for (int k = 0; k < ncat(o); k++)
          for (int f = 0; f < 3; f++) w.push_back({o, n, as, catval(o, k), f});
  return w;
}
inline int wide_atom(Dom d, int kind, int idx) {
  // dynamically defined atoms on arbitrary domains; memoised by description
  static std::map<std::string, int> memo;
  std::string key = mc::fmt("%g,%g,%d,%d", d.first, d.second, kind, idx);
  auto it = memo.find(key);
  if (it != memo.end()) return it->second;
  auto &A = atoms();
  if (kind == 0) {
    std::vector<double> co{0.3 + 0.1 * idx, 0.2 - 0.07 * idx, 0.15 * (idx % 3)};
    A.push_back({"poly", ref::leaf(ref::POLY, d, 1, co), [=]() -> UB {
                   std::vector<double> v = co;
                   return std::make_unique<gf::CanonicPolynomial>(d, Eigen::VectorXd(Eigen::Map<Eigen::VectorXd>(v.data(), v.size())));
                 }});
  } else if (kind == 1) {
    std::vector<double> v{0.5 + 0.1 * idx, -1.0 + 0.3 * idx};
    A.push_back({"const", ref::leaf(ref::CONST, d, 2, v), [=]() -> UB {
                   std::vector<double> w = v;
                   Eigen::VectorXd x = Eigen::Map<Eigen::VectorXd>(w.data(), w.size());
                   return std::make_unique<gf::ConstFunction>(d, x);
                 }});
  } else {
    A.push_back({"sin", ref::leaf(ref::SIN, d, 1, {}), [=]() -> UB { return std::make_unique<gf::Sin>(d); }});
  }
  return memo[key] = (int)A.size() - 1;
}
// flavour 0: bare atoms; 1: vector first operand / expression operands; 2: every second operand is itself compound
inline T wide_term(const Wide &w) {
  def_atoms();
  std::vector<T> x;
  for (int i = 0; i < w.n; i++) {
    Dom d{0.0, 1.0};
    if (w.op == CONCAT) d = {0.5 * i * (1 + 0.1 * i), 0.5 * (i + 1) * (1 + 0.1 * (i + 1))};
    T t;
    if (w.op == COMP || w.op == MUL || w.op == MULEQ) {
      bool v = w.flavour == 1 && i == 0;
      t = atom(wide_atom(d, v ? 1 : (i % 3 == 2 ? 2 : 0), i));
    } else
      t = atom(wide_atom(d, w.flavour == 1 ? 1 : (i % 3 == 2 ? 2 : 0), i));
    if (w.flavour == 1 && i % 2 == 1) t = mk(WRAP, 0, t);
    if (w.flavour == 2 && i % 2 == 1) t = i % 4 == 1 ? mk(NEG, 0, t) : mk(SCAL, 0, t);
    x.push_back(t);
  }
  std::function<T(int, int)> bal = [&](int lo, int hi) -> T {
    if (hi - lo == 1) return x[lo];
    int mid = (lo + hi) / 2;
    return mk(w.op, w.cat, bal(lo, mid), bal(mid, hi));
  };
  T r;
  if (w.assoc == 0) {
    r = x[0];
    for (int i = 1; i < w.n; i++) r = mk(w.op, w.cat, r, x[i]);
  } else if (w.assoc == 1) {
    r = x[w.n - 1];
    for (int i = w.n - 2; i >= 0; i--) r = mk(w.op, w.cat, x[i], r);
  } else
    r = bal(0, w.n);
  return r;
}
inline bool term_ok(const T &t) {
  if (t->op == ATOM) return true;
  if (!term_ok(t->a) || (t->b && !term_ok(t->b))) return false;
  return !t->b || well_typed(t->op, t->a->model, t->b->model);
}

// elementary functions over many domains, sizes and list lengths
struct Elem {
  int kind, dom, size;
};
inline std::vector<Dom> elem_doms() { return {{0, 1}, {-1.5, -0.25}, {-1, 1}, {2, 7.5}, {0, 0.001}, {-12, 3}, {100, 101}, {1, 1}}; }
inline std::vector<Elem> elems() {
  std::vector<Elem> e;
  for (size_t d = 0; d < elem_doms().size(); d++) {
    for (int s = 1; s <= 9; s++) e.push_back({0, (int)d, s});                // const, codomain s
    for (int s = 1; s <= (mc::THOROUGH ? 24 : 14); s++) e.push_back({1, (int)d, s}); // polynomial with s coefficients
    for (int k = 2; k <= 8; k++) e.push_back({k, (int)d, 1});
  }
  return e;
}
inline std::pair<UB, ref::P> make_elem(const Elem &e) {
  Dom d = elem_doms()[e.dom];
  auto vec = [](std::vector<double> v) { return Eigen::VectorXd(Eigen::Map<Eigen::VectorXd>(v.data(), v.size())); };
  std::vector<double> v;
  double big = std::max(1.0, std::max(fabs(d.first), fabs(d.second)));
  switch (e.kind) {
  case 0: {
    for (int i = 0; i < e.size; i++) v.push_back(0.5 - 1.25 * i + 0.1 * i * i);
    Eigen::VectorXd x = vec(v);
    return {std::make_unique<gf::ConstFunction>(d, x), ref::leaf(ref::CONST, d, v.size(), v)};
  }
  case 1:
    for (int i = 0; i < e.size; i++) v.push_back((i % 2 ? -1.0 : 1.0) * (0.7 + 0.3 * ((i * 7) % 5)) / pow(big, i));
    return {std::make_unique<gf::CanonicPolynomial>(d, vec(v)), ref::leaf(ref::POLY, d, 1, v)};
  case 2:
    return {std::make_unique<gf::Identity>(d), ref::leaf(ref::LIN, d, 1, {1.0})};
  case 3:
    return {std::make_unique<gf::DomainLinearDilation>(d, -3.25), ref::leaf(ref::LIN, d, 1, {-3.25})};
  case 4:
    return {std::make_unique<gf::Exponential>(d), ref::leaf(ref::EXP, d, 1, {})};
  case 5:
    return {std::make_unique<gf::Cos>(d), ref::leaf(ref::COS, d, 1, {})};
  case 6:
    return {std::make_unique<gf::Sin>(d), ref::leaf(ref::SIN, d, 1, {})};
  case 7:
    return {std::make_unique<FunctionExpression>(d, 3), ref::leaf(ref::CONST, d, 3, {0, 0, 0})};
  default:
    return {std::make_unique<gf::ConstFunction>(d, 5, -0.125), ref::leaf(ref::CONST, d, 5, {-0.125, -0.125, -0.125, -0.125, -0.125})};
  }
}

// operands with special values (zeros, ones, vanishing coefficients, large codomains), which an implementation may be
// tempted to treat apart
inline std::vector<T> specials() {
  static std::vector<T> r;
  if (!r.empty()) return r;
  def_atoms();
  auto &A = atoms();
  auto add = [&](const std::string &name, const ref::P &m, std::function<UB()> f) {
    A.push_back({name, m, f});
    r.push_back(atom((int)A.size() - 1));
  };
  auto ev = [](const std::vector<double> &v) { return Eigen::VectorXd(Eigen::Map<const Eigen::VectorXd>(v.data(), v.size())); };
  Dom D0{0.0, 1.0}, D1{1.0, 2.5};
  for (double x : {0.0, 1.0, -1.0})
    add("const", ref::leaf(ref::CONST, D0, 1, {x}), [=]() -> UB { return std::make_unique<gf::ConstFunction>(D0, 1, x); });
  for (std::vector<double> v : {std::vector<double>{0, 0}, {1, 1}, {1, 0}, {0, 0, 5}})
    add("const", ref::leaf(ref::CONST, D0, v.size(), v), [=]() -> UB {
      Eigen::VectorXd x = ev(v);
      return std::make_unique<gf::ConstFunction>(D0, x);
    });
  for (std::vector<double> v : {std::vector<double>{0}, {1}, {0, 1}, {0, 0, 2}, {1, 0, 0, 0}, {0, -1, 0, 2}, {1, 0, 0, 0, 0, 0, 0, 1}})
    add("poly", ref::leaf(ref::POLY, D0, 1, v), [=]() -> UB { return std::make_unique<gf::CanonicPolynomial>(D0, ev(v)); });
  for (double x : {0.0, 1.0, -1.0})
    add("lin", ref::leaf(ref::LIN, D0, 1, {x}), [=]() -> UB { return std::make_unique<gf::DomainLinearDilation>(D0, x); });
  add("zero", ref::leaf(ref::CONST, D0, 1, {0}), [=]() -> UB { return std::make_unique<FunctionExpression>(D0, 1); });
  add("zero", ref::leaf(ref::CONST, D1, 2, {0, 0}), [=]() -> UB { return std::make_unique<FunctionExpression>(D1, 2); });
  for (int n : {5, 8, 9, 17}) {
    std::vector<double> v;
    for (int i = 0; i < n; i++) v.push_back(0.5 - 0.3 * i + 0.02 * i * i);
    for (Dom d : {D0, D1})
      add("const", ref::leaf(ref::CONST, d, n, v), [=]() -> UB {
        Eigen::VectorXd x = ev(v);
        return std::make_unique<gf::ConstFunction>(d, x);
      });
    r.push_back(mk(MUL, 0, r[r.size() - 2], atom(7))); // a varying one
    r.push_back(mk(MUL, 3, r[r.size() - 2], atom(12)));
  }
  return r;
}
inline const std::vector<double> &scalars() {
  static std::vector<double> s{0.0, 1.0, -1.0, 2.0, -0.5, 1e-7, 1e6};
  return s;
}

struct Pool {
  std::vector<T> L0, L1, R1, R1small;
};
inline Pool &pool() {
  static Pool p;
  if (!p.L0.empty()) return p;
  def_atoms();
  for (size_t i = 0; i < atoms().size(); i++) p.L0.push_back(atom(i));
  // level 1, every operator/overload on every pair of atoms
  for (auto &a : p.L0) {
    for (Op o : unops())
      for (int k = 0; k < ncat(o); k++) p.L1.push_back(mk(o, catval(o, k), a));
    for (auto &b : p.L0)
      for (Op o : binops()) {
        if (!well_typed(o, a->model, b->model)) continue;
        for (int k = 0; k < ncat(o); k++) p.L1.push_back(mk(o, catval(o, k), a, b));
      }
  }
  // representatives for level 2: one per operator kind / operand vectorness / domain / codomain
  {
    std::map<std::string, int> seen;
    for (auto &t : p.L1) {
      if (t->op == CLONE || t->op == MCLONE || t->op == COPY || t->op == MOVE || t->op == DERIV0 || t->op == TOEXPR) continue;
      if (t->op == ADDEQ || t->op == MULEQ) continue;
      std::string k = std::string(opname(t->op)) + mc::fmt("|%g,%g|%zu|", t->model->dom.first, t->model->dom.second, t->model->codom);
      if (t->b && t->op == MUL) k += (t->a->model->codom > 1 ? "V" : "S");
      if (t->b && t->op == COMP) k += (t->a->model->dom == t->b->model->dom ? "s" : "d");
      int lim = mc::THOROUGH ? 2 : 1;
      // skip the most degenerate operands so that representatives are informative
      if (t->a->atom == 0 || t->a->atom == 9 || (t->b && (t->b->atom == 0 || t->b->atom == 9))) continue;
      if (seen[k]++ < lim) p.R1.push_back(t);
    }
    for (auto &t : p.L0) p.R1.push_back(t);
  }
  return p;
}
} // namespace fp
