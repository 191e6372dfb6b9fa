// Reference model of scalar/vector functions of one real variable: an abstract
// syntax tree evaluated with truncated Taylor arithmetic in long double.
#pragma once
#include <algorithm>
#include <cmath>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace ref {
typedef long double R;
typedef std::vector<R> Jet;   // Taylor coefficients c_0..c_K
typedef std::vector<Jet> VJet; // one per component
typedef std::pair<double, double> Dom;

enum Kind { CONST, LIN, EXP, COS, SIN, POLY, SUM, NEG, MUL, SCAL, COMP, CONCAT, DOT };

struct Node;
typedef std::shared_ptr<const Node> P;
struct Node {
  Kind k;
  Dom dom;
  size_t codom;
  std::vector<double> par; // constants / coefficients / factor
  P a, b;
  int size = 1, depth = 1;
};

inline P leaf(Kind k, Dom d, size_t c, std::vector<double> par) {
  auto n = std::make_shared<Node>();
  n->k = k;
  n->dom = d;
  n->codom = c;
  n->par = std::move(par);
  return n;
}
inline P un(Kind k, P a, std::vector<double> par = {}) {
  auto n = std::make_shared<Node>();
  n->k = k;
  n->dom = a->dom;
  n->codom = a->codom;
  n->par = std::move(par);
  n->a = a;
  n->size = a->size + 1;
  n->depth = a->depth + 1;
  return n;
}
inline P bin(Kind k, P a, P b) {
  auto n = std::make_shared<Node>();
  n->k = k;
  n->a = a;
  n->b = b;
  n->size = a->size + b->size + 1;
  n->depth = std::max(a->depth, b->depth) + 1;
  n->dom = a->dom;
  n->codom = a->codom;
  if (k == MUL) n->codom = std::max(a->codom, b->codom);
  if (k == COMP) n->dom = b->dom; // a after b
  if (k == CONCAT) n->dom = {a->dom.first, b->dom.second};
  if (k == DOT) n->codom = 1;
  return n;
}

struct Env {
  int K = 0;           // jet order
  R maxabs = 0;        // largest intermediate magnitude
  bool clamped = false; // a concatenation was evaluated outside its domain
  bool onbreak = false; // a concatenation was evaluated on an inner breakpoint
};

inline Jet jmul(const Jet &x, const Jet &y) {
  Jet z(x.size(), 0.0L);
  for (size_t i = 0; i < x.size(); i++)
    for (size_t j = 0; i + j < x.size(); j++) z[i + j] += x[i] * y[j];
  return z;
}

inline void breakpoints(const P &n, std::vector<double> &out) {
  if (n->k == CONCAT) {
    out.push_back(n->a->dom.second);
    out.push_back(n->b->dom.first);
  }
  if (n->k == COMP) {
    breakpoints(n->b, out);
    return; // breakpoints of the outer function live in another variable
  }
  if (n->a) breakpoints(n->a, out);
  if (n->b) breakpoints(n->b, out);
}

inline VJet eval(const P &n, R t, Env &e) {
  const int K = e.K;
  VJet r(n->codom, Jet(K + 1, 0.0L));
  switch (n->k) {
  case CONST:
    for (size_t i = 0; i < n->codom; i++) r[i][0] = n->par[i];
    break;
  case LIN:
    r[0][0] = n->par[0] * t;
    if (K > 0) r[0][1] = n->par[0];
    break;
  case EXP: {
    R f = 1;
    for (int i = 0; i <= K; i++) {
      if (i) f *= i;
      r[0][i] = expl(t) / f;
    }
    break;
  }
  case COS:
  case SIN: {
    R f = 1;
    for (int i = 0; i <= K; i++) {
      if (i) f *= i;
      int ph = (i + (n->k == COS ? 1 : 0)) % 4; // derivative i of sin is phase i
      R v = ph == 0 ? sinl(t) : ph == 1 ? cosl(t) : ph == 2 ? -sinl(t) : -cosl(t);
      r[0][i] = v / f;
    }
    break;
  }
  case POLY: {
    // Taylor shift by Horner
    Jet x(K + 1, 0.0L);
    x[0] = t;
    if (K > 0) x[1] = 1;
    Jet acc(K + 1, 0.0L);
    for (size_t i = n->par.size(); i-- > 0;) {
      acc = jmul(acc, x);
      acc[0] += n->par[i];
    }
    r[0] = acc;
    break;
  }
  case SUM: {
    VJet x = eval(n->a, t, e), y = eval(n->b, t, e);
    for (size_t i = 0; i < n->codom; i++)
      for (int k = 0; k <= K; k++) r[i][k] = x[i][k] + y[i][k];
    break;
  }
  case NEG: {
    r = eval(n->a, t, e);
    for (auto &j : r)
      for (auto &c : j) c = -c;
    break;
  }
  case SCAL: {
    r = eval(n->a, t, e);
    for (auto &j : r)
      for (auto &c : j) c *= n->par[0];
    break;
  }
  case MUL: {
    VJet x = eval(n->a, t, e), y = eval(n->b, t, e);
    for (size_t i = 0; i < n->codom; i++)
      r[i] = jmul(x.size() == 1 ? x[0] : x[i], y.size() == 1 ? y[0] : y[i]);
    break;
  }
  case DOT: {
    VJet x = eval(n->a, t, e), y = eval(n->b, t, e);
    for (size_t i = 0; i < x.size(); i++) {
      Jet z = jmul(x[i], y[i]);
      for (int k = 0; k <= K; k++) r[0][k] += z[k];
    }
    break;
  }
  case COMP: {
    Jet g = eval(n->b, t, e)[0];
    R g0 = g[0];
    VJet f = eval(n->a, g0, e);
    Jet h = g;
    h[0] = 0;
    for (size_t i = 0; i < n->codom; i++) {
      Jet acc(K + 1, 0.0L);
      for (int k = K; k >= 0; k--) {
        acc = jmul(acc, h);
        acc[0] += f[i][k];
      }
      r[i] = acc;
    }
    break;
  }
  case CONCAT: {
    // flattened pieces, right-hand piece at inner breakpoints
    std::vector<P> pieces;
    std::vector<P> st{n};
    while (!st.empty()) {
      P x = st.back();
      st.pop_back();
      if (x->k == CONCAT) {
        st.push_back(x->b);
        st.push_back(x->a);
      } else
        pieces.push_back(x);
    }
    size_t sel = pieces.size();
    for (size_t i = 0; i < pieces.size(); i++)
      if (pieces[i]->dom.first <= t && t < pieces[i]->dom.second) {
        sel = i;
        break;
      }
    for (size_t i = 1; i < pieces.size(); i++)
      if (fabsl(t - pieces[i]->dom.first) < 1e-9L) e.onbreak = true;
    if (sel < pieces.size())
      r = eval(pieces[sel], t, e);
    else if (t <= pieces.front()->dom.first) {
      e.clamped = true;
      r = eval(pieces.front(), pieces.front()->dom.first, e);
    } else {
      if (t > pieces.back()->dom.second) e.clamped = true;
      r = eval(pieces.back(), pieces.back()->dom.second, e);
    }
    break;
  }
  }
  R f = 1;
  for (int k = 0; k <= K; k++) {
    if (k) f *= k;
    for (auto &j : r) {
      R v = fabsl(j[k]) * f;
      if (!(v <= e.maxabs)) e.maxabs = std::isfinite((double)v) ? v : (R)1e300;
    }
  }
  return r;
}

inline std::string kindname(Kind k) {
  static const char *n[] = {"const", "lin", "exp", "cos", "sin", "poly", "sum", "neg", "mul", "scal", "comp", "concat", "dot"};
  return n[k];
}
} // namespace ref
