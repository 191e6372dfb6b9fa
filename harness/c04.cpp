#include "fnpool.hpp"
using namespace fp;
// Every pair of expression kinds x domains x codomains x operator x overload: verdict of the
// implementation (accepted / invalid_argument) against the typing rules; operands intact after a refusal.

struct Shape {
  int kind; // expression kind
  Dom d;
  int codom;
};
static std::vector<Shape> shapes() {
  std::vector<Shape> s;
  std::vector<Dom> D{{0, 1}, {0, 1.5}, {-0.5, 1}, {1, 2}, {1.5, 2}, {0.25, 0.75}, {0.4, 0.8}, {1.00001, 2}, {0.99999, 2},
                     {0 + 4e-10, 1 - 4e-10}, {0, 1 + 5e-9}, {5e-9, 1}, {1 + 4e-10, 2}, {1 - 5e-9, 2}, {1 + 5e-9, 2}, {10, 11}, {-1, 0}, {11, 12.5}};
  for (int kind = 0; kind < 9; kind++)
    for (size_t d = 0; d < D.size(); d++) {
      if (kind != 0 && kind != 1 && d > 4) continue;
      for (int c : {1, 2, 3}) {
        if (kind > 1 && c == 3) continue;
        s.push_back({kind, D[d], c});
      }
    }
  return s;
}
static UB mkconst(Dom d, int c, double v) { return std::make_unique<gf::ConstFunction>(d, c, v); }
static UB mkshape(const Shape &s) {
  Dom d = s.d;
  int c = s.codom;
  auto E = [&](double v) { return FunctionExpression(gf::ConstFunction(d, c, v)); };
  auto Sc = [&](double v) { return FunctionExpression(gf::ConstFunction(d, 1, v)); };
  switch (s.kind) {
  case 0: return mkconst(d, c, 2.0);
  case 1: return up(E(2.0));
  case 2: return up(E(1.5) + E(0.5));
  case 3: return up(E(1.0) * Sc(2.0));
  case 4: return up(E(2.0).compose(FunctionExpression(gf::Identity(d))));
  case 5: {
    double m = 0.5 * (d.first + d.second);
    FunctionExpression l(gf::ConstFunction({d.first, m}, c, 2.0)), r(gf::ConstFunction({m, d.second}, c, 2.0));
    return up(l.concat(r));
  }
  case 6: return up(-E(-2.0));
  case 7: return up(FunctionExpression(static_cast<const FunctionBase &>(E(1.0) + E(1.0))));
  default: return up(E(1.0) * Sc(2.0) + E(0.0));
  }
}
static ref::P mshape(const Shape &s) { return ref::leaf(ref::CONST, s.d, s.codom, std::vector<double>(s.codom, 2.0)); }

// intact: value 2 everywhere, same domain and codomain, derivative 0
static bool intact(const FunctionBase &f, const Shape &s) {
  if ((int)f.get_codom_dim() != s.codom || f.get_domain() != s.d) return false;
  Eigen::VectorXd p(3);
  p << s.d.first, 0.5 * (s.d.first + s.d.second), 0.3 * s.d.first + 0.7 * s.d.second;
  Eigen::MatrixXd v = f(p);
  if (!((v.array() - 2.0).abs() < 1e-12).all()) return false;
  return ((*f.deriv(1))(p).array().abs() < 1e-12).all();
}

int main(int argc, char **argv) {
  return mc::run(argc, argv, [](mc::Registry &R) {
    static auto S = shapes();
    R.add("pairs", S.size(), [](mc::Ctx &c, uint64_t i) {
      for (size_t j = 0; j < S.size(); j++) {
        const Shape &x = S[i], &y = S[j];
        ref::P mx = mshape(x), my = mshape(y);
        for (Op o : {ADD, SUB, MUL, COMP, CONCAT, ADDEQ, MULEQ}) {
          bool inplace = o == ADDEQ || o == MULEQ;
          bool ok = well_typed(o, mx, my);
          for (int k = 0; k < ncat(o); k++) {
            int cat = catval(o, k);
            UB a = mkshape(x), b = mkshape(y);
            c.note("%s cat=%d lhs(kind %d dom [%.12g,%.12g] codom %d) rhs(kind %d dom [%.12g,%.12g] codom %d)", opname(o), cat,
                   x.kind, x.d.first, x.d.second, x.codom, y.kind, y.d.first, y.d.second, y.codom);
            c.trans();
            bool threw = false;
            UB r;
            FunctionExpression *ea = dynamic_cast<FunctionExpression *>(a.get());
            FunctionExpression *eb = dynamic_cast<FunctionExpression *>(b.get());
            if (inplace && (!ea || !eb)) continue;
            try {
              if (inplace) {
                if (o == ADDEQ) cat ? (*ea += std::move(*eb)) : (*ea += static_cast<const FunctionExpression &>(*eb));
                else cat ? (*ea *= std::move(*eb)) : (*ea *= static_cast<const FunctionExpression &>(*eb));
              } else
                r = apply(o, cat, *a, b.get());
            } catch (const std::invalid_argument &) {
              threw = true;
            }
            if (!c.check(threw == !ok, ok ? "wrongly-rejected" : "wrongly-accepted",
                         ok ? "a well-typed combination was rejected" : "an ill-typed combination was accepted"))
              return;
            if (threw) {
              // an operand handed over as an rvalue to a refused operation: only lvalues are promised
              // (a bare elementary function given as rvalue is converted first)
              if (!(cat & 1) && !c.check(intact(*a, x), "left-operand-changed", "left operand changed by a rejected operation")) return;
              if (!(cat & 2) && !c.check(intact(*b, y), "right-operand-changed", "right operand changed by a rejected operation")) return;
            } else if (!inplace) {
              ref::P m = model_of(o, mx, my);
              if (!c.check(r->get_codom_dim() == m->codom && fabs(r->get_domain().first - m->dom.first) < 2e-9 &&
                               fabs(r->get_domain().second - m->dom.second) < 2e-9,
                           "accepted-type", "accepted combination has the wrong domain or codomain"))
                return;
              if (!(cat & 1) && !c.check(intact(*a, x), "left-operand-changed", "left operand changed")) return;
              if (!(cat & 2) && !c.check(intact(*b, y), "right-operand-changed", "right operand changed")) return;
            } else {
              if (!(cat & 2) && !c.check(intact(*b, y), "right-operand-changed", "right operand changed")) return;
              double want = o == ADDEQ ? 4.0 : 4.0;
              Eigen::VectorXd p(1);
              p << 0.5 * (x.d.first + x.d.second);
              Eigen::MatrixXd v = (*a)(p);
              if (!c.check((int)v.cols() == x.codom && ((v.array() - want).abs() < 1e-12).all(), "accepted-value", "compound assignment gave a wrong value")) return;
            }
            c.trace();
            c.state(mc::mix(mc::mix(i, j), o * 8 + k));
          }
        }
      }
      if (i % 41 == 7) c.sample(c.get_note());
    }, 300, 1);
    // dot products: same domain and codomain dimension, in every overload
    R.add("dot", S.size(), [](mc::Ctx &c, uint64_t i) {
      for (size_t j = 0; j < S.size(); j++) {
        const Shape &x = S[i], &y = S[j];
        bool ok = same_dom(mshape(x), mshape(y)) && x.codom == y.codom;
        for (int cat = 0; cat < 4; cat++) {
          UB a = mkshape(x), b = mkshape(y);
          const FunctionBase &ca = *a, &cb = *b;
          c.note("dot cat=%d lhs(kind %d dom [%.12g,%.12g] codom %d) rhs(kind %d dom [%.12g,%.12g] codom %d)", cat, x.kind, x.d.first,
                 x.d.second, x.codom, y.kind, y.d.first, y.d.second, y.codom);
          c.trans();
          bool threw = false;
          std::unique_ptr<gf::DotProduct> r;
          try {
            switch (cat) {
            case 0: r = std::make_unique<gf::DotProduct>(ca.dot(cb)); break;
            case 1: r = std::make_unique<gf::DotProduct>(std::move(*a).dot(cb)); break;
            case 2: r = std::make_unique<gf::DotProduct>(ca.dot(std::move(*b))); break;
            default: r = std::make_unique<gf::DotProduct>(std::move(*a).dot(std::move(*b)));
            }
          } catch (const std::invalid_argument &) {
            threw = true;
          }
          if (!c.check(threw == !ok, ok ? "wrongly-rejected" : "wrongly-accepted",
                       ok ? "a well-typed dot product was rejected" : "an ill-typed dot product was accepted"))
            return;
          if (!(cat & 1) && !c.check(intact(*a, x), "left-operand-changed", "left operand changed")) return;
          if (!(cat & 2) && !c.check(intact(*b, y), "right-operand-changed", "right operand changed")) return;
          if (!threw) {
            Eigen::VectorXd p(1);
            p << 0.5 * (x.d.first + x.d.second);
            if (!c.check(r->get_codom_dim() == 1 && fabs(r->get_domain().first - x.d.first) < 2e-9 &&
                             fabs(r->get_domain().second - x.d.second) < 2e-9 && fabs((*r)(p)(0, 0) - 4.0 * x.codom) < 1e-12,
                         "accepted-value", "accepted dot product is wrong"))
              return;
          }
          c.trace();
          c.state(mc::mix(mc::mix(i, j), 1000 + cat));
        }
      }
    }, 300, 1);
    // same_domain / same_codomain predicates, both forms
    R.add("predicates", S.size(), [](mc::Ctx &c, uint64_t i) {
      for (size_t j = 0; j < S.size(); j++) {
        UB a = mkshape(S[i]), b = mkshape(S[j]);
        c.note("predicates shape %d,%d", (int)i, (int)j);
        c.trans();
        bool sd = same_dom(mshape(S[i]), mshape(S[j])), sc = S[i].codom == S[j].codom;
        if (!c.check(FunctionBase::same_domain(*a, *b) == sd && FunctionBase::same_codomain(*a, *b) == sc && a->same_codomain(*b) == sc,
                     "predicate", "same_domain/same_codomain disagree with the rule"))
          return;
      }
    });
  });
}
