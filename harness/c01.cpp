#include "fnpool.hpp"
using namespace fp;

static uint64_t canon(const T &t) { return mc::hstr(t->str()); }

static void visit(mc::Ctx &c, const T &t, bool modes) {
  c.note_s(t->str());
  c.trans();
  UB f = build(t);
  if (agrees(c, *f, t->model, opname(t->op), true, modes)) c.trace();
  c.state(canon(t));
}

int main(int argc, char **argv) {
  return mc::run(argc, argv, [](mc::Registry &R) {
    Pool &p = pool();
    R.add("elementary", p.L0.size(), [&](mc::Ctx &c, uint64_t i) {
      visit(c, p.L0[i], true);
      if (i < 3) c.sample(p.L0[i]->str() + " = " + atoms()[i].name);
    });
    // elementary functions over many domains/sizes, and long point lists
    static auto E = elems();
    R.add("elementary-wide", E.size(), [](mc::Ctx &c, uint64_t i) {
      auto pr = make_elem(E[i]);
      c.note("elementary kind=%d dom=%d size=%d", E[i].kind, E[i].dom, E[i].size);
      c.trans();
      c.state(mc::hstr(c.get_note()));
      if (!agrees(c, *pr.first, pr.second, "elementary")) return;
      Dom d = pr.second->dom;
      for (int n : {1, 2, 3, 7, 16, 33, 100, 257}) {
        Eigen::VectorXd pts(n);
        for (int k = 0; k < n; k++) pts[k] = d.first + (d.second - d.first) * ((k * 37 + 11) % 101) / 100.0;
        Eigen::MatrixXd v = pr.first->value(pts);
        for (int k = 0; k < n; k++) {
          ref::Env e;
          auto w = ref::eval(pr.second, pts[k], e);
          for (size_t j = 0; j < w.size(); j++)
            if (!c.close(v(k, j), w[j][0], 1e-9L, "elementary-list", mc::fmt("n=%d t=%.12g", n, pts[k]), 1 + e.maxabs)) return;
        }
      }
      c.trace();
    });
    static auto W = wides();
    R.add("n-ary", W.size(), [](mc::Ctx &c, uint64_t i) {
      T t = wide_term(W[i]);
      if (!term_ok(t)) return;
      visit(c, t, false);
      if (i % 397 == 5) c.sample(t->str().substr(0, 300));
    });
    // operands with special values on either side of every operator, and special scalars
    static std::vector<T> SP = specials(), SB = p.R1;
    SB.insert(SB.end(), SP.begin(), SP.end());
    R.add("special-operands", SP.size(), [](mc::Ctx &c, uint64_t i) {
      visit(c, SP[i], true);
      for (Op o : unops())
        for (int k = 0; k < ncat(o); k++) visit(c, mk(o, catval(o, k), SP[i]), true);
      for (auto &b : SB)
        for (Op o : binops())
          for (int sw = 0; sw < 2; sw++)
            for (int k = 0; k < ncat(o); k++) {
              const T &l = sw ? b : SP[i], &r = sw ? SP[i] : b;
              if (!well_typed(o, l->model, r->model)) continue;
              T t = mk(o, catval(o, k), l, r);
              visit(c, t, k == 0);
              if (k == 1) visit(c, mk(NEG, 0, t), false);
              if (c.failed) return;
            }
    });
    R.add("special-scalars", SB.size(), [](mc::Ctx &c, uint64_t i) {
      for (double x : scalars())
        for (int k = 0; k < 4; k++) {
          c.note("%g * %s %d", x, SB[i]->str().c_str(), k);
          c.trans();
          UB f = build(SB[i]);
          auto *q = dynamic_cast<FunctionExpression *>(f.get());
          FunctionExpression e = q ? FunctionExpression(*q) : FunctionExpression(*f);
          FunctionExpression r = k & 1 ? x * std::move(e) : x * static_cast<const FunctionExpression &>(e);
          ref::P m = ref::un(ref::SCAL, SB[i]->model, {x});
          if (k & 2) {
            FunctionExpression r2 = r * FunctionExpression(gf::ConstFunction(r.get_domain(), 1, x));
            if (!agrees(c, r2, ref::un(ref::SCAL, m, {x}), "scalar-multiple", true, 0)) return;
          } else if (!agrees(c, r, m, "scalar-multiple", true, k == 0)) return;
          c.state(mc::hstr(c.get_note()));
          c.trace();
        }
    });
    // long point lists on compound expressions
    R.add("long-lists", SB.size(), [](mc::Ctx &c, uint64_t i) {
      UB f = build(SB[i]);
      c.note_s("long lists " + SB[i]->str());
      Dom d = SB[i]->model->dom;
      for (int n : {1, 2, 3, 7, 8, 9, 16, 31, 32, 33, 64, 65, 100, 257, 1030}) {
        c.trans();
        Eigen::VectorXd pts(n);
        for (int k = 0; k < n; k++) pts[k] = d.first + (d.second - d.first) * (0.0037 + 0.99 * ((k * 37 + 11) % 101) / 100.0);
        Eigen::MatrixXd v = f->value(pts);
        for (int k = 0; k < n; k++) {
          ref::Env e;
          auto w = ref::eval(SB[i]->model, pts[k], e);
          if (e.maxabs > 1e7L) continue;
          for (size_t j = 0; j < w.size(); j++)
            if (!c.close(v(k, j), w[j][0], 1e-8L, "list", mc::fmt("n=%d row %d t=%.12g", n, k, pts[k]), 1 + e.maxabs)) return;
        }
        c.state(mc::mix(i, 77000 + n));
        c.trace();
      }
    });
    R.add("depth1", p.L1.size(), [&](mc::Ctx &c, uint64_t i) { visit(c, p.L1[i], true); });
    // depth 2: every operator and overload over every pair of representatives
    R.add("depth2", p.R1.size(), [&](mc::Ctx &c, uint64_t i) {
      const T &a = p.R1[i];
      for (Op o : unops())
        for (int k = 0; k < ncat(o); k++) visit(c, mk(o, catval(o, k), a), true);
      for (auto &b : p.R1)
        for (Op o : binops()) {
          if (!well_typed(o, a->model, b->model)) continue;
          for (int k = 0; k < ncat(o); k++) {
            T t = mk(o, catval(o, k), a, b);
            visit(c, t, k == 0);
            if (i % 31 == 30 && k == 3 && o == CONCAT) c.sample(t->str());
            if (c.failed) return;
          }
        }
    }, 300, 1);
    // depth 3: unary chains and one more binary operator with a small right/left operand, over all
    // depth-2 operator skeletons (operand representatives: one per operator kind)
    static std::vector<T> K; // one term per (op, codomain) on the base domain, plus the neighbours
    {
      std::map<std::string, int> seen;
      for (auto &t : p.R1) {
        std::string k = std::string(opname(t->op)) + mc::fmt("|%zu|%g", t->model->codom, t->model->dom.first);
        if (t->op == ATOM && !(t->atom == 7 || t->atom == 1 || t->atom == 12 || t->atom == 11 || t->atom == 13 || t->atom == 16)) continue;
        if (t->op != ATOM && t->model->dom.first != 0.0 && t->op != CONCAT) continue;
        if (t->model->codom == 3) continue;
        if (seen[k]++ < (t->op == ATOM ? 3 : 1)) K.push_back(t);
      }
    }
    R.add("depth3", K.size() * K.size(), [](mc::Ctx &c, uint64_t i) {
      const T &a = K[i / K.size()], &b = K[i % K.size()];
      static const Op skel[] = {ADD, SUB, MUL, COMP, CONCAT, DOTP, NEG, ADDEQ, MULEQ, WRAP};
      for (Op o1 : skel) {
        bool un = o1 == NEG || o1 == WRAP;
        if (un && i % K.size() != 0) continue;
        if (!un && !well_typed(o1, a->model, b->model)) continue;
        int c1 = (o1 == ADDEQ || o1 == MULEQ) ? 2 : (int)(i % 4);
        T m = un ? mk(o1, c1 & 1, a) : mk(o1, c1, a, b);
        for (Op o : unops())
          for (int k = 0; k < ncat(o); k++) visit(c, mk(o, catval(o, k), m), false);
        for (auto &z : K)
          for (Op o : binops()) {
            for (int sw = 0; sw < 2; sw++) {
              const T &l = sw ? z : m, &r = sw ? m : z;
              if (!well_typed(o, l->model, r->model)) continue;
              for (int k = 0; k < ncat(o); k++) {
                if (!mc::THOROUGH && (int)((i + k) % 2)) continue;
                visit(c, mk(o, catval(o, k), l, r), false);
                if (c.failed) return;
              }
            }
          }
      }
    }, 300, 1);
  });
}
