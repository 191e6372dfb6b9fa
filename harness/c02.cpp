#include "fnpool.hpp"
using namespace fp;

// checks every order 0..N reached through every way of asking
static void check_orders(mc::Ctx &c, const FunctionBase &f, const ref::P &m, int N) {
  UB chain = static_cast<const FunctionBase &>(f).clone();
  for (int n = 0; n <= N; n++) {
    c.trans(4);
    UB d = f.deriv(n);
    if (!deriv_agrees(c, *d, m, n, "deriv")) return;
    if (n <= 3) {
      FunctionExpression e = f.derivate(n);
      if (!deriv_agrees(c, e, m, n, "derivate")) return;
      if (auto *x = dynamic_cast<const FunctionExpression *>(&f)) {
        FunctionExpression e2 = x->derivate(n);
        if (!deriv_agrees(c, e2, m, n, "derivate")) return;
      }
    }
    if (!deriv_agrees(c, *chain, m, n, "iterated")) return;
    if (n >= 2) { // 1 + (n-1)
      UB q = f.deriv(1);
      UB q2 = q->deriv(n - 1);
      if (!deriv_agrees(c, *q2, m, n, "composed-orders")) return;
      // the parent must not be affected by having been derived, nor the result by its parent's death
      q.reset();
      if (!deriv_agrees(c, *q2, m, n, "after-parent-destroyed")) return;
    }
    if (n < N) {
      UB nx = chain->deriv();
      chain = std::move(nx);
    }
    if (n == 1 && !agrees(c, f, m, "unchanged-by-derivation", true, 0)) return;
    c.trace();
  }
}

static void visit(mc::Ctx &c, const T &t, int N) {
  c.note("%s orders 0..%d", t->str().substr(0, 3800).c_str(), N);
  UB f = build(t);
  check_orders(c, *f, t->model, N);
  c.state(mc::hstr(t->str()));
}

int main(int argc, char **argv) {
  return mc::run(argc, argv, [](mc::Registry &R) {
    Pool &p = pool();
    static auto E = elems();
    R.add("elementary", E.size(), [](mc::Ctx &c, uint64_t i) {
      auto pr = make_elem(E[i]);
      int N = E[i].kind == 1 ? E[i].size + 2 : 13;
      c.note("elementary kind=%d dom=%d size=%d orders 0..%d", E[i].kind, E[i].dom, E[i].size, N);
      c.state(mc::hstr(c.get_note()));
      check_orders(c, *pr.first, pr.second, N);
      if (i % 40 == 3) c.sample(c.get_note());
    });
    R.add("depth1", p.L1.size(), [&](mc::Ctx &c, uint64_t i) {
      visit(c, p.L1[i], mc::THOROUGH ? 6 : 5);
      if (i % 700 == 3) c.sample(c.get_note());
    });
    static std::vector<T> SP = specials(), SB = p.R1;
    SB.insert(SB.end(), SP.begin(), SP.end());
    R.add("special-operands", SP.size(), [](mc::Ctx &c, uint64_t i) {
      visit(c, SP[i], 7);
      for (auto &b : SB)
        for (Op o : binops())
          for (int sw = 0; sw < 2; sw++) {
            const T &l = sw ? b : SP[i], &r = sw ? SP[i] : b;
            if (!well_typed(o, l->model, r->model)) continue;
            visit(c, mk(o, catval(o, (int)(i % ncat(o))), l, r), 3);
            if (c.failed) return;
          }
    });
    R.add("special-scalars", SB.size(), [](mc::Ctx &c, uint64_t i) {
      for (double x : scalars()) {
        c.note("%g * %s", x, SB[i]->str().c_str());
        UB f = build(SB[i]);
        FunctionExpression r = x * FunctionExpression(*f);
        check_orders(c, r, ref::un(ref::SCAL, SB[i]->model, {x}), 3);
        if (c.failed) return;
        c.state(mc::hstr(c.get_note()));
      }
    });
    static auto W = wides();
    R.add("n-ary", W.size(), [](mc::Ctx &c, uint64_t i) {
      Wide w = W[i];
      T t = wide_term(w);
      if (!term_ok(t)) return;
      bool heavy = w.op == MUL || w.op == MULEQ || w.op == COMP;
      if (heavy && w.n > (mc::THOROUGH ? 7 : 5)) return;
      visit(c, t, heavy ? (w.n <= 3 ? 3 : 2) : 3);
      if (i % 397 == 5) c.sample(c.get_note().substr(0, 300));
    }, 300);
    R.add("depth2", p.R1.size() * p.R1.size(), [&](mc::Ctx &c, uint64_t i) {
      const T &a = p.R1[i / p.R1.size()], &b = p.R1[i % p.R1.size()];
      if (i % p.R1.size() == 0)
        for (Op o : unops())
          for (int k = 0; k < ncat(o); k++) visit(c, mk(o, catval(o, k), a), 4);
      for (Op o : binops()) {
        if (!well_typed(o, a->model, b->model)) continue;
        int n = ncat(o);
        for (int k = 0; k < n; k++) {
          if (!mc::THOROUGH && k != (int)(i % n)) continue; // the overloads differ in C01/C03's territory
          T t = mk(o, catval(o, k), a, b);
          visit(c, t, mc::THOROUGH ? (t->model->size <= 6 ? 4 : 3) : (t->model->size <= 4 ? 3 : 2));
          if (c.failed) return;
        }
      }
    }, 300);
  });
}
