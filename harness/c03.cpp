#include "fnpool.hpp"
using namespace fp;
// Histories over three live expressions. A register holds a real object and its model; every
// operation is applied to both and *all* live registers are compared afterwards.

struct Reg {
  UB f;
  ref::P m;
  std::string how; // how the object was made: operators, overloads, operands
};
struct Step {
  int kind; // 0 binary r_d = r_i op r_j ; 1 r_i op= r_j ; 2 unary r_d = op r_i ; 3 destroy r_i
  Op op;
  int cat, d, i, j;
  std::string str() const {
    if (kind == 0) return mc::fmt("r%d=%s%s(r%d,r%d)", d, opname(op), cat == 0 ? "" : cat == 1 ? "[R_]" : cat == 2 ? "[_R]" : "[RR]", i, j);
    if (kind == 1) return mc::fmt("r%d %s%s r%d", i, opname(op), cat ? "[R]" : "", j);
    if (kind == 2) return mc::fmt("r%d=%s%s(r%d)", d, opname(op), cat ? "[R]" : "", i);
    return mc::fmt("destroy r%d", i);
  }
};
static std::vector<Step> alphabet() {
  std::vector<Step> s;
  // in-place first: simplest histories first
  for (Op o : {ADDEQ, MULEQ})
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++)
        for (int m = 0; m < 2; m++) {
          if (m && i == j) continue;
          s.push_back({1, o, m, i, i, j});
        }
  for (Op o : {NEG, SCAL, WRAP, TOEXPR, CLONE, MCLONE, COPY, MOVE, DERIV0})
    for (int i = 0; i < 2; i++)
      for (int k = 0; k < ncat(o); k++) {
        int cat = (o == MCLONE || o == MOVE) ? 1 : k;
        s.push_back({2, o, cat, 2, i, 0});
        if (o == NEG || o == COPY || o == MOVE) s.push_back({2, o, cat, 1 - i, i, 0});
      }
  for (Op o : {ADD, SUB, MUL, COMP, CONCAT, DOTP})
    for (int cat = 0; cat < 4; cat++)
      for (int i = 0; i < 2; i++)
        for (int j = 0; j < 3; j++) {
          if (i == j && cat != 0) continue;
          s.push_back({0, o, cat, 2, i, j});
        }
  for (int i = 0; i < 3; i++) s.push_back({3, ATOM, 0, 0, i, 0});
  return s;
}

static bool check_all(mc::Ctx &c, std::vector<Reg> &r, const std::string &key) {
  for (size_t k = 0; k < r.size(); k++) {
    if (!r[k].f) continue;
    if (!agrees(c, *r[k].f, r[k].m, key, true, 0)) return false;
    if (r[k].m->size <= 9) {
      UB d = r[k].f->deriv(1);
      if (!deriv_agrees(c, *d, r[k].m, 1, key + "-derivative")) return false;
    }
  }
  return true;
}
// returns false when the step does not apply
static bool do_step(const Step &s, std::vector<Reg> &r, int maxsize) {
  if (!r[s.i].f) return false;
  if (s.kind == 3) {
    r[s.i].f.reset();
    r[s.i].m.reset();
    return true;
  }
  if ((s.kind == 0 || s.kind == 1) && !r[s.j].f) return false;
  ref::P a = r[s.i].m, b = (s.kind == 2) ? nullptr : r[s.j].m;
  if (b && !well_typed(s.op, a, b)) return false;
  ref::P m = model_of(s.op, a, b);
  if (m->size > maxsize) return false;
  if (s.kind == 1) {
    FunctionExpression *e = dynamic_cast<FunctionExpression *>(r[s.i].f.get());
    FunctionExpression *g = dynamic_cast<FunctionExpression *>(r[s.j].f.get());
    if (!e) return false;
    if (s.cat) {
      if (!g) return false;
      s.op == ADDEQ ? (*e += std::move(*g)) : (*e *= std::move(*g));
      r[s.j].f.reset();
      r[s.j].m.reset();
    } else if (g) {
      const FunctionExpression &cg = *g;
      s.op == ADDEQ ? (*e += cg) : (*e *= cg);
    } else
      s.op == ADDEQ ? (*e += FunctionExpression(static_cast<const FunctionBase &>(*r[s.j].f)))
                    : (*e *= FunctionExpression(static_cast<const FunctionBase &>(*r[s.j].f)));
    r[s.i].m = m;
    r[s.i].how = mc::fmt("%s%d(", opname(s.op), s.cat) + r[s.i].how + "," + r[s.j].how + ")";
    return true;
  }
  std::string how = mc::fmt("%s%d(", opname(s.op), s.cat) + r[s.i].how + (s.kind == 0 ? "," + r[s.j].how : "") + ")";
  UB x = apply(s.op, s.cat, *r[s.i].f, s.kind == 0 ? r[s.j].f.get() : nullptr);
  if ((s.cat & 1) || s.op == MCLONE || s.op == MOVE) {
    r[s.i].f.reset();
    r[s.i].m.reset();
  }
  if (s.kind == 0 && (s.cat & 2)) {
    r[s.j].f.reset();
    r[s.j].m.reset();
  }
  r[s.d].f = std::move(x);
  r[s.d].m = m;
  r[s.d].how = how;
  return true;
}

static std::vector<Step> A;
static std::vector<std::vector<T>> inits;

static void run_history(mc::Ctx &c, int init, const std::vector<int> &h, bool &applicable, uint64_t *state) {
  std::vector<Reg> r(3);
  std::string txt = mc::fmt("init %d:", init);
  for (int k = 0; k < 3; k++) {
    r[k].f = build(inits[init][k]);
    r[k].m = inits[init][k]->model;
    r[k].how = inits[init][k]->str();
    txt += mc::fmt(" r%d=%s", k, inits[init][k]->str().c_str());
  }
  applicable = true;
  for (size_t n = 0; n < h.size(); n++) {
    txt += "; " + A[h[n]].str();
    c.note_s(txt);
    if (!do_step(A[h[n]], r, mc::THOROUGH ? 20 : 16)) {
      applicable = false;
      return;
    }
  }
  c.trans();
  if (check_all(c, r, mc::fmt("after-%s", h.empty() ? "init" : opname(A[h.back()].op)))) c.trace();
  if (state) {
    std::string s;
    for (auto &x : r) s += (x.f ? x.how : "-") + "|";
    *state = mc::hstr(s);
  }
}

int main(int argc, char **argv) {
  return mc::run(argc, argv, [](mc::Registry &R) {
    Pool &p = pool();
    A = alphabet();
    // initial triples: every kind of expression in r0, with partners that make the operators applicable
    auto E = [&](int i) { return mk(WRAP, 0, atom(i)); };
    std::vector<T> kinds{E(7), mk(ADD, 0, atom(7), atom(8)), mk(MUL, 0, atom(8), atom(6)), mk(COMP, 0, atom(8), atom(7)),
                         mk(NEG, 0, atom(5)), mk(CONCAT, 0, atom(14), atom(7)), E(1), mk(MUL, 0, atom(1), atom(8)),
                         mk(ADD, 0, atom(1), mk(MUL, 0, atom(1), atom(7))), mk(COMP, 0, atom(1), atom(7)), atom(8), atom(1), mk(WRAP, 0, mk(ADD, 0, atom(7), atom(8))),
                         mk(NEG, 0, mk(ADD, 0, atom(7), atom(8))), E(17)};
    for (size_t x = 0; x < kinds.size(); x++)
      for (size_t y = 0; y < kinds.size(); y++) {
        bool ok = false;
        for (Op o : binops()) ok = ok || well_typed(o, kinds[x]->model, kinds[y]->model);
        if (!ok) continue;
        inits.push_back({kinds[x], kinds[y], E(12)});
        if (mc::THOROUGH && kinds[x]->model->dom == kinds[y]->model->dom) inits.push_back({kinds[x], kinds[y], kinds[(x + y) % kinds.size()]});
      }
    // one case = one (initial triple, first step); the search below it is breadth first with
    // deduplication on the construction (operators, overloads, operands) of every live register
    R.add("histories", inits.size() * A.size(), [](mc::Ctx &c, uint64_t id) {
      int init = id / A.size(), first = id % A.size();
      int depth = mc::THOROUGH ? (init % 4 == 0 ? 3 : 2) : (init % 4 == 0 ? 2 : 1);
      std::vector<std::vector<int>> frontier{{first}};
      std::set<uint64_t> seen;
      for (int d = 1; d <= depth && !frontier.empty(); d++) {
        std::vector<std::vector<int>> next;
        for (auto &h : frontier) {
          bool ok;
          uint64_t st = 0;
          run_history(c, init, h, ok, &st);
          if (c.failed) return;
          if (!ok) continue;
          c.state(st);
          if (!seen.insert(st).second) continue;
          if (d < depth)
            for (size_t a = 0; a < A.size(); a++) {
              auto h2 = h;
              h2.push_back(a);
              next.push_back(h2);
            }
        }
        frontier.swap(next);
      }
      if (id % 2741 == 9) c.sample(c.get_note());
    }, 600);
    // every operator/overload on every pair of kinds: lvalue operands intact, result survives them
    R.add("operands", p.R1.size(), [&](mc::Ctx &c, uint64_t i) {
      for (size_t j = 0; j < p.R1.size(); j++)
        for (Op o : binops()) {
          T ta = p.R1[i], tb = p.R1[j];
          if (!well_typed(o, ta->model, tb->model)) continue;
          for (int k = 0; k < ncat(o); k++) {
            int cat = catval(o, k);
            c.note("%s cat=%d lhs=%s rhs=%s", opname(o), cat, ta->str().c_str(), tb->str().c_str());
            c.trans();
            UB a = build(ta), b = build(tb);
            UB r = apply(o, cat, *a, b.get());
            if (!(cat & 1) && !agrees(c, *a, ta->model, "left-operand-changed", false, 0)) return;
            if (!(cat & 2) && !agrees(c, *b, tb->model, "right-operand-changed", false, 0)) return;
            a.reset();
            b.reset();
            if (!agrees(c, *r, model_of(o, ta->model, tb->model), "result-after-operands-destroyed", false, 0)) return;
            UB cp = static_cast<const FunctionBase &>(*r).clone();
            r.reset();
            if (!agrees(c, *cp, model_of(o, ta->model, tb->model), "clone-after-original-destroyed", false, 0)) return;
            c.trace();
            c.state(mc::hstr(c.get_note()));
          }
        }
    }, 300, 1);
    // n-ary chains of every length as operands (every overload)
    static std::vector<T> WX;
    {
      for (const Wide &w : wides())
        if (w.cat == catval(w.op, 0) && w.assoc < 2 && w.op != ADDEQ && w.op != MULEQ && (w.flavour < 2 || w.n % 3 == 0)) {
          T t = wide_term(w);
          if (term_ok(t)) WX.push_back(t);
        }
    }
    R.add("wide-operands", WX.size(), [](mc::Ctx &c, uint64_t i) {
      T ta = WX[i];
      for (size_t j = 0; j < WX.size(); j++) {
        bool near = (j + i) % (mc::THOROUGH ? 2 : 7) == 0 || (WX[j]->op == ta->op && j % 3 == 0);
        if (!near) continue;
        T tb = WX[j];
        for (Op o : binops()) {
          if (!well_typed(o, ta->model, tb->model)) continue;
          if (o == COMP && (ta->op == COMP || tb->op == COMP)) continue;
          for (int k = 0; k < ncat(o); k++) {
            int cat = catval(o, k);
            c.note("%s cat=%d lhs=%s rhs=%s", opname(o), cat, ta->str().c_str(), tb->str().c_str());
            c.trans();
            UB a = build(ta), b = build(tb);
            UB r = apply(o, cat, *a, b.get());
            if (!(cat & 1) && !agrees(c, *a, ta->model, "left-operand-changed", false, 0)) return;
            if (!(cat & 2) && !agrees(c, *b, tb->model, "right-operand-changed", false, 0)) return;
            a.reset();
            b.reset();
            if (!agrees(c, *r, model_of(o, ta->model, tb->model), "result-after-operands-destroyed", false, 0)) return;
            c.trace();
            c.state(mc::hstr(c.get_note()));
          }
        }
      }
    }, 300, 1);
    // an expression combined with itself, every kind and operator
    R.add("self", p.L1.size() + p.R1.size(), [&](mc::Ctx &c, uint64_t i) {
      T t = i < p.L1.size() ? p.L1[i] : p.R1[i - p.L1.size()];
      for (Op o : {ADD, SUB, MUL, COMP, DOTP, ADDEQ, MULEQ}) {
        if (!well_typed(o, t->model, t->model)) continue;
        c.note("self %s %s", opname(o), t->str().c_str());
        c.trans();
        UB a = build(t);
        ref::P m = model_of(o, t->model, t->model);
        if (o == ADDEQ || o == MULEQ) {
          auto *e = dynamic_cast<FunctionExpression *>(a.get());
          if (!e) continue;
          if (o == ADDEQ) *e += *e;
          else *e *= *e;
          if (!agrees(c, *e, m, "self-assign", false, 0)) return;
          if (m->size <= 9 && !deriv_agrees(c, *e->deriv(1), m, 1, "self-assign-derivative")) return;
        } else {
          UB r = apply(o, 0, *a, a.get());
          if (!agrees(c, *a, t->model, "self-operand-changed", false, 0)) return;
          a.reset();
          if (!agrees(c, *r, m, "self-result", false, 0)) return;
        }
        c.trace();
        c.state(mc::hstr(c.get_note()));
      }
    });
  });
}
