#include "splinecfg.hpp"
using namespace rs;
using gsplines::GSpline;
static std::vector<Cfg> cfgs;

static bool is(mc::Ctx &c, const GSpline &f, const Spline &m, const std::vector<R> &coef, const char *key) {
  if (!c.check((int)f.get_codom_dim() == m.codom && f.get_domain() == m.dom && f.get_interval_lengths() == Spline::e(m.tau) &&
                   (int)f.get_basis_dim() == m.b->dim() && (size_t)f.get_coefficients().size() == coef.size(),
               key, "domain, intervals, basis or codomain changed"))
    return false;
  Spline x = m;
  x.coef.assign(coef.begin(), coef.end());
  std::vector<double> pts;
  for (int i = 0; i < m.n(); i++)
    for (double u : {0.1, 0.5, 0.93}) pts.push_back((double)m.left(i) + u * m.tau[i]);
  Eigen::MatrixXd v = f.value(Spline::e(pts));
  for (size_t i = 0; i < pts.size(); i++)
    for (int k = 0; k < m.codom; k++) {
      R mag, w = x.value(pts[i], k, 0, &mag);
      if (!c.close(v(i, k), w, 1e-9L, key, mc::fmt("value at t=%g component %d", pts[i], k), 1 + 4 * mag)) return false;
    }
  return true;
}
static std::vector<R> lc(R a, const std::vector<double> &x, R b, const std::vector<double> &y) {
  std::vector<R> r(x.size());
  for (size_t i = 0; i < x.size(); i++) r[i] = a * x[i] + b * y[i];
  return r;
}
static std::vector<R> asR(const std::vector<double> &x) { return std::vector<R>(x.begin(), x.end()); }

// a list of pairwise different spaces around one shape
struct Var {
  std::string name;
  Spline s;
};
static std::vector<Var> variants(const Cfg &g, const Basis &b, std::vector<std::unique_ptr<Basis>> &keep) {
  std::vector<Var> r;
  auto re = [&](Spline s) {
    s.coef = coefs(s.n() * s.codom * s.b->dim(), 2);
    R e = s.dom.first;
    for (double t : s.tau) e += t;
    s.dom.second = (double)e;
    return s;
  };
  Spline m = mkspline(g, b, 1);
  for (double d : {1e-3, 0.5, -2.0, 10.0}) {
    Spline s = m;
    s.dom.first += d;
    r.push_back({mc::fmt("domain shifted by %g", d), re(s)});
  }
  for (int i = 0; i < m.n(); i++)
    for (double f : {1.001, 2.0}) {
      Spline s = m;
      s.tau[i] *= f;
      r.push_back({mc::fmt("interval %d scaled by %g", i, f), re(s)});
    }
  if (m.n() > 1) {
    Spline s = m; // same domain, inner breakpoint moved
    double d = 0.125 * std::min(s.tau[0], s.tau[1]);
    s.tau[0] += d;
    s.tau[1] -= d;
    r.push_back({"inner breakpoint moved", re(s)});
    s = m;
    s.tau.pop_back();
    r.push_back({"one interval less", re(s)});
  }
  {
    Spline s = m;
    s.tau.push_back(1.0);
    r.push_back({"one interval more", re(s)});
    s = m;
    s.codom++;
    r.push_back({"codomain + 1", re(s)});
    if (m.codom > 1) {
      s = m;
      s.codom--;
      r.push_back({"codomain - 1", re(s)});
      if (m.n() != m.codom) {
        s = m;
        s.codom = m.n();
        s.tau = lengths(m.codom, g.pat);
        r.push_back({"intervals and codomain swapped", re(s)});
      }
    }
  }
  auto other = [&](const BSpec &bs) {
    keep.push_back(std::make_unique<Basis>(bs));
    Spline s = m;
    s.b = keep.back().get();
    r.push_back({"basis " + bs.str(), re(s)});
  };
  if (b.s.kind != LEGENDRE) other(leg(b.dim()));
  other(leg(b.dim() + 1));
  {
    auto gn = gl(b.dim()).nodes;
    bool same = b.s.kind == GL || b.s.kind == LAGRANGE;
    for (size_t q = 0; same && q < gn.size(); q++) same = std::fabs(gn[q] - b.s.nodes[q]) < 1e-4;
    if (!same) other(gl(b.dim()));
  }
  if (b.dim() == 6 && b.s.kind != B0101) other(b0101(0.5));
  if (b.s.kind == B0101) other(b0101(b.s.alpha * 0.9));
  if (b.s.kind == LAGRANGE || b.s.kind == GL) {
    for (size_t q = 0; q < b.s.nodes.size(); q++) {
      auto x = b.s.nodes;
      x[q] += 0.01;
      other(lag(x));
    }
    if (b.dim() > 1) {
      auto x = b.s.nodes;
      std::swap(x[0], x[1]);
      other(lag(x));
    }
  }
  return r;
}

int main(int argc, char **argv) {
  return mc::run(argc, argv, [](mc::Registry &R_) {
    auto ids = base_ids(mc::THOROUGH);
    for (int b : ids)
      for (int n : {1, 2, 3, 6})
        for (int cd : {1, 2, 3})
          for (int pat : {0, 1, 2, 5})
            for (int st : {0, 1, 2}) {
              if (!mc::THOROUGH && (b + n + cd + pat + st) % 2) continue;
              cfgs.push_back({b, n, cd, pat, st});
            }
    R_.add("operators", cfgs.size(), [](mc::Ctx &c, uint64_t id) {
      const Cfg &g = cfgs[id];
      const Basis &b = baselib()[g.base];
      Spline ma = mkspline(g, b, 1), mb = mkspline(g, b, 5);
      auto A = [&] { return ma.lib(); };
      auto B = [&] { return mb.lib(); };
      std::string base = cfgstr(g, b.s);
      auto step = [&](const char *what) {
        c.note("%s: %s", base.c_str(), what);
        c.trans();
        c.state(mc::hstr(c.get_note()));
      };
      auto a0 = asR(ma.coef), b0 = asR(mb.coef), sum = lc(1, ma.coef, 1, mb.coef), dif = lc(1, ma.coef, -1, mb.coef), neg = lc(-1, ma.coef, 0, ma.coef);
#define BIN(OP, want, name)                                                                       \
  {                                                                                               \
    GSpline x = A(), y = B();                                                                     \
    const GSpline &cx = x, &cy = y;                                                               \
    step(name " lvalue lvalue");                                                                  \
    GSpline r = cx OP cy;                                                                         \
    if (!is(c, r, ma, want, name) || !is(c, x, ma, a0, "left-changed") || !is(c, y, mb, b0, "right-changed")) return; \
    step(name " lvalue rvalue");                                                                  \
    GSpline r2 = cx OP B();                                                                       \
    if (!is(c, r2, ma, want, name) || !is(c, x, ma, a0, "left-changed")) return;                  \
    step(name " rvalue lvalue");                                                                  \
    GSpline r3 = A() OP cy;                                                                       \
    if (!is(c, r3, ma, want, name) || !is(c, y, mb, b0, "right-changed")) return;                 \
    step(name " rvalue rvalue");                                                                  \
    GSpline r4 = A() OP B();                                                                      \
    if (!is(c, r4, ma, want, name)) return;                                                       \
    step(name " with itself");                                                                    \
    GSpline r5 = cx OP cx;                                                                        \
    if (!is(c, r5, ma, lc(1, ma.coef, 1 OP 1 == 2 ? 1 : -1, ma.coef), name) || !is(c, x, ma, a0, "left-changed")) return; \
    c.trace(5);                                                                                   \
  }
      BIN(+, sum, "plus")
      BIN(-, dif, "minus")
      for (int sgn : {1, -1}) {
        GSpline x = A(), y = B();
        const GSpline &cy = y;
        step(sgn > 0 ? "+=" : "-=");
        GSpline &ret = sgn > 0 ? (x += cy) : (x -= cy);
        if (!c.check(&ret == &x, "compound-returns", "compound assignment does not return its target")) return;
        if (!is(c, x, ma, sgn > 0 ? sum : dif, "compound") || !is(c, y, mb, b0, "right-changed")) return;
        step(sgn > 0 ? "+= itself" : "-= itself");
        GSpline z = A();
        sgn > 0 ? (z += z) : (z -= z);
        if (!is(c, z, ma, lc(1, ma.coef, sgn, ma.coef), "compound-self")) return;
        c.trace(2);
      }
      {
        GSpline x = A();
        const GSpline &cx = x;
        step("unary minus");
        GSpline r = -cx, r2 = -A();
        if (!is(c, r, ma, neg, "negate") || !is(c, r2, ma, neg, "negate") || !is(c, x, ma, a0, "operand-changed")) return;
        for (double s : {0.0, 1.0, -1.0, 2.5, -0.125}) {
          step(mc::fmt("scale %g", s).c_str());
          auto w = lc(s, ma.coef, 0, ma.coef);
          GSpline p = s * cx, q = cx * s, p2 = s * A(), q2 = A() * s;
          if (!is(c, p, ma, w, "scale") || !is(c, q, ma, w, "scale") || !is(c, p2, ma, w, "scale") || !is(c, q2, ma, w, "scale") || !is(c, x, ma, a0, "operand-changed")) return;
        }
        c.trace(6);
      }
      if (id % 331 == 3) c.sample(c.get_note());
    });
    // incompatible spaces: every operator refuses, nothing changes; equality tells them apart
    R_.add("incompatible", cfgs.size(), [](mc::Ctx &c, uint64_t id) {
      const Cfg &g = cfgs[id];
      const Basis &b = baselib()[g.base];
      if (!mc::THOROUGH && (id * 7 / 5) % 3) return;
      std::vector<std::unique_ptr<Basis>> keep;
      Spline m = mkspline(g, b, 1);
      auto a0 = asR(m.coef);
      for (auto &v : variants(g, b, keep)) {
        c.note("%s against %s", cfgstr(g, b.s).c_str(), v.name.c_str());
        c.state(mc::hstr(c.get_note()));
        auto v0 = asR(v.s.coef);
        for (int o = 0; o < 12; o++) {
          GSpline x = m.lib(), y = v.s.lib();
          const GSpline &cx = x, &cy = y;
          bool threw = false;
          c.trans();
          try {
            switch (o) {
            case 0: cx + cy; break;
            case 1: cx + v.s.lib(); break;
            case 2: m.lib() + cy; break;
            case 3: m.lib() + v.s.lib(); break;
            case 4: cx - cy; break;
            case 5: cx - v.s.lib(); break;
            case 6: m.lib() - cy; break;
            case 7: m.lib() - v.s.lib(); break;
            case 8: x += cy; break;
            case 9: x -= cy; break;
            case 10: cy + cx; break;
            default: cy - cx; break;
            }
          } catch (const std::invalid_argument &) {
            threw = true;
          }
          if (!c.check(threw, "incompatible-accepted", mc::fmt("operator variant %d combined splines of different spaces", o))) return;
          auto kept = [](const GSpline &f, const Spline &q) {
            return f.get_coefficients() == Spline::e(q.coef) && f.get_interval_lengths() == Spline::e(q.tau) && f.get_domain() == q.dom && (int)f.get_codom_dim() == q.codom;
          };
          if (!c.check(kept(x, m) && kept(y, v.s), "operand-changed", "a refused operation changed an operand")) return;
          if (o == 9 && (!is(c, x, m, a0, "left-changed") || !is(c, y, v.s, v0, "right-changed"))) return;
          c.trace();
        }
        GSpline x = m.lib(), y = v.s.lib();
        if (!c.check(!x.same_vector_space(y) && !y.same_vector_space(x), "same-space", "different spaces reported as the same")) return;
        // same coefficients where the count allows it: still different
        Spline w = v.s;
        if (w.coef.size() == m.coef.size()) w.coef = m.coef;
        GSpline z = w.lib();
        if (!c.check(!(x == z) && !(z == x) && x != z && z != x, "equal-across-spaces", "splines on different domain/intervals/basis/codomain compare equal")) return;
      }
    });
    R_.add("equality", cfgs.size(), [](mc::Ctx &c, uint64_t id) {
      const Cfg &g = cfgs[id];
      const Basis &b = baselib()[g.base];
      Spline m = mkspline(g, b, 1);
      auto xp = std::make_unique<GSpline>(m.lib());
      double mx = Spline::e(m.coef).cwiseAbs().maxCoeff();
      auto expect = [&](const Spline &s, bool eq, const char *what) {
        c.note("%s equality: %s", cfgstr(g, b.s).c_str(), what);
        c.trans();
        c.state(mc::hstr(c.get_note()));
        const GSpline &x = *xp;
        GSpline y = s.lib();
        bool ok = c.check((x == y) == eq, "equality", eq ? "equal splines compare different" : "different splines compare equal") &&
                  c.check((y == x) == (x == y), "symmetry", "equality is not symmetric") && c.check((x != y) == !(x == y) && (y != x) == !(y == x), "negation", "!= is not the negation of ==") &&
                  c.check(x.same_vector_space(y) && y.same_vector_space(x), "same-space", "same space not recognised");
        if (ok) c.trace();
        return ok;
      };
      if (!expect(m, true, "identical")) return;
      for (size_t i = 0; i < m.coef.size(); i++) {
        Spline s = m;
        s.coef[i] += 1e-3 * mx;
        if (!expect(s, false, mc::fmt("coefficient %zu differs", i).c_str())) return;
        s = m;
        s.coef[i] += 1e-13 * mx;
        if (!expect(s, true, mc::fmt("coefficient %zu differs by rounding", i).c_str())) return;
      }
      Spline s = m;
      for (auto &v : s.coef) v = -v;
      if (!expect(s, false, "negated")) return;
      for (auto &v : s.coef) v = 0;
      if (!expect(s, false, "against zero")) return;
      const GSpline x(*xp);
      // a sum taken apart again, a copy, a clone
      GSpline y = mkspline(g, b, 5).lib(), z = (x + y) - y;
      if (!c.check(x == z && z == x, "equality", "(x+y)-y does not equal x")) return;
      if (!c.check(x == *x.clone() && GSpline(x) == x && x == x, "equality", "a copy does not equal the original")) return;
      GSpline p = x + y, q = y + x;
      if (!c.check(p == q, "commutative", "x+y differs from y+x")) return;
      // zero, large and small coefficients, and splines with a single nonzero coefficient
      Spline zero = m;
      for (auto &v : zero.coef) v = 0;
      xp = std::make_unique<GSpline>(zero.lib());
      if (!expect(zero, true, "zero with itself")) return;
      GSpline dz = y - y, nz = -*xp;
      if (!c.check(dz == *xp && *xp == dz && nz == *xp && *xp == nz, "equality", "y-y or -0 does not equal the zero spline")) return;
      for (double sc : {1e6, 1e-3}) {
        Spline t = m;
        for (auto &v : t.coef) v *= sc;
        xp = std::make_unique<GSpline>(t.lib());
        if (!expect(t, true, mc::fmt("scaled by %g", sc).c_str()) || !expect(zero, false, mc::fmt("scaled by %g against zero", sc).c_str())) return;
        for (size_t i = 0; i < m.coef.size(); i++) {
          Spline u = t;
          u.coef[i] += 1e-3 * mx * sc;
          if (!expect(u, false, mc::fmt("scaled by %g, coefficient %zu differs", sc, i).c_str())) return;
        }
      }
      for (size_t i = 0; i < m.coef.size(); i++) {
        Spline t = zero;
        t.coef[i] = 1.5;
        xp = std::make_unique<GSpline>(t.lib());
        if (!expect(t, true, mc::fmt("only coefficient %zu", i).c_str()) || !expect(zero, false, mc::fmt("only coefficient %zu against zero", i).c_str())) return;
        Spline u = zero;
        u.coef[(i + 1) % m.coef.size()] = 1.5;
        if (m.coef.size() > 1 && !expect(u, false, mc::fmt("only coefficient %zu against the next", i).c_str())) return;
      }
    });
    // all histories of assignments over three live splines of one space, checked after every step
    static std::vector<int> hb = ids;
    R_.add("histories", mc::THOROUGH ? hb.size() * 4 : hb.size(), [](mc::Ctx &c, uint64_t id) {
      Cfg g{hb[id % hb.size()], 1 + (int)((id + id / hb.size()) % 4), 1 + (int)(id % 3), 1, (int)(id % 3)};
      const Basis &b = baselib()[g.base];
      int depth = 3;
      struct St {
        int k, i, j;
      };
      std::vector<St> al;
      for (int k = 0; k < 2; k++)
        for (int i = 0; i < 3; i++)
          for (int j = 0; j < 3; j++) al.push_back({k, i, j}); // r_i +=/-= r_j
      std::function<bool(std::vector<int> &)> rec = [&](std::vector<int> &h) -> bool {
        Spline m[3] = {mkspline(g, b, 1), mkspline(g, b, 5), mkspline(g, b, 9)};
        std::vector<R> co[3] = {asR(m[0].coef), asR(m[1].coef), asR(m[2].coef)};
        GSpline r[3] = {m[0].lib(), m[1].lib(), m[2].lib()};
        std::string t = cfgstr(g, b.s);
        for (int s : h) {
          auto &o = al[s];
          t += mc::fmt("; r%d%sr%d", o.i, o.k ? "-=" : "+=", o.j);
          c.note_s(t);
          o.k ? (r[o.i] -= r[o.j]) : (r[o.i] += r[o.j]);
          auto src = co[o.j];
          for (size_t q = 0; q < src.size(); q++) co[o.i][q] += (o.k ? -1 : 1) * src[q];
        }
        c.trans();
        if (c.state(mc::hstr(t))) c.trace();
        for (int k = 0; k < 3; k++)
          if (!is(c, r[k], m[k], co[k], "history")) return false;
        if ((int)h.size() < depth)
          for (size_t s = 0; s < al.size(); s++) {
            h.push_back(s);
            if (!rec(h)) return false;
            h.pop_back();
          }
        return true;
      };
      std::vector<int> h;
      rec(h);
    }, 300, 1);
  });
}
