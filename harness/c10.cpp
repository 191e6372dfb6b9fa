#include "interpcfg.hpp"
#include <gsplines/FunctionalAnalysis/Sobolev.hpp>
#include <gsplines/Interpolator.hpp>
using namespace rs;
using gsplines::GSpline;
using gsplines::Interpolator;
using gsplines::functional_analysis::SobolevNorm;
// An answer: either an exception or numbers
struct Ans {
  bool threw = false;
  std::vector<double> v;
};
template <class F> static Ans ask(F f) {
  Ans a;
  try {
    f(a.v);
  } catch (const std::exception &) {
    a.threw = true;
    a.v.clear();
  }
  return a;
}
static void put(std::vector<double> &o, const Eigen::MatrixXd &m) {
  o.push_back(m.rows());
  o.push_back(m.cols());
  for (long j = 0; j < m.cols(); j++)
    for (long i = 0; i < m.rows(); i++) o.push_back(m(i, j));
}
static bool agree(mc::Ctx &c, const Ans &got, const Ans &want, const char *key) {
  c.trans();
  if (!c.check(got.threw == want.threw, key, got.threw ? "refused, a fresh object answers" : "answered, a fresh object refuses")) return false;
  if (!c.check(got.v.size() == want.v.size(), key, "answer of another size than a fresh object's")) return false;
  long double sc = 1e-12L;
  for (double x : want.v)
    if (std::isfinite(x)) sc = std::max<long double>(sc, fabsl(x));
  for (size_t i = 0; i < got.v.size(); i++) {
    if (!std::isfinite(want.v[i])) {
      if (!c.check(!std::isfinite(got.v[i]), key, "finite where a fresh object is not")) return false;
      continue;
    }
    if (!c.close(got.v[i], want.v[i], 1e-9L, key, mc::fmt("number %zu of the answer, against a fresh object", i), sc)) return false;
  }
  return true;
}
static std::vector<BSpec> specs;
static const char *SEC;
// exhaustive sequences of length L over K requests; the case index encodes the first two requests
template <class Make, class Op, class Name>
static void sequences(mc::Ctx &c, int K, int L, int first, const Make &mk, const Op &op, const Name &name, const std::string &label, int second = -1) {
  std::vector<Ans> fresh(K);
  for (int k = 0; k < K; k++) {
    auto o = mk();
    c.note("%s fresh: %s", label.c_str(), name(k).c_str());
    fresh[k] = op(o, k);
  }
  std::vector<int> seq(L, 0);
  long tot = 1;
  for (int i = 1; i < L; i++) tot *= K;
  for (long x = 0; x < tot; x++) {
    seq[0] = first;
    long y = x;
    for (int i = 1; i < L; i++, y /= K) seq[i] = y % K;
    if (second >= 0 && L > 1 && seq[1] != second) continue;
    auto o = mk();
    for (int i = 0; i < L; i++) {
      std::string n = label + ":";
      for (int j = 0; j <= i; j++) n += " " + name(seq[j]);
      c.note_s(n);
      c.state(mc::hstr(n));
      Ans a = op(o, seq[i]);
      if (!agree(c, a, fresh[seq[i]], "history")) return;
    }
    if (!o.still(c)) return;
    c.trace();
  }
}
// ---- interpolator ----
struct IObj {
  std::unique_ptr<Interpolator> I;
  std::vector<std::pair<std::unique_ptr<GSpline>, Eigen::VectorXd>> given;
  bool still(mc::Ctx &c) {
    for (auto &g : given)
      if (!c.check(g.first->get_coefficients() == g.second, "handed-out", "a spline handed out earlier has changed")) return false;
    return true;
  }
};
static const int IK = 10;
static std::string iname(int k) {
  static const char *n[] = {"interpolate(A,w1)", "interpolate(B,w2)", "solve(C,w1)", "sens(A,0)", "sens(B,1)", "sens(C,last)", "short-length", "wrong-waypoints", "singular", "bad-index"};
  return n[k];
}
static Ans iop(IObj &o, int k, const BSpec &s, int n, int cd, const std::vector<Eigen::VectorXd> &coef) {
  auto T = [&](int p) { return Spline::e(ilengths(n, p)); };
  switch (k) {
  case 0:
  case 1:
    return ask([&](std::vector<double> &v) {
      std::unique_ptr<GSpline> g(new GSpline(o.I->interpolate(T(k + 1), waypoints(n + 1, cd, k + 1))));
      put(v, g->get_coefficients());
      put(v, g->get_interval_lengths());
      Eigen::VectorXd cc = g->get_coefficients();
      o.given.emplace_back(std::move(g), cc);
    });
  case 2: return ask([&](std::vector<double> &v) { put(v, o.I->solve_interpolation(T(3), waypoints(n + 1, cd, 1))); });
  case 3: return ask([&](std::vector<double> &v) { put(v, o.I->get_coeff_derivative_wrt_tau(coef[0], T(1), 0)); });
  case 4: return ask([&](std::vector<double> &v) { put(v, o.I->get_coeff_derivative_wrt_tau(coef[1], T(2), n > 1 ? 1 : 0)); });
  case 5: return ask([&](std::vector<double> &v) { put(v, o.I->get_coeff_derivative_wrt_tau(coef[2], T(3), n - 1)); });
  case 6:
    return ask([&](std::vector<double> &v) {
      Eigen::VectorXd t = T(1);
      t(n - 1) = -1;
      put(v, o.I->solve_interpolation(t, waypoints(n + 1, cd, 1)));
    });
  case 7: return ask([&](std::vector<double> &v) { put(v, o.I->solve_interpolation(T(2), waypoints(n, cd, 1))); });
  case 8: // legal input whose linear system is numerically singular
    return ask([&](std::vector<double> &v) {
      Eigen::VectorXd t = T(1);
      t(n / 2) = s.kind == B0101 ? 5000.0 : 1e60;
      put(v, o.I->interpolate(t, waypoints(n + 1, cd, 1)).get_coefficients());
    });
  default: return ask([&](std::vector<double> &v) { put(v, o.I->get_coeff_derivative_wrt_tau(coef[0], T(1), n)); });
  }
}
// ---- Sobolev ----
struct SObj {
  std::unique_ptr<SobolevNorm> S;
  bool still(mc::Ctx &) { return true; }
};
static const int SK = 8;
static std::string sname(int k) {
  static const char *n[] = {"cost(A)", "cost(B)", "grad(A)", "grad(B)", "grad(C)", "cost(bad)", "grad(bad)", "cost(wrong-size)"};
  return n[k];
}
static Ans sop(SObj &o, int k, int n) {
  auto T = [&](int p) { return Spline::e(ilengths(n, p)); };
  auto grad = [&](const Eigen::VectorXd &t, std::vector<double> &v) {
    Eigen::VectorXd g = Eigen::VectorXd::Constant(n, 5.0);
    o.S->deriv_wrt_interval_len(t, g);
    put(v, g);
  };
  Eigen::VectorXd bad = T(1);
  bad(0) = 0;
  switch (k) {
  case 0: return ask([&](std::vector<double> &v) { v.push_back((*o.S)(T(1))); });
  case 1: return ask([&](std::vector<double> &v) { v.push_back((*o.S)(T(2))); });
  case 2: return ask([&](std::vector<double> &v) { grad(T(1), v); });
  case 3: return ask([&](std::vector<double> &v) { grad(T(2), v); });
  case 4: return ask([&](std::vector<double> &v) { grad(T(3), v); });
  case 5: return ask([&](std::vector<double> &v) { v.push_back((*o.S)(bad)); });
  case 6: return ask([&](std::vector<double> &v) { grad(bad, v); });
  default: return ask([&](std::vector<double> &v) { v.push_back((*o.S)(Eigen::VectorXd::Ones(n + 1))); });
  }
}
// ---- basis ----
struct BObj {
  std::unique_ptr<gsplines::basis::Basis> b;
  bool still(mc::Ctx &) { return true; }
};
static const int BK = 16;
static std::string bname(int k) {
  static const char *n[] = {"eval(.3)", "eval(-1)", "deriv(.3,1)", "deriv(.6,3)", "dtau(.3,2)", "gram(1)", "gram(3)", "gram-dtau(1)", "gram(99)", "block(1)", "block(4)", "cont(2,1,1,A)", "cont(2,1,1,B)", "dmat(2,2,2,A)", "dmat(2,2,2,B)", "continue-with-clone"};
  return n[k];
}
static Ans bop(BObj &o, int k) {
  auto &b = *o.b;
  int d = b.get_dim();
  Eigen::VectorXd buf = Eigen::VectorXd::Constant(d, 9), A(2), B(2);
  A << 1.0, 0.5;
  B << 0.75, 2.0;
  Eigen::MatrixXd M = Eigen::MatrixXd::Constant(d, d, 0.5);
  return ask([&](std::vector<double> &v) {
    switch (k) {
    case 0: b.eval_on_window(0.3, 1.5, buf); break;
    case 1: b.eval_on_window(-1, 0.7, buf); break;
    case 2: b.eval_derivative_on_window(0.3, 1.5, 1, buf); break;
    case 3: b.eval_derivative_on_window(0.6, 0.7, 3, buf); break;
    case 4: b.eval_derivative_wrt_tau_on_window(0.3, 1.1, 2, buf); break;
    case 5: b.add_derivative_matrix(1.5, 1, M); break;
    case 6: b.add_derivative_matrix(0.5, 3, M); break;
    case 7: b.add_derivative_matrix_deriv_wrt_tau(1.5, 1, M); break;
    case 8: b.add_derivative_matrix(1.5, 99, M); break;
    case 9: M = b.get_derivative_matrix_block(1); break;
    case 10: M = b.get_derivative_matrix_block(4); break;
    case 11: M = b.continuity_matrix(2, 1, 1, A); break;
    case 12: M = b.continuity_matrix(2, 1, 1, B); break;
    case 13: M = b.gspline_derivative_matrix(2, 2, 2, A); break;
    case 14: M = b.gspline_derivative_matrix(2, 2, 2, B); break;
    case 15: o.b = o.b->clone(); break;
    }
    if (k < 5) put(v, buf);
    else if (k < 15) put(v, M);
  });
}
// ---- a spline object serving evaluations and derivatives ----
struct GObj {
  std::unique_ptr<GSpline> g, keep;
  bool still(mc::Ctx &c) { return c.check(*g == *keep && g->get_coefficients() == keep->get_coefficients(), "handed-out", "the spline changed while it served requests"); }
};
static const int GK = 9;
static std::string gname(int k) {
  static const char *n[] = {"value(many)", "value(one)", "value(reversed)", "derivate(1)(many)", "derivate(3)(one)", "waypoints", "deriv(2)->value", "expression g+g", "copy(value)"};
  return n[k];
}
static Ans gop(GObj &o, int k) {
  Eigen::VectorXd many(5), one(1), rev(5);
  many << 0, 0.3, 1.0, 1.7, 2.4;
  one << 0.9;
  rev = many.reverse();
  const GSpline &g = *o.g;
  return ask([&](std::vector<double> &v) {
    switch (k) {
    case 0: put(v, g(many)); break;
    case 1: put(v, g(one)); break;
    case 2: put(v, g(rev)); break;
    case 3: put(v, g.derivate(1)(many)); break;
    case 4: put(v, g.derivate(3)(one)); break;
    case 5: put(v, g.get_waypoints()); break;
    case 6: put(v, g.deriv(2)->value(many)); break;
    case 7: put(v, (g + g)(many)); break;
    default: put(v, GSpline(g)(rev)); break;
    }
  });
}

// ---- near misses: requests whose arguments almost coincide, so that any shortcut which reuses
// earlier work for the "same" arguments is driven with every pair that differs slightly, in one
// place only, or by order only. Every ordered pair (a, b) is asked as a, b, a on one object.
template <class Make, class Op, class Name>
static void nearpairs(mc::Ctx &c, int K, int first, const Make &mk, const Op &op, const Name &name, const std::string &label) {
  auto f0 = mk();
  Ans fa = op(f0, first);
  for (int b = 0; b < K; b++) {
    auto fb = mk();
    c.note("%s fresh: %s", label.c_str(), name(b).c_str());
    Ans wb = op(fb, b);
    auto o = mk();
    int seq[3] = {first, b, first};
    for (int i = 0; i < 3; i++) {
      c.note("%s: %s, then %s%s", label.c_str(), name(first).c_str(), name(b).c_str(), i == 2 ? ", then the first again" : i == 0 ? " (first answer)" : "");
      c.state(mc::hstr(c.get_note()));
      if (!agree(c, op(o, seq[i]), i == 1 ? wb : fa, "near-miss")) return;
    }
    if (!o.still(c)) return;
    c.trace();
  }
}
static const int NLV = 9;
static Eigen::VectorXd lenvar(int n, int v) {
  Eigen::VectorXd t = Spline::e(ilengths(n, 5));
  switch (v) {
  case 1: t(0) *= 1 + 1e-3; break;
  case 2: t(0) *= 1 + 1e-5; break;
  case 3: t(n - 1) *= 1 + 1e-7; break;
  case 4: t.reverseInPlace(); break;
  case 5: t(n / 2) += 0.25; break;
  case 6: t *= 2; break;
  case 7: t(n - 1) += 0.125; break;
  case 8: t.setConstant(t.sum() / n); break;
  }
  return t;
}
static const int NWV = 6;
static Eigen::MatrixXd wpvar(int n, int cd, int v) {
  Eigen::MatrixXd w = waypoints(n + 1, cd, 1);
  switch (v) {
  case 1: w = -w; break;
  case 2: w.setZero(); break;
  case 3: w(n, cd - 1) += 1e-6; break;
  case 4: w = Eigen::MatrixXd(w.colwise().reverse()); break;
  case 5: w(n / 2, 0) += 0.5; break;
  }
  return w;
}
int main(int argc, char **argv) {
  return mc::run(argc, argv, [](mc::Registry &R_) {
    specs = {leg(6), leg(2), leg(4), gl(4), gl(6), lag({-0.9, -0.2, 0.3, 0.8}), b0101(0.5), b0101(0.9)};
    // intervals x codomain shapes
    static const std::vector<std::pair<int, int>> shapes = mc::THOROUGH ? std::vector<std::pair<int, int>>{{1, 1}, {2, 1}, {3, 2}, {4, 1}} : std::vector<std::pair<int, int>>{{1, 1}, {3, 2}};
    static const int IL = mc::THOROUGH ? 5 : 4, SL = mc::THOROUGH ? 6 : 4, BL = mc::THOROUGH ? 5 : 4, GL_ = mc::THOROUGH ? 5 : 4;
    R_.add("interpolator", specs.size() * shapes.size() * IK * IK, [](mc::Ctx &c, uint64_t id) {
      int second = id % IK, first = id / IK % IK, sh = id / (IK * IK) % shapes.size();
      const BSpec &s = specs[id / (IK * IK * shapes.size())];
      int n = shapes[sh].first, cd = shapes[sh].second;
      auto lb = make(s);
      std::vector<Eigen::VectorXd> coef;
      for (int p = 1; p <= 3; p++) coef.push_back(gsplines::interpolate(Spline::e(ilengths(n, p)), waypoints(n + 1, cd, p), *lb).get_coefficients());
      int L = n * cd > 4 && s.dim > 4 && !mc::THOROUGH ? 3 : IL;
      sequences(
          c, IK, L, first,
          [&] {
            IObj o;
            o.I.reset(new Interpolator(cd, n, *lb));
            return o;
          },
          [&](IObj &o, int k) { return iop(o, k, s, n, cd, coef); }, iname, mc::fmt("%s intervals=%d codom=%d", s.str().c_str(), n, cd), second);
      if (id % 301 == 7) c.sample(c.get_note());
    }, 600);
    R_.add("sobolev", specs.size() * shapes.size() * SK, [](mc::Ctx &c, uint64_t id) {
      int first = id % SK, sh = id / SK % shapes.size();
      const BSpec &s = specs[id / (SK * shapes.size())];
      int n = shapes[sh].first, cd = shapes[sh].second;
      auto lb = make(s);
      std::vector<std::pair<std::size_t, double>> w{{1, 0.4}, {3, 0.6}};
      int L = n * cd > 4 ? SL - 1 : SL;
      sequences(
          c, SK, L, first,
          [&] {
            SObj o;
            o.S.reset(new SobolevNorm(waypoints(n + 1, cd, 1), *lb, w));
            return o;
          },
          [&](SObj &o, int k) { return sop(o, k, n); }, sname, mc::fmt("cost on %s intervals=%d codom=%d", s.str().c_str(), n, cd));
      if (id % 61 == 3) c.sample(c.get_note());
    }, 600);
    static std::vector<BSpec> bs{leg(1), leg(2), leg(5), gl(2), gl(5), lag({0.25}), lag({1, 0.4, -0.1, -0.5}), b0101(0.5)};
    R_.add("basis", bs.size() * BK * BK, [](mc::Ctx &c, uint64_t id) {
      const BSpec &s = bs[id / (BK * BK)];
      sequences(
          c, BK, BL, id / BK % BK,
          [&] {
            BObj o;
            o.b = make(s);
            return o;
          },
          bop, bname, s.str(), id % BK);
      if (id % 161 == 3) c.sample(c.get_note());
    }, 600);
    R_.add("spline", specs.size() * GK, [](mc::Ctx &c, uint64_t id) {
      const BSpec &s = specs[id / GK];
      Basis rb(s);
      Spline m = mkspline({0, 3, 2, 1, 0}, rb);
      sequences(
          c, GK, GL_, id % GK,
          [&] {
            GObj o;
            o.g.reset(new GSpline(m.lib()));
            o.keep.reset(new GSpline(m.lib()));
            return o;
          },
          gop, gname, "spline on " + s.str());
    }, 600);
    static const std::vector<std::pair<int, int>> nshapes = mc::THOROUGH ? std::vector<std::pair<int, int>>{{1, 1}, {2, 1}, {3, 2}, {4, 1}, {5, 2}} : std::vector<std::pair<int, int>>{{1, 2}, {3, 1}, {4, 2}};
    static auto nik = [](int n) { return NLV * NWV + 5 * n; };
    for (size_t sh = 0; sh < nshapes.size(); sh++) {
      int n = nshapes[sh].first, cd = nshapes[sh].second, K = nik(n);
      R_.add(mc::fmt("near-interpolator-%dx%d", n, cd), specs.size() * K, [n, cd, K](mc::Ctx &c, uint64_t id) {
        const BSpec &s = specs[id / K];
        if (cd > 1 && s.dim > 4 && n > 3 && !mc::THOROUGH) return;
        auto lb = make(s);
        Eigen::VectorXd coef = gsplines::interpolate(lenvar(n, 0), wpvar(n, cd, 0), *lb).get_coefficients();
        auto nm = [&](int k) { return k < NLV * NWV ? mc::fmt("interpolate(lengths %d, waypoints %d)", k / NWV, k % NWV) : mc::fmt("sensitivity(lengths %d, index %d)", (k - NLV * NWV) / n, (k - NLV * NWV) % n); };
        nearpairs(
            c, K, id % K,
            [&] {
              IObj o;
              o.I.reset(new Interpolator(cd, n, *lb));
              return o;
            },
            [&](IObj &o, int k) {
              return ask([&](std::vector<double> &v) {
                if (k < NLV * NWV) {
                  std::unique_ptr<GSpline> g(new GSpline(o.I->interpolate(lenvar(n, k / NWV), wpvar(n, cd, k % NWV))));
                  put(v, g->get_coefficients());
                  Eigen::VectorXd cc = g->get_coefficients();
                  o.given.emplace_back(std::move(g), cc);
                } else {
                  k -= NLV * NWV;
                  put(v, o.I->get_coeff_derivative_wrt_tau(coef, lenvar(n, k / n), k % n));
                }
              });
            },
            nm, mc::fmt("%s intervals=%d codom=%d", s.str().c_str(), n, cd));
        if (id % 97 == 5) c.sample(c.get_note());
      }, 600);
    }
    // requests that differ from a common base request in exactly one entry (every length, every waypoint entry, every
    // coefficient): every ordered pair of them, interpolation and sensitivities
    static const std::vector<std::pair<int, int>> oshapes{{1, 2}, {2, 2}, {3, 1}, {4, 1}, {5, 1}, {3, 3}, {6, 2}};
    R_.add("one-entry", specs.size() * oshapes.size() * 2, [](mc::Ctx &c, uint64_t id) {
      bool sens = id % 2;
      auto [n0, cd0] = oshapes[id / 2 % oshapes.size()];
      int n = n0, cd = cd0;
      const BSpec &s = specs[id / 2 / oshapes.size()];
      if (!mc::THOROUGH && n * cd * s.dim > 40) return;
      auto lb = make(s);
      Eigen::VectorXd T = lenvar(n, 0);
      Eigen::MatrixXd W = wpvar(n, cd, 0);
      Eigen::VectorXd C = gsplines::interpolate(T, W, *lb).get_coefficients();
      int K = 1 + n + (sens ? std::min<int>(C.size(), 24) : (n + 1) * cd);
      for (int a = 0; a < K; a++)
        nearpairs(
            c, K, a,
            [&] {
              IObj o;
              o.I.reset(new Interpolator(cd, n, *lb));
              return o;
            },
            [&](IObj &o, int k) {
              Eigen::VectorXd t = T, co = C;
              Eigen::MatrixXd w = W;
              if (k > n && sens) co((k - n - 1) * std::max<int>(1, C.size() / 24)) += 0.5;
              else if (k > n) w((k - n - 1) / cd, (k - n - 1) % cd) += 0.5;
              else if (k) t(k - 1) *= 1.25;
              return ask([&](std::vector<double> &v) {
                if (sens) put(v, o.I->get_coeff_derivative_wrt_tau(co, t, n / 2));
                else put(v, o.I->solve_interpolation(t, w));
              });
            },
            [&](int k) { return k == 0 ? std::string("base") : k <= n ? mc::fmt("length %d changed", k - 1) : mc::fmt("%s entry %d changed", sens ? "coefficient" : "waypoint", k - n - 1); },
            mc::fmt("%s intervals=%d codom=%d %s", s.str().c_str(), n, cd, sens ? "sensitivity" : "solve"));
    }, 600);
    R_.add("near-sobolev", specs.size() * nshapes.size() * NLV * 2, [](mc::Ctx &c, uint64_t id) {
      int first = id % (NLV * 2), sh = id / (NLV * 2) % nshapes.size();
      const BSpec &s = specs[id / (NLV * 2 * nshapes.size())];
      int n = nshapes[sh].first, cd = nshapes[sh].second;
      auto lb = make(s);
      nearpairs(
          c, NLV * 2, first,
          [&] {
            SObj o;
            o.S.reset(new SobolevNorm(waypoints(n + 1, cd, 1), *lb, {{1, 0.4}, {3, 0.6}}));
            return o;
          },
          [&](SObj &o, int k) {
            return ask([&](std::vector<double> &v) {
              Eigen::VectorXd t = lenvar(n, k / 2), g = Eigen::VectorXd::Constant(n, 5.0);
              if (k % 2) {
                o.S->deriv_wrt_interval_len(t, g);
                put(v, g);
              } else
                v.push_back((*o.S)(t));
            });
          },
          [&](int k) { return mc::fmt("%s(lengths %d)", k % 2 ? "gradient" : "cost", k / 2); }, mc::fmt("cost on %s intervals=%d codom=%d", s.str().c_str(), n, cd));
    }, 600);
    static const double NS[] = {0.3, 0.3 + 1e-6, -0.3, 1.0}, NT[] = {1.5, 1.5 + 1e-6, 0.7};
    static const int NSH[][3] = {{2, 1, 1}, {1, 2, 1}, {2, 1, 2}, {2, 2, 1}, {3, 1, 1}};
    static const int NB1 = 4 * 3 * 4 * 2 + 12, NB2 = 3 * 4 * 2, NB3 = 5 * 5 * 2, NBK = NB1 + NB2 + NB3;
    R_.add("near-basis", bs.size() * NBK, [](mc::Ctx &c, uint64_t id) {
      const BSpec &s = bs[id / NBK];
      auto nm = [](int k) {
        if (k < 12) return mc::fmt("eval(s=%.6g, tau=%.6g)", NS[k / 3], NT[k % 3]);
        if (k < NB1) { k -= 12; return mc::fmt("%s(s=%.6g, tau=%.6g, order %d)", k % 2 ? "dtau" : "deriv", NS[k / 24], NT[k / 8 % 3], k / 2 % 4); }
        if (k < NB1 + NB2) { k -= NB1; return mc::fmt("%s(tau=%.6g, order %d)", k % 2 ? "gram-dtau" : "gram", NT[k / 8], k / 2 % 4); }
        k -= NB1 + NB2;
        return mc::fmt("%s(%d intervals, codom %d, order %d, lengths %d)", k % 2 ? "continuity" : "derivative-matrix", NSH[k / 10][0], NSH[k / 10][1], NSH[k / 10][2], k / 2 % 5);
      };
      nearpairs(
          c, NBK, id % NBK,
          [&] {
            BObj o;
            o.b = make(s);
            return o;
          },
          [&](BObj &o, int k) {
            auto &b = *o.b;
            int d = b.get_dim();
            Eigen::VectorXd buf = Eigen::VectorXd::Constant(d, 9);
            Eigen::MatrixXd M = Eigen::MatrixXd::Constant(d, d, 0.5);
            return ask([&](std::vector<double> &v) {
              if (k < 12) {
                b.eval_on_window(NS[k / 3], NT[k % 3], buf);
                put(v, buf);
              } else if (k < NB1) {
                k -= 12;
                if (k % 2) b.eval_derivative_wrt_tau_on_window(NS[k / 24], NT[k / 8 % 3], k / 2 % 4, buf);
                else b.eval_derivative_on_window(NS[k / 24], NT[k / 8 % 3], k / 2 % 4, buf);
                put(v, buf);
              } else if (k < NB1 + NB2) {
                k -= NB1;
                if (k % 2) b.add_derivative_matrix_deriv_wrt_tau(NT[k / 8], k / 2 % 4, M);
                else b.add_derivative_matrix(NT[k / 8], k / 2 % 4, M);
                put(v, M);
              } else {
                k -= NB1 + NB2;
                const int *q = NSH[k / 10];
                if (k % 2 && q[0] < 2) return;
                static const int lv[] = {0, 2, 4, 7, 3};
                Eigen::VectorXd t = lenvar(q[0], lv[k / 2 % 5]);
                M = k % 2 ? Eigen::MatrixXd(b.continuity_matrix(q[0], q[1], q[2], t)) : Eigen::MatrixXd(b.gspline_derivative_matrix(q[0], q[1], q[2], t));
                put(v, M);
              }
            });
          },
          nm, s.str());
    }, 600);
    static const int NGL = 8, NGK = NGL * 5;
    R_.add("near-spline", specs.size() * NGK, [](mc::Ctx &c, uint64_t id) {
      const BSpec &s = specs[id / NGK];
      Basis rb(s);
      Spline m = mkspline({0, 3, 2, 1, 0}, rb);
      auto list = [](int k) {
        Eigen::VectorXd t(5);
        t << 0.1, 0.3, 1.1, 1.7, 2.4;
        switch (k) {
        case 1: t(2) += 1e-5; break;
        case 2: t = Eigen::VectorXd(t.reverse()); break;
        case 3: t(4) = 0.6; break;
        case 4: t.array() += 1e-7; break;
        case 5: t = Eigen::VectorXd(t.head(3)); break;
        case 6: t.conservativeResize(6); t(5) = 0.2; break;
        case 7: t = Eigen::VectorXd::Constant(1, 0.1); break;
        }
        return t;
      };
      nearpairs(
          c, NGK, id % NGK,
          [&] {
            GObj o;
            o.g.reset(new GSpline(m.lib()));
            o.keep.reset(new GSpline(m.lib()));
            return o;
          },
          [&](GObj &o, int k) {
            return ask([&](std::vector<double> &v) {
              int ord = k / NGL;
              if (ord == 4) put(v, o.g->deriv(2)->value(list(k % NGL)));
              else put(v, ord == 0 ? (*o.g)(list(k % NGL)) : o.g->derivate(ord)(list(k % NGL)));
            });
          },
          [](int k) { return mc::fmt("derivative %d at list %d", k / NGL, k % NGL); }, "spline on " + s.str());
    }, 600);
    // handed-out splines also survive the interpolator and the basis they came from
    R_.add("outlive", specs.size() * 3, [](mc::Ctx &c, uint64_t id) {
      const BSpec &s = specs[id / 3];
      int n = 1 + id % 3;
      c.note("%s spline outlives interpolator, intervals=%d", s.str().c_str(), n);
      c.state(mc::hstr(c.get_note()));
      std::unique_ptr<GSpline> g, h;
      Eigen::MatrixXd a, b;
      Eigen::VectorXd t = Eigen::VectorXd::LinSpaced(7, 0.0, 0.5);
      {
        auto lb = make(s);
        std::unique_ptr<Interpolator> I(new Interpolator(2, n, *lb));
        g.reset(new GSpline(I->interpolate(Spline::e(ilengths(n, 1)), waypoints(n + 1, 2, 1))));
        a = (*g)(t);
        h.reset(new GSpline(g->derivate()));
        b = (*h)(t);
        I->interpolate(Spline::e(ilengths(n, 2)), waypoints(n + 1, 2, 2));
      }
      c.trans();
      if (!c.check((*g)(t) == a && (*h)(t) == b && g->derivate()(t) == b, "outlive", "values changed after the interpolator was destroyed")) return;
      c.trace();
    });
  });
}
