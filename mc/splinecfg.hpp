// Enumerated spline shapes shared by the spline harnesses.
#pragma once
#include "refspline.hpp"
namespace rs {
// interval length patterns. Patterns 0..3, 6 and 7 are dyadic (all partial sums exact in binary floating point)
inline std::vector<double> lengths(int n, int pat) {
  std::vector<double> t(n);
  for (int i = 0; i < n; i++) switch (pat) {
    case 0: t[i] = 1.0; break;
    case 1: t[i] = 0.5 + 0.25 * (i % 5); break;
    case 2: t[i] = (i % 2) ? 0.125 : 3.0; break;
    case 3: t[i] = 2.5 - 0.25 * (i % 7); break;
    case 4: t[i] = 1.0 / 3 + 0.1 * i; break;
    case 6: t[i] = 1.0 + ((i * 3 + 1) % 5) / 65536.0; break; // almost, but not, equal
    case 7: t[i] = (i % 3 == 1) ? 1.0 / 256 : 4.0; break;    // very different
    default: t[i] = 0.7 * (1 + 0.31 * ((i * 5 + 2) % 4)); break;
    }
  return t;
}
inline bool dyadic(int pat) { return pat < 4 || pat == 6 || pat == 7; }
struct Cfg {
  int base, n, codom, pat, start;
};
static const double STARTS[] = {0.0, -3.5, 2.25, 100.0, -0.5};
inline std::string cfgstr(const Cfg &c, const BSpec &b) {
  return mc::fmt("%s intervals=%d codom=%d lengths-pattern=%d start=%g", b.str().c_str(), c.n, c.codom, c.pat, STARTS[c.start]);
}
inline Spline mkspline(const Cfg &c, const Basis &b, int seed = 1) {
  Spline s;
  s.b = &b;
  s.codom = c.codom;
  s.tau = lengths(c.n, c.pat);
  R e = STARTS[c.start];
  for (double x : s.tau) e += x;
  s.dom = {STARTS[c.start], (double)e};
  s.coef = coefs(c.n * c.codom * b.dim(), seed);
  return s;
}
inline std::vector<Basis> &baselib() {
  static std::vector<Basis> B;
  if (B.empty())
    for (auto &s : bases(true)) B.emplace_back(s);
  return B;
}
inline std::vector<int> base_ids(bool full) {
  std::vector<int> r;
  auto small = bases(false);
  for (size_t i = 0; i < baselib().size(); i++) {
    bool in = full;
    for (auto &s : small) in = in || s.str() == baselib()[i].s.str();
    if (in) r.push_back(i);
  }
  return r;
}
} // namespace rs
