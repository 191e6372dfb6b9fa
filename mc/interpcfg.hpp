// Enumerated interpolation problems and the reference solution, shared by the interpolation harnesses.
#pragma once
#include "splinecfg.hpp"
namespace rs {
// even-sized bases on which interpolation is explored
inline std::vector<BSpec> ibases(bool full) {
  std::vector<BSpec> b{leg(2), leg(4), leg(6), leg(8), leg(10), gl(2), gl(4), gl(6), gl(8), lag({-1, 1}), lag({-0.9, -0.2, 0.3, 0.8}), lag({0.5, -1, 1, -0.3}), uni(6)};
  if (full)
    for (auto &x : {leg(12), leg(14), gl(10), gl(12), uni(4), uni(8), lag({-0.7, -0.1, 0.2, 0.6, 0.95, 1})}) b.push_back(x);
  for (double a : full ? std::vector<double>{0.05, 0.3, 0.5, 0.8, 0.95, 0.99, 0.999} : std::vector<double>{0.3, 0.8, 0.99}) b.push_back(b0101(a));
  return b;
}
inline std::vector<double> ilengths(int n, int pat) {
  std::vector<double> t(n);
  for (int i = 0; i < n; i++) switch (pat) {
    case 0: t[i] = 1.0; break;
    case 1: t[i] = 0.5 + 0.25 * (i % 5); break;
    case 2: t[i] = (i % 2) ? 0.375 : 2.0; break;
    case 3: t[i] = 0.8 + 0.37 * ((i * 3 + 1) % 4); break;
    case 4: t[i] = 3.1 - 0.45 * (i % 5); break;
    case 6: t[i] = 1.0 + ((i * 3 + 1) % 5) / 8192.0; break; // almost, but not, equal
    default: t[i] = i == 0 ? 0.6 : i == n - 1 ? 2.4 : 1.3 + 0.1 * i; break;
    }
  return t;
}
inline std::string ilabel(const BSpec &b, int n, int cd, int pat) { return mc::fmt("%s intervals=%d codom=%d lengths=%d", b.str().c_str(), n, cd, pat); }
} // namespace rs
