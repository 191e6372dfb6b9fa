prop="C08"
needs="evaluating a Lagrange basis closer than 1e-6 to a node without being on it"
breaks="near a node the basis functions are rounded to 0 and 1"
edits=[("src/Basis/BasisLagrange.cpp","""    if (almost_equal(_s, domain_points_(j), 1.0e-9)) {
      _buff(j) = 1.0;
      return;""","""    if (almost_equal(_s, domain_points_(j), 1.0e-6)) {
      _buff(j) = 1.0;
      return;""")]
cpp=r'''
#include <gsplines/Basis/BasisLagrange.hpp>
#include <cmath>
#include <cstdio>
int main() {
  gsplines::basis::BasisLagrange b(std::vector<double>{-1, 0, 1});
  Eigen::VectorXd v(3);
  double s = 0.9999995;
  b.eval_on_window(s, 1.0, v);
  double r[3] = {s * (s - 1) / 2, 1 - s * s, s * (s + 1) / 2};
  for (int i = 0; i < 3; i++)
    if (!(std::fabs(v(i) - r[i]) < 1e-10)) { fprintf(stderr, "function %d at %g: %.12g expected %.12g\n", i, s, v(i), r[i]); return 1; }
  return 0;
}
'''
