prop="C19"
needs="a new point closer than 1e-4 (relative) to an old node without being on it"
breaks="the polynomial is evaluated at the old node instead of at the new point"
edits=[("src/Basis/BasisLagrange.cpp","""      if (almost_equal(_new_points(k), _old_points(j), 1.0e-9)) {""","""      if (almost_equal(_new_points(k), _old_points(j), 1.0e-4)) {""")]
cpp=r'''
#include <gsplines/Basis/BasisLagrange.hpp>
#include <cmath>
#include <cstdio>
int main() {
  Eigen::VectorXd o(3), n(2);
  o << -1, 0, 1;
  n << 0.25, 0.99993896484375;
  Eigen::MatrixXd m = gsplines::basis::BasisLagrange::change_interpolation_points(o, n);
  Eigen::VectorXd v(3);
  v << -1, 0, 1;
  Eigen::VectorXd r = m * v;
  for (int i = 0; i < 2; i++)
    if (!(std::fabs(r(i) - n(i)) < 1e-9)) { fprintf(stderr, "identity at %.9g gives %.9g\n", n(i), r(i)); return 1; }
  return 0;
}
'''
