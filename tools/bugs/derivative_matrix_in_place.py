prop="C13"
needs="asking the same basis object for the same derivative matrix a second time, with interval lengths other than 2"
breaks="the cached matrix is rescaled in place, so every further request multiplies the scale factors again"
edits=[("src/Basis/Basis.cpp","""      it_dest.valueRef() = it_src.value() * deriv_factor(interval);""","""      it_dest.valueRef() *= deriv_factor(interval);""")]
cpp=r'''
#include <gsplines/Basis/BasisLegendre.hpp>
#include <cmath>
#include <cstdio>
int main() {
  gsplines::basis::BasisLegendre used(4), fresh(4);
  Eigen::VectorXd t1(2), t2(2);
  t1 << 1, 3;
  t2 << 0.5, 1;
  used.gspline_derivative_matrix(2, 1, 1, t1);
  Eigen::MatrixXd a(used.gspline_derivative_matrix(2, 1, 1, t2)), b(fresh.gspline_derivative_matrix(2, 1, 1, t2));
  double e = (a - b).cwiseAbs().maxCoeff();
  if (!(e < 1e-9)) { fprintf(stderr, "second request off by %g\n", e); return 1; }
  return 0;
}
'''
