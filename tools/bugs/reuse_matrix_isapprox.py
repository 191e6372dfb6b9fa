prop="C10"
needs="an interpolator reused with interval lengths that differ only slightly (about 1e-5) from those of the previous request"
breaks="the second answer is computed with the matrix of the first request, so it differs from the answer of a fresh interpolator"
edits=[("include/gsplines/Interpolator.hpp","""  Eigen::VectorXd sol_buffer_;
""","""  Eigen::VectorXd sol_buffer_;
  Eigen::VectorXd last_interval_lengths_;
"""),("src/Interpolator.cpp","""  fill_buffers(-1.0, _interval_lengths(0));

  fill_position_block(i0, j0, interpolating_matrix_);""","""  // the solver often asks for the same intervals again
  if (last_interval_lengths_.size() == _interval_lengths.size() and
      last_interval_lengths_.isApprox(_interval_lengths, 1.0e-5)) {
    return;
  }
  last_interval_lengths_ = _interval_lengths;

  fill_buffers(-1.0, _interval_lengths(0));

  fill_position_block(i0, j0, interpolating_matrix_);""")]
cpp=r'''
#include <gsplines/Basis/BasisLegendre.hpp>
#include <gsplines/Interpolator.hpp>
#include <cmath>
#include <cstdio>
int main() {
  gsplines::basis::BasisLegendre b(6);
  Eigen::VectorXd t1(2), t2(2);
  t1 << 1, 2;
  t2 << 1.00001, 2;
  Eigen::MatrixXd wp(3, 1);
  wp << 0, 10, -10;
  gsplines::Interpolator used(1, 2, b), fresh(1, 2, b);
  used.interpolate(t1, wp);
  Eigen::VectorXd x = used.interpolate(t2, wp).get_coefficients(), y = fresh.interpolate(t2, wp).get_coefficients();
  double e = (x - y).cwiseAbs().maxCoeff();
  if (!(e < 1e-9)) { fprintf(stderr, "used and fresh interpolator differ by %g\n", e); return 1; }
  return 0;
}
'''
