prop="C11"
needs="five or more intervals and the sensitivity to an inner interval after the second inner one"
breaks="the derivative of the interpolation matrix is filled into the wrong rows for those intervals"
edits=[("src/Interpolator.cpp","""    i0 += (codom_dim_ * (basis_->get_dim() - 2) + 2 * codom_dim_) *
          (_tau_idx - 1);
""","""    // rows added by the inner intervals before this one
    if (_tau_idx > 1) {
      i0 += codom_dim_ * (basis_->get_dim() - 2) + 2 * codom_dim_;
    }
""")]
cpp=r'''
#include <gsplines/Basis/BasisLegendre.hpp>
#include <gsplines/Interpolator.hpp>
#include <cmath>
#include <cstdio>
int main() {
  gsplines::basis::BasisLegendre b(4);
  const int n = 5;
  Eigen::VectorXd tau(n);
  tau << 1, 1.5, 0.75, 1.25, 2;
  Eigen::MatrixXd wp(n + 1, 1);
  wp << 0, 1, -1, 2, 0.5, 1;
  gsplines::Interpolator in(1, n, b);
  for (int k = 0; k < n; k++) {
    double h = 1e-4;
    Eigen::VectorXd tp = tau, tm = tau;
    tp(k) += h; tm(k) -= h;
    Eigen::VectorXd fd = (in.interpolate(tp, wp).get_coefficients() - in.interpolate(tm, wp).get_coefficients()) / (2 * h);
    Eigen::VectorXd c = in.interpolate(tau, wp).get_coefficients();
    Eigen::VectorXd d = in.get_coeff_derivative_wrt_tau(c, tau, k);
    double e = (d - fd).cwiseAbs().maxCoeff();
    if (!(e < 1e-5)) { fprintf(stderr, "interval %d: off by %g\n", k, e); return 1; }
  }
  return 0;
}
'''
