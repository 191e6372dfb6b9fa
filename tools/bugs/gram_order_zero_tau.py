prop="C12"
needs="a cost with a term of order zero, on a Lagrange basis"
breaks="the gradient of the cost misses the change of the order-zero integral with the interval length"
edits=[("src/Basis/BasisLagrange.cpp","""  double scale = _deg > 0 ? -0.5 * (2.0 * _deg - 1.0) * pow(2.0 / tau, 2 * _deg)
                          : 1.0 / 2.0;
""","""  double scale =
      _deg > 0 ? -0.5 * (2.0 * _deg - 1.0) * pow(2.0 / tau, 2 * _deg) : 0.0;
""")]
cpp=r'''
#include <gsplines/Basis/BasisLagrange.hpp>
#include <gsplines/FunctionalAnalysis/Sobolev.hpp>
#include <cmath>
#include <cstdio>
int main() {
  gsplines::basis::BasisLagrangeGaussLobatto b(4);
  Eigen::VectorXd tau(2), g(2);
  tau << 1, 1.5;
  Eigen::MatrixXd wp(3, 1);
  wp << 0, 1, -1;
  gsplines::functional_analysis::SobolevNorm cost(wp, b, {{0, 1.0}, {1, 0.5}});
  cost.deriv_wrt_interval_len(tau, g);
  for (int k = 0; k < 2; k++) {
    double h = 1e-4;
    Eigen::VectorXd tp = tau, tm = tau;
    tp(k) += h; tm(k) -= h;
    double fd = (cost(tp) - cost(tm)) / (2 * h);
    if (!(std::fabs(fd - g(k)) < 1e-5 * (1 + std::fabs(fd)))) { fprintf(stderr, "gradient %d: %g expected %g\n", k, g(k), fd); return 1; }
  }
  return 0;
}
'''
