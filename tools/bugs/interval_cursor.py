prop="C05"
needs="evaluating a spline with several intervals at a list of points that is not sorted"
breaks="points that come after a point of a later interval are evaluated with the wrong interval's polynomial"
edits=[("src/GSpline.cpp","""    current_interval = get_interval(_domain_points(static_cast<long>(i)));
""","""    // the points usually come in order: go on from the interval of the last one
    while (current_interval + 1 < get_number_of_intervals() and
           interval_to_window(_domain_points(static_cast<long>(i)),
                              current_interval) > 1.0) {
      current_interval++;
    }
""")]
cpp=r'''
#include <gsplines/Basis/BasisLegendre.hpp>
#include <gsplines/GSpline.hpp>
#include <cmath>
#include <cstdio>
int main() {
  gsplines::basis::BasisLegendre b(2);
  Eigen::VectorXd c(6), tau(3);
  c << 1, 0.5, 10, -2, 100, 3;
  tau << 1, 2, 1;
  gsplines::GSpline s({0.0, 4.0}, 1, 3, b, c, tau);
  Eigen::VectorXd t(4), p(1);
  t << 3.5, 0.25, 2.0, 0.75;
  Eigen::MatrixXd v = s(t);
  for (int i = 0; i < 4; i++) {
    p(0) = t(i);
    double r = s(p)(0, 0);
    if (!(std::fabs(v(i, 0) - r) < 1e-9)) { fprintf(stderr, "t=%g in list %g alone %g\n", t(i), v(i, 0), r); return 1; }
  }
  return 0;
}
'''
