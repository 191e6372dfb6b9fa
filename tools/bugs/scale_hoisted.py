prop="C06"
needs="deriving a spline in which an interval has the length of the first one but follows an interval of another length (e.g. 1, 2, 1)"
breaks="the derivative on such an interval is scaled with the length of the interval before it"
edits=[("include/gsplines/GSpline.hpp","""    if (_deg > 0) {
      for (interval_coor = 0;""","""    double scale = 1.0;
    if (_deg > 0) {
      for (interval_coor = 0;"""),("include/gsplines/GSpline.hpp","""          double scale = 1.0;
          /// workaround""","""          /// workaround"""),("include/gsplines/GSpline.hpp","""          } else {
            scale = std::pow(
""","""          } else if (interval_coor == 0 or
                     Base::domain_interval_lengths_(interval_coor) !=
                         Base::domain_interval_lengths_(0)) {
            // most splines have equal intervals: do not repeat the power
            scale = std::pow(
""")]
cpp=r'''
#include <gsplines/Basis/BasisLegendre.hpp>
#include <gsplines/GSpline.hpp>
#include <cmath>
#include <cstdio>
int main() {
  gsplines::basis::BasisLegendre b(2);
  Eigen::VectorXd c(6), tau(3), t(3);
  c << 0, 1, 0, 1, 0, 1;
  tau << 1, 2, 1;
  gsplines::GSpline s({0.0, 4.0}, 1, 3, b, c, tau);
  t << 0.5, 2.0, 3.5;
  Eigen::MatrixXd v = s.derivate()(t);
  for (int i = 0; i < 3; i++)
    if (!(std::fabs(v(i, 0) - 2.0 / tau(i)) < 1e-9)) { fprintf(stderr, "interval %d slope %g expected %g\n", i, v(i, 0), 2.0 / tau(i)); return 1; }
  return 0;
}
'''
