prop="C17"
needs="rescaling a spline whose domain does not start at zero"
breaks="the domain of the rescaled spline ends at the new time instead of start + new time"
edits=[("include/gsplines/GSpline.hpp","""    new_domain.second = new_domain.first + _new_exec_time;
""","""    new_domain.second *= time_scale_factor;
""")]
cpp=r'''
#include <gsplines/Basis/BasisLegendre.hpp>
#include <gsplines/GSpline.hpp>
#include <cmath>
#include <cstdio>
int main() {
  gsplines::basis::BasisLegendre b(2);
  Eigen::VectorXd c(4), tau(2);
  c << 0, 1, 2, 1;
  tau << 1, 1;
  gsplines::GSpline s({1.0, 3.0}, 1, 2, b, c, tau);
  gsplines::GSpline r = s.linear_scaling_new_execution_time(4.0);
  if (!(std::fabs(r.get_domain().first - 1.0) < 1e-9 && std::fabs(r.get_domain().second - 5.0) < 1e-9)) { fprintf(stderr, "domain [%g, %g]\n", r.get_domain().first, r.get_domain().second); return 1; }
  return 0;
}
'''
