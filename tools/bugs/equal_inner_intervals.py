prop="C09"
needs="at least two consecutive inner intervals of exactly the same length (four or more intervals)"
breaks="the continuity conditions at the start of the second of them are built from the values at its end"
edits=[("src/Interpolator.cpp","""    fill_buffers(-1.0, _interval_lengths(interval_coor));

    fill_continuity_derivative_block(i0, j0, true, interpolating_matrix_);""","""    // nothing to recompute for a run of equal intervals
    if (interval_coor == 1 or _interval_lengths(interval_coor) !=
                                  _interval_lengths(interval_coor - 1)) {
      fill_buffers(-1.0, _interval_lengths(interval_coor));
    }

    fill_continuity_derivative_block(i0, j0, true, interpolating_matrix_);""")]
cpp=r'''
#include <gsplines/Basis/BasisLegendre.hpp>
#include <gsplines/Interpolator.hpp>
#include <cmath>
#include <cstdio>
int main() {
  gsplines::basis::BasisLegendre b(4);
  Eigen::VectorXd tau(4);
  tau << 1, 2, 2, 1;
  Eigen::MatrixXd wp(5, 1);
  wp << 0, 1, -1, 2, 0.5;
  Eigen::MatrixXd got = gsplines::interpolate(tau, wp, b).get_waypoints();
  for (int i = 0; i < 5; i++)
    if (!(std::fabs(got(i, 0) - wp(i, 0)) < 1e-7)) { fprintf(stderr, "waypoint %d: %g expected %g\n", i, got(i, 0), wp(i, 0)); return 1; }
  return 0;
}
'''
