prop="C14"
needs="composite weights over a domain that does not start at zero"
breaks="the composite Gauss-Lobatto weights sum to the right end instead of the length of the domain"
edits=[("src/Collocation/GaussLobattoPointsWeights.cpp","""  Eigen::VectorXd result(_nglp * _n_intervals);

  double local_interval_length = (right_bound - left_bound) / _n_intervals;

  for (std::size_t interval = 0; interval < _n_intervals; interval++) {

    result.segment(interval * _nglp, _nglp) = glw * local_interval_length / 2.0;""","""  Eigen::VectorXd result(_nglp * _n_intervals);

  double local_interval_length = right_bound / _n_intervals;

  for (std::size_t interval = 0; interval < _n_intervals; interval++) {

    result.segment(interval * _nglp, _nglp) = glw * local_interval_length / 2.0;""")]
cpp=r'''
#include <gsplines/Collocation/GaussLobattoPointsWeights.hpp>
#include <cmath>
#include <cstdio>
int main() {
  Eigen::VectorXd w = gsplines::collocation::legendre_gauss_lobatto_weights(std::make_tuple(1.0, 4.0), 5, 3);
  if (!(std::fabs(w.sum() - 3.0) < 1e-9)) { fprintf(stderr, "weights sum to %g\n", w.sum()); return 1; }
  return 0;
}
'''
