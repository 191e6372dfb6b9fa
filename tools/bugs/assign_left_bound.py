prop="C16"
needs="assigning a function to a collocation spline that has intervals of different lengths"
breaks="the function is sampled at the wrong points from the second interval on"
edits=[("src/Collocation/GaussLobattoLagrange.cpp","""        Eigen::Map<Eigen::VectorXd>(local_value.data(), local_value.size());
    left_bound += get_interval_lengths()(interval);
  }
""","""        Eigen::Map<Eigen::VectorXd>(local_value.data(), local_value.size());
    left_bound += get_domain_length() / get_number_of_intervals();
  }
""")]
cpp=r'''
#include <gsplines/Collocation/GaussLobattoLagrange.hpp>
#include <gsplines/Functions/ElementalFunctions.hpp>
#include <cmath>
#include <cstdio>
using namespace gsplines::collocation;
int main() {
  Eigen::VectorXd c = Eigen::VectorXd::Zero(6), tau(2);
  tau << 1, 3;
  GaussLobattoLagrangeSpline s({0.0, 4.0}, 1, 2, 3, c, tau);
  s = gsplines::functions::Identity({0.0, 4.0});
  Eigen::VectorXd p = s.get_domain_discretization();
  for (int i = 0; i < 6; i++)
    if (!(std::fabs(s.value_at(i)(0) - p(i)) < 1e-9)) { fprintf(stderr, "node %d: %g expected %g\n", i, s.value_at(i)(0), p(i)); return 1; }
  return 0;
}
'''
