prop="C01"
needs="evaluating a concatenation to the right of its domain when the last piece is not constant"
breaks="a concatenation no longer holds its last value outside the domain: it extrapolates the last piece"
edits=[("src/Functions/FunctionsConcat.cpp","""      _function_array.back()->value(
          Eigen::VectorXd::Constant(
              1, _function_array.back()->get_domain().second),
          temp);
""","""      _function_array.back()->value(_domain_points.segment(i, 1), temp);
""")]
cpp=r'''
#include <gsplines/Functions/ElementalFunctions.hpp>
#include <gsplines/Functions/FunctionExpression.hpp>
#include <cmath>
#include <cstdio>
using namespace gsplines::functions;
int main() {
  Sin a({0.0, 1.0});
  Exponential b({1.0, 2.0});
  FunctionExpression f = a.concat(b);
  Eigen::VectorXd t(4);
  t << -1.0, 0.5, 1.5, 3.0;
  Eigen::MatrixXd v = f(t);
  double ref[4] = {std::sin(0.0), std::sin(0.5), std::exp(1.5), std::exp(2.0)};
  for (int i = 0; i < 4; i++)
    if (!(std::fabs(v(i, 0) - ref[i]) < 1e-9)) { fprintf(stderr, "t=%g value %g expected %g\n", t(i), v(i, 0), ref[i]); return 1; }
  return 0;
}
'''
