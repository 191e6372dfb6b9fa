prop="C02"
needs="a second or higher derivative, requested in one step, of a dot product whose two factors both vary"
breaks="the second derivative of a dot product misses the factor two of the mixed term"
edits=[("src/Functions/ElementalFunctions.cpp","""  FunctionExpression *result = first_deriv_impl(_deg);
  FunctionExpression *buffer_pointer = result;

  for (std::size_t k = 1; k < _deg; k++) {""","""  // the first two orders are built directly, higher ones from the second
  FunctionExpression *result =
      _deg == 1 ? first_deriv_impl(_deg)
                : new FunctionExpression(f1_.derivate(2).dot(f2_) +
                                         f1_.derivate().dot(f2_.derivate()) +
                                         f1_.dot(f2_.derivate(2)));
  FunctionExpression *buffer_pointer = result;

  for (std::size_t k = _deg == 1 ? 1 : 2; k < _deg; k++) {""")]
cpp=r'''
#include <gsplines/Functions/ElementalFunctions.hpp>
#include <gsplines/Functions/FunctionExpression.hpp>
#include <cmath>
#include <cstdio>
using namespace gsplines::functions;
int main() {
  Sin a({0.0, 2.0});
  Exponential b({0.0, 2.0});
  Eigen::VectorXd t(3);
  t << 0.25, 1.0, 1.75;
  Eigen::MatrixXd one = DotProduct(a, b).derivate(2)(t);
  Eigen::MatrixXd two = DotProduct(a, b).derivate(1).derivate(1)(t);
  for (int i = 0; i < 3; i++) {
    double r = 2 * std::exp(t(i)) * std::cos(t(i));
    if (!(std::fabs(one(i, 0) - r) < 1e-9) || !(std::fabs(two(i, 0) - r) < 1e-9)) { fprintf(stderr, "t=%g one %g two %g expected %g\n", t(i), one(i, 0), two(i, 0), r); return 1; }
  }
  return 0;
}
'''
