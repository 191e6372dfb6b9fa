prop="C03"
needs="a moved composition composed with an lvalue composition of two functions that do not commute"
breaks="the result depends on whether the outer operand was moved: the inner functions are applied in reverse order"
edits=[("src/Functions/FunctionsComp.cpp","""    if (_that.get_type() == COMPOSITION) {
      std::transform(_that.function_array_.rbegin(),
                     _that.function_array_.rend(),
                     std::front_inserter(function_array_),""","""    if (_that.get_type() == COMPOSITION) {
      std::transform(_that.function_array_.begin(),
                     _that.function_array_.end(),
                     std::front_inserter(function_array_),""")]
cpp=r'''
#include <gsplines/Functions/ElementalFunctions.hpp>
#include <gsplines/Functions/FunctionExpression.hpp>
#include <cmath>
#include <cstdio>
using namespace gsplines::functions;
int main() {
  std::pair<double, double> d{0.0, 1.0};
  FunctionExpression outer = Sin(d).compose(Cos(d).to_expression());
  FunctionExpression inner = Exponential(d).compose(DomainLinearDilation(d, 0.5).to_expression());
  FunctionExpression keep = outer;
  Eigen::VectorXd t(2);
  t << 0.25, 0.75;
  Eigen::MatrixXd a = keep.compose(inner)(t);
  FunctionExpression moved = std::move(outer).compose(inner);
  Eigen::MatrixXd b = moved(t);
  for (int i = 0; i < 2; i++) {
    double r = std::sin(std::cos(std::exp(0.5 * t(i))));
    if (!(std::fabs(a(i, 0) - r) < 1e-9) || !(std::fabs(b(i, 0) - r) < 1e-9)) { fprintf(stderr, "t=%g lvalue %g moved %g expected %g\n", t(i), a(i, 0), b(i, 0), r); return 1; }
  }
  return 0;
}
'''
