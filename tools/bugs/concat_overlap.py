prop="C04"
needs="concatenating functions whose domains overlap (the second starts before the first ends)"
breaks="concatenations of functions with overlapping domains are accepted instead of rejected"
edits=[("src/Functions/FunctionsConcat.cpp","""  if (abs(_f1.get_domain().second - _f2.get_domain().first) >
      FunctionBase::dom_tollerance_)""","""  if (_f2.get_domain().first - _f1.get_domain().second >
      FunctionBase::dom_tollerance_)""")]
cpp=r'''
#include <gsplines/Functions/ElementalFunctions.hpp>
#include <gsplines/Functions/FunctionExpression.hpp>
#include <cstdio>
#include <stdexcept>
using namespace gsplines::functions;
static bool refused(double a, double b) {
  try { Sin({0.0, 1.0}).concat(Cos({a, b}).to_expression()); } catch (const std::invalid_argument &) { return true; }
  return false;
}
int main() {
  if (refused(1.0, 2.0)) return 2;
  if (!refused(1.5, 2.0)) return 3;
  if (!refused(0.5, 2.0)) { fprintf(stderr, "overlap accepted\n"); return 1; }
  return 0;
}
'''
