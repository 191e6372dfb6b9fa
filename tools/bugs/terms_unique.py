prop="C15"
needs="a list of terms that names the same derivative order twice"
breaks="only the first weight of a repeated order counts in Sobolev products and norms"
edits=[("src/FunctionalAnalysis/Sobolev.cpp","""  for (const std::pair<std::size_t, double> &term : _terms) {
    sum +=""","""  const std::map<std::size_t, double> unique_terms(_terms.begin(),
                                                   _terms.end());
  for (const std::pair<const std::size_t, double> &term : unique_terms) {
    sum +="""),("src/FunctionalAnalysis/Sobolev.cpp","""#include <iostream>
""","""#include <iostream>
#include <map>
""")]
cpp=r'''
#include <gsplines/FunctionalAnalysis/Sobolev.hpp>
#include <gsplines/Functions/ElementalFunctions.hpp>
#include <cmath>
#include <cstdio>
int main() {
  gsplines::functions::Identity f({0.0, 1.0});
  double a = gsplines::functional_analysis::sobolev_semi_norm(f, {{1, 2.0}, {1, 3.0}}, 4, 2);
  if (!(std::fabs(a - 5.0) < 1e-9)) { fprintf(stderr, "norm %g expected 5\n", a); return 1; }
  return 0;
}
'''
