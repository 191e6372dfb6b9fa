prop="C07"
needs="adding splines on the same intervals whose bases are of the same kind and size but have different parameters (Lagrange nodes)"
breaks="splines over different bases are combined coefficient by coefficient instead of being refused"
edits=[("src/GSpline.cpp","""  return get_basis() == _that.get_basis() and
""","""  return get_basis_name() == _that.get_basis_name() and
         get_basis_dim() == _that.get_basis_dim() and
""")]
cpp=r'''
#include <gsplines/Basis/BasisLagrange.hpp>
#include <gsplines/GSpline.hpp>
#include <cstdio>
int main() {
  gsplines::basis::BasisLagrange b1(std::vector<double>{-1, 0, 1}), b2(std::vector<double>{-1, 0.5, 1});
  Eigen::VectorXd c = Eigen::VectorXd::Ones(3), tau = Eigen::VectorXd::Ones(1);
  gsplines::GSpline p({0.0, 1.0}, 1, 1, b1, c, tau), q({0.0, 1.0}, 1, 1, b2, c, tau);
  gsplines::GSpline ok = p + p;
  try { gsplines::GSpline bad = p + q; } catch (const std::invalid_argument &) { return 0; }
  fprintf(stderr, "splines over different nodes were added\n");
  return 1;
}
'''
