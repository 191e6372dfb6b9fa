prop="C21"
needs="a solver that asks for the cost and then for its gradient at the same iterate"
breaks="the gradient handed to the solver is the one of an earlier iterate"
edits=[("src/Optimization/ipopt_interface.cpp","""  buff_1_.noalias() =
      GetVariables()->GetComponent("TimeSegmentLenghtsVar")->GetValues();

  sobol_norm_.deriv_wrt_interval_len(buff_1_, buff_2_);
""","""  const Eigen::VectorXd tauv =
      GetVariables()->GetComponent("TimeSegmentLenghtsVar")->GetValues();

  // solvers ask several times at the same iterate
  if (not gradient_ready_ or tauv != buff_1_) {
    buff_1_ = tauv;
    sobol_norm_.deriv_wrt_interval_len(buff_1_, buff_2_);
    gradient_ready_ = true;
  }
"""),("include/gsplines/Optimization/ipopt_interface.hpp","""  mutable Eigen::VectorXd buff_2_;
""","""  mutable Eigen::VectorXd buff_2_;
  mutable bool gradient_ready_ = false;
""")]
cpp=r'''
#include <gsplines/Basis/BasisLegendre.hpp>
#include <gsplines/Optimization/ipopt_solver.hpp>
#include <gsplines/Optimization/ipopt_interface.hpp>
#include <ifopt/ipopt_solver.h>
#include <cstdio>
using namespace gsplines;
int main() {
  Eigen::MatrixXd w(4, 1);
  w << 0.0, 1.0, -0.5, 2.0;
  bool bad = false;
  ifopt::IpoptSolver::hook() = [&](ifopt::Problem &nlp, const ifopt::Options &) {
    basis::BasisLegendre b(4);
    for (double k : {1.0, 1.5, 0.5}) {
      Eigen::VectorXd x(3), g(3);
      x << k, 1.0, 2.0 - 0.5 * k;
      functional_analysis::SobolevNorm ref(w, b, {{2, 1.0}});
      ref.deriv_wrt_interval_len(x, g);
      nlp.EvaluateCostFunction(x.data());
      Eigen::VectorXd gg = nlp.EvaluateCostFunctionGradient(x.data());
      if (!((gg - g).norm() < 1e-8 * g.norm())) bad = true;
    }
    return 0;
  };
  optimization::optimal_sobolev_norm(w, basis::BasisLegendre(4), {{2, 1.0}}, 3.0);
  if (bad) { fprintf(stderr, "the gradient is not the gradient at the iterate\n"); return 1; }
  return 0;
}
'''
extra=["ifopt_shim"]
sh='''#!/bin/bash
# exit 0: behaves as promised; non-zero: broken
set -e
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w -I"$d/ifopt_shim" -I/repo/include -isystem /usr/include/eigen3 "$d/demo.cpp" /repo/src/Optimization/ipopt_interface.cpp /repo/src/Optimization/ipopt_solver.cpp -o "$t/demo" -L/repo/_build -lgsplines -Wl,-rpath,/repo/_build
"$t/demo" > "$t/out" 2> "$t/err" || { rc=$?; tail -n 5 "$t/err"; exit $rc; }
'''
