prop="C22"
needs="a collocation spline whose intervals have different lengths"
breaks="the derivative operator built from a spline differentiates as if all its intervals had the same length"
edits=[("src/Collocation/GaussLobattoLagrangeFunctionals.cpp","""    : Derivative(_that.get_codom_dim(), _that.get_basis().get_dim(),
                 _that.get_interval_lengths()) {}""","""    : Derivative(_that.get_domain(), _that.get_codom_dim(),
                 _that.get_basis().get_dim(),
                 _that.get_number_of_intervals()) {}""")]
cpp=r'''
#include <gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp>
#include <cstdio>
using namespace gsplines;
int main() {
  Eigen::VectorXd tau(3), co(3 * 4);
  tau << 0.5, 1.0, 0.25;
  for (int i = 0; i < 12; i++) co(i) = 0.3 * i - 0.05 * i * i;
  collocation::GaussLobattoLagrangeSpline g({0.0, 1.75}, 1, 3, 4, co, tau);
  collocation::Derivative d(g);
  collocation::GaussLobattoLagrangeSpline dg = d * g;
  GSpline want = g.derivate();
  Eigen::VectorXd t(5);
  t << 0.1, 0.4, 0.9, 1.3, 1.6;
  double e = (dg(t) - want(t)).cwiseAbs().maxCoeff();
  if (!(e < 1e-8)) { fprintf(stderr, "derivative operator off by %g\n", e); return 1; }
  return 0;
}
'''
extra=["ifopt_shim"]
sh='''#!/bin/bash
# exit 0: behaves as promised; non-zero: broken
set -e
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w -I"$d/ifopt_shim" -I/repo/include -isystem /usr/include/eigen3 "$d/demo.cpp" /repo/src/Collocation/GaussLobattoLagrangeFunctionals.cpp -o "$t/demo" -L/repo/_build -lgsplines -Wl,-rpath,/repo/_build
"$t/demo" > "$t/out" 2> "$t/err" || { rc=$?; tail -n 5 "$t/err"; exit $rc; }
'''
