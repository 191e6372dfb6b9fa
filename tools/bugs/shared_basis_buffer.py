prop="C20"
needs="two threads evaluating two different splines whose evaluation calls overlap between filling the basis values and combining them"
breaks="a thread combines its coefficients with the basis values of the other thread's point"
edits=[("src/GSpline.cpp","""  double s = 0.0;
  double tau = 0.0;

  std::size_t i = 0;
  std::size_t j = 0;

  for (i = 0; i < result_cols; i++) {""","""  double s = 0.0;
  double tau = 0.0;
  // evaluated very often: do not reallocate between calls
  static Eigen::VectorXd basis_values;
  basis_values.resize(static_cast<long>(basis_->get_dim()));

  std::size_t i = 0;
  std::size_t j = 0;

  for (i = 0; i < result_cols; i++) {"""),("src/GSpline.cpp","""    basis_->eval_on_window(s, tau, basis_buffer_);
    for (j = 0; j < get_codom_dim(); j++) {
      _result(static_cast<long>(i), static_cast<long>(j)) =
          coefficient_segment(current_interval, j).adjoint() * basis_buffer_;""","""    basis_->eval_on_window(s, tau, basis_values);
    for (j = 0; j < get_codom_dim(); j++) {
      _result(static_cast<long>(i), static_cast<long>(j)) =
          coefficient_segment(current_interval, j).adjoint() * basis_values;""")]
cpp=r'''
#include <gsplines/GSpline.hpp>
#include <gsplines/Basis/BasisLegendre.hpp>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <thread>
using namespace gsplines;
int main() {
  std::atomic<int> bad{0};
  std::atomic<bool> go{false};
  auto end = std::chrono::steady_clock::now() + std::chrono::seconds(8);
  auto work = [&](double value) {
    basis::BasisLegendre b(6);
    Eigen::VectorXd co(6 * 2), tau(1);
    for (int i = 0; i < 12; i++) co(i) = value * (i + 1);
    tau(0) = 1.0;
    GSpline g({0.0, 1.0}, 2, 1, b, co, tau, "g");
    Eigen::VectorXd t(400);
    for (int i = 0; i < 400; i++) t(i) = value > 0 ? 0.1 + 1e-3 * i : 0.9 - 1e-3 * i;
    Eigen::MatrixXd want(400, 2);
    Eigen::VectorXd w(6);
    for (int i = 0; i < 400; i++) {
      b.eval_on_window(2.0 * t(i) - 1.0, 1.0, w);
      want(i, 0) = co.head(6).dot(w);
      want(i, 1) = co.tail(6).dot(w);
    }
    go = true;
    while (!bad && std::chrono::steady_clock::now() < end)
      if ((g.value(t) - want).cwiseAbs().maxCoeff() > 1e-9) bad = 1;
  };
  std::thread x(work, 1.0), y(work, -3.0), z(work, 2.0), u(work, -7.0);
  x.join(); y.join(); z.join(); u.join();
  if (bad) { fprintf(stderr, "a spline evaluated in one thread saw another thread's values\n"); return 1; }
  return 0;
}
'''
sh='''#!/bin/bash
# exit 0: behaves as promised; non-zero: broken
set -e
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w -pthread -I/repo/include -isystem /usr/include/eigen3 "$d/demo.cpp" -o "$t/demo" -L/repo/_build -lgsplines -Wl,-rpath,/repo/_build
"$t/demo" > "$t/out" 2> "$t/err" || { rc=$?; tail -n 5 "$t/err"; exit $rc; }
'''
