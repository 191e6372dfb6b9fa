From 9eb3003b24a971f1f2d8460f1e33c85632237825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:34 +0000
Subject: [PATCH 01/32] fix: unary minus of a compound expression negates the
 whole expression

-(f+g), -(f*g), f-(g+h) aborted and -(-f) evaluated to -f, because the
operand list of the expression was reused as the operand of the negation.
---
 src/Functions/FunctionMul.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Functions/FunctionMul.cpp b/src/Functions/FunctionMul.cpp
index 9383f1a..aae76b7 100644
--- a/src/Functions/FunctionMul.cpp
+++ b/src/Functions/FunctionMul.cpp
@@ -141,16 +141,22 @@ FunctionExpression::operator*(FunctionExpression &&_that) && {
 }
 FunctionExpression FunctionExpression::operator-() const & {
 
+  std::list<std::unique_ptr<FunctionBase>> result_array;
+  result_array.push_back(this->clone());
+
   return FunctionExpression(get_domain(), get_codom_dim(),
                             FunctionExpression::Type::NEGATIVE,
-                            function_array_);
+                            std::move(result_array));
 }
 
 FunctionExpression FunctionExpression::operator-() && {
 
+  std::list<std::unique_ptr<FunctionBase>> result_array;
+  result_array.push_back(this->move_clone());
+
   return FunctionExpression(get_domain(), get_codom_dim(),
                             FunctionExpression::Type::NEGATIVE,
-                            std::move(function_array_));
+                            std::move(result_array));
 }
 
 FunctionExpression operator*(double _value, const FunctionExpression &_that) {
-- 
2.43.0


From 3166d63ad8852bdcb65e7614484043faa58036aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:50 +0000
Subject: [PATCH 02/32] fix: composing a moved composition takes the domain of
 the inner function

---
 src/Functions/FunctionsComp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Functions/FunctionsComp.cpp b/src/Functions/FunctionsComp.cpp
index 8666a04..0bfad86 100644
--- a/src/Functions/FunctionsComp.cpp
+++ b/src/Functions/FunctionsComp.cpp
@@ -96,6 +96,7 @@ FunctionExpression::compose(const FunctionExpression &_that) && {
     } else {
       function_array_.push_front(_that.clone());
     }
+    set_domain(_that.get_domain());
     return std::move(*this);
   }
 
-- 
2.43.0


From 719b10ec75d1ac9a405f86dac4b2abd63e7ec266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:50 +0000
Subject: [PATCH 03/32] fix: concatenating onto a moved concatenation extends
 its domain

---
 src/Functions/FunctionsConcat.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Functions/FunctionsConcat.cpp b/src/Functions/FunctionsConcat.cpp
index 094ca37..3048e14 100644
--- a/src/Functions/FunctionsConcat.cpp
+++ b/src/Functions/FunctionsConcat.cpp
@@ -97,8 +97,10 @@ FunctionExpression::concat(const FunctionExpression &_that) && {
     target_array.push_back(_that.clone());
   }
 
-  if (get_type() == CONCATENATION)
+  if (get_type() == CONCATENATION) {
+    set_domain(get_domain().first, _that.get_domain().second);
     return std::move(*this);
+  }
 
   target_array.push_front(this->move_clone());
 
@@ -124,8 +126,10 @@ FunctionExpression FunctionExpression::concat(FunctionExpression &&_that) && {
     target_array.push_back(_that.move_clone());
   }
 
-  if (get_type() == CONCATENATION)
+  if (get_type() == CONCATENATION) {
+    set_domain(get_domain().first, _that.get_domain().second);
     return std::move(*this);
+  }
 
   target_array.push_front(this->move_clone());
   return FunctionExpression(
-- 
2.43.0


From 10017f7891eab8f8d58a5665334ca10f3787f046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:51 +0000
Subject: [PATCH 04/32] fix: compound assignment of functions rejects ill-typed
 operands

---
 src/Functions/FunctionMul.cpp | 14 ++++++++++++++
 src/Functions/FunctionSum.cpp |  3 +++
 2 files changed, 17 insertions(+)

diff --git a/src/Functions/FunctionMul.cpp b/src/Functions/FunctionMul.cpp
index aae76b7..ef81802 100644
--- a/src/Functions/FunctionMul.cpp
+++ b/src/Functions/FunctionMul.cpp
@@ -17,6 +17,17 @@ void compatibility_mul(const FunctionExpression &_f1,
   }
 }
 
+void compatibility_mul_assign(const FunctionExpression &_target,
+                              const FunctionExpression &_that) {
+
+  compatibility_mul(_target, _that);
+
+  if (_that.get_codom_dim() > _target.get_codom_dim()) {
+    throw std::invalid_argument(
+        "The product would change the codomain of the assigned function");
+  }
+}
+
 const FunctionExpression &
 return_first_or_max_codom_dim(const FunctionExpression &_f1,
                               const FunctionExpression &_f2) {
@@ -169,6 +180,8 @@ FunctionExpression operator*(double _value, FunctionExpression &&_that) {
 }
 
 void FunctionExpression::operator*=(FunctionExpression &&that) {
+
+  compatibility_mul_assign(*this, that);
   Type initial_type = get_type();
   if (initial_type == UNIQUE) {
     type_ = MULTIPLICATION;
@@ -185,6 +198,7 @@ void FunctionExpression::operator*=(FunctionExpression &&that) {
 
 void FunctionExpression::operator*=(const FunctionExpression &that) {
 
+  compatibility_mul_assign(*this, that);
   Type initial_type = get_type();
   if (initial_type == UNIQUE) {
     type_ = MULTIPLICATION;
diff --git a/src/Functions/FunctionSum.cpp b/src/Functions/FunctionSum.cpp
index fea1634..07be365 100644
--- a/src/Functions/FunctionSum.cpp
+++ b/src/Functions/FunctionSum.cpp
@@ -137,6 +137,8 @@ FunctionExpression *deriv_sum_functions(
 }
 
 void FunctionExpression::operator+=(FunctionExpression &&that) {
+
+  sum_throw(*this, that);
   Type initial_type = get_type();
   if (initial_type == UNIQUE) {
     type_ = SUM;
@@ -153,6 +155,7 @@ void FunctionExpression::operator+=(FunctionExpression &&that) {
 
 void FunctionExpression::operator+=(const FunctionExpression &that) {
 
+  sum_throw(*this, that);
   Type initial_type = get_type();
   if (initial_type == UNIQUE) {
     type_ = SUM;
-- 
2.43.0


From 41dad071708ddd9d876d05dd38a7259e28759ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:19 +0000
Subject: [PATCH 05/32] fix: derivative matrix of Basis0101 is the power of the
 first one

---
 src/Basis/Basis0101.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Basis/Basis0101.cpp b/src/Basis/Basis0101.cpp
index fe4bd16..ade0823 100644
--- a/src/Basis/Basis0101.cpp
+++ b/src/Basis/Basis0101.cpp
@@ -169,8 +169,9 @@ Eigen::MatrixXd Basis0101::derivative_matrix_impl(std::size_t _deg) const {
 
   Q *= tauk;
 
+  const Eigen::MatrixXd Q1(Q);
   for (std::size_t i = 2; i <= _deg; i++) {
-    Q *= Q;
+    Q *= Q1;
   }
 
   return Q;
-- 
2.43.0


From 2abb5c3a526afe1ff1fa9940583d672b15a1191f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:21 +0000
Subject: [PATCH 06/32] fix: compound assignment of splines compiles and
 returns its target

---
 include/gsplines/GSpline.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gsplines/GSpline.hpp b/include/gsplines/GSpline.hpp
index 07692ea..dee5a5c 100644
--- a/include/gsplines/GSpline.hpp
+++ b/include/gsplines/GSpline.hpp
@@ -218,7 +218,7 @@ class GSplineInheritanceHelper
       throw std::invalid_argument("Cannot sum Incompatible Gspline");
     }
     Base::coefficients_ += that.coefficients_;
-    return *this;
+    return static_cast<Current&>(*this);
   }
 
   Current& operator-=(const Current& that) {
@@ -227,7 +227,7 @@ class GSplineInheritanceHelper
     }
 
     Base::coefficients_ -= that.coefficients_;
-    return *this;
+    return static_cast<Current&>(*this);
   }
 
   Current linear_scaling_new_execution_time(double _new_exec_time) const {
-- 
2.43.0


From 038f14a073f54d0ab679086702b734a2d768384a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:29 +0000
Subject: [PATCH 07/32] fix: splines on shifted domains are different splines

---
 src/GSpline.cpp | 2 ++
 src/Tools.cpp   | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/GSpline.cpp b/src/GSpline.cpp
index 7231b74..9c122f6 100644
--- a/src/GSpline.cpp
+++ b/src/GSpline.cpp
@@ -196,6 +196,8 @@ Eigen::MatrixXd GSplineBase::get_waypoints() const {
 bool GSplineBase::same_vector_space(const GSplineBase& _that) const {
   return get_basis() == _that.get_basis() and
          get_codom_dim() == _that.get_codom_dim() and
+         tools::approx_equal(get_domain().first, _that.get_domain().first,
+                             1.0e-8) and
          tools::approx_equal(get_interval_lengths(),
                              _that.get_interval_lengths(), 1.0e-8);
 }
diff --git a/src/Tools.cpp b/src/Tools.cpp
index dd69101..0a94a37 100644
--- a/src/Tools.cpp
+++ b/src/Tools.cpp
@@ -46,7 +46,9 @@ bool approx_equal(const Eigen::MatrixXd &_lhs, const Eigen::MatrixXd &_rhs,
 bool approx_equal(const GSplineBase &_lhs, const GSplineBase &_rhs,
                   double _tol) {
 
-  return approx_equal(_lhs.get_coefficients(), _rhs.get_coefficients(),
+  return approx_equal(_lhs.get_domain().first, _rhs.get_domain().first,
+                      _tol) and
+         approx_equal(_lhs.get_coefficients(), _rhs.get_coefficients(),
                       _tol) and
          approx_equal(_lhs.get_interval_lengths(), _rhs.get_interval_lengths(),
                       _tol) and
-- 
2.43.0


From 02961fc18e72045aee9b0c7eb10fe7273cea60a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:34 +0000
Subject: [PATCH 08/32] fix: Legendre basis evaluates derivatives beyond its
 degree and dimension one

---
 src/Basis/BasisLegendre.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Basis/BasisLegendre.cpp b/src/Basis/BasisLegendre.cpp
index 9c3b328..123ac00 100644
--- a/src/Basis/BasisLegendre.cpp
+++ b/src/Basis/BasisLegendre.cpp
@@ -53,9 +53,15 @@ void BasisLegendre::eval_derivative_on_window(
   double aux = 0;
   double mutiplier = 1.0;
   _buff.setZero();
+  /// the derivatives beyond the degree of the polynomials are zero
+  if (_deg >= get_dim()) {
+    return;
+  }
   buff_next.setZero();
   _buff(0) = 1.0;
-  _buff(1) = _s;
+  if (get_dim() > 1) {
+    _buff(1) = _s;
+  }
   for (unsigned int i = 1; i < get_dim() - 1; i++) {
     _buff(i + 1) =
         1.0 / ((double)i + 1.0) *
@@ -91,7 +97,9 @@ void BasisLegendre::eval_on_window(
     Eigen::Ref<Eigen::VectorXd, 0, Eigen::InnerStride<>> _buff) const {
   _buff.setZero();
   _buff(0) = 1.0;
-  _buff(1) = _s;
+  if (get_dim() > 1) {
+    _buff(1) = _s;
+  }
   for (std::size_t i = 1; i < get_dim() - 1; i++) {
     _buff(i + 1) =
         1.0 / ((double)i + 1.0) *
-- 
2.43.0


From 741640364527c08090bab72d08bc93d4fc240dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:37 +0000
Subject: [PATCH 09/32] fix: Gram matrices of the Legendre basis are those of
 the basis derivatives

---
 src/Basis/BasisLegendre.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Basis/BasisLegendre.cpp b/src/Basis/BasisLegendre.cpp
index 123ac00..bd9304b 100644
--- a/src/Basis/BasisLegendre.cpp
+++ b/src/Basis/BasisLegendre.cpp
@@ -28,8 +28,8 @@ BasisLegendre::BasisLegendre(std::size_t _dim)
 
   derivative_matrices_buffer_.push_back(l2normbase_matrix);
   for (std::size_t i = 1; i < _dim + 1; i++) {
-    derivative_matrices_buffer_.push_back(dmat * l2normbase_matrix *
-                                          dmat.transpose());
+    derivative_matrices_buffer_.push_back(dmat.transpose() *
+                                          l2normbase_matrix * dmat);
     dmat *= derivative_matrix_;
   }
   // get_derivative_matrix(get_dim());
-- 
2.43.0


From 2e4d20434f1e0678925f938df3a7f95712f22c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:37 +0000
Subject: [PATCH 10/32] fix: change_interpolation_points looks for a matching
 node in each row

---
 src/Basis/BasisLagrange.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Basis/BasisLagrange.cpp b/src/Basis/BasisLagrange.cpp
index 7c5e3d3..691926f 100644
--- a/src/Basis/BasisLagrange.cpp
+++ b/src/Basis/BasisLagrange.cpp
@@ -260,12 +260,12 @@ Eigen::MatrixXd BasisLagrange::change_interpolation_points(
   std::size_t book_m = _new_points.size();
   std::size_t book_n = _old_points.size();
   double t_book, s_book;
-  bool book_row_has_match = false;
 
   Eigen::MatrixXd result(book_m, book_n);
   Eigen::VectorXd bw = barycentric_weights(_old_points);
 
   for (std::size_t k = 0; k < book_m; k++) {
+    bool book_row_has_match = false;
     for (std::size_t j = 0; j < book_n; j++) {
       result(k, j) = 0.0;
       if (almost_equal(_new_points(k), _old_points(j), 1.0e-9)) {
-- 
2.43.0


From 98125c26a287d0b98eee5aacaa275639740ebd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:37 +0000
Subject: [PATCH 11/32] fix: Gram matrices of the Lagrange basis are exact
 integrals for every node set

---
 src/Basis/BasisLagrange.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/Basis/BasisLagrange.cpp b/src/Basis/BasisLagrange.cpp
index 691926f..8b9b5ed 100644
--- a/src/Basis/BasisLagrange.cpp
+++ b/src/Basis/BasisLagrange.cpp
@@ -40,19 +40,24 @@ BasisLagrange::BasisLagrange(Eigen::Ref<const Eigen::VectorXd> _domain_points)
 
   Eigen::MatrixXd dmat(derivative_matrix_);
 
-  Eigen::MatrixXd points_to_glp_matrix(change_interpolation_points(
-      _domain_points, collocation::legendre_gauss_lobatto_points(get_dim())));
+  // The dim+1 Gauss-Lobatto points integrate exactly the products of two
+  // polynomials of the basis
+  Eigen::VectorXd glp;
+  Eigen::VectorXd glw;
+  std::tie(glp, glw) =
+      collocation::legendre_gauss_lobatto_points_and_weights(get_dim() + 1);
 
-  Eigen::MatrixXd l2normbase_matrix(get_dim(), get_dim());
+  Eigen::MatrixXd points_to_glp_matrix(
+      change_interpolation_points(_domain_points, glp));
 
-  l2normbase_matrix.diagonal() =
-      collocation::legendre_gauss_lobatto_weights(get_dim());
+  Eigen::MatrixXd l2normbase_matrix(points_to_glp_matrix.transpose() *
+                                    glw.asDiagonal() * points_to_glp_matrix);
 
   derivative_matrices_buffer_.push_back(l2normbase_matrix);
 
   for (std::size_t i = 1; i < get_dim() + 1; i++) {
-    derivative_matrices_buffer_.push_back(dmat * l2normbase_matrix *
-                                          dmat.transpose());
+    derivative_matrices_buffer_.push_back(dmat.transpose() *
+                                          l2normbase_matrix * dmat);
     dmat = derivative_matrix(domain_points_, i + 1);
   }
   // get_derivative_matrix(get_dim());
-- 
2.43.0


From 6db2a13bcfc7f5e06b20c2257c1d4f8b355aae07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:25 +0000
Subject: [PATCH 12/32] fix: second Gram matrix of Basis0101 is with respect to
 time

---
 src/Basis/Basis0101.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Basis/Basis0101.cpp b/src/Basis/Basis0101.cpp
index ade0823..82ebe33 100644
--- a/src/Basis/Basis0101.cpp
+++ b/src/Basis/Basis0101.cpp
@@ -747,6 +747,8 @@ void compute_Qd2_block(double _tau, double _alpha,
   _res(5, 3) = 0;
   _res(5, 4) = 0;
   _res(5, 5) = 0;
+  // the expressions above are for derivatives with respect to 2 t / tau
+  _res *= 4.0 / (_tau * _tau);
 }
 
 void compute_Q_block(double _tau, double _alpha,
-- 
2.43.0


From 5b1070abaca2066a5224d6a231001bc21ff390a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:20 +0000
Subject: [PATCH 13/32] fix: continuity matrix holds the derivatives at the
 interval ends for every basis

---
 src/Basis/Basis.cpp | 56 +++++++++++++++------------------------------
 1 file changed, 18 insertions(+), 38 deletions(-)

diff --git a/src/Basis/Basis.cpp b/src/Basis/Basis.cpp
index 5d317fa..50454b5 100644
--- a/src/Basis/Basis.cpp
+++ b/src/Basis/Basis.cpp
@@ -57,20 +57,7 @@ const Eigen::SparseMatrix<double, Eigen::RowMajor>& Basis::continuity_matrix(
         (_number_of_intervals - 1) * _codom_dim * (_deriv_order + 1),
         _number_of_intervals * _codom_dim * get_dim());
 
-    Eigen::MatrixXd left_buffer(_deriv_order + 1, get_dim());
-    Eigen::MatrixXd right_buffer(_deriv_order + 1, get_dim());
-
-    get_derivative_matrix_block(_deriv_order);
-
-    eval_derivative_on_window(-1.0, 2.0, 0, left_buffer.row(0));
-    eval_derivative_on_window(1.0, 2.0, 0, right_buffer.row(0));
-
-    for (std::size_t der = 1; der <= _deriv_order; der++) {
-      const Eigen::MatrixXd& dblock = get_derivative_matrix_block(der);
-      left_buffer.row(der) = dblock.row(0);
-      right_buffer.row(der) = dblock.bottomRows(1);
-    }
-
+    // the entries depend on the interval lengths, only the structure is set here
     std::size_t i0, j0;
 
     for (std::size_t der_coor = 0; der_coor <= _deriv_order; der_coor++) {
@@ -86,7 +73,7 @@ const Eigen::SparseMatrix<double, Eigen::RowMajor>& Basis::continuity_matrix(
                basis_coor++) {
             result.insert(i0 + codom_coor,
                           j0 + basis_coor * 1.0 + get_dim() * codom_coor) =
-                right_buffer(der_coor, basis_coor);
+                0.0;
           }
         }
         // fill components relative to the rhs value od the interval
@@ -97,7 +84,7 @@ const Eigen::SparseMatrix<double, Eigen::RowMajor>& Basis::continuity_matrix(
                basis_coor++) {
             result.insert(i0 + codom_coor,
                           j0 + basis_coor * 1.0 + get_dim() * codom_coor) =
-                -left_buffer(der_coor, basis_coor);
+                0.0;
           }
         }
       }
@@ -120,34 +107,27 @@ const Eigen::SparseMatrix<double, Eigen::RowMajor>& Basis::continuity_matrix(
   Eigen::SparseMatrix<double, Eigen::RowMajor>& mat_dest =
       continuity_matrix_dynamic_buff_[_number_of_intervals][_codom_dim]
                                      [_deriv_order];
-  Eigen::SparseMatrix<double, Eigen::RowMajor>& mat_src =
-      continuity_matrix_buff_[_number_of_intervals][_codom_dim][_deriv_order];
-
-  // in our case all the rows of the matrix have at more than one non-zero cell
-  // By this reason the outer index coincieds with the cols
-  for (long k = _codom_dim * (_number_of_intervals - 1);
-       k < mat_dest.outerSize(); ++k) {
+  // Each row is the jump of one derivative of one component at one breakpoint,
+  // i.e. the value at the end of an interval minus the value at the begin of
+  // the next one.
+  Eigen::VectorXd left_buffer(get_dim());
+  Eigen::VectorXd right_buffer(get_dim());
+  for (long k = 0; k < mat_dest.outerSize(); ++k) {
     std::size_t deg = k / (_codom_dim * (_number_of_intervals - 1));
+    std::size_t breakpoint = (k / _codom_dim) % (_number_of_intervals - 1);
 
-    Eigen::VectorXd deriv_factor =
-        Eigen::pow(2.0 / _interval_lengths.array(), deg);
+    eval_derivative_on_window(1.0, _interval_lengths(breakpoint), deg,
+                              right_buffer);
+    eval_derivative_on_window(-1.0, _interval_lengths(breakpoint + 1), deg,
+                              left_buffer);
 
     Eigen::SparseMatrix<double, Eigen::RowMajor>::InnerIterator it_dest(
         mat_dest, k);
-    Eigen::SparseMatrix<double, Eigen::RowMajor>::InnerIterator it_src(mat_src,
-                                                                       k);
-    for (/*already initialized*/; it_dest; ++it_dest, ++it_src) {
+    for (/*already initialized*/; it_dest; ++it_dest) {
       std::size_t interval = it_dest.col() / (get_dim() * _codom_dim);
-      it_dest.valueRef() = it_src.value() * deriv_factor(interval);
-      assert(it_dest.col() == it_dest.index());
-      assert(it_dest.row() == k);
-      /*
-      std::cout << "row " << it_dest.row() << " col " << it_dest.col() << "
-      index "
-                << it_dest.index() << " outer idx " << k << " interval " <<
-      interval
-                << " deg " << deg << " val " << it_dest.value() << std::endl;
-                */
+      std::size_t basis_coor = it_dest.col() % get_dim();
+      it_dest.valueRef() = interval == breakpoint ? right_buffer(basis_coor)
+                                                  : -left_buffer(basis_coor);
     }
   }
 
-- 
2.43.0


From 339d11179f212a60203430da9dfaa7cd7a161f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:39 +0000
Subject: [PATCH 14/32] fix: derivative matrix of splines on Basis0101 is not
 scaled by the interval length

---
 src/Basis/Basis.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Basis/Basis.cpp b/src/Basis/Basis.cpp
index 50454b5..0acb77f 100644
--- a/src/Basis/Basis.cpp
+++ b/src/Basis/Basis.cpp
@@ -178,6 +178,10 @@ Basis::gspline_derivative_matrix(
 
   Eigen::VectorXd deriv_factor =
       Eigen::pow(2.0 / _interval_lengths.array(), _deriv_order);
+  /// the derivative block of Basis0101 is already with respect to time
+  if (dynamic_cast<const Basis0101*>(this) != nullptr) {
+    deriv_factor.setOnes();
+  }
 
   for (long k = 0; k < mat_dest.outerSize(); ++k) {
     // std::size_t deg = k / (_codom_dim * (_number_of_intervals - 1));
-- 
2.43.0


From f680bff8d1151d399b7200952f219a3a1cbb23a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:40 +0000
Subject: [PATCH 15/32] fix: interpolation refuses waypoints of the wrong shape

---
 src/Interpolator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Interpolator.cpp b/src/Interpolator.cpp
index ef00399..284fa46 100644
--- a/src/Interpolator.cpp
+++ b/src/Interpolator.cpp
@@ -350,6 +350,12 @@ const Eigen::Ref<const Eigen::VectorXd> Interpolator::solve_interpolation(
   if ((_interval_lengths.array() < 1.0e-6).any()) {
     throw std::invalid_argument(" Interval lenghts cannot be negative !");
   }
+  if (_waypoints.rows() != (long)(num_intervals_ + 1) or
+      _waypoints.cols() != (long)codom_dim_) {
+    throw std::invalid_argument(
+        "Cannot interpolate. The array of waypoints is not of the required "
+        "shape");
+  }
   // 1. fill the interpolating matrix
   fill_interpolating_matrix(_interval_lengths);
   // 2. fill the interpolating vector
-- 
2.43.0


From 885d0cdfb51de5dacdab84241e785d2fed8e8b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:00 +0000
Subject: [PATCH 16/32] fix: coefficient sensitivities refuse wrong indices and
 sizes

---
 src/Interpolator.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Interpolator.cpp b/src/Interpolator.cpp
index 284fa46..1d128ab 100644
--- a/src/Interpolator.cpp
+++ b/src/Interpolator.cpp
@@ -260,10 +260,10 @@ Eigen::Ref<const Eigen::VectorXd> Interpolator::get_coeff_derivative_wrt_tau(
     throw std::invalid_argument(
         "get_coeff_derivative_wrt_tau: Interval lenghts cannot be negative !");
   }
-  if (_interval_lengths.size() != (long)num_intervals_ or _tau_idx < 0 or
-      _tau_idx >= num_intervals_) {
-    fprintf(stderr, "Cannot compute derivative of coefficients wrt tau ");
-    return coefficients_vector_;
+  if (_interval_lengths.size() != (long)num_intervals_ or
+      _coeff.size() != (long)matrix_size_ or _tau_idx >= num_intervals_) {
+    throw std::invalid_argument(
+        "Cannot compute derivative of coefficients wrt tau ");
   }
 
   Eigen::SparseMatrix<double> &mat = interpolation_matrix_ders_[_tau_idx];
-- 
2.43.0


From ef9827f0be4af6483ed3cec9be9b2c77bde4cbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:10 +0000
Subject: [PATCH 17/32] fix: every term of a Sobolev cost has its own weight

---
 src/FunctionalAnalysis/Sobolev.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/FunctionalAnalysis/Sobolev.cpp b/src/FunctionalAnalysis/Sobolev.cpp
index 4fd654c..87254d5 100644
--- a/src/FunctionalAnalysis/Sobolev.cpp
+++ b/src/FunctionalAnalysis/Sobolev.cpp
@@ -50,8 +50,9 @@ void SobolevNorm::deriv_wrt_interval_len(
     // initialize the matrix buffers and compute the de matrix values
     matrix_.setZero();
     for (std::pair<std::size_t, double> w : weights_) {
-      basis_->add_derivative_matrix_deriv_wrt_tau(tau, w.first, matrix_);
-      matrix_ *= w.second;
+      matrix_2_.setZero();
+      basis_->add_derivative_matrix_deriv_wrt_tau(tau, w.first, matrix_2_);
+      matrix_ += w.second * matrix_2_;
     }
     // compute y^T dQdtau_i y
     for (codom_coor = 0; codom_coor < codom_dim_; codom_coor++) {
@@ -79,8 +80,9 @@ double SobolevNorm::inner_prod(
     matrix_.setZero();
     tau = _interval_lengths(interval_coor);
     for (std::pair<std::size_t, double> w : weights_) {
-      basis_->add_derivative_matrix(tau, w.first, matrix_);
-      matrix_ *= w.second;
+      matrix_2_.setZero();
+      basis_->add_derivative_matrix(tau, w.first, matrix_2_);
+      matrix_ += w.second * matrix_2_;
     }
     for (codom_coor = 0; codom_coor < codom_dim_; codom_coor++) {
       const Eigen::Ref<const Eigen::VectorXd> v1 = get_coefficient_segment(
-- 
2.43.0


From 5503fdb03b588d4fea92152c51f0eacadf86350a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:07 +0000
Subject: [PATCH 18/32] fix: a singular interpolation problem is refused
 instead of answered with an old solution

---
 src/Interpolator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Interpolator.cpp b/src/Interpolator.cpp
index 1d128ab..3779461 100644
--- a/src/Interpolator.cpp
+++ b/src/Interpolator.cpp
@@ -368,7 +368,8 @@ const Eigen::Ref<const Eigen::VectorXd> Interpolator::solve_interpolation(
     print_info();
     std::cout << "interval lengths:\n" << _interval_lengths.transpose() << "\n";
     print_interpolating_matrix();
-    return sol_buffer_;
+    throw std::runtime_error(
+        "Cannot interpolate. The interpolating matrix is singular");
   }
   sol_buffer_ = solver.solve(interpolating_vector_);
   // 4. Return the interpolating function
-- 
2.43.0


From 286350d97f463f8d1a7937e14e67fc263f2a25c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:32 +0000
Subject: [PATCH 19/32] fix: Gauss-Lobatto points on a non-uniform partition
 follow each other

---
 src/Collocation/GaussLobattoPointsWeights.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Collocation/GaussLobattoPointsWeights.cpp b/src/Collocation/GaussLobattoPointsWeights.cpp
index 6cca8b7..f5ea7a1 100644
--- a/src/Collocation/GaussLobattoPointsWeights.cpp
+++ b/src/Collocation/GaussLobattoPointsWeights.cpp
@@ -190,10 +190,10 @@ legendre_gauss_lobatto_points(double _left_bound, std::size_t _nglp,
 
   for (long interval = 0; interval < _intervals.size(); interval++) {
 
-    double local_left_bound = left_bound + interval * _intervals[interval];
-
     result.segment(interval * _nglp, _nglp) =
-        (glp.array() + 1.0) * _intervals[interval] / 2.0 + local_left_bound;
+        (glp.array() + 1.0) * _intervals[interval] / 2.0 + left_bound;
+
+    left_bound += _intervals[interval];
   }
   return result;
 }
-- 
2.43.0


From 181516d33639d548f61bf67c124d3ab0089ea874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:52 +0000
Subject: [PATCH 20/32] fix: set_from_array compiles without a function and
 refuses values of the wrong shape

---
 .../gsplines/Collocation/GaussLobattoLagrange.hpp   | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/gsplines/Collocation/GaussLobattoLagrange.hpp b/include/gsplines/Collocation/GaussLobattoLagrange.hpp
index 7212784..ad7cb6b 100644
--- a/include/gsplines/Collocation/GaussLobattoLagrange.hpp
+++ b/include/gsplines/Collocation/GaussLobattoLagrange.hpp
@@ -136,12 +136,12 @@ public:
                       const IteratorType &_begin, const IteratorType &_end,
                       const Function &_fun) {
 
-    set_domain(_domain);
     auto dist = std::distance(_begin, _end);
     if (dist != static_cast<decltype(dist)>(get_basis().get_dim() *
                                             get_number_of_intervals())) {
       throw std::runtime_error("wrong number of elements");
     }
+    set_domain(_domain);
     domain_interval_lengths_ =
         domain_interval_lengths_ *
         (get_domain_length() / domain_interval_lengths_.array().sum());
@@ -151,10 +151,10 @@ public:
       long interval = index / get_basis().get_dim();
       decltype(auto) vec = _fun(*it);
       if (vec.cols() != 1) {
-        std::invalid_argument("This function only accept eigen row vectors");
+        throw std::invalid_argument("This function only accept eigen row vectors");
       }
       if (vec.rows() != static_cast<long>(get_codom_dim())) {
-        std::invalid_argument(__FILE__ "Vector dimension error");
+        throw std::invalid_argument(__FILE__ "Vector dimension error");
       }
       get_value_block(interval).row(index % get_basis().get_dim()) = vec;
     }
@@ -163,11 +163,8 @@ public:
   template <typename IteratorType>
   void set_from_array(std::pair<double, double> _domain,
                       const IteratorType &_begin, const IteratorType &_end) {
-    set_domain(_domain);
-    set_from_array(_begin, _end,
-                   [](const Eigen::MatrixXd &_in) -> const Eigen::MatrixXd & {
-                     return _in;
-                   });
+    set_from_array(_domain, _begin, _end,
+                   [](const auto &_in) -> const auto & { return _in; });
   }
 
   bool same_discretization(const GaussLobattoLagrangeSpline &_that) const;
-- 
2.43.0


From 08d1c2973e37c86c3603ced71f73b48382fb271e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:52 +0000
Subject: [PATCH 21/32] fix: domain discretization of a collocation spline
 follows its intervals

---
 include/gsplines/Collocation/GaussLobattoLagrange.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gsplines/Collocation/GaussLobattoLagrange.hpp b/include/gsplines/Collocation/GaussLobattoLagrange.hpp
index ad7cb6b..7fb8848 100644
--- a/include/gsplines/Collocation/GaussLobattoLagrange.hpp
+++ b/include/gsplines/Collocation/GaussLobattoLagrange.hpp
@@ -112,8 +112,8 @@ public:
 
   std::size_t get_nglp() const { return get_basis_dim(); }
   Eigen::VectorXd get_domain_discretization() const {
-    return legendre_gauss_lobatto_points(get_domain(), get_nglp(),
-                                         get_number_of_intervals());
+    return legendre_gauss_lobatto_points(get_domain().first, get_nglp(),
+                                         get_interval_lengths());
   }
 
   GaussLobattoLagrangeSpline
-- 
2.43.0


From 2f29e10bb30e670aa4a162741286f1ede4a2d244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:19 +0000
Subject: [PATCH 22/32] fix: assigning a collocation spline takes over its
 intervals

---
 src/Collocation/GaussLobattoLagrange.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Collocation/GaussLobattoLagrange.cpp b/src/Collocation/GaussLobattoLagrange.cpp
index a856c26..f54acc1 100644
--- a/src/Collocation/GaussLobattoLagrange.cpp
+++ b/src/Collocation/GaussLobattoLagrange.cpp
@@ -66,6 +66,7 @@ GaussLobattoLagrangeSpline &GaussLobattoLagrangeSpline::operator=(
     throw std::invalid_argument("Assigmention requires same codomain");
 
   set_domain(_that.get_domain());
+  domain_interval_lengths_ = _that.domain_interval_lengths_;
 
   coefficients_ = _that.coefficients_;
   return *this;
@@ -81,6 +82,7 @@ GaussLobattoLagrangeSpline::operator=(GaussLobattoLagrangeSpline &&_that) & {
     throw std::invalid_argument("Assigmention requires same codomain");
 
   set_domain(_that.get_domain());
+  domain_interval_lengths_ = _that.domain_interval_lengths_;
   coefficients_ = std::move(_that.coefficients_);
   return *this;
 }
-- 
2.43.0


From 1b9a5ab199d0659da2b18ba4dcb41e0a84a64027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:19 +0000
Subject: [PATCH 23/32] fix: product of collocation splines refuses operands on
 different intervals

---
 src/Collocation/GaussLobattoLagrange.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Collocation/GaussLobattoLagrange.cpp b/src/Collocation/GaussLobattoLagrange.cpp
index f54acc1..fb79951 100644
--- a/src/Collocation/GaussLobattoLagrange.cpp
+++ b/src/Collocation/GaussLobattoLagrange.cpp
@@ -229,6 +229,9 @@ GaussLobattoLagrangeSpline GaussLobattoLagrangeSpline::operator*(
     throw std::invalid_argument("Discretization must be the same");
   if (not same_domain(_that))
     throw std::invalid_argument("GSplines must have same domain");
+  if (not tools::approx_equal(get_interval_lengths(),
+                              _that.get_interval_lengths(), 1.0e-8))
+    throw std::invalid_argument("GSplines must have same intervals");
   if (not(get_codom_dim() == 1 or _that.get_codom_dim() == 1))
     throw std::invalid_argument("Multiplication can be only done by scalars");
 
@@ -257,6 +260,9 @@ GaussLobattoLagrangeSpline GaussLobattoLagrangeSpline::operator*(
     throw std::invalid_argument("Discretization must be the same");
   if (not same_domain(_that))
     throw std::invalid_argument("GSplines must have same domain");
+  if (not tools::approx_equal(get_interval_lengths(),
+                              _that.get_interval_lengths(), 1.0e-8))
+    throw std::invalid_argument("GSplines must have same intervals");
   if (not(get_codom_dim() == 1 or _that.get_codom_dim() == 1))
     throw std::invalid_argument("Multiplication can be only done by scalars");
 
@@ -297,6 +303,9 @@ GaussLobattoLagrangeSpline GaussLobattoLagrangeSpline::operator*(
     throw std::invalid_argument("Discretization must be the same");
   if (not same_domain(_that))
     throw std::invalid_argument("GSplines must have same domain");
+  if (not tools::approx_equal(get_interval_lengths(),
+                              _that.get_interval_lengths(), 1.0e-8))
+    throw std::invalid_argument("GSplines must have same intervals");
   if (not(get_codom_dim() == 1 or _that.get_codom_dim() == 1))
     throw std::invalid_argument("Multiplication can be only done by scalars");
 
@@ -337,6 +346,9 @@ GaussLobattoLagrangeSpline::operator*(GaussLobattoLagrangeSpline &&_that) && {
     throw std::invalid_argument("Discretization must be the same");
   if (not same_domain(_that))
     throw std::invalid_argument("GSplines must have same domain");
+  if (not tools::approx_equal(get_interval_lengths(),
+                              _that.get_interval_lengths(), 1.0e-8))
+    throw std::invalid_argument("GSplines must have same intervals");
   if (not(get_codom_dim() == 1 or _that.get_codom_dim() == 1))
     throw std::invalid_argument("Multiplication can be only done by scalars");
 
-- 
2.43.0


From 7afc523a5060e54b4ba1d6f3a1410a8c9b088078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:29 +0000
Subject: [PATCH 24/32] fix: collocation spline of a function has the requested
 intervals and points

---
 src/Collocation/GaussLobattoLagrange.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Collocation/GaussLobattoLagrange.cpp b/src/Collocation/GaussLobattoLagrange.cpp
index fb79951..f717c6a 100644
--- a/src/Collocation/GaussLobattoLagrange.cpp
+++ b/src/Collocation/GaussLobattoLagrange.cpp
@@ -55,7 +55,7 @@ GaussLobattoLagrangeSpline::GaussLobattoLagrangeSpline(GSpline &&_that)
 GaussLobattoLagrangeSpline::GaussLobattoLagrangeSpline(
     const ::gsplines::functions::FunctionBase &_that, std::size_t _n_intervals,
     std::size_t _n_glp)
-    : GaussLobattoLagrangeSpline(approximate(_that, _n_intervals, _n_glp)) {}
+    : GaussLobattoLagrangeSpline(approximate(_that, _n_glp, _n_intervals)) {}
 
 GaussLobattoLagrangeSpline &GaussLobattoLagrangeSpline::operator=(
     const GaussLobattoLagrangeSpline &_that) & {
-- 
2.43.0


From 112363ddd6034900697a20238451bb218feb8bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:40 +0000
Subject: [PATCH 25/32] fix: time scaling accepts a velocity bound or an
 acceleration bound alone

---
 include/gsplines/GSpline.hpp | 46 +++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/include/gsplines/GSpline.hpp b/include/gsplines/GSpline.hpp
index dee5a5c..b647249 100644
--- a/include/gsplines/GSpline.hpp
+++ b/include/gsplines/GSpline.hpp
@@ -292,8 +292,10 @@ class GSplineInheritanceHelper
     if (_dt < 1.0e-8) {
       throw std::invalid_argument("dt cannot be negative or too small");
     }
-    if (_velocity_bound.value().size() != this->get_codom_dim() ||
-        _acceleration_bound.value().size() != this->get_codom_dim()) {
+    if ((_velocity_bound.has_value() &&
+         _velocity_bound.value().size() != this->get_codom_dim()) ||
+        (_acceleration_bound.has_value() &&
+         _acceleration_bound.value().size() != this->get_codom_dim())) {
       throw std::invalid_argument(
           "Bounds for velocity and acceleration must correspont to codom dim");
     }
@@ -312,23 +314,29 @@ class GSplineInheritanceHelper
     Eigen::MatrixXd gspline_diff_1_evaluated = gspline_diff_1(time_spam);
     Eigen::MatrixXd gspline_diff_2_evaluated = gspline_diff_2(time_spam);
 
-    const Eigen::Map<const Eigen::VectorXd> velocity_bound(
-        _velocity_bound.value().data(),
-        static_cast<long>(_velocity_bound.value().size()));
-    const Eigen::Map<const Eigen::VectorXd> acceleration_bound(
-        _acceleration_bound.value().data(),
-        static_cast<long>(_acceleration_bound.value().size()));
-
-    const double max_velocity_ratio =
-        (gspline_diff_1_evaluated.array().abs().colwise().maxCoeff() /
-         velocity_bound.transpose().array())
-            .maxCoeff();
-
-    const double max_acceleration_ratio =
-        Eigen::sqrt(
-            gspline_diff_2_evaluated.array().abs().colwise().maxCoeff() /
-            acceleration_bound.transpose().array())
-            .maxCoeff();
+    // a bound which is not given does not restrict the scaling
+    double max_velocity_ratio = 0.0;
+    if (_velocity_bound.has_value()) {
+      const Eigen::Map<const Eigen::VectorXd> velocity_bound(
+          _velocity_bound.value().data(),
+          static_cast<long>(_velocity_bound.value().size()));
+      max_velocity_ratio =
+          (gspline_diff_1_evaluated.array().abs().colwise().maxCoeff() /
+           velocity_bound.transpose().array())
+              .maxCoeff();
+    }
+
+    double max_acceleration_ratio = 0.0;
+    if (_acceleration_bound.has_value()) {
+      const Eigen::Map<const Eigen::VectorXd> acceleration_bound(
+          _acceleration_bound.value().data(),
+          static_cast<long>(_acceleration_bound.value().size()));
+      max_acceleration_ratio =
+          Eigen::sqrt(
+              gspline_diff_2_evaluated.array().abs().colwise().maxCoeff() /
+              acceleration_bound.transpose().array())
+              .maxCoeff();
+    }
 
     const double time_scale_factor =
         std::max(max_velocity_ratio, max_acceleration_ratio);
-- 
2.43.0


From 2ff1ce2236922db403f37a478548b4b5831b3cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:48 +0000
Subject: [PATCH 26/32] fix: static get of the Python bases returns an object
 Python owns

---
 bindings/bindings.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bindings/bindings.cpp b/bindings/bindings.cpp
index 2ddffab..98d755b 100644
--- a/bindings/bindings.cpp
+++ b/bindings/bindings.cpp
@@ -42,19 +42,23 @@ PYBIND11_MODULE(pygsplines, gsplines_module) {
   py::class_<gsplines::basis::BasisLegendre, gsplines::basis::Basis>(
       basis_submodule, "BasisLegendre")
       .def(py::init<std::size_t>())
-      .def_static("get", &gsplines::basis::BasisLegendre::get);
+      .def_static("get", [](std::size_t _dim) {
+        return gsplines::basis::BasisLegendre::get(_dim)->move_clone();
+      });
 
   py::class_<gsplines::basis::BasisLagrange, gsplines::basis::Basis>(
       basis_submodule, "BasisLagrange")
       .def(py::init<Eigen::Ref<const Eigen::VectorXd>>())
       .def_static("get", [](const Eigen::Ref<const Eigen::VectorXd> _params) {
-        return gsplines::basis::BasisLagrange::get(_params);
+        return gsplines::basis::BasisLagrange::get(_params)->move_clone();
       });
 
   py::class_<gsplines::basis::Basis0101, gsplines::basis::Basis>(
       basis_submodule, "Basis0101")
       .def(py::init<double>())
-      .def_static("get", &gsplines::basis::Basis0101::get);
+      .def_static("get", [](double _alpha) {
+        return gsplines::basis::Basis0101::get(_alpha)->move_clone();
+      });
 
   basis_submodule.def(
       "get_basis", [](const std::string& _basis_name, std::size_t _dim,
-- 
2.43.0


From e7367384efc98c08f09a353fb3afd5c87b39c816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:22 +0000
Subject: [PATCH 27/32] fix: coefficients returned by the Python interpolator
 do not alias its buffers

---
 bindings/bindings.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bindings/bindings.cpp b/bindings/bindings.cpp
index 98d755b..4944207 100644
--- a/bindings/bindings.cpp
+++ b/bindings/bindings.cpp
@@ -352,11 +352,13 @@ PYBIND11_MODULE(pygsplines, gsplines_module) {
       .def(py::init<std::size_t, std::size_t, gsplines::basis::Basis&>())
       .def("interpolate", &gsplines::PyInterpolator::py_interpolate)
       .def("solve_interpolation",
-           &gsplines::PyInterpolator::py_solve_interpolation)
+           &gsplines::PyInterpolator::py_solve_interpolation,
+           py::return_value_policy::copy)
       .def("print_interpolating_matrix",
            &gsplines::PyInterpolator::print_interpolating_matrix)
       .def("get_coeff_derivative_wrt_tau",
-           &gsplines::PyInterpolator::get_coeff_derivative_wrt_tau)
+           &gsplines::PyInterpolator::get_coeff_derivative_wrt_tau,
+           py::return_value_policy::copy)
       .def("print_interpolating_vector",
            &gsplines::PyInterpolator::print_interpolating_vector);
 
-- 
2.43.0


From 82b16efc331324527f31ee25eb1e31efbe3a06b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:49 +0000
Subject: [PATCH 28/32] fix: dot product refuses functions with different
 domains or codomain dimensions

---
 src/Functions/ElementalFunctions.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/Functions/ElementalFunctions.cpp b/src/Functions/ElementalFunctions.cpp
index e69afe5..c04a05b 100644
--- a/src/Functions/ElementalFunctions.cpp
+++ b/src/Functions/ElementalFunctions.cpp
@@ -194,24 +194,37 @@ CanonicPolynomial *CanonicPolynomial::deriv_impl(std::size_t _deg) const {
   return new CanonicPolynomial(get_domain(), std::move(result.head(vsize)));
 } // namespace functions
 
+static void dot_throw(const FunctionBase &_f1, const FunctionBase &_f2) {
+
+  if (not FunctionBase::same_domain(_f1, _f2)) {
+    throw std::invalid_argument(
+        "Cannot compute the dot product of functions with different domains");
+  }
+
+  if (not FunctionBase::same_codomain(_f1, _f2)) {
+    throw std::invalid_argument("Cannot compute the dot product of functions "
+                                "with different codomain dimensions");
+  }
+}
+
 DotProduct::DotProduct(const FunctionBase &_f1, const FunctionBase &_f2)
     : FunctionInheritanceHelper(_f1.get_domain(), 1, "DotProduct"),
       f1_(_f1.to_expression()), f2_(_f2.to_expression()) {
 
-  assert(_f1.get_codom_dim() == _f2.get_codom_dim());
+  dot_throw(_f1, _f2);
 }
 DotProduct::DotProduct(FunctionBase &&_f1, FunctionBase &&_f2)
     : FunctionInheritanceHelper(_f1.get_domain(), 1, "DotProduct"),
       f1_(_f1.to_expression()), f2_(_f2.to_expression()) {
 
-  assert(_f1.get_codom_dim() == _f2.get_codom_dim());
+  dot_throw(_f1, _f2);
 }
 
 DotProduct::DotProduct(const FunctionBase &_f1, FunctionBase &&_f2)
     : FunctionInheritanceHelper(_f1.get_domain(), 1, "DotProduct"),
       f1_(_f1.to_expression()), f2_(_f2.to_expression()) {
 
-  assert(_f1.get_codom_dim() == _f2.get_codom_dim());
+  dot_throw(_f1, _f2);
 }
 
 DotProduct::DotProduct(const DotProduct &_that)
-- 
2.43.0


From 3013f31b5e1d83089e00a4165b049aab5479e134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:13 +0000
Subject: [PATCH 29/32] fix: Integral::update accepts the interval lengths it
 is made for

---
 src/Collocation/GaussLobattoLagrangeFunctionals.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Collocation/GaussLobattoLagrangeFunctionals.cpp b/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
index ce09d64..dfa1d27 100644
--- a/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
+++ b/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
@@ -73,7 +73,7 @@ void Integral::update(std::tuple<double, double> _domain, std::size_t _nglp,
 }
 
 void Integral::update(const Eigen::VectorXd &_intervals) {
-  if (static_cast<long>(_intervals.size() * nglp_) != mat_.rows()) {
+  if (static_cast<long>(_intervals.size() * nglp_) != mat_.cols()) {
     throw std::invalid_argument(" Invaled size of intervals vector");
   }
   mat_.noalias() =
-- 
2.43.0


From 9c47d4ff437e03f028c360ed932eaa0d646d9f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:13 +0000
Subject: [PATCH 30/32] fix: the Integral of a collocation spline uses its
 interval lengths

---
 src/Collocation/GaussLobattoLagrangeFunctionals.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Collocation/GaussLobattoLagrangeFunctionals.cpp b/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
index dfa1d27..3cae3d7 100644
--- a/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
+++ b/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
@@ -63,8 +63,11 @@ Integral::Integral(std::tuple<double, double> _domain, std::size_t _nglp,
       nglp_(_nglp) {}
 
 Integral::Integral(const GaussLobattoLagrangeSpline &_in)
-    : Integral(_in.get_domain(), _in.get_basis().get_dim(),
-               _in.get_number_of_intervals()) {}
+    : LinearFunctionalDense(
+          legendre_gauss_lobatto_weights(_in.get_basis().get_dim(),
+                                         _in.get_interval_lengths())
+              .transpose()),
+      nglp_(_in.get_basis().get_dim()) {}
 
 void Integral::update(std::tuple<double, double> _domain, std::size_t _nglp,
                       std::size_t _n_intervals) {
-- 
2.43.0


From 5bdd6874d1e005c74a21fecc7918f06c0ef69a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:13 +0000
Subject: [PATCH 31/32] fix: MatrixLeftMultiplication::update does not
 transpose the matrix

---
 .../gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp b/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
index d49e899..4643e81 100644
--- a/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
+++ b/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
@@ -395,13 +395,13 @@ public:
       long interval = index / nglp_;
 
       for (long col = 0; col < matrix_cols_; col++) {
-        for (long row = 0; row < matrix_cols_; row++) {
+        for (long row = 0; row < matrix_rows_; row++) {
 
           std::size_t j0 =
               col * nglp_ + interval * nglp_ * matrix_cols_ + index % nglp_;
           std::size_t i0 =
               row * nglp_ + interval * nglp_ * matrix_rows_ + index % nglp_;
-          mat_.coeffRef(i0, j0) = _mat(col, row);
+          mat_.coeffRef(i0, j0) = _mat(row, col);
         }
       }
     }
-- 
2.43.0


From 17d8987d93eb8556122a75743dc2ac574a8bc218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:14 +0000
Subject: [PATCH 32/32] fix: Integral::update remembers the number of points it
 was given

---
 src/Collocation/GaussLobattoLagrangeFunctionals.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Collocation/GaussLobattoLagrangeFunctionals.cpp b/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
index 3cae3d7..8f7f05c 100644
--- a/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
+++ b/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
@@ -71,6 +71,7 @@ Integral::Integral(const GaussLobattoLagrangeSpline &_in)
 
 void Integral::update(std::tuple<double, double> _domain, std::size_t _nglp,
                       std::size_t _n_intervals) {
+  nglp_ = _nglp;
   mat_.noalias() =
       legendre_gauss_lobatto_weights(_domain, _nglp, _n_intervals).transpose();
 }
-- 
2.43.0

