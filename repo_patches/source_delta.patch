From 22969b9b72f5a772969d2b09e4113d1400e432ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:11 +0000
Subject: [PATCH 01/31] fix: unary minus of a compound expression negates the
 whole expression

---
 src/Functions/FunctionMul.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/Functions/FunctionMul.cpp b/src/Functions/FunctionMul.cpp
index 9383f1a..a845fe5 100644
--- a/src/Functions/FunctionMul.cpp
+++ b/src/Functions/FunctionMul.cpp
@@ -141,6 +141,13 @@ FunctionExpression::operator*(FunctionExpression &&_that) && {
 }
 FunctionExpression FunctionExpression::operator-() const & {
 
+  if (get_type() != UNIQUE) {
+    std::list<std::unique_ptr<FunctionBase>> result_array;
+    result_array.push_back(this->clone());
+    return FunctionExpression(get_domain(), get_codom_dim(),
+                              FunctionExpression::Type::NEGATIVE,
+                              std::move(result_array));
+  }
   return FunctionExpression(get_domain(), get_codom_dim(),
                             FunctionExpression::Type::NEGATIVE,
                             function_array_);
@@ -148,6 +155,13 @@ FunctionExpression FunctionExpression::operator-() const & {
 
 FunctionExpression FunctionExpression::operator-() && {
 
+  if (get_type() != UNIQUE) {
+    std::list<std::unique_ptr<FunctionBase>> result_array;
+    result_array.push_back(this->move_clone());
+    return FunctionExpression(get_domain(), get_codom_dim(),
+                              FunctionExpression::Type::NEGATIVE,
+                              std::move(result_array));
+  }
   return FunctionExpression(get_domain(), get_codom_dim(),
                             FunctionExpression::Type::NEGATIVE,
                             std::move(function_array_));
-- 
2.43.0


From cdff296a072f6bbb37b190f25a7fcbf72e2cd3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:11 +0000
Subject: [PATCH 02/31] fix: concat on a temporary concatenation extends its
 domain

---
 src/Functions/FunctionsConcat.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Functions/FunctionsConcat.cpp b/src/Functions/FunctionsConcat.cpp
index 094ca37..3048e14 100644
--- a/src/Functions/FunctionsConcat.cpp
+++ b/src/Functions/FunctionsConcat.cpp
@@ -97,8 +97,10 @@ FunctionExpression::concat(const FunctionExpression &_that) && {
     target_array.push_back(_that.clone());
   }
 
-  if (get_type() == CONCATENATION)
+  if (get_type() == CONCATENATION) {
+    set_domain(get_domain().first, _that.get_domain().second);
     return std::move(*this);
+  }
 
   target_array.push_front(this->move_clone());
 
@@ -124,8 +126,10 @@ FunctionExpression FunctionExpression::concat(FunctionExpression &&_that) && {
     target_array.push_back(_that.move_clone());
   }
 
-  if (get_type() == CONCATENATION)
+  if (get_type() == CONCATENATION) {
+    set_domain(get_domain().first, _that.get_domain().second);
     return std::move(*this);
+  }
 
   target_array.push_front(this->move_clone());
   return FunctionExpression(
-- 
2.43.0


From 900f14bccc815e01894f56e987714068f3254457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:11 +0000
Subject: [PATCH 03/31] fix: compose on a temporary composition takes the
 domain of the inner function

---
 src/Functions/FunctionsComp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Functions/FunctionsComp.cpp b/src/Functions/FunctionsComp.cpp
index 8666a04..bd0f7b6 100644
--- a/src/Functions/FunctionsComp.cpp
+++ b/src/Functions/FunctionsComp.cpp
@@ -96,6 +96,7 @@ FunctionExpression::compose(const FunctionExpression &_that) && {
     } else {
       function_array_.push_front(_that.clone());
     }
+    set_domain(_that.get_domain().first, _that.get_domain().second);
     return std::move(*this);
   }
 
-- 
2.43.0


From e0c1f171425b84d84b68eb760f32998d650867bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:11 +0000
Subject: [PATCH 04/31] fix: in-place sum and product reject incompatible
 operands

---
 src/Functions/FunctionMul.cpp | 11 +++++++++++
 src/Functions/FunctionSum.cpp |  2 ++
 2 files changed, 13 insertions(+)

diff --git a/src/Functions/FunctionMul.cpp b/src/Functions/FunctionMul.cpp
index a845fe5..c2b472f 100644
--- a/src/Functions/FunctionMul.cpp
+++ b/src/Functions/FunctionMul.cpp
@@ -176,7 +176,17 @@ FunctionExpression operator*(double _value, FunctionExpression &&_that) {
   return ConstFunction(_that.get_domain(), 1, _value) * std::move(_that);
 }
 
+void compatibility_mul_assign(const FunctionExpression &_f1,
+                              const FunctionExpression &_f2) {
+  compatibility_mul(_f1, _f2);
+  if (_f2.get_codom_dim() > _f1.get_codom_dim()) {
+    throw std::invalid_argument(
+        "Cannot multiply in place a scalar function by a vector function");
+  }
+}
+
 void FunctionExpression::operator*=(FunctionExpression &&that) {
+  compatibility_mul_assign(*this, that);
   Type initial_type = get_type();
   if (initial_type == UNIQUE) {
     type_ = MULTIPLICATION;
@@ -193,6 +203,7 @@ void FunctionExpression::operator*=(FunctionExpression &&that) {
 
 void FunctionExpression::operator*=(const FunctionExpression &that) {
 
+  compatibility_mul_assign(*this, that);
   Type initial_type = get_type();
   if (initial_type == UNIQUE) {
     type_ = MULTIPLICATION;
diff --git a/src/Functions/FunctionSum.cpp b/src/Functions/FunctionSum.cpp
index fea1634..1ed229d 100644
--- a/src/Functions/FunctionSum.cpp
+++ b/src/Functions/FunctionSum.cpp
@@ -137,6 +137,7 @@ FunctionExpression *deriv_sum_functions(
 }
 
 void FunctionExpression::operator+=(FunctionExpression &&that) {
+  sum_throw(*this, that);
   Type initial_type = get_type();
   if (initial_type == UNIQUE) {
     type_ = SUM;
@@ -153,6 +154,7 @@ void FunctionExpression::operator+=(FunctionExpression &&that) {
 
 void FunctionExpression::operator+=(const FunctionExpression &that) {
 
+  sum_throw(*this, that);
   Type initial_type = get_type();
   if (initial_type == UNIQUE) {
     type_ = SUM;
-- 
2.43.0


From 64b17d61d27840b0741cd9cfcf7d22a4dc43604b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:11 +0000
Subject: [PATCH 05/31] fix: dot product rejects functions with different
 domain or codomain

---
 src/Functions/ElementalFunctions.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/Functions/ElementalFunctions.cpp b/src/Functions/ElementalFunctions.cpp
index e69afe5..1939762 100644
--- a/src/Functions/ElementalFunctions.cpp
+++ b/src/Functions/ElementalFunctions.cpp
@@ -194,24 +194,34 @@ CanonicPolynomial *CanonicPolynomial::deriv_impl(std::size_t _deg) const {
   return new CanonicPolynomial(get_domain(), std::move(result.head(vsize)));
 } // namespace functions
 
+void dot_throw(const FunctionBase &_f1, const FunctionBase &_f2) {
+
+  if (not FunctionBase::same_domain(_f1, _f2)) {
+    throw std::invalid_argument("Functions with different domains");
+  }
+  if (not FunctionBase::same_codomain(_f1, _f2)) {
+    throw std::invalid_argument("Functions with different codomains");
+  }
+}
+
 DotProduct::DotProduct(const FunctionBase &_f1, const FunctionBase &_f2)
     : FunctionInheritanceHelper(_f1.get_domain(), 1, "DotProduct"),
       f1_(_f1.to_expression()), f2_(_f2.to_expression()) {
 
-  assert(_f1.get_codom_dim() == _f2.get_codom_dim());
+  dot_throw(f1_, f2_);
 }
 DotProduct::DotProduct(FunctionBase &&_f1, FunctionBase &&_f2)
     : FunctionInheritanceHelper(_f1.get_domain(), 1, "DotProduct"),
       f1_(_f1.to_expression()), f2_(_f2.to_expression()) {
 
-  assert(_f1.get_codom_dim() == _f2.get_codom_dim());
+  dot_throw(f1_, f2_);
 }
 
 DotProduct::DotProduct(const FunctionBase &_f1, FunctionBase &&_f2)
     : FunctionInheritanceHelper(_f1.get_domain(), 1, "DotProduct"),
       f1_(_f1.to_expression()), f2_(_f2.to_expression()) {
 
-  assert(_f1.get_codom_dim() == _f2.get_codom_dim());
+  dot_throw(f1_, f2_);
 }
 
 DotProduct::DotProduct(const DotProduct &_that)
-- 
2.43.0


From 339b216e4bd51b2bd6d8ac3530a7bf3db2bd7260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:11 +0000
Subject: [PATCH 06/31] fix: derivative matrix of basis0101 for orders larger
 than two

---
 src/Basis/Basis0101.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Basis/Basis0101.cpp b/src/Basis/Basis0101.cpp
index fe4bd16..38b3ade 100644
--- a/src/Basis/Basis0101.cpp
+++ b/src/Basis/Basis0101.cpp
@@ -169,8 +169,9 @@ Eigen::MatrixXd Basis0101::derivative_matrix_impl(std::size_t _deg) const {
 
   Q *= tauk;
 
+  const Eigen::MatrixXd d1(Q);
   for (std::size_t i = 2; i <= _deg; i++) {
-    Q *= Q;
+    Q *= d1;
   }
 
   return Q;
-- 
2.43.0


From ce49f921062c7d2c1bab4cc936623a9080a8334d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:11 +0000
Subject: [PATCH 07/31] fix: scale of the second derivative Gram matrix of
 basis0101

---
 src/Basis/Basis0101.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Basis/Basis0101.cpp b/src/Basis/Basis0101.cpp
index 38b3ade..a8aed54 100644
--- a/src/Basis/Basis0101.cpp
+++ b/src/Basis/Basis0101.cpp
@@ -133,6 +133,7 @@ void Basis0101::add_derivative_matrix(double tau, std::size_t _deg,
       break;
     case 2:
       compute_Qd2_block(tau, alpha, qBuffer_);
+      qBuffer_ *= std::pow(2.0 / tau, 2);
       break;
     case 3:
       compute_Qd3_block(tau, alpha, qBuffer_);
-- 
2.43.0


From 85d789de8733deb4467d0b6ca19e1accdf6ab63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:11 +0000
Subject: [PATCH 08/31] fix: Gram matrices of the derivatives of the Legendre
 basis

---
 src/Basis/BasisLegendre.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Basis/BasisLegendre.cpp b/src/Basis/BasisLegendre.cpp
index 9c3b328..8ec9616 100644
--- a/src/Basis/BasisLegendre.cpp
+++ b/src/Basis/BasisLegendre.cpp
@@ -28,8 +28,8 @@ BasisLegendre::BasisLegendre(std::size_t _dim)
 
   derivative_matrices_buffer_.push_back(l2normbase_matrix);
   for (std::size_t i = 1; i < _dim + 1; i++) {
-    derivative_matrices_buffer_.push_back(dmat * l2normbase_matrix *
-                                          dmat.transpose());
+    derivative_matrices_buffer_.push_back(dmat.transpose() * l2normbase_matrix *
+                                          dmat);
     dmat *= derivative_matrix_;
   }
   // get_derivative_matrix(get_dim());
-- 
2.43.0


From dadd4af6a620594077fe54563d8b79e674b4cfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:11 +0000
Subject: [PATCH 09/31] fix: change_interpolation_points computes the rows
 after a matching point

---
 src/Basis/BasisLagrange.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Basis/BasisLagrange.cpp b/src/Basis/BasisLagrange.cpp
index 7c5e3d3..691926f 100644
--- a/src/Basis/BasisLagrange.cpp
+++ b/src/Basis/BasisLagrange.cpp
@@ -260,12 +260,12 @@ Eigen::MatrixXd BasisLagrange::change_interpolation_points(
   std::size_t book_m = _new_points.size();
   std::size_t book_n = _old_points.size();
   double t_book, s_book;
-  bool book_row_has_match = false;
 
   Eigen::MatrixXd result(book_m, book_n);
   Eigen::VectorXd bw = barycentric_weights(_old_points);
 
   for (std::size_t k = 0; k < book_m; k++) {
+    bool book_row_has_match = false;
     for (std::size_t j = 0; j < book_n; j++) {
       result(k, j) = 0.0;
       if (almost_equal(_new_points(k), _old_points(j), 1.0e-9)) {
-- 
2.43.0


From 7655a7ad432767ced886c31dc9d2695d2cf946cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:11 +0000
Subject: [PATCH 10/31] fix: each weight of the Sobolev norm multiplies only
 its own term

---
 src/FunctionalAnalysis/Sobolev.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/FunctionalAnalysis/Sobolev.cpp b/src/FunctionalAnalysis/Sobolev.cpp
index 4fd654c..87254d5 100644
--- a/src/FunctionalAnalysis/Sobolev.cpp
+++ b/src/FunctionalAnalysis/Sobolev.cpp
@@ -50,8 +50,9 @@ void SobolevNorm::deriv_wrt_interval_len(
     // initialize the matrix buffers and compute the de matrix values
     matrix_.setZero();
     for (std::pair<std::size_t, double> w : weights_) {
-      basis_->add_derivative_matrix_deriv_wrt_tau(tau, w.first, matrix_);
-      matrix_ *= w.second;
+      matrix_2_.setZero();
+      basis_->add_derivative_matrix_deriv_wrt_tau(tau, w.first, matrix_2_);
+      matrix_ += w.second * matrix_2_;
     }
     // compute y^T dQdtau_i y
     for (codom_coor = 0; codom_coor < codom_dim_; codom_coor++) {
@@ -79,8 +80,9 @@ double SobolevNorm::inner_prod(
     matrix_.setZero();
     tau = _interval_lengths(interval_coor);
     for (std::pair<std::size_t, double> w : weights_) {
-      basis_->add_derivative_matrix(tau, w.first, matrix_);
-      matrix_ *= w.second;
+      matrix_2_.setZero();
+      basis_->add_derivative_matrix(tau, w.first, matrix_2_);
+      matrix_ += w.second * matrix_2_;
     }
     for (codom_coor = 0; codom_coor < codom_dim_; codom_coor++) {
       const Eigen::Ref<const Eigen::VectorXd> v1 = get_coefficient_segment(
-- 
2.43.0


From 6f35a64efb981b3812d486dc6b40c80f31db900f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:11 +0000
Subject: [PATCH 11/31] fix: Gauss-Lobatto points on intervals of different
 lengths

---
 src/Collocation/GaussLobattoPointsWeights.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Collocation/GaussLobattoPointsWeights.cpp b/src/Collocation/GaussLobattoPointsWeights.cpp
index 6cca8b7..f5ea7a1 100644
--- a/src/Collocation/GaussLobattoPointsWeights.cpp
+++ b/src/Collocation/GaussLobattoPointsWeights.cpp
@@ -190,10 +190,10 @@ legendre_gauss_lobatto_points(double _left_bound, std::size_t _nglp,
 
   for (long interval = 0; interval < _intervals.size(); interval++) {
 
-    double local_left_bound = left_bound + interval * _intervals[interval];
-
     result.segment(interval * _nglp, _nglp) =
-        (glp.array() + 1.0) * _intervals[interval] / 2.0 + local_left_bound;
+        (glp.array() + 1.0) * _intervals[interval] / 2.0 + left_bound;
+
+    left_bound += _intervals[interval];
   }
   return result;
 }
-- 
2.43.0


From 2d08cc92ed74c41f6c952bab6a189d04ebebf2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:11 +0000
Subject: [PATCH 12/31] fix: random_gspline honours the left end of the domain

---
 src/GSpline.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/GSpline.cpp b/src/GSpline.cpp
index 7231b74..5ed2000 100644
--- a/src/GSpline.cpp
+++ b/src/GSpline.cpp
@@ -242,8 +242,11 @@ GSpline random_gspline(std::pair<double, double> _domain,
       3 * Eigen::MatrixXd::Random(static_cast<long>(number_of_intervals) + 1,
                                   static_cast<long>(_codom_dim));
 
-  const GSpline result = interpolate(tau, wp, _basis);
-  return result.linear_scaling_new_execution_time(_domain.second);
+  const GSpline result =
+      interpolate(tau, wp, _basis)
+          .linear_scaling_new_execution_time(_domain.second - _domain.first);
+  return GSpline(_domain, _codom_dim, number_of_intervals, result.get_basis(),
+                 result.get_coefficients(), result.get_interval_lengths());
 }
 
 }  // namespace gsplines
-- 
2.43.0


From 3a1c4ca4558988b5bd0ce63f541da3506c4ab6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:07 +0000
Subject: [PATCH 13/31] fix: in-place sum and difference of gsplines compile
 when used

---
 include/gsplines/GSpline.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gsplines/GSpline.hpp b/include/gsplines/GSpline.hpp
index 07692ea..dee5a5c 100644
--- a/include/gsplines/GSpline.hpp
+++ b/include/gsplines/GSpline.hpp
@@ -218,7 +218,7 @@ class GSplineInheritanceHelper
       throw std::invalid_argument("Cannot sum Incompatible Gspline");
     }
     Base::coefficients_ += that.coefficients_;
-    return *this;
+    return static_cast<Current&>(*this);
   }
 
   Current& operator-=(const Current& that) {
@@ -227,7 +227,7 @@ class GSplineInheritanceHelper
     }
 
     Base::coefficients_ -= that.coefficients_;
-    return *this;
+    return static_cast<Current&>(*this);
   }
 
   Current linear_scaling_new_execution_time(double _new_exec_time) const {
-- 
2.43.0


From 94ecd82325daf8c66278041f92c5684249944062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:07 +0000
Subject: [PATCH 14/31] fix: time scaling accepts only one of the velocity and
 acceleration bounds

---
 include/gsplines/GSpline.hpp | 52 +++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/include/gsplines/GSpline.hpp b/include/gsplines/GSpline.hpp
index dee5a5c..3435e1f 100644
--- a/include/gsplines/GSpline.hpp
+++ b/include/gsplines/GSpline.hpp
@@ -292,8 +292,10 @@ class GSplineInheritanceHelper
     if (_dt < 1.0e-8) {
       throw std::invalid_argument("dt cannot be negative or too small");
     }
-    if (_velocity_bound.value().size() != this->get_codom_dim() ||
-        _acceleration_bound.value().size() != this->get_codom_dim()) {
+    if ((_velocity_bound.has_value() &&
+         _velocity_bound.value().size() != this->get_codom_dim()) ||
+        (_acceleration_bound.has_value() &&
+         _acceleration_bound.value().size() != this->get_codom_dim())) {
       throw std::invalid_argument(
           "Bounds for velocity and acceleration must correspont to codom dim");
     }
@@ -312,26 +314,32 @@ class GSplineInheritanceHelper
     Eigen::MatrixXd gspline_diff_1_evaluated = gspline_diff_1(time_spam);
     Eigen::MatrixXd gspline_diff_2_evaluated = gspline_diff_2(time_spam);
 
-    const Eigen::Map<const Eigen::VectorXd> velocity_bound(
-        _velocity_bound.value().data(),
-        static_cast<long>(_velocity_bound.value().size()));
-    const Eigen::Map<const Eigen::VectorXd> acceleration_bound(
-        _acceleration_bound.value().data(),
-        static_cast<long>(_acceleration_bound.value().size()));
-
-    const double max_velocity_ratio =
-        (gspline_diff_1_evaluated.array().abs().colwise().maxCoeff() /
-         velocity_bound.transpose().array())
-            .maxCoeff();
-
-    const double max_acceleration_ratio =
-        Eigen::sqrt(
-            gspline_diff_2_evaluated.array().abs().colwise().maxCoeff() /
-            acceleration_bound.transpose().array())
-            .maxCoeff();
-
-    const double time_scale_factor =
-        std::max(max_velocity_ratio, max_acceleration_ratio);
+    double time_scale_factor = 0.0;
+
+    if (_velocity_bound.has_value()) {
+      const Eigen::Map<const Eigen::VectorXd> velocity_bound(
+          _velocity_bound.value().data(),
+          static_cast<long>(_velocity_bound.value().size()));
+
+      const double max_velocity_ratio =
+          (gspline_diff_1_evaluated.array().abs().colwise().maxCoeff() /
+           velocity_bound.transpose().array())
+              .maxCoeff();
+      time_scale_factor = std::max(time_scale_factor, max_velocity_ratio);
+    }
+
+    if (_acceleration_bound.has_value()) {
+      const Eigen::Map<const Eigen::VectorXd> acceleration_bound(
+          _acceleration_bound.value().data(),
+          static_cast<long>(_acceleration_bound.value().size()));
+
+      const double max_acceleration_ratio =
+          Eigen::sqrt(
+              gspline_diff_2_evaluated.array().abs().colwise().maxCoeff() /
+              acceleration_bound.transpose().array())
+              .maxCoeff();
+      time_scale_factor = std::max(time_scale_factor, max_acceleration_ratio);
+    }
 
     Eigen::VectorXd new_domain_interva_lengths =
         Base::domain_interval_lengths_ * time_scale_factor;
-- 
2.43.0


From 56c327aa2dced810360d5c205d58be834717855e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:07 +0000
Subject: [PATCH 15/31] fix: gsplines with different domains are neither equal
 nor in the same space

---
 src/GSpline.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/GSpline.cpp b/src/GSpline.cpp
index 5ed2000..5575b25 100644
--- a/src/GSpline.cpp
+++ b/src/GSpline.cpp
@@ -159,7 +159,10 @@ double GSplineBase::interval_to_window(double _domain_point,
 }
 
 bool GSplineBase::operator==(const GSplineBase& _that) const {
-  return tools::approx_equal(*this, _that, 1.0e-7);
+  return get_codom_dim() == _that.get_codom_dim() and
+         tools::approx_equal(get_domain().first, _that.get_domain().first,
+                             1.0e-7) and
+         tools::approx_equal(*this, _that, 1.0e-7);
 }
 bool GSplineBase::operator!=(const GSplineBase& _that) const {
   return not(*this == _that);
@@ -195,7 +198,7 @@ Eigen::MatrixXd GSplineBase::get_waypoints() const {
 
 bool GSplineBase::same_vector_space(const GSplineBase& _that) const {
   return get_basis() == _that.get_basis() and
-         get_codom_dim() == _that.get_codom_dim() and
+         get_codom_dim() == _that.get_codom_dim() and same_domain(_that) and
          tools::approx_equal(get_interval_lengths(),
                              _that.get_interval_lengths(), 1.0e-8);
 }
-- 
2.43.0


From 5a231d54d1153e2ad40fc30e46222a33276a55ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:04 +0000
Subject: [PATCH 16/31] fix: Legendre basis of dimension one and derivatives of
 order at least the dimension

---
 src/Basis/BasisLegendre.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Basis/BasisLegendre.cpp b/src/Basis/BasisLegendre.cpp
index 8ec9616..6fdb6d9 100644
--- a/src/Basis/BasisLegendre.cpp
+++ b/src/Basis/BasisLegendre.cpp
@@ -53,9 +53,10 @@ void BasisLegendre::eval_derivative_on_window(
   double aux = 0;
   double mutiplier = 1.0;
   _buff.setZero();
+  if (_deg >= get_dim()) return;
   buff_next.setZero();
   _buff(0) = 1.0;
-  _buff(1) = _s;
+  if (get_dim() > 1) _buff(1) = _s;
   for (unsigned int i = 1; i < get_dim() - 1; i++) {
     _buff(i + 1) =
         1.0 / ((double)i + 1.0) *
@@ -91,7 +92,7 @@ void BasisLegendre::eval_on_window(
     Eigen::Ref<Eigen::VectorXd, 0, Eigen::InnerStride<>> _buff) const {
   _buff.setZero();
   _buff(0) = 1.0;
-  _buff(1) = _s;
+  if (get_dim() > 1) _buff(1) = _s;
   for (std::size_t i = 1; i < get_dim() - 1; i++) {
     _buff(i + 1) =
         1.0 / ((double)i + 1.0) *
-- 
2.43.0


From c7fa373a98158202380937ac1b27a2509eae7c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:04 +0000
Subject: [PATCH 17/31] fix: Gram matrices of the Lagrange basis

---
 src/Basis/BasisLagrange.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/Basis/BasisLagrange.cpp b/src/Basis/BasisLagrange.cpp
index 691926f..d9c5e44 100644
--- a/src/Basis/BasisLagrange.cpp
+++ b/src/Basis/BasisLagrange.cpp
@@ -40,19 +40,22 @@ BasisLagrange::BasisLagrange(Eigen::Ref<const Eigen::VectorXd> _domain_points)
 
   Eigen::MatrixXd dmat(derivative_matrix_);
 
+  /// the quadrature with dim + 1 points is exact for the product of two
+  /// elements of the basis
   Eigen::MatrixXd points_to_glp_matrix(change_interpolation_points(
-      _domain_points, collocation::legendre_gauss_lobatto_points(get_dim())));
+      _domain_points,
+      collocation::legendre_gauss_lobatto_points(get_dim() + 1)));
 
-  Eigen::MatrixXd l2normbase_matrix(get_dim(), get_dim());
-
-  l2normbase_matrix.diagonal() =
-      collocation::legendre_gauss_lobatto_weights(get_dim());
+  Eigen::MatrixXd l2normbase_matrix(
+      points_to_glp_matrix.transpose() *
+      collocation::legendre_gauss_lobatto_weights(get_dim() + 1).asDiagonal() *
+      points_to_glp_matrix);
 
   derivative_matrices_buffer_.push_back(l2normbase_matrix);
 
   for (std::size_t i = 1; i < get_dim() + 1; i++) {
-    derivative_matrices_buffer_.push_back(dmat * l2normbase_matrix *
-                                          dmat.transpose());
+    derivative_matrices_buffer_.push_back(dmat.transpose() * l2normbase_matrix *
+                                          dmat);
     dmat = derivative_matrix(domain_points_, i + 1);
   }
   // get_derivative_matrix(get_dim());
-- 
2.43.0


From 112dfed65780df5ea2e16227c43a9f02970f02c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:04 +0000
Subject: [PATCH 18/31] fix: continuity matrix for every basis and every set of
 interval lengths

---
 src/Basis/Basis.cpp | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/Basis/Basis.cpp b/src/Basis/Basis.cpp
index 5d317fa..a1eaee6 100644
--- a/src/Basis/Basis.cpp
+++ b/src/Basis/Basis.cpp
@@ -60,15 +60,9 @@ const Eigen::SparseMatrix<double, Eigen::RowMajor>& Basis::continuity_matrix(
     Eigen::MatrixXd left_buffer(_deriv_order + 1, get_dim());
     Eigen::MatrixXd right_buffer(_deriv_order + 1, get_dim());
 
-    get_derivative_matrix_block(_deriv_order);
-
-    eval_derivative_on_window(-1.0, 2.0, 0, left_buffer.row(0));
-    eval_derivative_on_window(1.0, 2.0, 0, right_buffer.row(0));
-
-    for (std::size_t der = 1; der <= _deriv_order; der++) {
-      const Eigen::MatrixXd& dblock = get_derivative_matrix_block(der);
-      left_buffer.row(der) = dblock.row(0);
-      right_buffer.row(der) = dblock.bottomRows(1);
+    for (std::size_t der = 0; der <= _deriv_order; der++) {
+      eval_derivative_on_window(-1.0, 2.0, der, left_buffer.row(der));
+      eval_derivative_on_window(1.0, 2.0, der, right_buffer.row(der));
     }
 
     std::size_t i0, j0;
@@ -120,25 +114,30 @@ const Eigen::SparseMatrix<double, Eigen::RowMajor>& Basis::continuity_matrix(
   Eigen::SparseMatrix<double, Eigen::RowMajor>& mat_dest =
       continuity_matrix_dynamic_buff_[_number_of_intervals][_codom_dim]
                                      [_deriv_order];
-  Eigen::SparseMatrix<double, Eigen::RowMajor>& mat_src =
-      continuity_matrix_buff_[_number_of_intervals][_codom_dim][_deriv_order];
+
+  Eigen::VectorXd left_value(get_dim());
+  Eigen::VectorXd right_value(get_dim());
 
   // in our case all the rows of the matrix have at more than one non-zero cell
   // By this reason the outer index coincieds with the cols
-  for (long k = _codom_dim * (_number_of_intervals - 1);
-       k < mat_dest.outerSize(); ++k) {
+  for (long k = 0; k < mat_dest.outerSize(); ++k) {
     std::size_t deg = k / (_codom_dim * (_number_of_intervals - 1));
+    std::size_t left_interval =
+        (k % (_codom_dim * (_number_of_intervals - 1))) / _codom_dim;
 
-    Eigen::VectorXd deriv_factor =
-        Eigen::pow(2.0 / _interval_lengths.array(), deg);
+    eval_derivative_on_window(1.0, _interval_lengths(left_interval), deg,
+                              right_value);
+    eval_derivative_on_window(-1.0, _interval_lengths(left_interval + 1), deg,
+                              left_value);
 
     Eigen::SparseMatrix<double, Eigen::RowMajor>::InnerIterator it_dest(
         mat_dest, k);
-    Eigen::SparseMatrix<double, Eigen::RowMajor>::InnerIterator it_src(mat_src,
-                                                                       k);
-    for (/*already initialized*/; it_dest; ++it_dest, ++it_src) {
+    for (/*already initialized*/; it_dest; ++it_dest) {
       std::size_t interval = it_dest.col() / (get_dim() * _codom_dim);
-      it_dest.valueRef() = it_src.value() * deriv_factor(interval);
+      std::size_t basis_coor = it_dest.col() % get_dim();
+      it_dest.valueRef() = (interval == left_interval)
+                               ? right_value(basis_coor)
+                               : -left_value(basis_coor);
       assert(it_dest.col() == it_dest.index());
       assert(it_dest.row() == k);
       /*
-- 
2.43.0


From b4004acb4ba1a9836d9acc95aea2054ce746bafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:04 +0000
Subject: [PATCH 19/31] fix: gspline derivative matrix of basis0101

---
 src/Basis/Basis.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Basis/Basis.cpp b/src/Basis/Basis.cpp
index a1eaee6..e6ea1d3 100644
--- a/src/Basis/Basis.cpp
+++ b/src/Basis/Basis.cpp
@@ -197,6 +197,10 @@ Basis::gspline_derivative_matrix(
 
   Eigen::VectorXd deriv_factor =
       Eigen::pow(2.0 / _interval_lengths.array(), _deriv_order);
+  /// the derivative matrix of Basis0101 does not depend on the interval lengths
+  if (dynamic_cast<const Basis0101*>(this) != nullptr) {
+    deriv_factor.setOnes();
+  }
 
   for (long k = 0; k < mat_dest.outerSize(); ++k) {
     // std::size_t deg = k / (_codom_dim * (_number_of_intervals - 1));
-- 
2.43.0


From 4155d8fc663a6c65ef7afeddb8e553f293011714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:04 +0000
Subject: [PATCH 20/31] fix: GLL spline from a function does not swap intervals
 and points

---
 src/Collocation/GaussLobattoLagrange.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Collocation/GaussLobattoLagrange.cpp b/src/Collocation/GaussLobattoLagrange.cpp
index a856c26..3fa5a18 100644
--- a/src/Collocation/GaussLobattoLagrange.cpp
+++ b/src/Collocation/GaussLobattoLagrange.cpp
@@ -55,7 +55,7 @@ GaussLobattoLagrangeSpline::GaussLobattoLagrangeSpline(GSpline &&_that)
 GaussLobattoLagrangeSpline::GaussLobattoLagrangeSpline(
     const ::gsplines::functions::FunctionBase &_that, std::size_t _n_intervals,
     std::size_t _n_glp)
-    : GaussLobattoLagrangeSpline(approximate(_that, _n_intervals, _n_glp)) {}
+    : GaussLobattoLagrangeSpline(approximate(_that, _n_glp, _n_intervals)) {}
 
 GaussLobattoLagrangeSpline &GaussLobattoLagrangeSpline::operator=(
     const GaussLobattoLagrangeSpline &_that) & {
-- 
2.43.0


From df10e8fe6aee3a4eda25702b279a2bd1d9b64e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:04 +0000
Subject: [PATCH 21/31] fix: assignment of GLL splines also assigns the
 interval lengths

---
 src/Collocation/GaussLobattoLagrange.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Collocation/GaussLobattoLagrange.cpp b/src/Collocation/GaussLobattoLagrange.cpp
index 3fa5a18..2bc6e27 100644
--- a/src/Collocation/GaussLobattoLagrange.cpp
+++ b/src/Collocation/GaussLobattoLagrange.cpp
@@ -67,6 +67,7 @@ GaussLobattoLagrangeSpline &GaussLobattoLagrangeSpline::operator=(
 
   set_domain(_that.get_domain());
 
+  domain_interval_lengths_ = _that.domain_interval_lengths_;
   coefficients_ = _that.coefficients_;
   return *this;
 }
@@ -81,6 +82,7 @@ GaussLobattoLagrangeSpline::operator=(GaussLobattoLagrangeSpline &&_that) & {
     throw std::invalid_argument("Assigmention requires same codomain");
 
   set_domain(_that.get_domain());
+  domain_interval_lengths_ = std::move(_that.domain_interval_lengths_);
   coefficients_ = std::move(_that.coefficients_);
   return *this;
 }
-- 
2.43.0


From 461513429e62d8b53def36ed8ac6298abecf64a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:04 +0000
Subject: [PATCH 22/31] fix: product of GLL splines rejects different interval
 lengths

---
 src/Collocation/GaussLobattoLagrange.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/Collocation/GaussLobattoLagrange.cpp b/src/Collocation/GaussLobattoLagrange.cpp
index 2bc6e27..ba8e1ca 100644
--- a/src/Collocation/GaussLobattoLagrange.cpp
+++ b/src/Collocation/GaussLobattoLagrange.cpp
@@ -227,7 +227,9 @@ GaussLobattoLagrangeSpline GaussLobattoLagrangeSpline::operator*(
 
   if (not same_discretization(_that))
     throw std::invalid_argument("Discretization must be the same");
-  if (not same_domain(_that))
+  if (not same_domain(_that) or
+      not tools::approx_equal(get_interval_lengths(),
+                              _that.get_interval_lengths(), 1.0e-8))
     throw std::invalid_argument("GSplines must have same domain");
   if (not(get_codom_dim() == 1 or _that.get_codom_dim() == 1))
     throw std::invalid_argument("Multiplication can be only done by scalars");
@@ -255,7 +257,9 @@ GaussLobattoLagrangeSpline GaussLobattoLagrangeSpline::operator*(
 
   if (not same_discretization(_that))
     throw std::invalid_argument("Discretization must be the same");
-  if (not same_domain(_that))
+  if (not same_domain(_that) or
+      not tools::approx_equal(get_interval_lengths(),
+                              _that.get_interval_lengths(), 1.0e-8))
     throw std::invalid_argument("GSplines must have same domain");
   if (not(get_codom_dim() == 1 or _that.get_codom_dim() == 1))
     throw std::invalid_argument("Multiplication can be only done by scalars");
@@ -295,7 +299,9 @@ GaussLobattoLagrangeSpline GaussLobattoLagrangeSpline::operator*(
 
   if (not same_discretization(_that))
     throw std::invalid_argument("Discretization must be the same");
-  if (not same_domain(_that))
+  if (not same_domain(_that) or
+      not tools::approx_equal(get_interval_lengths(),
+                              _that.get_interval_lengths(), 1.0e-8))
     throw std::invalid_argument("GSplines must have same domain");
   if (not(get_codom_dim() == 1 or _that.get_codom_dim() == 1))
     throw std::invalid_argument("Multiplication can be only done by scalars");
@@ -335,7 +341,9 @@ GaussLobattoLagrangeSpline::operator*(GaussLobattoLagrangeSpline &&_that) && {
 
   if (not same_discretization(_that))
     throw std::invalid_argument("Discretization must be the same");
-  if (not same_domain(_that))
+  if (not same_domain(_that) or
+      not tools::approx_equal(get_interval_lengths(),
+                              _that.get_interval_lengths(), 1.0e-8))
     throw std::invalid_argument("GSplines must have same domain");
   if (not(get_codom_dim() == 1 or _that.get_codom_dim() == 1))
     throw std::invalid_argument("Multiplication can be only done by scalars");
-- 
2.43.0


From ded79d5df81b41c1e28e68713f5feb1941355f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:04 +0000
Subject: [PATCH 23/31] fix: domain discretization of GLL splines with
 different interval lengths

---
 include/gsplines/Collocation/GaussLobattoLagrange.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gsplines/Collocation/GaussLobattoLagrange.hpp b/include/gsplines/Collocation/GaussLobattoLagrange.hpp
index 7212784..49b323d 100644
--- a/include/gsplines/Collocation/GaussLobattoLagrange.hpp
+++ b/include/gsplines/Collocation/GaussLobattoLagrange.hpp
@@ -112,8 +112,8 @@ public:
 
   std::size_t get_nglp() const { return get_basis_dim(); }
   Eigen::VectorXd get_domain_discretization() const {
-    return legendre_gauss_lobatto_points(get_domain(), get_nglp(),
-                                         get_number_of_intervals());
+    return legendre_gauss_lobatto_points(get_domain().first, get_nglp(),
+                                         get_interval_lengths());
   }
 
   GaussLobattoLagrangeSpline
-- 
2.43.0


From 19b0dad7e25e7e1bcae12318291023aa4d1c7635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:04 +0000
Subject: [PATCH 24/31] fix: set_from_array compiles without a function and
 rejects wrong vectors

---
 .../Collocation/GaussLobattoLagrange.hpp         | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/gsplines/Collocation/GaussLobattoLagrange.hpp b/include/gsplines/Collocation/GaussLobattoLagrange.hpp
index 49b323d..30909d3 100644
--- a/include/gsplines/Collocation/GaussLobattoLagrange.hpp
+++ b/include/gsplines/Collocation/GaussLobattoLagrange.hpp
@@ -136,12 +136,12 @@ public:
                       const IteratorType &_begin, const IteratorType &_end,
                       const Function &_fun) {
 
-    set_domain(_domain);
     auto dist = std::distance(_begin, _end);
     if (dist != static_cast<decltype(dist)>(get_basis().get_dim() *
                                             get_number_of_intervals())) {
       throw std::runtime_error("wrong number of elements");
     }
+    set_domain(_domain);
     domain_interval_lengths_ =
         domain_interval_lengths_ *
         (get_domain_length() / domain_interval_lengths_.array().sum());
@@ -151,23 +151,21 @@ public:
       long interval = index / get_basis().get_dim();
       decltype(auto) vec = _fun(*it);
       if (vec.cols() != 1) {
-        std::invalid_argument("This function only accept eigen row vectors");
+        throw std::invalid_argument("This function only accept eigen row vectors");
       }
       if (vec.rows() != static_cast<long>(get_codom_dim())) {
-        std::invalid_argument(__FILE__ "Vector dimension error");
+        throw std::invalid_argument(__FILE__ "Vector dimension error");
       }
-      get_value_block(interval).row(index % get_basis().get_dim()) = vec;
+      get_value_block(interval).row(index % get_basis().get_dim()) =
+          vec.col(0).transpose();
     }
   }
 
   template <typename IteratorType>
   void set_from_array(std::pair<double, double> _domain,
                       const IteratorType &_begin, const IteratorType &_end) {
-    set_domain(_domain);
-    set_from_array(_begin, _end,
-                   [](const Eigen::MatrixXd &_in) -> const Eigen::MatrixXd & {
-                     return _in;
-                   });
+    set_from_array(_domain, _begin, _end,
+                   [](const auto &_in) -> const auto & { return _in; });
   }
 
   bool same_discretization(const GaussLobattoLagrangeSpline &_that) const;
-- 
2.43.0


From 2f93a1847e19b9bb82a1297fb945c869bb763b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:05 +0000
Subject: [PATCH 25/31] fix: concatenation is defined between pieces separated
 less than the tolerance

---
 src/Functions/FunctionsConcat.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Functions/FunctionsConcat.cpp b/src/Functions/FunctionsConcat.cpp
index 3048e14..6fa5b25 100644
--- a/src/Functions/FunctionsConcat.cpp
+++ b/src/Functions/FunctionsConcat.cpp
@@ -217,6 +217,15 @@ void eval_concat_functions(
           Eigen::VectorXd::Constant(
               1, _function_array.back()->get_domain().second),
           temp);
+    } else if (f = std::find_if(
+                   _function_array.begin(), _function_array.end(),
+                   [&](const std::unique_ptr<FunctionBase> &element) {
+                     return _domain_points[i] < element->get_domain().first;
+                   });
+               f != _function_array.end()) {
+      // the point lies in the gap, smaller than the domain tolerance, between
+      // two pieces
+      (*f)->value(Eigen::VectorXd::Constant(1, (*f)->get_domain().first), temp);
     } else {
       throw std::invalid_argument(
           "The functions is not defined for this value");
-- 
2.43.0


From 9c2c78a9c556e0bea43d2cff7159db44b4387fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:05 +0000
Subject: [PATCH 26/31] fix: interpolation rejects waypoints of the wrong size

---
 src/Interpolator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Interpolator.cpp b/src/Interpolator.cpp
index ef00399..1ffbd70 100644
--- a/src/Interpolator.cpp
+++ b/src/Interpolator.cpp
@@ -350,6 +350,11 @@ const Eigen::Ref<const Eigen::VectorXd> Interpolator::solve_interpolation(
   if ((_interval_lengths.array() < 1.0e-6).any()) {
     throw std::invalid_argument(" Interval lenghts cannot be negative !");
   }
+  if (_waypoints.rows() != (long)num_intervals_ + 1 or
+      _waypoints.cols() != (long)codom_dim_) {
+    throw std::invalid_argument(
+        "The waypoints do not match the number of intervals or the codomain");
+  }
   // 1. fill the interpolating matrix
   fill_interpolating_matrix(_interval_lengths);
   // 2. fill the interpolating vector
-- 
2.43.0


From 6374b88c42801061401026ec1e75c1e044c05dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:09 +0000
Subject: [PATCH 27/31] fix: the bases given by get in Python are owned by
 Python

The binding handed a shared_ptr to classes held by unique_ptr, so the basis was
freed twice.
---
 bindings/bindings.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bindings/bindings.cpp b/bindings/bindings.cpp
index 2ddffab..0dbffb8 100644
--- a/bindings/bindings.cpp
+++ b/bindings/bindings.cpp
@@ -42,19 +42,23 @@ PYBIND11_MODULE(pygsplines, gsplines_module) {
   py::class_<gsplines::basis::BasisLegendre, gsplines::basis::Basis>(
       basis_submodule, "BasisLegendre")
       .def(py::init<std::size_t>())
-      .def_static("get", &gsplines::basis::BasisLegendre::get);
+      .def_static("get", [](std::size_t _dim) {
+        return gsplines::basis::BasisLegendre::get(_dim)->clone();
+      });
 
   py::class_<gsplines::basis::BasisLagrange, gsplines::basis::Basis>(
       basis_submodule, "BasisLagrange")
       .def(py::init<Eigen::Ref<const Eigen::VectorXd>>())
       .def_static("get", [](const Eigen::Ref<const Eigen::VectorXd> _params) {
-        return gsplines::basis::BasisLagrange::get(_params);
+        return gsplines::basis::BasisLagrange::get(_params)->clone();
       });
 
   py::class_<gsplines::basis::Basis0101, gsplines::basis::Basis>(
       basis_submodule, "Basis0101")
       .def(py::init<double>())
-      .def_static("get", &gsplines::basis::Basis0101::get);
+      .def_static("get", [](double _alpha) {
+        return gsplines::basis::Basis0101::get(_alpha)->clone();
+      });
 
   basis_submodule.def(
       "get_basis", [](const std::string& _basis_name, std::size_t _dim,
-- 
2.43.0


From d89a1f01d883ce17d0a2480b43226549dd573176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:09 +0000
Subject: [PATCH 28/31] fix: the arrays an interpolator returns in Python are
 copies

They were views of the interpolator's buffers: overwritten by the next call and
dangling once the interpolator is gone.
---
 bindings/bindings.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bindings/bindings.cpp b/bindings/bindings.cpp
index 0dbffb8..d72e162 100644
--- a/bindings/bindings.cpp
+++ b/bindings/bindings.cpp
@@ -352,11 +352,13 @@ PYBIND11_MODULE(pygsplines, gsplines_module) {
       .def(py::init<std::size_t, std::size_t, gsplines::basis::Basis&>())
       .def("interpolate", &gsplines::PyInterpolator::py_interpolate)
       .def("solve_interpolation",
-           &gsplines::PyInterpolator::py_solve_interpolation)
+           &gsplines::PyInterpolator::py_solve_interpolation,
+           py::return_value_policy::copy)
       .def("print_interpolating_matrix",
            &gsplines::PyInterpolator::print_interpolating_matrix)
       .def("get_coeff_derivative_wrt_tau",
-           &gsplines::PyInterpolator::get_coeff_derivative_wrt_tau)
+           &gsplines::PyInterpolator::get_coeff_derivative_wrt_tau,
+           py::return_value_policy::copy)
       .def("print_interpolating_vector",
            &gsplines::PyInterpolator::print_interpolating_vector);
 
-- 
2.43.0


From de701183827e887245f394f6804330594be4f598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:56 +0000
Subject: [PATCH 29/31] fix: updating an Integral with interval lengths

The row vector of weights has as many columns as there are points; comparing
with its rows rejected every argument.  Remember the number of points when the
update changes it.
---
 src/Collocation/GaussLobattoLagrangeFunctionals.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Collocation/GaussLobattoLagrangeFunctionals.cpp b/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
index ce09d64..de67f7d 100644
--- a/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
+++ b/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
@@ -68,12 +68,13 @@ Integral::Integral(const GaussLobattoLagrangeSpline &_in)
 
 void Integral::update(std::tuple<double, double> _domain, std::size_t _nglp,
                       std::size_t _n_intervals) {
+  nglp_ = _nglp;
   mat_.noalias() =
       legendre_gauss_lobatto_weights(_domain, _nglp, _n_intervals).transpose();
 }
 
 void Integral::update(const Eigen::VectorXd &_intervals) {
-  if (static_cast<long>(_intervals.size() * nglp_) != mat_.rows()) {
+  if (static_cast<long>(_intervals.size() * nglp_) != mat_.cols()) {
     throw std::invalid_argument(" Invaled size of intervals vector");
   }
   mat_.noalias() =
-- 
2.43.0


From 90b2cee28141893e890336aec96b840c0c8ce159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:56 +0000
Subject: [PATCH 30/31] fix: the Integral of a spline uses the spline's
 interval lengths

It assumed intervals of equal length.
---
 src/Collocation/GaussLobattoLagrangeFunctionals.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Collocation/GaussLobattoLagrangeFunctionals.cpp b/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
index de67f7d..8f7f05c 100644
--- a/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
+++ b/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
@@ -63,8 +63,11 @@ Integral::Integral(std::tuple<double, double> _domain, std::size_t _nglp,
       nglp_(_nglp) {}
 
 Integral::Integral(const GaussLobattoLagrangeSpline &_in)
-    : Integral(_in.get_domain(), _in.get_basis().get_dim(),
-               _in.get_number_of_intervals()) {}
+    : LinearFunctionalDense(
+          legendre_gauss_lobatto_weights(_in.get_basis().get_dim(),
+                                         _in.get_interval_lengths())
+              .transpose()),
+      nglp_(_in.get_basis().get_dim()) {}
 
 void Integral::update(std::tuple<double, double> _domain, std::size_t _nglp,
                       std::size_t _n_intervals) {
-- 
2.43.0


From 9570a594297bf4f5bfd5c8cfc3947b66f0c53c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:56 +0000
Subject: [PATCH 31/31] fix: MatrixLeftMultiplication with a constant matrix
 multiplies by it

It multiplied by the transpose, and wrote outside the matrix when it is not
square.
---
 .../gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp b/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
index d49e899..4643e81 100644
--- a/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
+++ b/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
@@ -395,13 +395,13 @@ public:
       long interval = index / nglp_;
 
       for (long col = 0; col < matrix_cols_; col++) {
-        for (long row = 0; row < matrix_cols_; row++) {
+        for (long row = 0; row < matrix_rows_; row++) {
 
           std::size_t j0 =
               col * nglp_ + interval * nglp_ * matrix_cols_ + index % nglp_;
           std::size_t i0 =
               row * nglp_ + interval * nglp_ * matrix_rows_ + index % nglp_;
-          mat_.coeffRef(i0, j0) = _mat(col, row);
+          mat_.coeffRef(i0, j0) = _mat(row, col);
         }
       }
     }
-- 
2.43.0

