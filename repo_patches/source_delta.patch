From 5bad02cced346987fececb73987623fef6f60490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 01/29] fix: cross() of dynamic-size temporaries checks the
 stored operands

The size check looked at the moved-from constructor arguments, so crossing
a dynamic vector temporary always threw vector_size_error.
---
 cml/vector/cross_node.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cml/vector/cross_node.tpp b/cml/vector/cross_node.tpp
index c5494a8..fa6601d 100644
--- a/cml/vector/cross_node.tpp
+++ b/cml/vector/cross_node.tpp
@@ -17,8 +17,8 @@ vector_cross_node<Sub1, Sub2>::vector_cross_node(Sub1 left, Sub2 right)
 : m_left(std::move(left))
 , m_right(std::move(right))
 {
-  cml::check_size(left, cml::int_c<3>());
-  cml::check_size(right, cml::int_c<3>());
+  cml::check_size(this->m_left, cml::int_c<3>());
+  cml::check_size(this->m_right, cml::int_c<3>());
   /* Note: this seems to be exception-safe since temporaries are stored by
    * value and references by reference.
    */
-- 
2.43.0


From c0f0064359f4b4689ba9bca9b910ce31d0b06645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 02/29] fix: pivoting inverse only picks pivots among unpivoted
 elements

The search started from |M(0,0)| even after row/column 0 was pivoted, so
matrices whose remaining elements are smaller (e.g. 0.1*I) were inverted
wrongly.
---
 cml/matrix/detail/inverse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cml/matrix/detail/inverse.h b/cml/matrix/detail/inverse.h
index 78a651d..fd74b31 100644
--- a/cml/matrix/detail/inverse.h
+++ b/cml/matrix/detail/inverse.h
@@ -165,7 +165,7 @@ inverse_pivot(writable_matrix<Sub>& M, RowIndexArray& row_index,
   for(int i = 0; i < N; ++i) {
     /* Find the pivot */
     int row = 0, col = 0;
-    auto pivot = value_traits::fabs(M(0, 0));
+    auto pivot = value_type(-1);
     for(int j = 0; j < N; ++j) {
       if(pivoted[j]) continue;
 
-- 
2.43.0


From 05a67b9332431c6671d1f30b807d73a6fee54cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 03/29] fix: pivoting LU compares pivot magnitudes

A negative diagonal element was compared without fabs(), so e.g. -I was
reported singular and its determinant computed as zero.
---
 cml/matrix/detail/lu.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cml/matrix/detail/lu.tpp b/cml/matrix/detail/lu.tpp
index fe3ae40..bfe6f6a 100644
--- a/cml/matrix/detail/lu.tpp
+++ b/cml/matrix/detail/lu.tpp
@@ -50,7 +50,7 @@ lu_pivot_inplace(writable_matrix<Sub>& M, OrderArray& order)
   for(int k = 0; k < N - 1; ++k) {
     /* Find the next pivot row: */
     int row = k;
-    value_type max = M(k, k);
+    value_type max = value_traits::fabs(M(k, k));
     for(int i = k + 1; i < N; ++i) {
       value_type mag = value_traits::fabs(M(i, k));
       if(mag > max) {
-- 
2.43.0


From c944cfc5039e2e6bfd70b07f0e1549c0729bc68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 04/29] fix: move-assigning a non-square column-major fixed
 matrix

The element loop used row-major indices on the [Cols][Rows] array, leaving
elements unassigned and writing out of bounds.
---
 cml/matrix/fixed_compiled.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cml/matrix/fixed_compiled.tpp b/cml/matrix/fixed_compiled.tpp
index a6ff21a..58e1498 100644
--- a/cml/matrix/fixed_compiled.tpp
+++ b/cml/matrix/fixed_compiled.tpp
@@ -89,8 +89,8 @@ matrix<E, fixed<R, C>, BO, L>::operator=(matrix_type&& other) -> matrix_type&
 {
   for(int i = 0; i < R; ++i)
     for(int j = 0; j < C; ++j)
-      this->m_data[i][j] = std::move(other.m_data[i][j]);
-  /* Note: the layout doesn't matter here. */
+      s_access(*this, i, j, layout_tag()) =
+        std::move(s_access(other, i, j, layout_tag()));
   return *this;
 }
 
-- 
2.43.0


From df66b2c6c6c32dd3b288500d48ef123a38702e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 05/29] fix: scale by one of the object's own elements

v *= v[0] and v /= v[0] (also for matrices and quaternions) re-read the
element after it had been overwritten.
---
 cml/matrix/writable_matrix.tpp         | 6 ++++--
 cml/quaternion/writable_quaternion.tpp | 6 ++++--
 cml/vector/writable_vector.tpp         | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/cml/matrix/writable_matrix.tpp b/cml/matrix/writable_matrix.tpp
index 078f119..e2c308a 100644
--- a/cml/matrix/writable_matrix.tpp
+++ b/cml/matrix/writable_matrix.tpp
@@ -372,7 +372,8 @@ template<class ScalarT,
 DT&
 writable_matrix<DT>::operator*=(const ScalarT& v) &
 {
-  detail::apply<binary_multiply_t<DT, ScalarT>>(*this, v, layout_tag());
+  const ScalarT s = v;  // v may refer to an element of this matrix.
+  detail::apply<binary_multiply_t<DT, ScalarT>>(*this, s, layout_tag());
   return this->actual();
 }
 
@@ -394,7 +395,8 @@ template<class ScalarT,
 DT&
 writable_matrix<DT>::operator/=(const ScalarT& v) &
 {
-  detail::apply<binary_divide_t<DT, ScalarT>>(*this, v, layout_tag());
+  const ScalarT s = v;  // v may refer to an element of this matrix.
+  detail::apply<binary_divide_t<DT, ScalarT>>(*this, s, layout_tag());
   return this->actual();
 }
 
diff --git a/cml/quaternion/writable_quaternion.tpp b/cml/quaternion/writable_quaternion.tpp
index 05cf0a5..9c7a67e 100644
--- a/cml/quaternion/writable_quaternion.tpp
+++ b/cml/quaternion/writable_quaternion.tpp
@@ -389,7 +389,8 @@ DT&
 writable_quaternion<DT>::operator*=(const ScalarT& v) &
 {
   using op_type = binary_multiply_t<DT, ScalarT>;
-  for(int i = 0; i < 4; ++i) this->put(i, op_type().apply(this->get(i), v));
+  const ScalarT s = v;  // v may refer to an element of this quaternion.
+  for(int i = 0; i < 4; ++i) this->put(i, op_type().apply(this->get(i), s));
   return this->actual();
 }
 
@@ -412,7 +413,8 @@ DT&
 writable_quaternion<DT>::operator/=(const ScalarT& v) &
 {
   using op_type = binary_divide_t<DT, ScalarT>;
-  for(int i = 0; i < 4; ++i) this->put(i, op_type().apply(this->get(i), v));
+  const ScalarT s = v;  // v may refer to an element of this quaternion.
+  for(int i = 0; i < 4; ++i) this->put(i, op_type().apply(this->get(i), s));
   return this->actual();
 }
 
diff --git a/cml/vector/writable_vector.tpp b/cml/vector/writable_vector.tpp
index 7781a4f..ed6d9f7 100644
--- a/cml/vector/writable_vector.tpp
+++ b/cml/vector/writable_vector.tpp
@@ -352,8 +352,9 @@ DT&
 writable_vector<DT>::operator*=(const ScalarT& v) &
 {
   using op_type = binary_multiply_t<DT, ScalarT>;
+  const ScalarT s = v;  // v may refer to an element of this vector.
   for(int i = 0; i < this->size(); ++i)
-    this->put(i, op_type().apply(this->get(i), v));
+    this->put(i, op_type().apply(this->get(i), s));
   return this->actual();
 }
 
@@ -374,8 +375,9 @@ DT&
 writable_vector<DT>::operator/=(const ScalarT& v) &
 {
   using op_type = binary_divide_t<DT, ScalarT>;
+  const ScalarT s = v;  // v may refer to an element of this vector.
   for(int i = 0; i < this->size(); ++i)
-    this->put(i, op_type().apply(this->get(i), v));
+    this->put(i, op_type().apply(this->get(i), s));
   return this->actual();
 }
 
-- 
2.43.0


From 73f5d76cca7dfa3044d76ac1b9ca03708f0d8556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 06/29] fix: assigning a list or 2D array to a temporary
 compiles

The rvalue overloads of operator= for initializer lists (and 2D arrays)
returned an lvalue where an rvalue reference is declared, so any use was
a compile error.
---
 cml/matrix/writable_matrix.h           | 2 +-
 cml/matrix/writable_matrix.tpp         | 5 +++--
 cml/quaternion/writable_quaternion.tpp | 3 ++-
 cml/vector/writable_vector.tpp         | 3 ++-
 4 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/cml/matrix/writable_matrix.h b/cml/matrix/writable_matrix.h
index 631dc77..b674066 100644
--- a/cml/matrix/writable_matrix.h
+++ b/cml/matrix/writable_matrix.h
@@ -225,7 +225,7 @@ class writable_matrix : public readable_matrix<DerivedT>
    * are fixed-size, then the size is checked at compile time.
    */
   template<class Other, int Rows, int Cols>
-  DerivedT& operator=(Other const (&array)[Rows][Cols]) &&;
+  DerivedT&& operator=(Other const (&array)[Rows][Cols]) &&;
 
   /** Assign from initializer list.
    *
diff --git a/cml/matrix/writable_matrix.tpp b/cml/matrix/writable_matrix.tpp
index e2c308a..dae27ce 100644
--- a/cml/matrix/writable_matrix.tpp
+++ b/cml/matrix/writable_matrix.tpp
@@ -303,7 +303,7 @@ writable_matrix<DT>::operator=(Other const (&array)[Rows][Cols]) &
 
 template<class DT>
 template<class Other, int Rows, int Cols>
-DT&
+DT&&
 writable_matrix<DT>::operator=(Other const (&array)[Rows][Cols]) &&
 {
   this->operator=(array);
@@ -323,7 +323,8 @@ template<class Other>
 DT&&
 writable_matrix<DT>::operator=(std::initializer_list<Other> l) &&
 {
-  return this->assign(l);
+  this->operator=(l);
+  return (DT&&) *this;
 }
 
 template<class DT>
diff --git a/cml/quaternion/writable_quaternion.tpp b/cml/quaternion/writable_quaternion.tpp
index 9c7a67e..aa3ab75 100644
--- a/cml/quaternion/writable_quaternion.tpp
+++ b/cml/quaternion/writable_quaternion.tpp
@@ -320,7 +320,8 @@ template<class Other>
 DT&&
 writable_quaternion<DT>::operator=(std::initializer_list<Other> l) &&
 {
-  return this->assign(l);
+  this->operator=(l);
+  return (DT&&) *this;
 }
 
 template<class DT>
diff --git a/cml/vector/writable_vector.tpp b/cml/vector/writable_vector.tpp
index ed6d9f7..d56e4e5 100644
--- a/cml/vector/writable_vector.tpp
+++ b/cml/vector/writable_vector.tpp
@@ -300,7 +300,8 @@ template<class Other>
 DT&&
 writable_vector<DT>::operator=(std::initializer_list<Other> l) &&
 {
-  return this->assign(l);
+  this->operator=(l);
+  return (DT&&) *this;
 }
 
 template<class DT>
-- 
2.43.0


From f5c3beb4108b8546009acc3d73fcd1eed63f9c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 07/29] fix: log() and exp() of a quaternion with zero
 imaginary part

Both divided 0 by the zero length of the imaginary part and returned NaN.
---
 cml/quaternion/writable_quaternion.tpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cml/quaternion/writable_quaternion.tpp b/cml/quaternion/writable_quaternion.tpp
index aa3ab75..55825a6 100644
--- a/cml/quaternion/writable_quaternion.tpp
+++ b/cml/quaternion/writable_quaternion.tpp
@@ -189,7 +189,11 @@ writable_quaternion<DT>::log() &
   auto lq = this->length();
   auto v = this->imaginary();
   auto lv = v.length();
-  auto c = element_traits::acos(this->real() / lq) / lv;
+
+  /* The imaginary part of the log of a real quaternion is 0: */
+  auto c = lv > value_type(0)
+    ? value_type(element_traits::acos(this->real() / lq) / lv)
+    : value_type(0);
   this->assign(c * v, element_traits::log(lq));
   return this->actual();
 }
@@ -218,7 +222,10 @@ writable_quaternion<DT>::exp() &
   auto v = this->imaginary();
   auto lv = v.length();
   auto x = element_traits::exp(this->real());
-  auto c = element_traits::sin(lv) / lv;
+
+  /* sin(|v|)/|v| -> 1 as |v| -> 0: */
+  auto c = lv > value_type(0) ? value_type(element_traits::sin(lv) / lv)
+                              : value_type(1);
   this->assign(x * c * v, x * element_traits::cos(lv));
   return this->actual();
 }
-- 
2.43.0


From 727afdf510505c8568b17c6ec8e585fa87140d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 08/29] fix: Euler angle derivatives have the right sign for
 odd orders

The angles are negated for the odd orders (xzy, yxz, zyx), but the
derivative was not, so every element had the wrong sign.
---
 cml/mathlib/matrix/rotation.tpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cml/mathlib/matrix/rotation.tpp b/cml/mathlib/matrix/rotation.tpp
index 5e83395..679be86 100644
--- a/cml/mathlib/matrix/rotation.tpp
+++ b/cml/mathlib/matrix/rotation.tpp
@@ -311,6 +311,13 @@ matrix_rotation_euler_derivatives(writable_matrix<Sub>& m, int axis, E0 angle_0,
     m.set_basis_element(k, j, s1 * c0c2 + s0s2);
     m.set_basis_element(k, k, 0.);
   }
+
+  /* The angles were negated for odd orders (chain rule): */
+  if(odd) {
+    for(int r = 0; r < 3; ++r)
+      for(int c = 0; c < 3; ++c)
+        m.set_basis_element(r, c, -m.basis_element(r, c));
+  }
 }
 
 template<class Sub, class ESub>
-- 
2.43.0


From a34e1b8da4e0537850375c1236b438cf83ea901e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 09/29] fix: random_unit() in a 1D cone

The random vector always coincides with the direction in 1D, and the slerp
divided by sin(0), giving NaN.
---
 cml/mathlib/random_unit.tpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cml/mathlib/random_unit.tpp b/cml/mathlib/random_unit.tpp
index c2f325f..6bd1512 100644
--- a/cml/mathlib/random_unit.tpp
+++ b/cml/mathlib/random_unit.tpp
@@ -68,6 +68,12 @@ random_unit(writable_vector<Sub1>& n, const readable_vector<Sub2>& d,
   using O_traits = scalar_traits<O_type>;
   using Oa_traits = scalar_traits<decltype(O - a)>;
 
+  /* n is d itself (always the case for 1D), which is inside the cone: */
+  if(O == O_type(0)) {
+    n = d;
+    return;
+  }
+
   /* Use slerp between d (t=0) and n (t=1) to find the unit vector n_a
    * (t=a/O) lying on the cone between d and n:
    */
-- 
2.43.0


From ac0c12006bd4747a871c1ad845d3d5967405f477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:03 +0000
Subject: [PATCH 10/29] fix: += and -= reject a size mismatch on resizable
 operands

---
 cml/matrix/writable_matrix.tpp | 4 ++--
 cml/vector/writable_vector.tpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cml/matrix/writable_matrix.tpp b/cml/matrix/writable_matrix.tpp
index dae27ce..3f257c4 100644
--- a/cml/matrix/writable_matrix.tpp
+++ b/cml/matrix/writable_matrix.tpp
@@ -332,7 +332,7 @@ template<class ODT>
 DT&
 writable_matrix<DT>::operator+=(const readable_matrix<ODT>& other) &
 {
-  detail::check_or_resize(*this, other);
+  cml::check_same_size(*this, other);
   detail::apply<binary_plus_t<DT, ODT>>(*this, other, layout_tag());
   return this->actual();
 }
@@ -351,7 +351,7 @@ template<class ODT>
 DT&
 writable_matrix<DT>::operator-=(const readable_matrix<ODT>& other) &
 {
-  detail::check_or_resize(*this, other);
+  cml::check_same_size(*this, other);
   detail::apply<binary_minus_t<DT, ODT>>(*this, other, layout_tag());
   return this->actual();
 }
diff --git a/cml/vector/writable_vector.tpp b/cml/vector/writable_vector.tpp
index d56e4e5..5cefb03 100644
--- a/cml/vector/writable_vector.tpp
+++ b/cml/vector/writable_vector.tpp
@@ -310,7 +310,7 @@ DT&
 writable_vector<DT>::operator+=(const readable_vector<ODT>& other) &
 {
   using op_type = binary_plus_t<DT, ODT>;
-  detail::check_or_resize(*this, other);
+  cml::check_same_size(*this, other);
   for(int i = 0; i < this->size(); ++i)
     this->put(i, op_type().apply(this->get(i), other.get(i)));
   return this->actual();
@@ -331,7 +331,7 @@ DT&
 writable_vector<DT>::operator-=(const readable_vector<ODT>& other) &
 {
   using op_type = binary_minus_t<DT, ODT>;
-  detail::check_or_resize(*this, other);
+  cml::check_same_size(*this, other);
   for(int i = 0; i < this->size(); ++i)
     this->put(i, op_type().apply(this->get(i), other.get(i)));
   return this->actual();
-- 
2.43.0


From 0a4f244f72c612144f74194cd60008adfeb1bcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:00 +0000
Subject: [PATCH 11/29] fix: matrix products with an inner dimension of zero

---
 cml/matrix/matrix_product.tpp | 4 ++--
 cml/matrix/vector_product.tpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cml/matrix/matrix_product.tpp b/cml/matrix/matrix_product.tpp
index 959737b..b1de91e 100644
--- a/cml/matrix/matrix_product.tpp
+++ b/cml/matrix/matrix_product.tpp
@@ -27,8 +27,8 @@ operator*(Sub1&& sub1, Sub2&& sub2)
   detail::resize(M, array_rows_of(sub1), array_cols_of(sub2));
   for(int i = 0; i < M.rows(); ++i) {
     for(int j = 0; j < M.cols(); ++j) {
-      auto m = sub1(i, 0) * sub2(0, j);
-      for(int k = 1; k < sub1.cols(); ++k) m += sub1(i, k) * sub2(k, j);
+      value_type_of_t<result_type> m(0);  // The inner size may be 0.
+      for(int k = 0; k < sub1.cols(); ++k) m += sub1(i, k) * sub2(k, j);
       M(i, j) = m;
     }
   }
diff --git a/cml/matrix/vector_product.tpp b/cml/matrix/vector_product.tpp
index e62e96f..527d2ea 100644
--- a/cml/matrix/vector_product.tpp
+++ b/cml/matrix/vector_product.tpp
@@ -27,8 +27,8 @@ operator*(Sub1&& sub1, Sub2&& sub2)
   result_type v;
   detail::resize(v, array_rows_of(sub1));
   for(int i = 0; i < sub1.rows(); ++i) {
-    auto m = sub1(i, 0) * sub2[0];
-    for(int k = 1; k < sub2.size(); ++k) m += sub1(i, k) * sub2[k];
+    value_type_of_t<result_type> m(0);  // The inner size may be 0.
+    for(int k = 0; k < sub2.size(); ++k) m += sub1(i, k) * sub2[k];
     v[i] = m;
   }
   return v;
@@ -50,8 +50,8 @@ operator*(Sub1&& sub1, Sub2&& sub2)
   result_type v;
   detail::resize(v, array_cols_of(sub2));
   for(int j = 0; j < sub2.cols(); ++j) {
-    auto m = sub1[0] * sub2(0, j);
-    for(int k = 1; k < sub1.size(); ++k) m += sub1[k] * sub2(k, j);
+    value_type_of_t<result_type> m(0);  // The inner size may be 0.
+    for(int k = 0; k < sub1.size(); ++k) m += sub1[k] * sub2(k, j);
     v[j] = m;
   }
   return v;
-- 
2.43.0


From 4c8a4607b9cc2a0f4bb5487776f34cf6a5e8a8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 12/29] fix: transpose() of a fixed-size matrix has the
 transposed storage type

The storage type of the node kept the shape of the operand, so products
with a transposed non-square matrix wrote past the end of the result.
---
 cml/matrix/transpose_node.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cml/matrix/transpose_node.h b/cml/matrix/transpose_node.h
index 3ea2351..edfd97c 100644
--- a/cml/matrix/transpose_node.h
+++ b/cml/matrix/transpose_node.h
@@ -5,6 +5,7 @@
 #pragma once
 
 #include <cml/scalar/traits.h>
+#include <cml/storage/resize.h>
 #include <cml/matrix/readable_matrix.h>
 
 namespace cml {
@@ -21,7 +22,6 @@ template<class Sub> struct matrix_traits<matrix_transpose_node<Sub>>
   using element_traits = typename sub_traits::element_traits;
   using value_type = typename sub_traits::value_type;
   using immutable_value = typename sub_traits::immutable_value;
-  using storage_type = typename sub_traits::storage_type;
   using size_tag = typename sub_traits::size_tag;
   using basis_tag = typename sub_traits::basis_tag;
   using layout_tag = typename sub_traits::layout_tag;
@@ -38,6 +38,14 @@ template<class Sub> struct matrix_traits<matrix_transpose_node<Sub>>
   /* Propagate the columns from the subexpression: */
   static const int array_cols = sub_traits::array_rows;
 
+  /* Propagate the storage from the subexpression, with the dimensions
+   * swapped:
+   */
+  using sub_storage_type = typename sub_traits::storage_type;
+  using sub_unbound_type = typename sub_storage_type::unbound_type;
+  using reshaped_type = reshape_storage_t<sub_unbound_type, array_rows, array_cols>;
+  using storage_type = rebind_matrix_storage_t<reshaped_type>;
+
   /** Constant containing the matrix basis enumeration value. */
   static const basis_kind matrix_basis = basis_tag::value;
 
-- 
2.43.0


From cd6b43e7f927a97d88ea786180b915d3180ed897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 13/29] fix: dynamic matrix constructors release their memory
 when they throw

Constructing from the wrong number of elements leaked the allocation.
---
 cml/matrix/dynamic_allocated.h   | 7 +++----
 cml/matrix/dynamic_allocated.tpp | 5 +----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/cml/matrix/dynamic_allocated.h b/cml/matrix/dynamic_allocated.h
index 931a95d..6313b9c 100644
--- a/cml/matrix/dynamic_allocated.h
+++ b/cml/matrix/dynamic_allocated.h
@@ -155,11 +155,10 @@ class matrix<Element, dynamic<Allocator>, BasisOrient, Layout>
   matrix(RowsT rows, ColsT cols, const E0& e0, const Elements&... eN)
   // XXX Should be in matrix/dynamic_allocated.tpp, but VC++12 has
   // brain-dead out-of-line template argument matching...
-  : m_data(0)
-  , m_rows(0)
-  , m_cols(0)
+  //
+  // Delegate, so that the elements are released if the assignment throws.
+  : matrix(int(rows), int(cols))
   {
-    this->resize_fast(rows, cols);
     this->assign_elements(e0, eN...);
   }
 
diff --git a/cml/matrix/dynamic_allocated.tpp b/cml/matrix/dynamic_allocated.tpp
index ac3a5fb..19e2049 100644
--- a/cml/matrix/dynamic_allocated.tpp
+++ b/cml/matrix/dynamic_allocated.tpp
@@ -61,11 +61,8 @@ matrix<E, dynamic<A>, BO, L>::matrix(const readable_matrix<Sub>& sub)
 template<class E, class A, typename BO, typename L>
 template<class Array, enable_if_array_t<Array>*>
 matrix<E, dynamic<A>, BO, L>::matrix(int rows, int cols, const Array& array)
-: m_data(0)
-, m_rows(0)
-, m_cols(0)
+: matrix(rows, cols)  // Releases the elements if the assignment throws.
 {
-  this->resize_fast(rows, cols);
   this->assign(array);
 }
 
-- 
2.43.0


From b9b74ef4ab55ef9b61e8cc65e59e0e666efac0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 14/29] fix: matrix_skew_symmetric() is defined as declared

The scalar overload was declared as matrix_skew_symmetric but defined as
matrix_skew_symmetric_2D; the undefined declaration also captured every
call with a vector argument, so neither form linked.
---
 cml/mathlib/matrix/misc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cml/mathlib/matrix/misc.h b/cml/mathlib/matrix/misc.h
index 1350533..da46f82 100644
--- a/cml/mathlib/matrix/misc.h
+++ b/cml/mathlib/matrix/misc.h
@@ -56,7 +56,7 @@ void matrix_skew_symmetric(writable_matrix<Sub1>& m,
  * run-time.
  */
 template<class Sub1, class Scalar>
-void matrix_skew_symmetric(writable_matrix<Sub1>& m, const Scalar& s);
+void matrix_skew_symmetric_2D(writable_matrix<Sub1>& m, const Scalar& s);
 
 
 /** Invert a 3D matrix composed of a rotation and translation.
-- 
2.43.0


From c81f2ed7ba8fd48f286e5d1b6b71671113871dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:04 +0000
Subject: [PATCH 15/29] fix: basis vectors of a non-square fixed-size
 column-basis matrix have its row count

---
 cml/matrix/basis_node.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cml/matrix/basis_node.h b/cml/matrix/basis_node.h
index 1016f4c..504c757 100644
--- a/cml/matrix/basis_node.h
+++ b/cml/matrix/basis_node.h
@@ -23,8 +23,12 @@ template<class Sub, int I> struct vector_traits<matrix_basis_node<Sub, I>>
   using value_type = typename sub_traits::value_type;
   using immutable_value = typename sub_traits::immutable_value;
 
-  /* Propagate the column count from the subexpression: */
-  static const int array_size = sub_traits::array_cols;
+  /* Propagate the size of a basis vector from the subexpression: the row
+   * count for a column basis, or the column count otherwise: */
+  static const int array_size =
+    std::is_same<typename sub_traits::basis_tag, col_basis>::value
+    ? sub_traits::array_rows
+    : sub_traits::array_cols;
 
   /* Deduce the vector storage type: */
   using sub_storage_type = typename sub_traits::storage_type;
-- 
2.43.0


From 92fe22561b814239b6236b8b458366dffd8f86ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:14 +0000
Subject: [PATCH 16/29] fix: pivoting inverse undoes its row swaps in reverse
 order

---
 cml/matrix/detail/inverse.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cml/matrix/detail/inverse.h b/cml/matrix/detail/inverse.h
index fd74b31..3b5a186 100644
--- a/cml/matrix/detail/inverse.h
+++ b/cml/matrix/detail/inverse.h
@@ -209,8 +209,8 @@ inverse_pivot(writable_matrix<Sub>& M, RowIndexArray& row_index,
     }
   }
 
-  /* Swap columns if necessary */
-  for(int i = 0; i < N; ++i) {
+  /* Swap columns if necessary, undoing the row swaps in reverse order */
+  for(int i = N - 1; i >= 0; --i) {
     if(row_index[i] == col_index[i]) continue;
 
     for(int j = 0; j < N; ++j)
-- 
2.43.0


From 44f3f3444e1d266f2eae2457bac2e042707f4330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:14 +0000
Subject: [PATCH 17/29] fix: pivoting LU reports a vanishing last pivot

---
 cml/matrix/detail/lu.tpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cml/matrix/detail/lu.tpp b/cml/matrix/detail/lu.tpp
index bfe6f6a..8472a1d 100644
--- a/cml/matrix/detail/lu.tpp
+++ b/cml/matrix/detail/lu.tpp
@@ -77,6 +77,9 @@ lu_pivot_inplace(writable_matrix<Sub>& M, OrderArray& order)
     }
   }
 
+  /* The last pivot is not searched for, but can vanish, too: */
+  if(N > 0 && M(N - 1, N - 1) == value_type(0)) return 0;
+
   /* Done: */
   return flag;
 }
-- 
2.43.0


From adc7a209e2181f3aa7174444649be1da8a8744f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:14 +0000
Subject: [PATCH 18/29] fix: trace and determinant reject an empty matrix

---
 cml/matrix/readable_matrix.h   | 6 ++++++
 cml/matrix/readable_matrix.tpp | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/cml/matrix/readable_matrix.h b/cml/matrix/readable_matrix.h
index cf9a8ac..6159659 100644
--- a/cml/matrix/readable_matrix.h
+++ b/cml/matrix/readable_matrix.h
@@ -79,6 +79,9 @@ template<class DerivedT> class readable_matrix
    * @throws non_square_matrix_error at run-time if the matrix is
    * dynamically-sized and not square.  Fixed-size matrices are checked
    * at compile-time.
+   *
+   * @throws minimum_matrix_size_error at run-time if the matrix is
+   * dynamically-sized and empty.
    */
   value_type determinant() const;
 
@@ -87,6 +90,9 @@ template<class DerivedT> class readable_matrix
    * @throws non_square_matrix_error at run-time if the matrix is
    * dynamically-sized and not square.  Fixed-size matrices are checked
    * at compile-time.
+   *
+   * @throws minimum_matrix_size_error at run-time if the matrix is
+   * dynamically-sized and empty.
    */
   value_type trace() const;
 
diff --git a/cml/matrix/readable_matrix.tpp b/cml/matrix/readable_matrix.tpp
index a9aa7a2..8c2d2f4 100644
--- a/cml/matrix/readable_matrix.tpp
+++ b/cml/matrix/readable_matrix.tpp
@@ -81,6 +81,7 @@ auto
 readable_matrix<DT>::determinant() const -> value_type
 {
   cml::check_square(*this);
+  cml::check_minimum_size(*this, cml::int_c<1>(), cml::int_c<1>());
   return detail::determinant(*this, cml::int_c<traits_type::array_rows>());
 }
 
@@ -89,6 +90,7 @@ auto
 readable_matrix<DT>::trace() const -> value_type
 {
   cml::check_square(*this);
+  cml::check_minimum_size(*this, cml::int_c<1>(), cml::int_c<1>());
   auto result = this->get(0, 0);
   for(int i = 1; i < this->rows(); ++i) result += this->get(i, i);
   return result;
-- 
2.43.0


From 5e2e8c1a7c7e65b9d2dce55e88855f8b4c5a7a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:17 +0000
Subject: [PATCH 19/29] fix: printing an empty vector prints nothing

---
 cml/util/vector_print.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cml/util/vector_print.tpp b/cml/util/vector_print.tpp
index 90cea17..fc0647b 100644
--- a/cml/util/vector_print.tpp
+++ b/cml/util/vector_print.tpp
@@ -15,7 +15,7 @@ template<class DT>
 inline std::ostream&
 operator<<(std::ostream& os, const readable_vector<DT>& v)
 {
-  os << v[0];
+  if(v.size() > 0) os << v[0];
   for(int i = 1; i < v.size(); ++i) os << " " << v[i];
   return os;
 }
-- 
2.43.0


From 79f12b577711dddfdf34eb765aebef3e44abaa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:59 +0000
Subject: [PATCH 20/29] fix: quaternion products of operands of different types
 compile

---
 cml/quaternion/product.tpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cml/quaternion/product.tpp b/cml/quaternion/product.tpp
index b7a5c75..48671d7 100644
--- a/cml/quaternion/product.tpp
+++ b/cml/quaternion/product.tpp
@@ -42,9 +42,14 @@ operator*(Sub1&& sub1,
    * {+/-} is determined by cross_type:
    */
   auto real = sub1[W] * sub2[W] - cml::dot(sub1.imaginary(), sub2.imaginary());
-  auto cross = std::is_same<cross_type, positive_cross>::value
-    ? cml::cross(sub1.imaginary(), sub2.imaginary())
-    : cml::cross(sub2.imaginary(), sub1.imaginary());
+  auto cross = [&] {
+    /* Note: the two products have different types if sub1 and sub2 do. */
+    if constexpr(std::is_same<cross_type, positive_cross>::value) {
+      return cml::cross(sub1.imaginary(), sub2.imaginary());
+    } else {
+      return cml::cross(sub2.imaginary(), sub1.imaginary());
+    }
+  }();
   auto imaginary =
     sub1[W] * sub2.imaginary() + sub2[W] * sub1.imaginary() + cross;
 
-- 
2.43.0


From aab133441717fe41c3538aa5d138dae826a1362f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:47 +0000
Subject: [PATCH 21/29] fix: matrix_to_axis_angle() near half turns

---
 cml/mathlib/matrix/rotation.tpp | 46 +++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/cml/mathlib/matrix/rotation.tpp b/cml/mathlib/matrix/rotation.tpp
index 679be86..b0e3cf7 100644
--- a/cml/mathlib/matrix/rotation.tpp
+++ b/cml/mathlib/matrix/rotation.tpp
@@ -439,21 +439,26 @@ matrix_to_axis_angle(const readable_matrix<Sub>& m, writable_vector<ASub>& axis,
   auto l = axis.length();
   auto tmo = trace_3x3(m) - value_type(1);
 
-  /* Normalize and compute the angle directly if possible: */
-  if(l > tolerance) {
-    axis /= l;
-    angle = E(value_traits::atan2(l, tmo));
-    /* Note: l = 2*sin(theta), tmo = 2*cos(theta) */
-  }
+  /* Up to a quarter turn, normalize and compute the angle directly: */
+  if(tmo > value_type(0)) {
+    if(l > tolerance) {
+      axis /= l;
+      angle = E(value_traits::atan2(l, tmo));
+      /* Note: l = 2*sin(theta), tmo = 2*cos(theta) */
+    }
 
-  /* Near-zero axis: */
-  else if(tmo > value_type(0))
-  {
-    axis.zero();
-    angle = E(0);
+    /* Near-zero axis: */
+    else
+    {
+      axis.zero();
+      angle = E(0);
+    }
   }
 
-  /* Reflection: */
+  /* Beyond, l vanishes as the angle goes to pi, so compute the axis from the
+   * symmetric part of the matrix, with the sense given by its antisymmetric
+   * part:
+   */
   else
   {
     auto largest_diagonal_element = cml::index_of_max(m.basis_element(0, 0),
@@ -462,16 +467,17 @@ matrix_to_axis_angle(const readable_matrix<Sub>& m, writable_vector<ASub>& axis,
     int i, j, k;
     cyclic_permutation(largest_diagonal_element, i, j, k);
 
-    axis[i] = asub_type(
-      value_traits::sqrt(m.basis_element(i, i) - m.basis_element(j, j)
-        - m.basis_element(k, k) + value_type(1))
-      / value_type(2));
+    const bool negative = axis[i] < asub_type(0);
 
-    auto s = value_type(1) / (value_type(2) * axis[i]);
-    axis[j] = asub_type(m.basis_element(i, j) * s);
-    axis[k] = asub_type(m.basis_element(i, k) * s);
+    axis[i] = asub_type(m.basis_element(i, i) - m.basis_element(j, j)
+      - m.basis_element(k, k) + value_type(1));
+    axis[j] = asub_type(m.basis_element(i, j) + m.basis_element(j, i));
+    axis[k] = asub_type(m.basis_element(i, k) + m.basis_element(k, i));
+    axis.normalize();
+    if(negative) axis *= asub_type(-1);
 
-    angle = constants<E>::pi();
+    angle = l > tolerance ? E(value_traits::atan2(l, tmo))
+                          : constants<E>::pi();
   }
 
   /* Done. */
-- 
2.43.0


From ca612d1ddcb2d92146a5b9979201b79d2fcecc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:12 +0000
Subject: [PATCH 22/29] fix: matrix_to_euler() close to gimbal lock

---
 cml/mathlib/matrix/rotation.tpp | 44 +++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/cml/mathlib/matrix/rotation.tpp b/cml/mathlib/matrix/rotation.tpp
index b0e3cf7..02490bf 100644
--- a/cml/mathlib/matrix/rotation.tpp
+++ b/cml/mathlib/matrix/rotation.tpp
@@ -537,31 +537,43 @@ matrix_to_euler(const readable_matrix<Sub>& m, E0& angle_0, E1& angle_1,
     auto c1 = m.basis_element(i, i);
 
     angle_1 = E1(value_traits::atan2(s1, c1));
+
+    /* The first angle is arbitrary at gimbal lock: */
+    value_type a0 = value_type(0);
     if(s1 > tolerance) {
-      angle_0 =
-        E0(value_traits::atan2(m.basis_element(j, i), m.basis_element(k, i)));
-      angle_2 =
-        E0(value_traits::atan2(m.basis_element(i, j), -m.basis_element(i, k)));
-    } else {
-      angle_0 = E0(0);
-      angle_2 = E2(cml::sign(c1)
-        * value_traits::atan2(-m.basis_element(k, j), m.basis_element(j, j)));
+      a0 = value_traits::atan2(m.basis_element(j, i), m.basis_element(k, i));
     }
+
+    /* Undo the first rotation to compute the third angle, so that it is also
+     * correct close to gimbal lock:
+     */
+    auto s0 = value_traits::sin(a0);
+    auto c0 = value_traits::cos(a0);
+    angle_0 = E0(a0);
+    angle_2 = E2(value_traits::atan2(
+      c0 * m.basis_element(j, k) - s0 * m.basis_element(k, k),
+      c0 * m.basis_element(j, j) - s0 * m.basis_element(k, j)));
   } else {
     auto s1 = -m.basis_element(i, k);
     auto c1 = cml::length(m.basis_element(i, i), m.basis_element(i, j));
 
     angle_1 = E1(value_traits::atan2(s1, c1));
+
+    /* The first angle is arbitrary at gimbal lock: */
+    value_type a0 = value_type(0);
     if(c1 > tolerance) {
-      angle_0 =
-        E0(value_traits::atan2(m.basis_element(j, k), m.basis_element(k, k)));
-      angle_2 =
-        E2(value_traits::atan2(m.basis_element(i, j), m.basis_element(i, i)));
-    } else {
-      angle_0 = E0(0);
-      angle_2 = -E2(cml::sign(s1)
-        * value_traits::atan2(-m.basis_element(k, j), m.basis_element(j, j)));
+      a0 = value_traits::atan2(m.basis_element(j, k), m.basis_element(k, k));
     }
+
+    /* Undo the first rotation to compute the third angle, so that it is also
+     * correct close to gimbal lock:
+     */
+    auto s0 = value_traits::sin(a0);
+    auto c0 = value_traits::cos(a0);
+    angle_0 = E0(a0);
+    angle_2 = E2(value_traits::atan2(
+      s0 * m.basis_element(k, i) - c0 * m.basis_element(j, i),
+      c0 * m.basis_element(j, j) - s0 * m.basis_element(k, j)));
   }
 
   if(odd) {
-- 
2.43.0


From 61d90f2aea1a8caa299622785619e87216a66f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:24 +0000
Subject: [PATCH 23/29] fix: inverse scale matrices from integer scale factors

---
 cml/mathlib/matrix/scale.tpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cml/mathlib/matrix/scale.tpp b/cml/mathlib/matrix/scale.tpp
index 3991414..5b69e78 100644
--- a/cml/mathlib/matrix/scale.tpp
+++ b/cml/mathlib/matrix/scale.tpp
@@ -46,7 +46,8 @@ template<class Sub, class E0, class E1>
 inline void
 matrix_inverse_scale_2D(writable_matrix<Sub>& m, const E0& e0, const E1& e1)
 {
-  matrix_scale_2D(m, E0(1) / e0, E1(1) / e1);
+  using value_type = value_type_trait_of_t<Sub>;
+  matrix_scale_2D(m, value_type(1) / e0, value_type(1) / e1);
 }
 
 template<class Sub1, class Sub2>
@@ -95,7 +96,8 @@ inline void
 matrix_inverse_scale(writable_matrix<Sub>& m, const E0& e0, const E1& e1,
   const E2& e2)
 {
-  matrix_scale(m, E0(1) / e0, E1(1) / e1, E2(1) / e2);
+  using value_type = value_type_trait_of_t<Sub>;
+  matrix_scale(m, value_type(1) / e0, value_type(1) / e1, value_type(1) / e2);
 }
 
 template<class Sub1, class Sub2>
-- 
2.43.0


From b8e0f44d4765bbc0dfcdbc5d07fafb5709fb09df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:03 +0000
Subject: [PATCH 24/29] fix: wrap() results just above the range

---
 cml/scalar/functions.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cml/scalar/functions.h b/cml/scalar/functions.h
index f701b73..e135cef 100644
--- a/cml/scalar/functions.h
+++ b/cml/scalar/functions.h
@@ -32,12 +32,14 @@ template<typename T>
 inline T
 wrap(T value, T min, T max)
 {
-  max -= min;
-  value = scalar_traits<T>::fmod(value - min, max);
+  const T range = max - min;
+  value = scalar_traits<T>::fmod(value - min, range);
   if(value < T(0)) {
-    value += max;
+    value += range;
   }
-  return min + value;
+
+  // Rounding can carry the sum just past max:
+  return (std::min)(T(min + value), max);
 }
 
 /** Test input value for inclusion in [min, max]. */
-- 
2.43.0


From 1efe1e8d144618bc335d8fa369fc861eba8e4ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:23 +0000
Subject: [PATCH 25/29] fix: quaternion assignment between orders permuted the
 components

---
 cml/quaternion/writable_quaternion.tpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/cml/quaternion/writable_quaternion.tpp b/cml/quaternion/writable_quaternion.tpp
index 55825a6..89ea19c 100644
--- a/cml/quaternion/writable_quaternion.tpp
+++ b/cml/quaternion/writable_quaternion.tpp
@@ -337,8 +337,10 @@ DT&
 writable_quaternion<DT>::operator+=(const readable_quaternion<ODT>& other) &
 {
   using op_type = binary_plus_t<DT, ODT>;
-  for(int i = 0; i < 4; ++i)
-    this->put(i, op_type().apply(this->get(i), other.get(i)));
+  this->put(W, op_type().apply(this->w(), other.w()));
+  this->put(X, op_type().apply(this->x(), other.x()));
+  this->put(Y, op_type().apply(this->y(), other.y()));
+  this->put(Z, op_type().apply(this->z(), other.z()));
   return this->actual();
 }
 
@@ -357,8 +359,10 @@ DT&
 writable_quaternion<DT>::operator-=(const readable_quaternion<ODT>& other) &
 {
   using op_type = binary_minus_t<DT, ODT>;
-  for(int i = 0; i < 4; ++i)
-    this->put(i, op_type().apply(this->get(i), other.get(i)));
+  this->put(W, op_type().apply(this->w(), other.w()));
+  this->put(X, op_type().apply(this->x(), other.x()));
+  this->put(Y, op_type().apply(this->y(), other.y()));
+  this->put(Z, op_type().apply(this->z(), other.z()));
   return this->actual();
 }
 
@@ -444,10 +448,11 @@ template<class ODT>
 DT&
 writable_quaternion<DT>::assign(const readable_quaternion<ODT>& other)
 {
-  this->put(W, other.get(W));
-  this->put(X, other.get(X));
-  this->put(Y, other.get(Y));
-  this->put(Z, other.get(Z));
+  /* Copy by component, since the orders may differ: */
+  this->put(W, other.w());
+  this->put(X, other.x());
+  this->put(Y, other.y());
+  this->put(Z, other.z());
   return this->actual();
 }
 
-- 
2.43.0


From 5a3a9a2f87bcd44cd31b3c193c3371c5189b7775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:43 +0000
Subject: [PATCH 26/29] fix: pivoting LU of an integer matrix reports a zero
 pivot

---
 cml/matrix/detail/lu.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cml/matrix/detail/lu.tpp b/cml/matrix/detail/lu.tpp
index 8472a1d..2b0abdc 100644
--- a/cml/matrix/detail/lu.tpp
+++ b/cml/matrix/detail/lu.tpp
@@ -60,6 +60,7 @@ lu_pivot_inplace(writable_matrix<Sub>& M, OrderArray& order)
     }
 
     /* Check for a singular matrix: */
+    if(max == value_type(0)) return 0;
     if(max < value_traits::epsilon()) return 0;
     // XXX should be configurable?
 
-- 
2.43.0


From 4ff3be0bbe485f1b60a8e3d945f0f4801ed23db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:02 +0000
Subject: [PATCH 27/29] fix: determinants of integer matrices above order 4

---
 cml/matrix/detail/determinant.tpp | 43 +++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/cml/matrix/detail/determinant.tpp b/cml/matrix/detail/determinant.tpp
index 51e6bcc..ebf73d5 100644
--- a/cml/matrix/detail/determinant.tpp
+++ b/cml/matrix/detail/determinant.tpp
@@ -22,6 +22,43 @@ diagonal_product(const Matrix& A) -> value_type_of_t<Matrix>
   return D;
 }
 
+/** Fraction-free (Bareiss) elimination for integer matrices: each division
+ * is exact, so the last diagonal element of the (overwritten) matrix is the
+ * determinant, up to the sign of the row swaps.
+ */
+template<class Matrix>
+inline auto
+integer_determinant(Matrix& A) -> value_type_of_t<Matrix>
+{
+  using value_type = value_type_of_t<Matrix>;
+
+  int N = A.rows();
+  bool odd = false;
+  value_type previous(1);
+  for(int k = 0; k < N - 1; ++k) {
+    /* Find a non-zero pivot: */
+    int row = k;
+    while(row < N && A(row, k) == value_type(0)) ++row;
+    if(row == N) return value_type(0);
+
+    /* Swap rows if necessary: */
+    if(row != k) {
+      for(int j = k; j < N; ++j) std::swap(A(k, j), A(row, j));
+      odd = !odd;
+    }
+
+    /* Eliminate: */
+    for(int i = k + 1; i < N; ++i) {
+      for(int j = k + 1; j < N; ++j) {
+        A(i, j) =
+          value_type((A(i, j) * A(k, k) - A(i, k) * A(k, j)) / previous);
+      }
+    }
+    previous = A(k, k);
+  }
+  return odd ? value_type(-A(N - 1, N - 1)) : value_type(A(N - 1, N - 1));
+}
+
 }  // namespace
 
 /** 2x2 determinant implementation. */
@@ -89,6 +126,9 @@ determinant(const readable_matrix<Sub>& M, int_c<N>)
   -> value_type_trait_of_t<Sub>
 {
   temporary_of_t<Sub> A(M);
+  if constexpr(std::is_integral<value_type_trait_of_t<Sub>>::value)
+    return integer_determinant(A);
+
   std::array<int, N> order;
   int sign = lu_pivot_inplace(A, order);
 
@@ -119,6 +159,9 @@ determinant(const readable_matrix<Sub>& M, int_c<-1>)
   }
 
   temporary_of_t<Sub> A(M);
+  if constexpr(std::is_integral<value_type_trait_of_t<Sub>>::value)
+    return integer_determinant(A);
+
   std::vector<int> order(A.rows());
   int sign = lu_pivot_inplace(A, order);
 
-- 
2.43.0


From 8d4047fffae97486e8979fa3897ee3f2e306c50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:37 +0000
Subject: [PATCH 28/29] fix: integer determinants overflowed in intermediate
 products

---
 cml/matrix/detail/determinant.tpp | 64 ++++++++++++++++---------------
 1 file changed, 33 insertions(+), 31 deletions(-)

diff --git a/cml/matrix/detail/determinant.tpp b/cml/matrix/detail/determinant.tpp
index ebf73d5..3a05f23 100644
--- a/cml/matrix/detail/determinant.tpp
+++ b/cml/matrix/detail/determinant.tpp
@@ -6,6 +6,7 @@
 #  error "matrix/detail/determinant.tpp not included correctly"
 #endif
 
+#include <array>
 #include <vector>
 #include <cml/matrix/temporary.h>
 #include <cml/matrix/detail/lu.h>
@@ -22,41 +23,38 @@ diagonal_product(const Matrix& A) -> value_type_of_t<Matrix>
   return D;
 }
 
-/** Fraction-free (Bareiss) elimination for integer matrices: each division
- * is exact, so the last diagonal element of the (overwritten) matrix is the
- * determinant, up to the sign of the row swaps.
+/** Division-free determinant of an integer matrix (Bird's algorithm), using
+ * @c X and @c Y (appropriately sized arrays) for the intermediate matrices.
+ * Unsigned arithmetic is exact modulo a power of 2, so the result is exact
+ * whenever the determinant itself can be represented.
  */
-template<class Matrix>
+template<class Matrix, class WorkArray>
 inline auto
-integer_determinant(Matrix& A) -> value_type_of_t<Matrix>
+integer_determinant(const Matrix& A, WorkArray& X, WorkArray& Y)
+  -> value_type_of_t<Matrix>
 {
-  using value_type = value_type_of_t<Matrix>;
+  using word = typename WorkArray::value_type;
 
   int N = A.rows();
-  bool odd = false;
-  value_type previous(1);
-  for(int k = 0; k < N - 1; ++k) {
-    /* Find a non-zero pivot: */
-    int row = k;
-    while(row < N && A(row, k) == value_type(0)) ++row;
-    if(row == N) return value_type(0);
-
-    /* Swap rows if necessary: */
-    if(row != k) {
-      for(int j = k; j < N; ++j) std::swap(A(k, j), A(row, j));
-      odd = !odd;
-    }
-
-    /* Eliminate: */
-    for(int i = k + 1; i < N; ++i) {
-      for(int j = k + 1; j < N; ++j) {
-        A(i, j) =
-          value_type((A(i, j) * A(k, k) - A(i, k) * A(k, j)) / previous);
+  for(int i = 0; i < N; ++i)
+    for(int j = 0; j < N; ++j) X[i * N + j] = word(A(i, j));
+
+  for(int n = 1; n < N; ++n) {
+    /* Y = U*A, where U is the upper triangle of X, with each diagonal
+     * element replaced by the negated sum of those below it:
+     */
+    word diagonal(0);
+    for(int i = N - 1; i >= 0; --i) {
+      for(int j = 0; j < N; ++j) {
+        word sum = diagonal * word(A(i, j));
+        for(int k = i + 1; k < N; ++k) sum += X[i * N + k] * word(A(k, j));
+        Y[i * N + j] = sum;
       }
+      diagonal -= X[i * N + i];
     }
-    previous = A(k, k);
+    std::swap(X, Y);
   }
-  return odd ? value_type(-A(N - 1, N - 1)) : value_type(A(N - 1, N - 1));
+  return value_type_of_t<Matrix>(N % 2 == 0 ? word(0) - X[0] : X[0]);
 }
 
 }  // namespace
@@ -126,8 +124,10 @@ determinant(const readable_matrix<Sub>& M, int_c<N>)
   -> value_type_trait_of_t<Sub>
 {
   temporary_of_t<Sub> A(M);
-  if constexpr(std::is_integral<value_type_trait_of_t<Sub>>::value)
-    return integer_determinant(A);
+  if constexpr(std::is_integral<value_type_trait_of_t<Sub>>::value) {
+    std::array<unsigned long long, N * N> X, Y;
+    return integer_determinant(A, X, Y);
+  }
 
   std::array<int, N> order;
   int sign = lu_pivot_inplace(A, order);
@@ -159,8 +159,10 @@ determinant(const readable_matrix<Sub>& M, int_c<-1>)
   }
 
   temporary_of_t<Sub> A(M);
-  if constexpr(std::is_integral<value_type_trait_of_t<Sub>>::value)
-    return integer_determinant(A);
+  if constexpr(std::is_integral<value_type_trait_of_t<Sub>>::value) {
+    std::vector<unsigned long long> X(N * N), Y(N * N);
+    return integer_determinant(A, X, Y);
+  }
 
   std::vector<int> order(A.rows());
   int sign = lu_pivot_inplace(A, order);
-- 
2.43.0


From a1b1bd78d836d7cc79a07af5ffeb1b3d0a819c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:06 +0000
Subject: [PATCH 29/29] fix: lu_pivot() of a reused result kept the row order's
 old size

---
 cml/matrix/lu.tpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cml/matrix/lu.tpp b/cml/matrix/lu.tpp
index 108d358..b018a0f 100644
--- a/cml/matrix/lu.tpp
+++ b/cml/matrix/lu.tpp
@@ -27,6 +27,8 @@ inline void
 lu_pivot(lu_pivot_result<Matrix>& result)
 {
   cml::check_square(result.lu);
+  if constexpr(is_dynamic_size<matrix_traits<Matrix>>::value)
+    result.order.resize(result.lu.rows());
   result.sign = detail::lu_pivot_inplace(result.lu, result.order);
 }
 
-- 
2.43.0

