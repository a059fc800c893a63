From a36198d2f5797a78b647cb31549c6fa9f6628956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:00 +0000
Subject: [PATCH 01/34] fix: pass the number of columns as ldc to the row-major
 BLAS gemm calls

---
 include/lalib/ops/mat_mat_ops_core.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/lalib/ops/mat_mat_ops_core.hpp b/include/lalib/ops/mat_mat_ops_core.hpp
index be1f614..0d30a8f 100644
--- a/include/lalib/ops/mat_mat_ops_core.hpp
+++ b/include/lalib/ops/mat_mat_ops_core.hpp
@@ -61,10 +61,10 @@ inline auto mul_core<float>(size_t n, size_t m, size_t l, float alpha, const flo
     if (mata == matc || matb == matc) {
         auto tmp = std::make_unique<float[]>(n * m);
         std::copy(matc, matc + n * m, tmp.get());
-        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, tmp.get(), n);
+        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, tmp.get(), m);
         std::copy(tmp.get(), tmp.get() + n * m, matc);
     } else {
-        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, matc, n);
+        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, matc, m);
     }
     #else
     __mul_core_simd(n, m, l, alpha, mata, matb, beta, matc);
@@ -78,10 +78,10 @@ inline auto mul_core<double>(size_t n, size_t m, size_t l, double alpha, const d
     if (mata == matc || matb == matc) {
         auto tmp = std::make_unique<double[]>(n * m);
         std::copy(matc, matc + n * m, tmp.get());
-        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, tmp.get(), n);
+        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, tmp.get(), m);
         std::copy(tmp.get(), tmp.get() + n * m, matc);
     } else {
-        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, matc, n);
+        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, matc, m);
     }
     #else
     __mul_core_simd(n, m, l, alpha, mata, matb, beta, matc);
-- 
2.43.0


From f672d391061f029bcb7e30f9296a8c5f011aac47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:00 +0000
Subject: [PATCH 02/34] fix: keep beta * y when the BLAS matrix-vector product
 is computed in place

---
 include/lalib/ops/mat_vec_ops_core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lalib/ops/mat_vec_ops_core.hpp b/include/lalib/ops/mat_vec_ops_core.hpp
index d5db0dc..59cd56e 100644
--- a/include/lalib/ops/mat_vec_ops_core.hpp
+++ b/include/lalib/ops/mat_vec_ops_core.hpp
@@ -74,6 +74,7 @@ inline auto mul_core<float>(size_t n, size_t m, float alpha, const float* mat, c
     #if defined(LALIB_BLAS_BACKEND)
     if (x == y) {
         auto tmp = std::make_unique<float[]>(n);
+        std::copy(y, y + n, tmp.get());
         cblas_sgemv(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, n, m, alpha, mat, std::max<size_t>(1u, m), x, 1, beta, tmp.get(), 1);
         std::copy(tmp.get(), tmp.get() + n, y);
     } else {
@@ -90,6 +91,7 @@ inline auto mul_core<double>(size_t n, size_t m, double alpha, const double* mat
     #if defined(LALIB_BLAS_BACKEND)
     if (x == y) {
         auto tmp = std::make_unique<double[]>(n);
+        std::copy(y, y + n, tmp.get());
         cblas_dgemv(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, n, m, alpha, mat, std::max<size_t>(1u, m), x, 1, beta, tmp.get(), 1);
         std::copy(tmp.get(), tmp.get() + n, y);
     } else {
-- 
2.43.0


From 4c9a6fd3705050da20ea5d8414bb3d0b4033ccc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:00 +0000
Subject: [PATCH 03/34] fix: sparse matrix-vector product computed in place

---
 include/lalib/ops/mat_vec_ops_core.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/lalib/ops/mat_vec_ops_core.hpp b/include/lalib/ops/mat_vec_ops_core.hpp
index 59cd56e..dc1fa33 100644
--- a/include/lalib/ops/mat_vec_ops_core.hpp
+++ b/include/lalib/ops/mat_vec_ops_core.hpp
@@ -53,6 +53,13 @@ inline auto __mul_core_simd(size_t n, size_t m, T alpha, const T* mat, const T*
 
 template<typename T>
 inline auto _sp_mul_core(size_t n, const size_t* col_ids, const size_t* row_ptr, T alpha, const T* mat, const T* x, T beta, T* y) noexcept -> T* {
+    // If the multiplier and the vector storing the result are the same, multiply a copy of the multiplier
+    std::unique_ptr<T[]> tmp;
+    if (x == y) {
+        tmp = std::make_unique<T[]>(n);
+        std::copy(x, x + n, tmp.get());
+        x = tmp.get();
+    }
     #pragma omp simd
     for (auto i = 0u; i < n; ++i) {
         y[i] = beta * y[i];
-- 
2.43.0


From 1aa78d7b15af9028459894052045253003e5aaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:00 +0000
Subject: [PATCH 04/34] fix: tri-diagonal matrices returned a dangling
 reference for elements off the three diagonals

---
 include/lalib/mat/dyn_mat.hpp   | 4 +++-
 include/lalib/mat/sized_mat.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/lalib/mat/dyn_mat.hpp b/include/lalib/mat/dyn_mat.hpp
index f81c6c1..2780f19 100644
--- a/include/lalib/mat/dyn_mat.hpp
+++ b/include/lalib/mat/dyn_mat.hpp
@@ -265,6 +265,8 @@ private:
     std::vector<T> _dl;
     std::vector<T> _d;
     std::vector<T> _du;
+
+    inline static const T _zero = Zero<T>::value();
 };
 
 template <typename T>
@@ -290,7 +292,7 @@ inline constexpr auto DynTriDiagMat<T>::operator()(size_t i, size_t j) const ->
     if (i == j)             return this->_d[i];
     else if ( i == j - 1 )  return this->_du[i];
     else if ( i == j + 1 )  return this->_dl[i - 1];
-    else                    return Zero<T>::value();
+    else                    return _zero;
 }
 template <typename T>
 inline constexpr auto DynTriDiagMat<T>::operator()(size_t i, size_t j) -> T &
diff --git a/include/lalib/mat/sized_mat.hpp b/include/lalib/mat/sized_mat.hpp
index d2bba69..60af551 100644
--- a/include/lalib/mat/sized_mat.hpp
+++ b/include/lalib/mat/sized_mat.hpp
@@ -285,6 +285,8 @@ private:
     std::array<T, N - 1>    _dl;
     std::array<T, N>        _d;
     std::array<T, N - 1>    _du;
+
+    inline static const T _zero = Zero<T>::value();
 };
 
 template <typename T, size_t N>
@@ -304,7 +306,7 @@ inline constexpr auto SizedTriDiagMat<T, N>::operator()(size_t i, size_t j) cons
     if (i == j)             return this->_d[i];
     else if ( i == j - 1 )  return this->_du[i];
     else if ( i == j + 1 )  return this->_dl[i - 1];
-    else                    return Zero<T>::value();
+    else                    return _zero;
 }
 template <typename T, size_t N>
 inline constexpr auto SizedTriDiagMat<T, N>::operator()(size_t i, size_t j) -> T &
-- 
2.43.0


From 6f0a55a23ca6fb597cdbfc5b5cb34df2fad9b919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:00 +0000
Subject: [PATCH 05/34] fix: lower triangular matrices mirrored their lower
 part above the diagonal

---
 include/lalib/mat/dyn_mat.hpp   | 6 ++++--
 include/lalib/mat/sized_mat.hpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/lalib/mat/dyn_mat.hpp b/include/lalib/mat/dyn_mat.hpp
index 2780f19..b018d7e 100644
--- a/include/lalib/mat/dyn_mat.hpp
+++ b/include/lalib/mat/dyn_mat.hpp
@@ -659,6 +659,8 @@ struct DynLowerTriMat {
 private:
     size_t _n;
     std::vector<T> _lower_elems;
+
+    inline static const T _zero = Zero<T>::value();
 };
 
 template<typename T>
@@ -674,13 +676,13 @@ constexpr auto DynLowerTriMat<T>::shape() const noexcept -> std::pair<size_t, si
 
 template<typename T>
 constexpr auto DynLowerTriMat<T>::operator()(size_t i, size_t j) const -> const T& {
-    if (i < j) { std::swap(i, j); }
+    if (i < j) { return _zero; }
     return this->_lower_elems[i * (i + 1) / 2 + j];
 }
 
 template<typename T>
 constexpr auto DynLowerTriMat<T>::operator()(size_t i, size_t j) -> T& {
-    if (i < j) { std::swap(i, j); }
+    if (i < j) { throw std::invalid_argument("Zero component cannot be modified."); }
     return this->_lower_elems[i * (i + 1) / 2 + j];
 }
 
diff --git a/include/lalib/mat/sized_mat.hpp b/include/lalib/mat/sized_mat.hpp
index 60af551..1c1a9f0 100644
--- a/include/lalib/mat/sized_mat.hpp
+++ b/include/lalib/mat/sized_mat.hpp
@@ -386,6 +386,8 @@ struct SizedLowerTriMat {
 
 private:
     std::array<T, N * (N + 1) / 2> _lower_elems;
+
+    inline static const T _zero = Zero<T>::value();
 };
 
 template<typename T, size_t N>
@@ -401,13 +403,13 @@ constexpr auto SizedLowerTriMat<T, N>::shape() const noexcept -> std::pair<size_
 
 template<typename T, size_t N>
 constexpr auto SizedLowerTriMat<T, N>::operator()(size_t i, size_t j) const -> const T& {
-    if (i < j) { std::swap(i, j); }
+    if (i < j) { return _zero; }
     return this->_lower_elems[i * (i + 1) / 2 + j];
 }
 
 template<typename T, size_t N>
 constexpr auto SizedLowerTriMat<T, N>::operator()(size_t i, size_t j) -> T& {
-    if (i < j) { std::swap(i, j); }
+    if (i < j) { throw std::invalid_argument("Zero component cannot be modified."); }
     return this->_lower_elems[i * (i + 1) / 2 + j];
 }
 
-- 
2.43.0


From 69c7b5bc22d7fca09474768091b22919eb5e7fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:00 +0000
Subject: [PATCH 06/34] fix: an empty Hessenberg matrix is extended with one
 element, not two

---
 include/lalib/mat/dyn_mat.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/lalib/mat/dyn_mat.hpp b/include/lalib/mat/dyn_mat.hpp
index b018d7e..a2c54bc 100644
--- a/include/lalib/mat/dyn_mat.hpp
+++ b/include/lalib/mat/dyn_mat.hpp
@@ -466,8 +466,9 @@ void HessenbergMat<T>::extend_with_zero() noexcept {
 
 template<typename T>
 void HessenbergMat<T>::extend_with(std::vector<T>&& new_elems) {
-    if (new_elems.size() != this->_n + 2) {
-        throw std::invalid_argument("New components must have length n + 2 = " + std::to_string(this->_n + 2));
+    auto len = this->_n == 0 ? 1 : this->_n + 2;
+    if (new_elems.size() != len) {
+        throw std::invalid_argument("New components must have length " + std::to_string(len));
     }
     this->_h.insert(this->_h.end(), new_elems.begin(), new_elems.end());
     this->_n += 1;
-- 
2.43.0


From e3b33133805215871fe84ebaae1569ecbb3aa548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:00 +0000
Subject: [PATCH 07/34] fix: let the upper triangular constructor report an
 invalid number of elements

---
 include/lalib/mat/dyn_mat.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lalib/mat/dyn_mat.hpp b/include/lalib/mat/dyn_mat.hpp
index a2c54bc..03f82a1 100644
--- a/include/lalib/mat/dyn_mat.hpp
+++ b/include/lalib/mat/dyn_mat.hpp
@@ -497,7 +497,7 @@ struct DynUpperTriMat {
     DynUpperTriMat() noexcept = default;
 
     /// @brief Creates a upper triangular matrix with given elements.
-    DynUpperTriMat(std::vector<T>&& upper_elems) noexcept;
+    DynUpperTriMat(std::vector<T>&& upper_elems);
 
     /// @brief Creates an empty upper triangular matrix by allocating memory for the given capacity.
     static constexpr auto with_capacity(size_t cap) noexcept -> DynUpperTriMat<T>;
@@ -551,7 +551,7 @@ private:
 };
 
 template<typename T>
-DynUpperTriMat<T>::DynUpperTriMat(std::vector<T>&& upper_elems) noexcept:
+DynUpperTriMat<T>::DynUpperTriMat(std::vector<T>&& upper_elems):
     _n(_calc_size(upper_elems.size())),
     _upper_elems(std::move(upper_elems))
 {}
-- 
2.43.0


From 1751ad34a49a7ab27f83df864598156bd4b2a585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:00 +0000
Subject: [PATCH 08/34] fix: a default constructed upper triangular matrix has
 no elements

---
 include/lalib/mat/dyn_mat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lalib/mat/dyn_mat.hpp b/include/lalib/mat/dyn_mat.hpp
index 03f82a1..4b5aa6b 100644
--- a/include/lalib/mat/dyn_mat.hpp
+++ b/include/lalib/mat/dyn_mat.hpp
@@ -532,7 +532,7 @@ struct DynUpperTriMat {
     auto data() noexcept -> T*;
 
 private:
-    size_t _n;
+    size_t _n = 0;
     std::vector<T> _upper_elems;
 
     const T _zero = Zero<T>::value();
-- 
2.43.0


From 94f4a36ddd20f5acdb833f7c0789a60f85f4871b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:00 +0000
Subject: [PATCH 09/34] fix: size mismatches of neg, axpy and dot terminated
 instead of throwing

---
 include/lalib/ops/vec_ops.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/lalib/ops/vec_ops.hpp b/include/lalib/ops/vec_ops.hpp
index 2694bcb..25597bf 100644
--- a/include/lalib/ops/vec_ops.hpp
+++ b/include/lalib/ops/vec_ops.hpp
@@ -24,7 +24,7 @@ template<typename T, size_t N>
 inline auto neg(const SizedVec<T, N>& v, SizedVec<T, N>& vr) noexcept -> SizedVec<T, N>&;
 
 template<typename T>
-inline auto neg(const DynVec<T>& v, DynVec<T>& vr) noexcept -> DynVec<T>&;
+inline auto neg(const DynVec<T>& v, DynVec<T>& vr) -> DynVec<T>&;
 
 
 template<typename T, size_t N>
@@ -113,7 +113,7 @@ template<typename T, size_t N>
 inline auto axpy(T alpha, const SizedVec<T, N>& x, SizedVec<T, N>& y) noexcept -> SizedVec<T, N>&;
 
 template<typename T>
-inline auto axpy(T alpha, const DynVec<T>& x, DynVec<T>& y) noexcept -> DynVec<T>&;
+inline auto axpy(T alpha, const DynVec<T>& x, DynVec<T>& y) -> DynVec<T>&;
 
 
 /// @brief      Calculate scalar multipliation of vectors
@@ -160,7 +160,7 @@ template<typename T, size_t N>
 inline auto dot(const SizedVec<T, N>& x, const SizedVec<T, N>& y) noexcept -> T;
 
 template<typename T>
-inline auto dot(const DynVec<T>& x, const DynVec<T>& y) noexcept -> T;
+inline auto dot(const DynVec<T>& x, const DynVec<T>& y) -> T;
 
 
 template<typename T>
@@ -245,7 +245,7 @@ auto neg(const SizedVec<T, N> &v, SizedVec<T, N>& vr) noexcept -> SizedVec<T, N>
 }
 
 template <typename T>
-auto neg(const DynVec<T> &v, DynVec<T>& vr) noexcept -> DynVec<T> &
+auto neg(const DynVec<T> &v, DynVec<T>& vr) -> DynVec<T> &
 {
     __check_size(v.size(), vr.size());
     __neg_core_simd(v.data(), vr.data(), v.size());
@@ -373,7 +373,7 @@ auto axpy(T alpha, const SizedVec<T, N> &x, SizedVec<T, N> &y) noexcept -> Sized
     return y;
 }
 template <typename T>
-auto axpy(T alpha, const DynVec<T> &x, DynVec<T> &y) noexcept -> DynVec<T> &
+auto axpy(T alpha, const DynVec<T> &x, DynVec<T> &y) -> DynVec<T> &
 {
     __check_size(x.size(), y.size());
     axpy_core(alpha, x.data(), y.data(), x.size());
@@ -458,7 +458,7 @@ inline auto dot(const SizedVec<T, N>& x, const SizedVec<T, N>& y) noexcept -> T
     return d;
 }
 template<typename T>
-inline auto dot(const DynVec<T>& x, const DynVec<T>& y) noexcept -> T {
+inline auto dot(const DynVec<T>& x, const DynVec<T>& y) -> T {
     T d;
     __check_size(x.size(), y.size());
     d = dot_core(x.data(), y.data(), x.size());
-- 
2.43.0


From e39fc8bc1358768f0c6c9c1bd4d79517b2105de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:00 +0000
Subject: [PATCH 10/34] fix: check the size of the result of add and sub

---
 include/lalib/ops/vec_ops.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lalib/ops/vec_ops.hpp b/include/lalib/ops/vec_ops.hpp
index 25597bf..845213b 100644
--- a/include/lalib/ops/vec_ops.hpp
+++ b/include/lalib/ops/vec_ops.hpp
@@ -296,6 +296,7 @@ auto add(const DynVec<T> &v1, const SizedVec<T, N> &v2, SizedVec<T, N> &vr) -> S
 template<typename T>
 inline auto add(const DynVec<T>& v1, const DynVec<T>& v2, DynVec<T>& vr) -> DynVec<T>& {
     __check_size(v1.size(), v2.size());
+    __check_size(v1.size(), vr.size());
     add_core(v1.data(), v2.data(), vr.data(), v1.size());
     return vr;
 }
@@ -343,6 +344,7 @@ auto sub(const DynVec<T> &v1, const SizedVec<T, N> &v2, SizedVec<T, N> &vr) -> S
 template<typename T>
 inline auto sub(const DynVec<T>& v1, const DynVec<T>& v2, DynVec<T>& vr) -> DynVec<T>& {
     __check_size(v1.size(), v2.size());
+    __check_size(v1.size(), vr.size());
     sub_core(v1.data(), v2.data(), vr.data(), v1.size());
     return vr;
 }
-- 
2.43.0


From d4979c3b4f32cc3cb1e784aa290003ad5189b383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:00 +0000
Subject: [PATCH 11/34] fix: SizedVec::dot read past the end of a shorter
 dynamic vector

---
 include/lalib/vec/sized_vec.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/lalib/vec/sized_vec.hpp b/include/lalib/vec/sized_vec.hpp
index 0236cb8..fef8212 100644
--- a/include/lalib/vec/sized_vec.hpp
+++ b/include/lalib/vec/sized_vec.hpp
@@ -7,6 +7,7 @@
 #include <vector>
 #include <initializer_list>
 #include "lalib/ops/vec_ops_core.hpp"
+#include "lalib/err/error.hpp"
 
 namespace lalib {
 
@@ -74,7 +75,7 @@ public:
 
     // === Operations === //
     constexpr auto dot(const SizedVec<T, N>& v) const noexcept -> T;
-    constexpr auto dot(const DynVec<T>& v) const noexcept -> T;
+    constexpr auto dot(const DynVec<T>& v) const -> T;
 
     constexpr auto norm2() const noexcept -> T;
 
@@ -205,9 +206,12 @@ inline constexpr auto SizedVec<T, N>::dot(const SizedVec<T, N> &v) const noexcep
 }
 
 template <typename T, size_t N>
-inline constexpr auto SizedVec<T, N>::dot(const DynVec<T> &v) const noexcept -> T
+inline constexpr auto SizedVec<T, N>::dot(const DynVec<T> &v) const -> T
 {
     T d;
+    if (this->size() != v.size()) {
+        throw vec_error::SizeMismatched(this->size(), v.size());
+    }
     d = dot_core(this->data(), v.data(), this->size());
     return d;
 }
-- 
2.43.0


From b0140d70226ea6744ae478b323b2adc41f281ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:00 +0000
Subject: [PATCH 12/34] fix: sub(SizedVec, DynVec, SizedVec) returned its
 operand and did not compile

---
 include/lalib/ops/vec_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lalib/ops/vec_ops.hpp b/include/lalib/ops/vec_ops.hpp
index 845213b..1d28130 100644
--- a/include/lalib/ops/vec_ops.hpp
+++ b/include/lalib/ops/vec_ops.hpp
@@ -330,7 +330,7 @@ auto sub(const SizedVec<T, N> &v1, const DynVec<T> &v2, SizedVec<T, N> &vr) -> S
 {
     __check_size(v1.size(), v2.size());
     sub_core(v1.data(), v2.data(), vr.data(), N);
-    return v1;
+    return vr;
 }
 
 template <typename T, size_t N>
-- 
2.43.0


From 12c883085d18b8ef0637c8d59d9ed928bf0c8379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:00 +0000
Subject: [PATCH 13/34] fix: cross(DynVec, SizedVec<3>) returned a DynVec and
 did not compile

---
 include/lalib/ops/vec_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lalib/ops/vec_ops.hpp b/include/lalib/ops/vec_ops.hpp
index 1d28130..5ebcc14 100644
--- a/include/lalib/ops/vec_ops.hpp
+++ b/include/lalib/ops/vec_ops.hpp
@@ -541,7 +541,7 @@ inline auto cross(const SizedVec<T, 3>& x, const DynVec<T>& y, DynVec<T>& vr) no
 template<typename T>
 inline auto cross(const DynVec<T>& x, const SizedVec<T, 3>& y) noexcept -> SizedVec<T, 3> {
     assert(x.size() == 3);
-    auto vr = x;
+    auto vr = y;
     cross3_core(x.data(), y.data(), vr.data());
     return vr;
 }
-- 
2.43.0


From 1e197da04909c5a48cbd589e5fb749b77295dadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:00 +0000
Subject: [PATCH 14/34] fix: the generic dot product returned its operand and
 did not compile

---
 include/lalib/ops/vec_ops_core.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/lalib/ops/vec_ops_core.hpp b/include/lalib/ops/vec_ops_core.hpp
index 4babe41..33b852f 100644
--- a/include/lalib/ops/vec_ops_core.hpp
+++ b/include/lalib/ops/vec_ops_core.hpp
@@ -215,8 +215,7 @@ inline auto __dot_core_simd(const T* v1, const T* v2, size_t size) -> T {
 
 template<typename T>
 inline auto dot_core(const T* v1, const T* v2, size_t size) -> T {
-    __dot_core_simd(v1, v2, size);
-    return v2;
+    return __dot_core_simd(v1, v2, size);
 }
 
 template<>
-- 
2.43.0


From 39300bf17a52bf4d57fa71c04c0b0d44e4335c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:00 +0000
Subject: [PATCH 15/34] fix: the dot product of empty vectors read their first
 element

---
 include/lalib/ops/vec_ops_core.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/lalib/ops/vec_ops_core.hpp b/include/lalib/ops/vec_ops_core.hpp
index 33b852f..1de77d7 100644
--- a/include/lalib/ops/vec_ops_core.hpp
+++ b/include/lalib/ops/vec_ops_core.hpp
@@ -205,6 +205,7 @@ inline auto axpy_core<std::complex<double>>(std::complex<double> alpha, const st
 
 template<typename T>
 inline auto __dot_core_simd(const T* v1, const T* v2, size_t size) -> T {
+    if (size == 0) { return T(0); }
     auto r = v1[0] * v2[0];
     #pragma omp simd reduction(+:r)
     for (auto i = 1u; i < size; ++i) {
-- 
2.43.0


From 4ddd7128c2c415b45272c2fd1e1c45d869e8f53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:00 +0000
Subject: [PATCH 16/34] fix: Zero and One could not be specialised for complex
 numbers

---
 include/lalib/ops/ops_traits.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/lalib/ops/ops_traits.hpp b/include/lalib/ops/ops_traits.hpp
index 3c00e25..7537806 100644
--- a/include/lalib/ops/ops_traits.hpp
+++ b/include/lalib/ops/ops_traits.hpp
@@ -10,7 +10,6 @@ namespace lalib {
 // === Zero === //
 
 template<typename T>
-requires std::floating_point<T>
 struct Zero {
     static auto value() noexcept -> T { return 0.0; }
 };
@@ -24,7 +23,6 @@ struct Zero<std::complex<T>> {
 // === One === //
 
 template<typename T>
-requires std::floating_point<T>
 struct One {
     static auto value() noexcept -> T { return 1.0; }
 };
-- 
2.43.0


From e5604f5b92c5e64ee7ff4b5912a40f2f50607c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:00 +0000
Subject: [PATCH 17/34] fix: division of single precision vectors did not
 compile

---
 include/lalib/ops/ops_traits.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lalib/ops/ops_traits.hpp b/include/lalib/ops/ops_traits.hpp
index 7537806..22e12b9 100644
--- a/include/lalib/ops/ops_traits.hpp
+++ b/include/lalib/ops/ops_traits.hpp
@@ -39,13 +39,13 @@ struct One<std::complex<T>> {
 template<typename T>
 requires std::floating_point<T>
 constexpr auto reciprocal(const T& val) noexcept {
-    return 1.0 / val;
+    return T(1.0) / val;
 }
 
 template<typename T>
 requires std::floating_point<T>
 constexpr auto reciprocal(const std::complex<T>& val) noexcept {
-    return 1.0 / val;
+    return T(1.0) / val;
 }
 
 }
-- 
2.43.0


From 7e21ad8d67c674bfad4af4fa33b65367e2709b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:00 +0000
Subject: [PATCH 18/34] fix: negation of single precision matrices did not
 compile

---
 include/lalib/ops/mat_ops.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/lalib/ops/mat_ops.hpp b/include/lalib/ops/mat_ops.hpp
index 7182db1..34a6b97 100644
--- a/include/lalib/ops/mat_ops.hpp
+++ b/include/lalib/ops/mat_ops.hpp
@@ -78,7 +78,7 @@ template<typename T, size_t N, size_t M>
 requires std::is_integral_v<T> || std::is_floating_point_v<T>
 inline auto operator-(const SizedMat<T, N, M>& mat) noexcept -> SizedMat<T, N, M> {
     auto rmat = mat;
-    scale(-1.0, rmat);
+    scale(T(-1), rmat);
     return rmat;
 }
 
@@ -86,7 +86,7 @@ template<typename T>
 requires std::is_integral_v<T> || std::is_floating_point_v<T>
 inline auto operator-(const DynMat<T>& mat) noexcept -> DynMat<T> {
     auto rmat = mat;
-    scale(-1.0, rmat);
+    scale(T(-1), rmat);
     return rmat;
 }
 
@@ -94,7 +94,7 @@ template<typename T>
 requires std::is_integral_v<T> || std::is_floating_point_v<T>
 inline auto operator-(const SpCooMat<T>& mat) noexcept -> SpCooMat<T> {
     auto rmat = mat;
-    scale(-1.0, rmat);
+    scale(T(-1), rmat);
     return rmat;
 }
 
@@ -102,7 +102,7 @@ template<typename T>
 requires std::is_integral_v<T> || std::is_floating_point_v<T>
 inline auto operator-(const SpMat<T>& mat) noexcept -> SpMat<T> {
     auto rmat = mat;
-    scale(-1.0, rmat);
+    scale(T(-1), rmat);
     return rmat;
 }
 
-- 
2.43.0


From d8e9fe37236277c79396ca1b52ea537ad808bb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:00 +0000
Subject: [PATCH 19/34] fix: matrix products of single precision and complex
 matrices did not compile

---
 include/lalib/ops/mat_mat_ops.hpp |  4 ++--
 include/lalib/ops/mat_vec_ops.hpp | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/lalib/ops/mat_mat_ops.hpp b/include/lalib/ops/mat_mat_ops.hpp
index 2bef08f..e8f07f8 100644
--- a/include/lalib/ops/mat_mat_ops.hpp
+++ b/include/lalib/ops/mat_mat_ops.hpp
@@ -183,14 +183,14 @@ inline auto mul(T alpha, const DynMat<T>& a, const DynMat<T>& b, T beta, DynMat<
 template<typename T, size_t N, size_t M, size_t L>
 inline auto operator*(const SizedMat<T, N, L>& a, const SizedMat<T, L, M>& b) noexcept -> SizedMat<T, N, M> {
     auto mr = lalib::SizedMat<T, N, M>::uninit();
-    mul(1.0, a, b, 0.0, mr);
+    mul(T(1), a, b, T(0), mr);
     return mr;
 }
 
 template<typename T>
 inline auto operator*(const DynMat<T>& a, const DynMat<T>& b) noexcept -> DynMat<T> {
     auto mr = lalib::DynMat<T>::uninit(a.shape().first, b.shape().second);
-    mul(1.0, a, b, 0.0, mr);
+    mul(T(1), a, b, T(0), mr);
     return mr;
 }
 
diff --git a/include/lalib/ops/mat_vec_ops.hpp b/include/lalib/ops/mat_vec_ops.hpp
index c2370b8..ef62c99 100644
--- a/include/lalib/ops/mat_vec_ops.hpp
+++ b/include/lalib/ops/mat_vec_ops.hpp
@@ -59,7 +59,7 @@ inline auto mul(T alpha, const SpMat<T>& mat, const DynVec<T>& v, T beta, DynVec
 template<typename T, size_t N, size_t M>
 inline auto operator*(const SizedMat<T, N, M>& mat, const SizedVec<T, M>& vec) noexcept -> SizedVec<T, N> {
     auto vr = SizedVec<T, N>::uninit();
-    mul_core(N, M, 1.0, mat.data(), vec.data(), 0.0, vr.data());
+    mul_core(N, M, T(1), mat.data(), vec.data(), T(0), vr.data());
     return vr;
 }
 
@@ -67,7 +67,7 @@ template<typename T, size_t N, size_t M>
 inline auto operator*(const SizedMat<T, N, M>& mat, const DynVec<T>& vec) noexcept -> SizedVec<T, N> {
     assert(M == vec.size());
     auto vr = SizedVec<T, N>::uninit();
-    mul_core(N, M, 1.0, mat.data(), vec.data(), 0.0, vr.data());
+    mul_core(N, M, T(1), mat.data(), vec.data(), T(0), vr.data());
     return vr;
 }
 
@@ -76,7 +76,7 @@ inline auto operator*(const DynMat<T>& mat, const SizedVec<T, N>& vec) noexcept
     auto [n, m] = mat.shape();
     assert(m == vec.size());
     auto vr = DynVec<T>::uninit(n);
-    mul_core(n, m, 1.0, mat.data(), vec.data(), 0.0, vr.data());
+    mul_core(n, m, T(1), mat.data(), vec.data(), T(0), vr.data());
     return vr;
 }
 
@@ -85,7 +85,7 @@ inline auto operator*(const DynMat<T>& mat, const DynVec<T>& vec) noexcept -> Dy
     auto [n, m] = mat.shape();
     assert(m == vec.size());
     auto vr = DynVec<T>::uninit(n);
-    mul_core(n, m, 1.0, mat.data(), vec.data(), 0.0, vr.data());
+    mul_core(n, m, T(1), mat.data(), vec.data(), T(0), vr.data());
     return vr;
 }
 
@@ -94,7 +94,7 @@ inline auto operator*(const SpMat<T>& mat, const DynVec<T>& vec) noexcept -> Dyn
     auto [n, m] = mat.shape();
     assert(m == vec.size());
     auto vr = DynVec<T>::uninit(n);
-    _sp_mul_core(n, mat.col_indices().data(), mat.row_ptr().data(), 1.0, mat.values().data(), vec.data(), 0.0, vr.data());
+    _sp_mul_core(n, mat.col_indices().data(), mat.row_ptr().data(), T(1), mat.values().data(), vec.data(), T(0), vr.data());
     return vr;
 }
 
-- 
2.43.0


From 9526e48ada8ce1a9fb5bd6b44e8577ce613b580a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:00 +0000
Subject: [PATCH 20/34] fix: misspelt member in an assertion

---
 include/lalib/ops/mat_mat_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lalib/ops/mat_mat_ops.hpp b/include/lalib/ops/mat_mat_ops.hpp
index e8f07f8..b063d3c 100644
--- a/include/lalib/ops/mat_mat_ops.hpp
+++ b/include/lalib/ops/mat_mat_ops.hpp
@@ -142,7 +142,7 @@ inline auto mul(T alpha, const DynMat<T>& a, const DynMat<T>& b, T beta, SizedMa
 
 template<typename T, size_t N, size_t M, size_t L>
 inline auto mul(T alpha, const SizedMat<T, N, L>& a, const SizedMat<T, L, M>& b, T beta, DynMat<T>& c) noexcept -> DynMat<T>& {
-    assert(c.shape().frist == N);
+    assert(c.shape().first == N);
     assert(c.shape().second == M);
     mul_core(N, M, L, alpha, a.data(), b.data(), beta, c.data());
     return c;
-- 
2.43.0


From f23cd5388d4573adfda4246d0e3480bbe4ffb801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:00 +0000
Subject: [PATCH 21/34] fix: inversion of single precision matrices did not
 compile

---
 include/lalib/mat.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lalib/mat.hpp b/include/lalib/mat.hpp
index 15b8c71..d11d065 100644
--- a/include/lalib/mat.hpp
+++ b/include/lalib/mat.hpp
@@ -34,14 +34,14 @@ inline auto invert(const SizedMat<T, 2, 2>& mat, SizedMat<T, 2, 2>& rmat) -> Siz
         rmat(1, 1) = mat(0, 0);
         rmat(0, 1) = -mat(0, 1);
         rmat(1, 0) = -mat(1, 0);
-        scale(1.0 / denom, rmat);
+        scale(T(1) / denom, rmat);
         return rmat;
     } else {
         auto denom = mat(0, 0) * mat(1, 1) - mat(0, 1) * mat(1, 0);
         std::swap(rmat(0, 0), rmat(1, 1));
         rmat(0, 1) *= -1.0;
         rmat(1, 0) *= -1.0;
-        scale(1.0 / denom, rmat);
+        scale(T(1) / denom, rmat);
         return rmat;
     }
 }
-- 
2.43.0


From b22dc9619f679584eaa84d7b35ec2e8a9ceda04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:00 +0000
Subject: [PATCH 22/34] fix: adding a sparse matrix with elements on a row that
 is empty in the other

---
 include/lalib/mat/sp_mat.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/lalib/mat/sp_mat.hpp b/include/lalib/mat/sp_mat.hpp
index d8401c9..92acd3f 100644
--- a/include/lalib/mat/sp_mat.hpp
+++ b/include/lalib/mat/sp_mat.hpp
@@ -382,6 +382,15 @@ auto SpCooMat<T>::operator+=(const SpCooMat<T>& mat) -> SpCooMat<T>& {
         auto rcursor_end = std::distance(mat._row_ids.begin(), rrow_iter_end) - 1;
 
         while (rcursor <= rcursor_end) {
+            // No element of this matrix is on the row
+            if (cursor > cursor_end) {
+                this->_val.emplace_back(mat._val[rcursor]);
+                this->_row_ids.emplace_back(i);
+                this->_col_ids.emplace_back(mat._col_ids[rcursor]);
+                ++rcursor;
+                continue;
+            }
+
             if (this->_col_ids[cursor] == mat._col_ids[rcursor]) {
                 this->_val[cursor] += mat._val[rcursor];
 
-- 
2.43.0


From 943bc0409338213a17cad6d9b465040890264a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:00 +0000
Subject: [PATCH 23/34] fix: the shape of a sparse matrix without elements read
 past its end

---
 include/lalib/mat/sp_mat.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/lalib/mat/sp_mat.hpp b/include/lalib/mat/sp_mat.hpp
index 92acd3f..b78ec3d 100644
--- a/include/lalib/mat/sp_mat.hpp
+++ b/include/lalib/mat/sp_mat.hpp
@@ -308,6 +308,7 @@ auto SpCooMat<T>::unit(size_t n) -> SpCooMat<T> {
 
 template<typename T>
 constexpr auto SpCooMat<T>::shape() const noexcept -> std::pair<size_t, size_t> {
+    if (this->_val.empty()) { return std::make_pair(0, 0); }
     size_t nrow = *std::ranges::max_element(this->_row_ids) + 1;
     size_t ncol = *std::ranges::max_element(this->_col_ids) + 1;
 
@@ -529,7 +530,9 @@ auto SpMat<T>::unit(size_t n) -> SpMat<T> {
 
 template<typename T>
 constexpr auto SpMat<T>::shape() const noexcept -> std::pair<size_t, size_t> {
+    if (this->_row_ptr.empty()) { return std::make_pair(0, 0); }
     size_t nrow = this->_row_ptr.size() - 1;
+    if (this->_col_ids.empty()) { return std::make_pair(nrow, 0); }
     size_t ncol = *std::ranges::max_element(this->_col_ids) + 1;
 
     return std::make_pair(nrow, ncol);
-- 
2.43.0


From c4d02dff537937183f8df2276aa27a871d3f6a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:00 +0000
Subject: [PATCH 24/34] fix: SpMat::mut_at read past its row pointers for a row
 out of range

---
 include/lalib/mat/sp_mat.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/lalib/mat/sp_mat.hpp b/include/lalib/mat/sp_mat.hpp
index b78ec3d..c47e010 100644
--- a/include/lalib/mat/sp_mat.hpp
+++ b/include/lalib/mat/sp_mat.hpp
@@ -560,6 +560,9 @@ auto SpMat<T>::at(size_t i, size_t j) const noexcept -> const T& {
 
 template<typename T>
 auto SpMat<T>::mut_at(size_t i, size_t j) -> T& {
+    if (i + 1 >= this->_row_ptr.size()) {
+        throw std::out_of_range("Index out of range or does not point to a non-zero element.");
+    }
     for (auto cnt: std::views::iota(this->_row_ptr[i], this->_row_ptr[i + 1])) {
         if (this->_col_ids[cnt] == j) {
             return this->_val[cnt];
-- 
2.43.0


From ff03e950890ca60225ba704ba5c455edce1db8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:00 +0000
Subject: [PATCH 25/34] fix: the tri-diagonal matrix algorithm read past its
 off-diagonals for a 1x1 matrix

---
 include/lalib/solver/internal/tdma.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/lalib/solver/internal/tdma.hpp b/include/lalib/solver/internal/tdma.hpp
index 23fcb3e..4662ac9 100644
--- a/include/lalib/solver/internal/tdma.hpp
+++ b/include/lalib/solver/internal/tdma.hpp
@@ -10,7 +10,14 @@ namespace lalib::solver::_internal_ {
 template<typename T>
 requires ::std::floating_point<T>
 auto tdma(size_t n, size_t nrow, const T* dl, const T* d, const T* du, const T* b, T* x) -> T* {
+    if (n == 0) { return x; }
     for (auto k = 0u; k < nrow; ++k) {
+        // There is no off-diagonal element
+        if (n == 1) {
+            x[k] = b[k] / d[0];
+            continue;
+        }
+
         std::vector<T> p, q;
         p.reserve(n);
         q.reserve(n);
-- 
2.43.0


From c8bb769c5a79e674ef4ed89f94f3547d12519522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:00 +0000
Subject: [PATCH 26/34] fix: the tri-diagonal solver destroyed its matrix in
 the LAPACK backend

---
 include/lalib/solver/tri_diag.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/lalib/solver/tri_diag.hpp b/include/lalib/solver/tri_diag.hpp
index 844ddd1..45c2e9a 100644
--- a/include/lalib/solver/tri_diag.hpp
+++ b/include/lalib/solver/tri_diag.hpp
@@ -55,7 +55,8 @@ inline auto TriDiag<M>::solve_linear(const V &b, V &rslt) noexcept -> V &
 
     #if defined(LALIB_LAPACK_BACKEND)
     rslt = b;
-    _lapack_::gtsv(n, 1, this->_mat.data_dl(), this->_mat.data_d(), this->_mat.data_du(), rslt.data(), 1);
+    auto mat = this->_mat;  // gtsv overwrites the diagonals
+    _lapack_::gtsv(n, 1, mat.data_dl(), mat.data_d(), mat.data_du(), rslt.data(), 1);
     #else
     _internal_::tdma(n, 1, this->_mat.data_dl(), this->_mat.data_d(), this->_mat.data_du(), b.data(), rslt.data());
     #endif
@@ -75,7 +76,8 @@ inline auto lalib::solver::TriDiag<M>::solve_linear(const M1 & b, M1 & rslt) noe
 
     #if defined(LALIB_LAPACK_BACKEND)
     rslt = b;
-    _lapack_::gtsv(n, nrow, this->_mat.data_dl(), this->_mat.data_d(), this->_mat.data_du(), rslt.data(), rslt.shape().second);
+    auto mat = this->_mat;  // gtsv overwrites the diagonals
+    _lapack_::gtsv(n, nrow, mat.data_dl(), mat.data_d(), mat.data_du(), rslt.data(), rslt.shape().second);
     #else
     _internal_::tdma(n, nrow, this->_mat.data_dl(), this->_mat.data_d(), this->_mat.data_du(), b.data(), rslt.data());
     #endif
-- 
2.43.0


From ec1e8b0bb4f446f8d2b6c5d59129c461eacbddb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:00 +0000
Subject: [PATCH 27/34] fix: a Cholesky factorization failing at the first
 pivot was reported as a success

---
 include/lalib/solver/internal/cholesky_decomposition.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lalib/solver/internal/cholesky_decomposition.hpp b/include/lalib/solver/internal/cholesky_decomposition.hpp
index dcd5c4b..2cbea97 100644
--- a/include/lalib/solver/internal/cholesky_decomposition.hpp
+++ b/include/lalib/solver/internal/cholesky_decomposition.hpp
@@ -37,10 +37,10 @@ auto cholesky_decomposition(size_t n, double* l) -> int32_t {
 		} 
 
 		if (l[index<MType>(n, i, i)] == 0) { 
-            return i;
+            return i + 1;
 		} 
 		else if (l[index<MType>(n, i, i)] < 0) { 
-            return i;
+            return i + 1;
 		}
 
 		l[index<MType>(n, i, i)] = std::sqrt( l[index<MType>(n, i, i)] );
-- 
2.43.0


From 1c242d59e15fde13f7bb8716a9ba0c7936687542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:00 +0000
Subject: [PATCH 28/34] fix: Cholesky factorizations of single precision
 matrices did not compile

---
 include/lalib/solver/cholesky_factorization.hpp  | 16 ++++++++--------
 .../solver/internal/cholesky_decomposition.hpp   |  8 ++++----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/lalib/solver/cholesky_factorization.hpp b/include/lalib/solver/cholesky_factorization.hpp
index 9b94a40..2982ebc 100644
--- a/include/lalib/solver/cholesky_factorization.hpp
+++ b/include/lalib/solver/cholesky_factorization.hpp
@@ -107,7 +107,7 @@ template<Vector V>
 inline auto DynTriCholeskyFactorization<T>::solve_linear_mut(V& rhs) const -> V& {
    	assert(this->_data.shape().first == rhs.size());
 
-	_internal_::cholesky_linear<double, _internal_::MemType::Triangle>
+	_internal_::cholesky_linear<T, _internal_::MemType::Triangle>
 		(rhs.size(), 1, this->_data.lower_data(), rhs.data(), rhs.data());
 	return rhs;
 }
@@ -118,7 +118,7 @@ inline auto DynTriCholeskyFactorization<T>::solve_linear(const V& rhs) const ->
    	assert(this->_data.shape().first == rhs.size());
 
 	auto rslt = rhs;
-	_internal_::cholesky_linear<double, _internal_::MemType::Triangle>
+	_internal_::cholesky_linear<T, _internal_::MemType::Triangle>
 		(rhs.size(), 1, this->_data.lower_data(), rhs.data(), rslt.data());
 	return rslt;
 }
@@ -130,7 +130,7 @@ inline auto DynTriCholeskyFactorization<T>::solve_linear_mut(M& rhs) const -> M&
    	assert(rhs.shape().first == rhs.shape().first);
    	assert(rhs.shape().second == rhs.shape().second);
 
-	_internal_::cholesky_linear<double, _internal_::MemType::Triangle>
+	_internal_::cholesky_linear<T, _internal_::MemType::Triangle>
 		(rhs.shape().first, rhs.shape().second, this->_data.lower_data(), rhs.data(), rhs.data());
 	return rhs;
 }
@@ -143,7 +143,7 @@ inline auto DynTriCholeskyFactorization<T>::solve_linear(const M& rhs) const ->
    	assert(rhs.shape().second == rhs.shape().second);
 
 	auto rslt = rhs;
-	_internal_::cholesky_linear<double, _internal_::MemType::Triangle>
+	_internal_::cholesky_linear<T, _internal_::MemType::Triangle>
 		(rhs.shape().first, rhs.shape().second, this->_data.lower_data(), rhs.data(), rslt.data());
 	return rslt;
 }
@@ -179,7 +179,7 @@ inline auto DynCholeskyFactorization<T>::solve_linear_mut(V& rhs) const -> V& {
 	#if defined LALIB_LAPACK_BACKEND
 	_lapack_::potrs(rhs.size(), 1, this->_data.data(), this->_n, rhs.data(), 1);
 	#else
-	_internal_::cholesky_linear<double, _internal_::MemType::Square>
+	_internal_::cholesky_linear<T, _internal_::MemType::Square>
 		(rhs.size(), 1, this->_data.data(), rhs.data(), rhs.data());
 	#endif
 	return rhs;
@@ -194,7 +194,7 @@ inline auto DynCholeskyFactorization<T>::solve_linear(const V& rhs) const -> V {
 	#if defined LALIB_LAPACK_BACKEND
 	_lapack_::potrs(rhs.size(), 1, this->_data.data(), this->_n, rslt.data(), 1);
 	#else
-	_internal_::cholesky_linear<double, _internal_::MemType::Square>
+	_internal_::cholesky_linear<T, _internal_::MemType::Square>
 		(rhs.size(), 1, this->_data.data(), rhs.data(), rslt.data());
 	#endif
 	return rslt;
@@ -210,7 +210,7 @@ inline auto DynCholeskyFactorization<T>::solve_linear_mut(M& rhs) const -> M& {
 	#if defined LALIB_LAPACK_BACKEND
 	_lapack_::potrs(rhs.shape().first, rhs.shape().second, this->_data.data(), this->_n, rhs.data(), rhs.shape().second);
 	#else
-	_internal_::cholesky_linear<double, _internal_::MemType::Square>
+	_internal_::cholesky_linear<T, _internal_::MemType::Square>
 		(rhs.shape().first, rhs.shape().second, this->_data.data(), rhs.data(), rhs.data());
 	#endif
 	return rhs;
@@ -227,7 +227,7 @@ inline auto DynCholeskyFactorization<T>::solve_linear(const M& rhs) const -> M {
 	#if defined LALIB_LAPACK_BACKEND
 	_lapack_::potrs(rhs.shape().first, rhs.shape().second, this->_data.data(), this->_n, rslt.data(), rslt.shape().second);
 	#else
-	_internal_::cholesky_linear<double, _internal_::MemType::Square>
+	_internal_::cholesky_linear<T, _internal_::MemType::Square>
 		(rhs.shape().first, rhs.shape().second, this->_data.data(), rhs.data(), rslt.data());
 	#endif
 	return rslt;
diff --git a/include/lalib/solver/internal/cholesky_decomposition.hpp b/include/lalib/solver/internal/cholesky_decomposition.hpp
index 2cbea97..a02229e 100644
--- a/include/lalib/solver/internal/cholesky_decomposition.hpp
+++ b/include/lalib/solver/internal/cholesky_decomposition.hpp
@@ -23,7 +23,7 @@ inline constexpr auto index<MemType::Triangle>(size_t, size_t i, size_t j) noexc
 
 
 template<typename T, MemType MType>
-auto cholesky_decomposition(size_t n, double* l) -> int32_t {
+auto cholesky_decomposition(size_t n, T* l) -> int32_t {
     for (auto i = 0u; i < n; ++i) {
 		for (auto j = 0u; j < i; ++j) {
 			for (auto k = 0u; k < j; ++k) { 
@@ -49,7 +49,7 @@ auto cholesky_decomposition(size_t n, double* l) -> int32_t {
 }
 
 template<typename T, MemType MType>
-auto cholesky_linear(size_t n, size_t nrow, const double* l, const double* rhs, double* rslt) -> double* {
+auto cholesky_linear(size_t n, size_t nrow, const T* l, const T* rhs, T* rslt) -> T* {
 	for (auto k = 0u; k < nrow; ++k) {
 		// Forward process
 		for (auto i = 0u; i < n; ++i) {
@@ -72,7 +72,7 @@ auto cholesky_linear(size_t n, size_t nrow, const double* l, const double* rhs,
 }
 
 template<typename T, MemType MType>
-auto mod_cholesky_decomposition(size_t n, double* l) -> int32_t {
+auto mod_cholesky_decomposition(size_t n, T* l) -> int32_t {
 	for (auto i = 0u; i < n; ++i) {
 		for (auto j = 0u; j <= i; ++j) {
 			for (auto k = 0u; k < j; ++k) { 
@@ -87,7 +87,7 @@ auto mod_cholesky_decomposition(size_t n, double* l) -> int32_t {
 }
 
 template<typename T, MemType MType>
-auto mod_cholesky_linear(size_t n, size_t nrhs, const double* l, const double* rhs, double* rslt) {
+auto mod_cholesky_linear(size_t n, size_t nrhs, const T* l, const T* rhs, T* rslt) {
 	for (auto k = 0u; k < nrhs; ++k) {
 		// Forward process
 		for (auto i = 0u; i < n; ++i) {
-- 
2.43.0


From b5f1156deb83c8c21024c2c668cd02e8dc3b4d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:00 +0000
Subject: [PATCH 29/34] fix: the ILU factorization did not report a zero pivot
 that nothing is divided by

---
 include/lalib/solver/ilu.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lalib/solver/ilu.hpp b/include/lalib/solver/ilu.hpp
index 13dff23..45bddfe 100644
--- a/include/lalib/solver/ilu.hpp
+++ b/include/lalib/solver/ilu.hpp
@@ -57,6 +57,8 @@ namespace internal {
                     mat.mut_at(i, j) = sum;
                 }
             }
+
+            if (mat(i, i) == 0) { return false; }
         }
 
         return true;
-- 
2.43.0


From 3867d832986b48a048d9cab4eedb513785e5fb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:00 +0000
Subject: [PATCH 30/34] fix: GMRES returned NaN for a zero right-hand side

---
 include/lalib/solver/gmres.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/lalib/solver/gmres.hpp b/include/lalib/solver/gmres.hpp
index ca0684e..ff358ee 100644
--- a/include/lalib/solver/gmres.hpp
+++ b/include/lalib/solver/gmres.hpp
@@ -48,6 +48,9 @@ auto Gmres<T, M>::solve(const lalib::DynVec<T>& rhs) const -> lalib::DynVec<T> {
     
     // Initial Krylov subspace basis
     auto b_prime = this->_lu.solve(rhs);
+    if (b_prime.norm2() == Zero<T>::value()) {
+        return lalib::DynVec<T>::filled(n, Zero<T>::value());
+    }
     q.emplace_back((1.0 / b_prime.norm2()) * b_prime);
 
     // Givens rotation components
-- 
2.43.0


From aacf87294630fa36616bc75b72fcee60cd9f4f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:00 +0000
Subject: [PATCH 31/34] fix: GMRES for single precision did not compile

---
 include/lalib/solver/gmres.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/lalib/solver/gmres.hpp b/include/lalib/solver/gmres.hpp
index ff358ee..d4e1ef4 100644
--- a/include/lalib/solver/gmres.hpp
+++ b/include/lalib/solver/gmres.hpp
@@ -51,7 +51,7 @@ auto Gmres<T, M>::solve(const lalib::DynVec<T>& rhs) const -> lalib::DynVec<T> {
     if (b_prime.norm2() == Zero<T>::value()) {
         return lalib::DynVec<T>::filled(n, Zero<T>::value());
     }
-    q.emplace_back((1.0 / b_prime.norm2()) * b_prime);
+    q.emplace_back((One<T>::value() / b_prime.norm2()) * b_prime);
 
     // Givens rotation components
     auto c = std::vector<T>();
@@ -85,7 +85,7 @@ auto Gmres<T, M>::solve(const lalib::DynVec<T>& rhs) const -> lalib::DynVec<T> {
     // Transform the solution from the Krylov subspace
     auto x = lalib::DynVec<T>::filled(n, Zero<T>::value());
     for (auto i = 0u; i < beta.size() - 1; ++i) {
-        axpy(1.0, beta[i] * q[i], x);
+        axpy(One<T>::value(), beta[i] * q[i], x);
     }
 
     return x;
@@ -108,11 +108,11 @@ void Gmres<T, M>::_arnoldi(std::vector<DynVec<T>>& q, HessenbergMat<T>& hess, T&
         hess(j, i) = dot(q[j], v);
     }
     for (auto j: std::views::iota(0u, i + 1)) {
-        axpy(-1.0, hess(j, i) * q[j], v);
+        axpy(-One<T>::value(), hess(j, i) * q[j], v);
     }
 
     h = v.norm2();
-    q.emplace_back((1.0 / h) * v);
+    q.emplace_back((One<T>::value() / h) * v);
 }
 
 template<typename T, typename M>
-- 
2.43.0


From 49c7ae98cd48f4164f4a749238370f55a2dcd1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:18 +0000
Subject: [PATCH 32/34] fix: Zero and One of complex numbers were declared with
 the type of their real part

---
 include/lalib/ops/ops_traits.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lalib/ops/ops_traits.hpp b/include/lalib/ops/ops_traits.hpp
index 22e12b9..6f7f365 100644
--- a/include/lalib/ops/ops_traits.hpp
+++ b/include/lalib/ops/ops_traits.hpp
@@ -17,7 +17,7 @@ struct Zero {
 template<typename T>
 requires std::floating_point<T>
 struct Zero<std::complex<T>> {
-    static auto value() noexcept -> T { return std::complex<T>(0.0, 0.0); }
+    static auto value() noexcept -> std::complex<T> { return std::complex<T>(0.0, 0.0); }
 };
 
 // === One === //
@@ -30,7 +30,7 @@ struct One {
 template<typename T>
 requires std::floating_point<T>
 struct One<std::complex<T>> {
-    static auto value() noexcept -> T { return std::complex<T>(1.0, 0.0); }
+    static auto value() noexcept -> std::complex<T> { return std::complex<T>(1.0, 0.0); }
 };
 
 
-- 
2.43.0


From 379b80855e434a29a07778f185b16c3ba9bb992d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:36 +0000
Subject: [PATCH 33/34] fix: complex axpy of a vector with itself was wrong
 with the BLAS back end

---
 include/lalib/ops/vec_ops_core.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/lalib/ops/vec_ops_core.hpp b/include/lalib/ops/vec_ops_core.hpp
index 1de77d7..29f7719 100644
--- a/include/lalib/ops/vec_ops_core.hpp
+++ b/include/lalib/ops/vec_ops_core.hpp
@@ -183,7 +183,11 @@ inline auto axpy_core<double>(double alpha, const double* vx, double* vy, size_t
 template<>
 inline auto axpy_core<std::complex<float>>(std::complex<float> alpha, const std::complex<float>* vx, std::complex<float>* vy, size_t size) noexcept -> std::complex<float>* {
     #ifdef LALIB_BLAS_BACKEND
-    cblas_caxpy(size, &alpha, vx, 1, vy, 1);
+    if (vx == vy) {
+        __axpy_core_simd(alpha, vx, vy, size);
+    } else {
+        cblas_caxpy(size, &alpha, vx, 1, vy, 1);
+    }
     #else
     __axpy_core_simd(alpha, vx, vy, size);
     #endif
@@ -193,7 +197,11 @@ inline auto axpy_core<std::complex<float>>(std::complex<float> alpha, const std:
 template<>
 inline auto axpy_core<std::complex<double>>(std::complex<double> alpha, const std::complex<double>* vx, std::complex<double>* vy, size_t size) noexcept -> std::complex<double>* {
     #ifdef LALIB_BLAS_BACKEND
-    cblas_zaxpy(size, &alpha, vx, 1, vy, 1);
+    if (vx == vy) {
+        __axpy_core_simd(alpha, vx, vy, size);
+    } else {
+        cblas_zaxpy(size, &alpha, vx, 1, vy, 1);
+    }
     #else
     __axpy_core_simd(alpha, vx, vy, size);
     #endif
-- 
2.43.0


From 350daa9882f50f34688a108e426da3ead89d8622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:06 +0000
Subject: [PATCH 34/34] fix: GMRES with a zero tolerance returned NaN when it
 converged exactly

---
 include/lalib/solver/gmres.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lalib/solver/gmres.hpp b/include/lalib/solver/gmres.hpp
index d4e1ef4..0163530 100644
--- a/include/lalib/solver/gmres.hpp
+++ b/include/lalib/solver/gmres.hpp
@@ -75,7 +75,7 @@ auto Gmres<T, M>::solve(const lalib::DynVec<T>& rhs) const -> lalib::DynVec<T> {
         this->_givens_rot(hess, h, s, c, r, beta);
 
         // Check the convergence
-        if (std::abs(beta.back()) < this->_tol) { break; }
+        if (std::abs(beta.back()) <= this->_tol) { break; }
     }
 
     // Solve the uper triangle system
-- 
2.43.0

