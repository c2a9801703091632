From f86415b885e942e685d9e22bb9582cb9ca7ae397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:34 +0000
Subject: [PATCH 01/15] fix: concatenate of square matrices joins B on the
 right, not A twice

The horizontally joined half of the pair was filled from A in both halves.
---
 matrix/matrix_concatenate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/matrix_concatenate.hpp b/matrix/matrix_concatenate.hpp
index e4b9aac..a12ea30 100644
--- a/matrix/matrix_concatenate.hpp
+++ b/matrix/matrix_concatenate.hpp
@@ -60,7 +60,7 @@ std::pair<Matrix<T, (n+n), n>,Matrix<T, n, (n+n)>> concatenate(const Matrix<T, n
     }
     for (std::size_t j = n; j < n+n; j++)
     {
-      result.second[i][j] = A[i][j-n];
+      result.second[i][j] = B[i][j-n];
     }
   }
 
-- 
2.43.0


From c18156f32cb07e58e19f70cbf1d8ddf4ab61afdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:34 +0000
Subject: [PATCH 02/15] fix: division of a matrix by zero throws instead of
 terminating

A throw-expression without operand and without an active exception calls
std::terminate, so neither A / 0 nor inv() of a singular matrix bigger than
3x3 could be handled by the caller.
---
 matrix/matrix_div.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matrix/matrix_div.hpp b/matrix/matrix_div.hpp
index dac5658..8f67d57 100644
--- a/matrix/matrix_div.hpp
+++ b/matrix/matrix_div.hpp
@@ -15,6 +15,7 @@
 #ifndef MATRIX_MATRIX_DIV_HPP_
 #define MATRIX_MATRIX_DIV_HPP_
 
+#include <stdexcept>
 #include "matrix_type.hpp"
 
 namespace mlib
@@ -33,7 +34,7 @@ template<typename T, std::size_t n, std::size_t m>
 static Matrix<T, n, m> div(const Matrix<T, n, m>& A, const T scalar)
 {
   if(scalar == 0)
-    throw;
+    throw std::overflow_error("Divide by zero exception");
 
   Matrix<T, n, m> prod{};
 
-- 
2.43.0


From bfc1477c8157e7d281fbf9a4f67cc85d1b09b81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:34 +0000
Subject: [PATCH 03/15] fix: inverse of the 1x1 zero matrix reports the
 division by zero

It returned inf (or trapped for integers) where every other size throws.
---
 matrix/matrix_inv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/matrix_inv.hpp b/matrix/matrix_inv.hpp
index 8a5f19d..f87c85c 100644
--- a/matrix/matrix_inv.hpp
+++ b/matrix/matrix_inv.hpp
@@ -65,7 +65,7 @@ static Matrix<T, (n-1), (n-1)> getminor(const Matrix<T, n, n>& A, std::size_t i,
 template<typename T>
 Matrix<T, 1, 1> inv(const Matrix<T, 1, 1>& A)
 {
-  return Matrix<T, 1, 1>{ 1/det(A) };
+  return Matrix<T, 1, 1>{ 1 } / det(A);
 }
 
 
-- 
2.43.0


From b2de683339ba3b3047c5082aa02b54d5d97a7899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:34 +0000
Subject: [PATCH 04/15] fix: mean of a signed integer matrix with a negative
 sum

Dividing by std::size_t converted the negative sum to unsigned.
---
 matrix/matrix_mean.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matrix/matrix_mean.hpp b/matrix/matrix_mean.hpp
index 6e803ac..1e2fe7b 100644
--- a/matrix/matrix_mean.hpp
+++ b/matrix/matrix_mean.hpp
@@ -15,6 +15,7 @@
 #ifndef MATRIX_MEAN_HPP_
 #define MATRIX_MEAN_HPP_
 
+#include <cstddef>
 #include "matrix_type.hpp"
 
 namespace mlib
@@ -39,7 +40,7 @@ T mean(const Matrix<T, i, j>& A)
       result += A[it][jt];
     }
   }
-  return (result / (i*j));
+  return (result / static_cast<std::ptrdiff_t>(i*j));
 }
 
 
-- 
2.43.0


From f409a0ba7f8dc996cc0073e346f7dd2df133fba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:50 +0000
Subject: [PATCH 05/15] fix: median does not allocate

The library promises no dynamic memory allocation, but median copied the
matrix to a std::vector. (The header did not include <vector> either, so
including matrix.hpp alone did not compile.)
---
 matrix/matrix_median.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/matrix/matrix_median.hpp b/matrix/matrix_median.hpp
index e9a8ca7..f8203b8 100644
--- a/matrix/matrix_median.hpp
+++ b/matrix/matrix_median.hpp
@@ -30,15 +30,14 @@ namespace mlib
 template<typename T,  std::size_t i, std::size_t j>
 T median(const Matrix<T, i, j>& A)
 {
-  std::vector<T> v;
-  const std::size_t size = i*j;
-  v.reserve(size);
+  constexpr std::size_t size = i*j;
+  std::array<T, size> v{};
 
   for (std::size_t it = 0; it < i; it++)
   {
     for (std::size_t jt = 0; jt < j; jt++)
     {
-      v.push_back(A[it][jt]);
+      v[it*j + jt] = A[it][jt];
     }
   }
 
-- 
2.43.0


From 7b86f43053e7f2858ec7c33a9b9f5de6e5eead86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:50 +0000
Subject: [PATCH 06/15] fix: ones has the requested number of rows and columns

ones<2, 3>() was 3x3, and ones<float, 2, 3>() did not compile.
---
 matrix/matrix_ones.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/matrix_ones.hpp b/matrix/matrix_ones.hpp
index a7613df..48bbaee 100644
--- a/matrix/matrix_ones.hpp
+++ b/matrix/matrix_ones.hpp
@@ -25,14 +25,14 @@ namespace mlib
  *
  * @return matrix with i, j size
  */
-template<unsigned int, std::size_t i, std::size_t j = i>
+template<std::size_t i, std::size_t j = i>
 Matrix<unsigned int, i, j> ones()
 {
   return fill<unsigned int, i, j>(1);
 }
 
 template<typename T, std::size_t i, std::size_t j = i>
-Matrix<T, i, i> ones()
+Matrix<T, i, j> ones()
 {
   return fill<T, i, j>(1);
 }
-- 
2.43.0


From 18eae9be664808db6ce43283986190abc0dc3ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:50 +0000
Subject: [PATCH 07/15] fix: isIdentity for every element type

It only compiled for unsigned int.
---
 matrix/matrix_utils.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/matrix/matrix_utils.hpp b/matrix/matrix_utils.hpp
index d4aefc9..44afb42 100644
--- a/matrix/matrix_utils.hpp
+++ b/matrix/matrix_utils.hpp
@@ -32,9 +32,7 @@ namespace mlib
 template<typename T, std::size_t n>
 bool isIdentity(const Matrix<T, n, n>& A)
 {
-  const auto identity {eye<unsigned int, n>()};
-  const auto uiA {static_cast<Matrix<unsigned int, n, n>>(A)};
-  return (uiA == identity);
+  return (A == eye<T, n>());
 }
 
 
-- 
2.43.0


From 9cc7fac0e182b000206d8ea6ebc39b9fe71b23bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:23 +0000
Subject: [PATCH 08/15] fix: compare does not accept NaN as equal to everything

No difference with NaN is greater than epsilon, so a NaN element matched
any number.
---
 matrix/matrix_utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matrix/matrix_utils.hpp b/matrix/matrix_utils.hpp
index 44afb42..6a3d38c 100644
--- a/matrix/matrix_utils.hpp
+++ b/matrix/matrix_utils.hpp
@@ -51,7 +51,8 @@ bool compare(const Matrix<T, row, col>& A, const Matrix<T, row, col>& B, const f
   {
     for(std::size_t j = 0; j < col; j++)
     {
-      if(std::abs(A[i][j] - B[i][j]) > epsilon)
+      const bool isNan = A[i][j] != A[i][j] || B[i][j] != B[i][j];
+      if(isNan || std::abs(A[i][j] - B[i][j]) > epsilon)
       {
         return false;
       }
-- 
2.43.0


From da91925bef4191543ff23b1b6a67b80c51200ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:23 +0000
Subject: [PATCH 09/15] fix: conv2 and conv2_full convolve as Octave's conv2
 does

They computed the correlation: the kernel was not rotated, which only a
symmetric kernel (the only ones in the tests) does not show.
---
 matrix/matrix_conv2.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/matrix/matrix_conv2.hpp b/matrix/matrix_conv2.hpp
index 7845dd4..56dcb93 100644
--- a/matrix/matrix_conv2.hpp
+++ b/matrix/matrix_conv2.hpp
@@ -22,6 +22,18 @@ namespace mlib
 {
 
 
+/**
+ * @brief Kernel rotated by 180 degrees: convolution is correlation with it
+ */
+template<typename T>
+static Matrix<T, 3, 3> rot180(const Matrix<T, 3, 3>& K)
+{
+  return {{ {{ K[2][2], K[2][1], K[2][0] }},
+            {{ K[1][2], K[1][1], K[1][0] }},
+            {{ K[0][2], K[0][1], K[0][0] }} }};
+}
+
+
 /**
  * @brief Convolution in two dimensions using kernel of size 3x3
  *         It works as conv2 in Octave with 'same' parameter
@@ -36,8 +48,9 @@ namespace mlib
  * @return Returns the central part of the convolution (of size ixj like A)
  */
 template<typename T, std::size_t i, std::size_t j>
-Matrix<T, i, j> conv2(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& kernel)
+Matrix<T, i, j> conv2(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& K)
 {
+  const Matrix<T, 3, 3> kernel = rot180(K);
   Matrix<T, i, j> result{};
   auto isOutOfRange = [](int a, int b)
   {
@@ -86,8 +99,9 @@ Matrix<T, i, j> conv2(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& kernel)
 // TODO move in inside conv2() (add parameter 'valid' as option)
 // TODO refactor it so it will look more friendly
 template<typename T, std::size_t i, std::size_t j>
-Matrix<T, i+2, j+2> conv2_full(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& kernel)
+Matrix<T, i+2, j+2> conv2_full(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& K)
 {
+  const Matrix<T, 3, 3> kernel = rot180(K);
   Matrix<T, i+2, j+2> result{};
   // equals 1 because kernel is 3x3, if kernel is 5x5 offset would be 2 
   constexpr std::size_t offset{1};
-- 
2.43.0


From 4667aebdb227fb3ebd505b54ae62146ab38e59bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:23 +0000
Subject: [PATCH 10/15] fix: conv2_valid for matrices that are not square

Cropping by getminor only compiled for square matrices.
---
 matrix/matrix_conv2.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/matrix/matrix_conv2.hpp b/matrix/matrix_conv2.hpp
index 56dcb93..6cd7b06 100644
--- a/matrix/matrix_conv2.hpp
+++ b/matrix/matrix_conv2.hpp
@@ -153,8 +153,16 @@ Matrix<T, i+2, j+2> conv2_full(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>&
 template<typename T, std::size_t i, std::size_t j>
 Matrix<T, i-2, j-2> conv2_valid(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& kernel)
 {
-  Matrix<T, i-1, i-1> tmp1 = getminor(conv2(A,kernel),i-1,j-1); // conv2 means conv2 with -same option
-  return getminor(tmp1,0,0); // conv2 means conv2 with -same option
+  const auto same = conv2(A,kernel); // conv2 means conv2 with -same option
+  Matrix<T, i-2, j-2> result{};
+  for(std::size_t it = 0; it < i-2; it++)
+  {
+    for(std::size_t jt = 0; jt < j-2; jt++)
+    {
+      result[it][jt] = same[it+1][jt+1];
+    }
+  }
+  return result;
 }
 
 
-- 
2.43.0


From 5694e5966f5ecfb8303c93f56cd6f05922ba4231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:38 +0000
Subject: [PATCH 11/15] fix: pow with the smallest value of a signed exponent
 type

std::abs(p) is not representable in P for e.g. (signed char)-128: the
exponent stayed negative, the matrix was inverted twice and pow returned
A^128 instead of A^-128.
---
 matrix/matrix_pow.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/matrix_pow.hpp b/matrix/matrix_pow.hpp
index 2012179..633d116 100644
--- a/matrix/matrix_pow.hpp
+++ b/matrix/matrix_pow.hpp
@@ -47,12 +47,12 @@ Matrix<T, n, n> pow(Matrix<T, n, n> A, P p)
     if(p < 0)
     {
       A = inv(A);
-      p = std::abs(p);
     }
 
     auto powA { ones<T, n, n>() };
 
-    powA = pow(A, p/2);
+    // -(p/2) exists for every p, std::abs(p) does not for the smallest one
+    powA = pow(A, (p < 0) ? -(p/2) : p/2);
     if ((p % 2) == 0)
     {
       return powA * powA;
-- 
2.43.0


From cf52379342e122c41ab2a88ec0d08586e64d290e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:02 +0000
Subject: [PATCH 12/15] fix: determinant of integer matrices above 3x3 does not
 truncate

---
 matrix/matrix_det.hpp | 48 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/matrix/matrix_det.hpp b/matrix/matrix_det.hpp
index b1510a8..4c40267 100644
--- a/matrix/matrix_det.hpp
+++ b/matrix/matrix_det.hpp
@@ -15,6 +15,8 @@
 #ifndef MATRIX_MATRIX_DET_HPP_
 #define MATRIX_MATRIX_DET_HPP_
 
+#include <cstdint>
+#include <type_traits>
 #include "matrix_swap.hpp"
 
 
@@ -71,6 +73,49 @@ T det(const Matrix<T, 3, 3>& A)
 }
 
 
+/**
+ * @brief determinant, matrix n x n of integers: division of elements would
+ *        truncate, so the rows are reduced against each other (Euclid). This is
+ *        exact modulo 2^64, hence for every determinant the type can hold
+ * @param A matrix nxn
+ * @return determinant of A
+ */
+template<typename T, std::size_t n>
+typename std::enable_if<std::is_integral<T>::value, T>::type
+det(const Matrix<T, n, n>& A)
+{
+  Matrix<std::uintmax_t, n, n> U{};
+  std::uintmax_t prod{1};
+
+  for (std::size_t i = 0; i < n; ++i)
+  {
+    for (std::size_t j = 0; j < n; ++j)
+    {
+      U[i][j] = static_cast<std::uintmax_t>(A[i][j]);
+    }
+  }
+
+  for (std::size_t c = 0; c < n; ++c)
+  {
+    for (std::size_t r = c + 1; r < n; ++r)
+    {
+      while (U[r][c] != 0)
+      {
+        const std::uintmax_t quotient = U[c][c] / U[r][c];
+        for (std::size_t j = c; j < n; ++j)
+        {
+          U[c][j] -= quotient * U[r][j];
+        }
+        swap_rows(U, c, r);
+        prod = 0 - prod;
+      }
+    }
+    prod *= U[c][c];
+  }
+  return static_cast<T>(prod);
+}
+
+
 /**
  * @brief Determinant of matrix nxn
  *
@@ -79,7 +124,8 @@ T det(const Matrix<T, 3, 3>& A)
  * @return Determinant of matrix A
  */
 template<typename T, std::size_t n>
-T det(Matrix<T, n, n> A)
+typename std::enable_if<!std::is_integral<T>::value, T>::type
+det(Matrix<T, n, n> A)
 {
   T factor{1};
   std::size_t pivot{0};
-- 
2.43.0


From 71be62d67ae4bea32b683f14fc19b2b640b39f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:53 +0000
Subject: [PATCH 13/15] fix: floating point determinant above 3x3 does not
 pivot on a rounding error

[[-3,-1,-2,3,2],[-1,1,-2,1,-1],[-3,0,-3,1,2],[1,0,0,2,-3],[3,-1,-1,2,3]]
has determinant 80, det answered 128: a cancellation that left 1e-17 instead
of 0 was taken as the pivot.
---
 matrix/matrix_det.hpp | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/matrix/matrix_det.hpp b/matrix/matrix_det.hpp
index 4c40267..c085580 100644
--- a/matrix/matrix_det.hpp
+++ b/matrix/matrix_det.hpp
@@ -15,7 +15,9 @@
 #ifndef MATRIX_MATRIX_DET_HPP_
 #define MATRIX_MATRIX_DET_HPP_
 
+#include <cmath>
 #include <cstdint>
+#include <limits>
 #include <type_traits>
 #include "matrix_swap.hpp"
 
@@ -116,6 +118,45 @@ det(const Matrix<T, n, n>& A)
 }
 
 
+/**
+ * @brief Row to eliminate column c with, floating point: row r, unless its
+ *        element is no more than what rounding leaves of a zero
+ *
+ * @param [in] Square Matrix A with nxn size
+ * @param [in] First row from r with a non zero element in the column
+ * @param [in] The column
+ *
+ * @return Row r, or the row below it with the largest element of the column
+ */
+template<typename T, std::size_t n>
+typename std::enable_if<std::is_floating_point<T>::value, std::size_t>::type
+det_pivot(const Matrix<T, n, n>& A, std::size_t r, std::size_t c)
+{
+  const T rounding = std::sqrt(std::numeric_limits<T>::epsilon());
+  std::size_t largest = r;
+
+  for (std::size_t i = r + 1; i < n; ++i)
+  {
+    if (std::abs(A[largest][c]) < std::abs(A[i][c]))
+    {
+      largest = i;
+    }
+  }
+  return std::abs(A[r][c]) < rounding * std::abs(A[largest][c]) ? largest : r;
+}
+
+
+/**
+ * @brief Row to eliminate column c with, element types which do not round
+ */
+template<typename T, std::size_t n>
+typename std::enable_if<!std::is_floating_point<T>::value, std::size_t>::type
+det_pivot(const Matrix<T, n, n>&, std::size_t r, std::size_t)
+{
+  return r;
+}
+
+
 /**
  * @brief Determinant of matrix nxn
  *
@@ -164,6 +205,8 @@ det(Matrix<T, n, n> A)
       }
     }
 
+    i = det_pivot(A, i, pivot);
+
     if (i != r)
     {
       swap_rows(A, i, r);
-- 
2.43.0


From e152af975e4e38fe0fa80f65ef7d30ba6e523c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:35 +0000
Subject: [PATCH 14/15] fix: chol and stddev take the square root in the
 element type's precision

Unqualified sqrt found only ::sqrt(double) for long double when no
other header had brought the overloads into the global namespace.
---
 matrix/matrix_cholesky.hpp | 2 ++
 matrix/matrix_stddev.hpp   | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/matrix/matrix_cholesky.hpp b/matrix/matrix_cholesky.hpp
index f78fed2..2230b76 100644
--- a/matrix/matrix_cholesky.hpp
+++ b/matrix/matrix_cholesky.hpp
@@ -15,6 +15,7 @@
 #ifndef MATRIX_MATRIX_CHOLESKY_HPP_
 #define MATRIX_MATRIX_CHOLESKY_HPP_
 
+#include <cmath>
 
 namespace mlib
 {
@@ -69,6 +70,7 @@ Matrix<T, n, n> chol(
         {
           sum = sum + L[i][k] * L[i][k];
         }
+        using std::sqrt;
         L[i][i] = sqrt( A[i][i] - sum);
       }
       else
diff --git a/matrix/matrix_stddev.hpp b/matrix/matrix_stddev.hpp
index 1cccb9c..eeb92a1 100644
--- a/matrix/matrix_stddev.hpp
+++ b/matrix/matrix_stddev.hpp
@@ -15,6 +15,8 @@
 #ifndef MATRIX_STDDEV_HPP_
 #define MATRIX_STDDEV_HPP_
 
+#include <cmath>
+
 #include "matrix_var.hpp"
 
 namespace mlib
@@ -31,6 +33,7 @@ namespace mlib
 template<typename T,  std::size_t i, std::size_t j>
 T stddev(const Matrix<T, i, j>& A)
 {
+  using std::sqrt;
   return sqrt(var(A));
 }
 
-- 
2.43.0


From 4418b1433f0e74a3f38b12d2f5294246df24f186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:52 +0000
Subject: [PATCH 15/15] fix: compare does not round integer differences to
 float

---
 matrix/matrix_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/matrix_utils.hpp b/matrix/matrix_utils.hpp
index 6a3d38c..1a34108 100644
--- a/matrix/matrix_utils.hpp
+++ b/matrix/matrix_utils.hpp
@@ -52,7 +52,7 @@ bool compare(const Matrix<T, row, col>& A, const Matrix<T, row, col>& B, const f
     for(std::size_t j = 0; j < col; j++)
     {
       const bool isNan = A[i][j] != A[i][j] || B[i][j] != B[i][j];
-      if(isNan || std::abs(A[i][j] - B[i][j]) > epsilon)
+      if(isNan || std::abs(A[i][j] - B[i][j]) > static_cast<long double>(epsilon))
       {
         return false;
       }
-- 
2.43.0

