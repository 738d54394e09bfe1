From c2cbc2ef586f8dd852f120a5f9c8fae97c637606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:54 +0000
Subject: [PATCH 01/18] fix: degree recovery must not evaluate set sizes that
 overflow

pos_bissect evaluated the size of the index set at degree 250 and at the
midpoints below it; those sizes overflow u_int in dimension 8 for cubes and
rectangles, and s_get_degree then terminated the process.
---
 cpp/src/hermite/lib.cpp | 50 +++++++++--------------------------------
 1 file changed, 11 insertions(+), 39 deletions(-)

diff --git a/cpp/src/hermite/lib.cpp b/cpp/src/hermite/lib.cpp
index 20ce791..8f563be 100644
--- a/cpp/src/hermite/lib.cpp
+++ b/cpp/src/hermite/lib.cpp
@@ -85,49 +85,21 @@ string hash_print(const ivec & v)
 
 u_int pos_bissect(u_int image, std::function<u_int(u_int)> f, u_int max)
 {
-    u_int x1 = 0, x2 = max;
-
-    long img_1 = (long) f(x1) - (long) image;
-    long img_2 = (long) f(x2) - (long) image;
-
-    if (img_1 > 0 || img_2 < 0)
-    {
-        std::cout << "Can't find x, Invalid arguments!" << std::endl;
-        std::cout << "-> x1: " << x1 << ", img_1: " << f(x1) << std::endl;
-        std::cout << "-> x2: " << x2 << ", img_2: " << f(x2) << std::endl;
-        exit(0);
-    }
-
-    if (img_1 == 0)
-        return x1;
-
-    if (img_2 == 0)
-        return x2;
-
-    while (true)
+    // f is increasing, but its values overflow for large arguments, so the
+    // preimage is approached from below.
+    for (u_int x = 0; x <= max; x++)
     {
-        u_int new_x = (x1 + x2)/2;
-        long new_img = (long) f(new_x) - (long) image;
+        u_int value = f(x);
 
-        if (new_img < 0)
-        {
-            if (new_x == x1)
-            {
-                std::cout << "[lib.cpp:pos_bissect] Can't find x, infinite loop!" << std::endl;
-                exit(1);
-            }
+        if (value == image)
+            return x;
 
-            x1 = new_x;
-        }
-        else if (new_img > 0)
-        {
-            x2 = new_x;
-        }
-        else
-        {
-            return new_x;
-        }
+        if (value > image)
+            break;
     }
+
+    std::cout << "[lib.cpp:pos_bissect] Can't find x, Invalid arguments!" << std::endl;
+    exit(1);
 }
 
 }
-- 
2.43.0


From 9bccda6d055bf5e563cf348bc103b7995714a6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:54 +0000
Subject: [PATCH 02/18] fix: degree of a non-consistent hyperbolic cross of
 degree 1

The sets of degrees 0 and 1 have the same size, so s_get_degree returned 0
for degree 1; the transforms then read past the basis functions of degree 0.
---
 cpp/src/hermite/iterators.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp/src/hermite/iterators.cpp b/cpp/src/hermite/iterators.cpp
index 0e9069b..069272a 100644
--- a/cpp/src/hermite/iterators.cpp
+++ b/cpp/src/hermite/iterators.cpp
@@ -477,7 +477,10 @@ imat Cross_iterator_nc::s_list(u_int dim, u_int degree)
 u_int Cross_iterator_nc::s_get_degree(u_int dim, u_int n_polys)
 {
     auto function = [dim] (u_int degree) {return s_size(dim, degree);};
-    return pos_bissect (n_polys, function, DEGREE_BISSECT_MAX);
+    u_int degree = pos_bissect (n_polys, function, DEGREE_BISSECT_MAX);
+
+    // The index sets of degrees 0 and 1 coincide
+    return MAX(degree, 1);
 }
 
 u_int Cross_iterator_nc::s_size(u_int dim, u_int degree)
-- 
2.43.0


From ee92daf62e45bb4cb7bb430e768b7ed5577eb14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:36 +0000
Subject: [PATCH 03/18] fix: undefined conversion of -1. to u_int in
 Cube_iterator::s_index

For the zero multi-index, pow(max, dim) - 1 is negative and its conversion to
an unsigned type is undefined behaviour.
---
 cpp/src/hermite/iterators.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cpp/src/hermite/iterators.cpp b/cpp/src/hermite/iterators.cpp
index 069272a..68d8021 100644
--- a/cpp/src/hermite/iterators.cpp
+++ b/cpp/src/hermite/iterators.cpp
@@ -178,11 +178,10 @@ u_int Cube_iterator::s_index(const ivec & m_vec)
         }
     }
 
-    u_int result = pow(max, dim) - 1;
+    u_int result = pow(max, dim);
     for (u_int i = 0; i < ind; i++)
         result += pow(max, dim - i - 1) * pow(max + 1, i);
 
-    result += 1;
     u_int factor = 1;
     for (u_int i = 0; i < dim; i++)
     {
-- 
2.43.0


From bb2e4d639e35a4d6d5c0fc5ed5bf87a9db74130e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:21 +0000
Subject: [PATCH 04/18] fix: hermite_eval writes past a buffer of size degree +
 1 when degree is 0

---
 cpp/src/hermite/hermite.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cpp/src/hermite/hermite.cpp b/cpp/src/hermite/hermite.cpp
index ed3836e..3e6766d 100644
--- a/cpp/src/hermite/hermite.cpp
+++ b/cpp/src/hermite/hermite.cpp
@@ -32,6 +32,12 @@ void hermite_eval(double x,
 {
 
     values[0] = 1;
+
+    if (degree == 0)
+    {
+        return;
+    }
+
     values[1] = x;
 
     for (unsigned i = 1; i < degree; i++)
-- 
2.43.0


From 4d4909da9f794f83714e9dd57be412f5e6aeeeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:21 +0000
Subject: [PATCH 05/18] fix: sign of the Fourier derivative in the dense varfd

---
 cpp/src/hermite/varf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/src/hermite/varf.cpp b/cpp/src/hermite/varf.cpp
index b50b821..e5edeb8 100644
--- a/cpp/src/hermite/varf.cpp
+++ b/cpp/src/hermite/varf.cpp
@@ -447,7 +447,7 @@ mat varfd(
             // Entry i,j correspond to < A h_j, h_i >
             bool is_cos = ((*m2)[direction] % 2) == 0;
             u_int wave_number = ((*m2)[direction] + !is_cos)/2;
-            double factor = do_fourier == 1 ?  (!is_cos - is_cos) * wave_number : sqrt((*m2)[direction]);
+            double factor = do_fourier == 1 ?  (!is_cos - is_cos) * static_cast<double>(wave_number) : sqrt((*m2)[direction]);
             results[i][j] = factor*var[i][id];
         }
     }
-- 
2.43.0


From 71ea2ed25447f756229589dca73b4f4ac7711109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:24 +0000
Subject: [PATCH 06/18] fix: numpy converters ignore the row stride and the
 number of columns

---
 cpp/src/hermite/python/converters.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cpp/src/hermite/python/converters.cpp b/cpp/src/hermite/python/converters.cpp
index 5d7b03b..02274d9 100644
--- a/cpp/src/hermite/python/converters.cpp
+++ b/cpp/src/hermite/python/converters.cpp
@@ -93,6 +93,7 @@ cmat to_bmat(const np::ndarray & input)
     u_int n_rows = (u_int) shape[0];
     u_int n_cols = (u_int) shape[1];
 
+    Py_intptr_t stride_rows = strides[0] / (Py_intptr_t) sizeof(double);
     u_int stride_cols = (u_int) strides[1] / sizeof(double);
 
     if (stride_cols != 1)
@@ -101,8 +102,11 @@ cmat to_bmat(const np::ndarray & input)
         throw ROWS_NOT_CONTIGUOUS;
     }
 
-    auto sizes = boost::extents[n_rows][n_cols];
-    cmat result = cmat(boost::multi_array_ref<double, 2>(data, sizes)); // copy
+    cmat result(boost::extents[n_rows][n_cols]);
+    for (u_int i = 0; i < n_rows; ++i)
+        for (u_int j = 0; j < n_cols; j++)
+            result[i][j] = data[i*stride_rows + j];
+
     return result;
 }
 
@@ -121,6 +125,7 @@ boost_mat to_boost_mat(const np::ndarray & input)
     u_int n_rows = (u_int) shape[0];
     u_int n_cols = (u_int) shape[1];
 
+    Py_intptr_t stride_rows = strides[0] / (Py_intptr_t) sizeof(double);
     u_int stride_cols = (u_int) strides[1] / sizeof(double);
 
     if (stride_cols != 1)
@@ -132,7 +137,7 @@ boost_mat to_boost_mat(const np::ndarray & input)
     boost_mat result (n_rows, n_cols);
     for (u_int i = 0; i < n_rows; ++i)
         for (u_int j = 0; j < n_cols; j++)
-            result(i, j) = data[i*n_rows + j];
+            result(i, j) = data[i*stride_rows + j];
 
     return result;
 }
@@ -150,8 +155,9 @@ mat to_mat(const np::ndarray & input)
     double * data = reinterpret_cast<double*>(input.get_data());
 
     u_int n_rows = (u_int) shape[0];
+    u_int n_cols = (u_int) shape[1];
 
-    u_int stride_rows = (u_int) strides[0] / sizeof(double);
+    Py_intptr_t stride_rows = strides[0] / (Py_intptr_t) sizeof(double);
     u_int stride_cols = (u_int) strides[1] / sizeof(double);
 
     if (stride_cols != 1)
@@ -163,7 +169,7 @@ mat to_mat(const np::ndarray & input)
     mat result(n_rows);
     for (u_int i = 0; i < n_rows; i++)
     {
-        result[i] = vec(data + i*stride_rows, data + (i+1)*stride_rows);
+        result[i] = vec(data + i*stride_rows, data + i*stride_rows + n_cols);
     }
 
     return result;
-- 
2.43.0


From 9ae18c944de29958fbc90636fb7136c3499cb0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:07 +0000
Subject: [PATCH 07/18] fix: Position given by its mean only raises a TypeError

---
 hermipy/position.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/position.py b/hermipy/position.py
index 2684cc3..0b279b7 100644
--- a/hermipy/position.py
+++ b/hermipy/position.py
@@ -90,7 +90,7 @@ class Position:
             raise ValueError("Invalid arguments dim/dirs")
 
         # Defaults to first directions
-        self.dirs = list(range(dim)) if dirs is None else dirs
+        self.dirs = list(range(self.dim)) if dirs is None else dirs
 
         self.mean = np.zeros(self.dim) if mean is None \
             else np.asarray(mean, float)
-- 
2.43.0


From 70edad15bfb1aba1626f2503a9bcc0a5d3cfcfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:07 +0000
Subject: [PATCH 08/18] fix: normalisation of Position.weight with Fourier
 directions

---
 hermipy/position.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/position.py b/hermipy/position.py
index 0b279b7..5d3f9d3 100644
--- a/hermipy/position.py
+++ b/hermipy/position.py
@@ -136,7 +136,7 @@ class Position:
         var = [func.Function.xyz[self.dirs[i]] for i in ind]
         inv_cov = la.inv(sub_cov)
         potential = 0.5 * inv_cov.dot(var - sub_mean).dot(var - sub_mean)
-        normalization = 1/(sym.sqrt((2*sym.pi)**self.dim * la.det(sub_cov)))
+        normalization = 1/(sym.sqrt((2*sym.pi)**len(ind) * la.det(sub_cov)))
         return normalization * sym.exp(-potential)
 
     def weights(self):
-- 
2.43.0


From 41dddb98e60fc127470ad0e96f1fcb47c6b028b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:07 +0000
Subject: [PATCH 09/18] fix: Quad.mapped_nodes discretises undefined variables

---
 hermipy/quad.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index 923ae72..c223f0e 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -241,8 +241,8 @@ class Quad:
 
     def mapped_nodes(self):
         coords_nodes = []
-        for i in range(self.position.dim):
-            coord = 'x_{}'.format(i)
+        for d in self.position.dirs:
+            coord = hm.Function.x_sub[d]
             coords_nodes.append(self.discretize(coord))
         return np.asarray(np.vstack(coords_nodes)).T
 
-- 
2.43.0


From 72d201ef07924e107807b8398d5f74c51f3c4133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:07 +0000
Subject: [PATCH 10/18] fix: Quad.eval multiplies the covariance factors
 elementwise

---
 hermipy/quad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index c223f0e..c50617b 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -314,7 +314,7 @@ class Quad:
 
         inv = la.inv(series.position.factor)
         translation = inv.dot(self.position.mean - series.position.mean)
-        factor = inv * self.position.factor
+        factor = inv.dot(self.position.factor)
         if la.norm(factor - np.diag(np.diag(factor)), 2) > 1e-8:
             raise ValueError("Incompatible covariance matrices")
         mapped_nodes = self.nodes.copy()
-- 
2.43.0


From 74a0150a49ffa625d4d43e1354d5255144420a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:08 +0000
Subject: [PATCH 11/18] fix: Series.__add__ broadcasts a series of degree 0

---
 hermipy/series.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hermipy/series.py b/hermipy/series.py
index 60f270d..a54ccbd 100644
--- a/hermipy/series.py
+++ b/hermipy/series.py
@@ -120,7 +120,8 @@ does not match number of multi-indices!")
         elif isinstance(other, Series):
             if not self.position == other.position or \
                not self.index_set == other.index_set or \
-               not self.factor == other.factor:
+               not self.factor == other.factor or \
+               not len(self.coeffs) == len(other.coeffs):
                 raise ValueError("Invalid argument!")
             new_coeffs = self.coeffs + other.coeffs
 
-- 
2.43.0


From 44d6b8fedf41cd33c06ead9212f677f9e8c6003f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:08 +0000
Subject: [PATCH 12/18] fix: Series.to_cross drops the factor

---
 hermipy/series.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hermipy/series.py b/hermipy/series.py
index a54ccbd..b4dfd78 100644
--- a/hermipy/series.py
+++ b/hermipy/series.py
@@ -296,4 +296,5 @@ does not match number of multi-indices!")
            not degree + self.position.dim - 1 <= self.degree:
             raise ValueError("Invalid argument!")
         coeffs = self.coeffs[lib.cross_in_triangle(self.position.dim, degree)]
-        return Series(coeffs, self.position, index_set="cross")
+        return Series(coeffs, self.position,
+                      factor=self.factor, index_set="cross")
-- 
2.43.0


From 57adac8bc4b58a3174d404bbba5335d6c0802f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:08 +0000
Subject: [PATCH 13/18] fix: Varf.__add__ broadcasts an operator of degree 0

---
 hermipy/varf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hermipy/varf.py b/hermipy/varf.py
index 93fdb4f..8db7226 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -90,7 +90,8 @@ class Varf:
         elif isinstance(other, Varf):
             if not self.position == other.position or \
                not self.index_set == other.index_set or \
-               not self.factor == other.factor:
+               not self.factor == other.factor or \
+               not self.matrix.shape == other.matrix.shape:
                 raise ValueError("Invalid argument!")
             new_matrix = self.matrix + other.matrix
 
-- 
2.43.0


From 82ed71c1bdafd5c0ce8f30658f9ff9309cb300a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:08 +0000
Subject: [PATCH 14/18] fix: Varf.project uses an attribute that does not exist

---
 hermipy/varf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/varf.py b/hermipy/varf.py
index 8db7226..351777e 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -137,7 +137,7 @@ class Varf:
     def project(self, directions):
         if isinstance(directions, int):
             directions = [directions]
-        rel_dirs = [self.dirs.index(d) for d in directions]
+        rel_dirs = [self.position.dirs.index(d) for d in directions]
         p_matrix = core.project(self.matrix, self.position.dim, rel_dirs,
                                 index_set=self.index_set)
         p_pos = self.position.project(directions)
-- 
2.43.0


From e1166b46faed4d7ba7d032e6fe83b0345f1875e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:08 +0000
Subject: [PATCH 15/18] fix: Varf.subdegree truncates cross_nc operators to the
 wrong multi-indices

---
 hermipy/varf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hermipy/varf.py b/hermipy/varf.py
index 351777e..8c00b00 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -146,6 +146,10 @@ class Varf:
                     factor=factor, index_set=self.index_set)
 
     def subdegree(self, degree):
+
+        # At the moment, only works if index set is consistent
+        if self.index_set == "cross_nc":
+            raise ValueError("cross_nc not supported!")
         if not degree <= self.degree:
             raise ValueError("Invalid argument: degree too high!")
         n_polys = core.iterator_size(self.position.dim, degree,
-- 
2.43.0


From 1f32b6b39a59b0a349535fc28668c6ebe68c87e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:09 +0000
Subject: [PATCH 16/18] fix: Function.project drops factors that involve other
 directions

---
 hermipy/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/function.py b/hermipy/function.py
index 6d055ca..6f0dcc7 100644
--- a/hermipy/function.py
+++ b/hermipy/function.py
@@ -139,7 +139,7 @@ function can't be split")
         for v, term in split_fun[0].items():
             if v.issubset(dirs) and v != frozenset():
                 result *= term.sym
-            elif set(dirs) != set() and set(dirs).issubset(v):
+            elif v.intersection(dirs) != frozenset():
                 raise ValueError("Can't project factor!")
         return Function(result, dirs=dirs)
 
-- 
2.43.0


From 0f3056a6e5faba48a5bb87d4777b94504df0687e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:09 +0000
Subject: [PATCH 17/18] fix: Series.to_function multiplies by the standard
 deviation

---
 hermipy/series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/series.py b/hermipy/series.py
index b4dfd78..ee84135 100644
--- a/hermipy/series.py
+++ b/hermipy/series.py
@@ -275,7 +275,7 @@ does not match number of multi-indices!")
             var = func.Function.xyz[d]
             h0 = func.Function('1', dirs=dirs)
             μ, σ = self.position.mean[i], self.position.cov[i][i]
-            f1 = np.sqrt(σ) * (var - μ)
+            f1 = (var - μ) / np.sqrt(σ)
             h1 = func.Function(f1, dirs=dirs)
             hermite_dirs.append([h0, h1])
             for j in range(1, self.degree):
-- 
2.43.0


From ed2e2575a100ee88b0cd9211b58d50f55ea69725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:56 +0000
Subject: [PATCH 18/18] fix: Operator.split evaluates derivatives before
 splitting

---
 hermipy/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/operator.py b/hermipy/operator.py
index 40218d4..bb48c37 100644
--- a/hermipy/operator.py
+++ b/hermipy/operator.py
@@ -119,7 +119,7 @@ class Operator():
         MAX_ORDER = 5
         variables = [func.Function.x_sub[d] for d in self.dirs]
         unknown, dim = self.f(*variables), len(variables)
-        result, rem = {}, self.sym.expand()
+        result, rem = {}, self.sym.doit().expand()
         mult = list(m for m in itertools.product(range(MAX_ORDER + 1),
                     repeat=dim) if sum(m) <= MAX_ORDER)
         for m in mult:
-- 
2.43.0

