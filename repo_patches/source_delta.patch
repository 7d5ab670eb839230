From 17c889a7e62aeba24f523567b4f590b0675ad3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:12 +0000
Subject: [PATCH 01/57] fix: centered first derivative: the adjoint ignored the
 sampling interval dx

---
 src/cr/sparse/_src/lop/calculus.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/lop/calculus.py b/src/cr/sparse/_src/lop/calculus.py
index eae78ae..4f01012 100644
--- a/src/cr/sparse/_src/lop/calculus.py
+++ b/src/cr/sparse/_src/lop/calculus.py
@@ -45,9 +45,10 @@ def _derivative_centered(x, dx):
     return jnp.pad(diffs, (1,1))
 
 def _derivative_centered_adj(x, dx):
-    y = jnp.zeros(x.shape)
-    y = y.at[0:-2].add(-0.5*x[1:-1])
-    y = y.at[2:].add(0.5*x[1:-1])
+    d = 0.5*x[1:-1] / dx
+    y = jnp.zeros(x.shape, dtype=d.dtype)
+    y = y.at[0:-2].add(-d)
+    y = y.at[2:].add(d)
     return y
 
 
-- 
2.43.0


From 6c1c138847dfb27c74b5c8ae30ef959f508fbcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:12 +0000
Subject: [PATCH 02/57] fix: convolveND: the adjoint did not conjugate a
 complex filter

---
 src/cr/sparse/_src/lop/conv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/conv.py b/src/cr/sparse/_src/lop/conv.py
index 2dd44bb..fb91068 100644
--- a/src/cr/sparse/_src/lop/conv.py
+++ b/src/cr/sparse/_src/lop/conv.py
@@ -138,7 +138,7 @@ def convolveND(shape, h, offset=None, axes=None):
     h_conv = h[tuple(slice(None, None, -1) for s in shape)]
     # extend it
     h_conv = h_conv[None, None]
-    h_corr = h[None, None]
+    h_corr = jnp.conjugate(h)[None, None]
 
     def times(x):
         """Forward N-D convolution
-- 
2.43.0


From 1170ffc2feeba18665bf36194b876f2103869e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:12 +0000
Subject: [PATCH 03/57] fix: binary_dict_alg: declared the transposed shape and
 a complex map

---
 src/cr/sparse/_src/lop/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/random.py b/src/cr/sparse/_src/lop/random.py
index 63410a5..27a6e64 100644
--- a/src/cr/sparse/_src/lop/random.py
+++ b/src/cr/sparse/_src/lop/random.py
@@ -176,4 +176,4 @@ def binary_dict_alg(key, m, n=None, axis=0):
         return x
 
     times, trans = apply_along_axis(times, trans, axis)
-    return Operator(times=times, trans=trans, shape=(n,m), real=False)
+    return Operator(times=times, trans=trans, shape=(m,n))
-- 
2.43.0


From e9f210f0d11c73f8f474985f1be93e55cd3995cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:09 +0000
Subject: [PATCH 04/57] fix: transpose of a complex operator transposed a
 matrix of vectors

---
 src/cr/sparse/_src/lop/lop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/lop.py b/src/cr/sparse/_src/lop/lop.py
index 1b8a4dd..d43cfd2 100644
--- a/src/cr/sparse/_src/lop/lop.py
+++ b/src/cr/sparse/_src/lop/lop.py
@@ -258,8 +258,8 @@ def transpose(A):
         times = A.trans
         trans = A.times
     else:
-        times = lambda x: _hermitian(A.trans(_hermitian(x)))
-        trans = lambda x: _hermitian(A.times(_hermitian(x)))
+        times = lambda x: jnp.conjugate(A.trans(jnp.conjugate(x)))
+        trans = lambda x: jnp.conjugate(A.times(jnp.conjugate(x)))
     return Operator(times=times, trans=trans, shape=(n,m), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real)
 
 def apply_n(func, n, x):
-- 
2.43.0


From d39e7d0aaa277efc1d4356d011c969b235c4e0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:09 +0000
Subject: [PATCH 05/57] fix: operator combinators dropped the linear trait of
 their operands

---
 src/cr/sparse/_src/lop/lop.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/cr/sparse/_src/lop/lop.py b/src/cr/sparse/_src/lop/lop.py
index d43cfd2..9bdae7e 100644
--- a/src/cr/sparse/_src/lop/lop.py
+++ b/src/cr/sparse/_src/lop/lop.py
@@ -205,7 +205,7 @@ def neg(A):
     """
     times = lambda x : -A.times(x)
     trans = lambda x : -A.trans(x)
-    return Operator(times=times, trans=trans, shape=A.shape, jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real)
+    return Operator(times=times, trans=trans, shape=A.shape, jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real, linear=A.linear)
 
 def scale(A, alpha):
     r"""Returns the linear operator :math:`T = \alpha A` for the operator :math:`A`
@@ -221,7 +221,7 @@ def scale(A, alpha):
     alpha_c = jnp.conjugate(alpha)
     times = lambda x : alpha * A.times(x)
     trans = lambda x : alpha_c * A.trans(x)
-    return Operator(times=times, trans=trans, shape=A.shape, jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=real)
+    return Operator(times=times, trans=trans, shape=A.shape, jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=real, linear=A.linear)
 
 def hermitian(A):
     r"""Returns the Hermitian transpose of a given operator :math:`T = A^H`
@@ -236,7 +236,7 @@ def hermitian(A):
         Deprecated. Use `adjoint` instead.
     """
     m, n = A.shape
-    return Operator(times=A.trans, trans=A.times, shape=(n,m), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real)
+    return Operator(times=A.trans, trans=A.times, shape=(n,m), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real, linear=A.linear)
 
 def adjoint(A):
     r"""Returns the adjoint of a given operator :math:`T = A^H`
@@ -248,7 +248,7 @@ def adjoint(A):
         (Operator): A linear operator T such that :math:`T x = A^H x` 
     """
     m, n = A.shape
-    return Operator(times=A.trans, trans=A.times, shape=(n,m), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real)
+    return Operator(times=A.trans, trans=A.times, shape=(n,m), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real, linear=A.linear)
 
 
 def transpose(A):
@@ -260,7 +260,7 @@ def transpose(A):
     else:
         times = lambda x: jnp.conjugate(A.trans(jnp.conjugate(x)))
         trans = lambda x: jnp.conjugate(A.times(jnp.conjugate(x)))
-    return Operator(times=times, trans=trans, shape=(n,m), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real)
+    return Operator(times=times, trans=trans, shape=(n,m), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real, linear=A.linear)
 
 def apply_n(func, n, x):
     init = (x, 0)
@@ -280,7 +280,7 @@ def power(A, p):
     assert m == n
     times = lambda x :apply_n(A.times, p, x)
     trans = lambda x : apply_n(A.trans, p, x)
-    return Operator(times=times, trans=trans, shape=A.shape, jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real)
+    return Operator(times=times, trans=trans, shape=A.shape, jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real, linear=A.linear)
 
 def partial_op(A, picks, perm=None):
     """Returns the linear operator T that computes  (A x[perm])[picks]
@@ -322,7 +322,7 @@ def partial_op(A, picks, perm=None):
             out = out.at[perm].set(y)
             return out
 
-    return Operator(times=times, trans=trans, shape=(k, n), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real)
+    return Operator(times=times, trans=trans, shape=(k, n), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real, linear=A.linear)
 
 
 ###########################################################################################
@@ -340,7 +340,8 @@ def add(A, B):
     real = A.real and B.real
     times = lambda x: A.times(x) + B.times(x)
     trans = lambda x: A.trans(x) + B.trans(x)
-    return Operator(times=times, trans=trans, shape=A.shape, jit_safe=jit_safe, matrix_safe=matrix_safe, real=real)
+    return Operator(times=times, trans=trans, shape=A.shape, jit_safe=jit_safe, matrix_safe=matrix_safe, real=real,
+        linear=A.linear and B.linear)
 
 
 def subtract(A, B):
@@ -354,7 +355,8 @@ def subtract(A, B):
     real = A.real and B.real
     times = lambda x: A.times(x) - B.times(x)
     trans = lambda x: A.trans(x) - B.trans(x)
-    return Operator(times=times, trans=trans, shape=A.shape, jit_safe=jit_safe, matrix_safe=matrix_safe, real=real)
+    return Operator(times=times, trans=trans, shape=A.shape, jit_safe=jit_safe, matrix_safe=matrix_safe, real=real,
+        linear=A.linear and B.linear)
 
 
 def compose(A, B, ignore_compatibility=False, shape=None):
@@ -385,7 +387,8 @@ def hcat(A, B):
     real = A.real and B.real
     times = lambda x: A.times(x[:na]) + B.times(x[na:])
     trans = lambda x: jnp.concatenate((A.trans(x), B.trans(x)))
-    return Operator(times=times, trans=trans, shape=(m,n), jit_safe=jit_safe, matrix_safe=matrix_safe, real=real)
+    return Operator(times=times, trans=trans, shape=(m,n), jit_safe=jit_safe, matrix_safe=matrix_safe, real=real,
+        linear=A.linear and B.linear)
 
 
 
@@ -395,7 +398,7 @@ def gram(A):
     times = lambda x: A.trans(A.times(x))
 
     return Operator(times=times, trans=times, shape=(n,n), 
-        jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real)
+        jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real, linear=A.linear)
 
 def frame(A):
     """Returns the frame of a given operator :math:`T = A A^H`"""
@@ -403,4 +406,4 @@ def frame(A):
     times = lambda x: A.times(A.trans(x))
 
     return Operator(times=times, trans=times, shape=(m, m), 
-        jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real)
+        jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real, linear=A.linear)
-- 
2.43.0


From 1bf3e8f0a991aa982c7a16880c902a98ef7a23fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:09 +0000
Subject: [PATCH 06/57] fix: compose computed but dropped the jit_safe and
 matrix_safe traits

---
 src/cr/sparse/_src/lop/lop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/lop.py b/src/cr/sparse/_src/lop/lop.py
index 9bdae7e..c19c351 100644
--- a/src/cr/sparse/_src/lop/lop.py
+++ b/src/cr/sparse/_src/lop/lop.py
@@ -372,7 +372,8 @@ def compose(A, B, ignore_compatibility=False, shape=None):
     trans = lambda x: B.trans(A.trans(x))
     if shape is None:
         shape = (ma, nb)
-    return Operator(times=times, trans=trans, shape=shape, real=real)
+    return Operator(times=times, trans=trans, shape=shape, jit_safe=jit_safe, matrix_safe=matrix_safe, real=real,
+        linear=A.linear and B.linear)
 
 
 def hcat(A, B):
-- 
2.43.0


From d6ecadca3d1eb5cc29be01bd7c23c748e920280d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:09 +0000
Subject: [PATCH 07/57] fix: block_diag and windowed_op ignored the traits of
 their operands

---
 src/cr/sparse/_src/lop/block_diag.py  | 5 ++++-
 src/cr/sparse/_src/lop/windowed_op.py | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/block_diag.py b/src/cr/sparse/_src/lop/block_diag.py
index c98f8cb..3965623 100644
--- a/src/cr/sparse/_src/lop/block_diag.py
+++ b/src/cr/sparse/_src/lop/block_diag.py
@@ -139,4 +139,7 @@ def block_diag(operators, axis=0):
         return jnp.concatenate(ys)
 
     times, trans = apply_along_axis(times, trans, axis)
-    return Operator(times=times, trans=trans, shape=(m_all,n_all))
+    return Operator(times=times, trans=trans, shape=(m_all,n_all),
+        linear=all(op.linear for op in operators),
+        jit_safe=all(op.jit_safe for op in operators),
+        real=all(op.real for op in operators))
diff --git a/src/cr/sparse/_src/lop/windowed_op.py b/src/cr/sparse/_src/lop/windowed_op.py
index fc9652e..1827dc6 100644
--- a/src/cr/sparse/_src/lop/windowed_op.py
+++ b/src/cr/sparse/_src/lop/windowed_op.py
@@ -80,4 +80,5 @@ def windowed_op(m, T, overlap=0, axis=0):
 
     times, trans = apply_along_axis(times1d, trans1d, axis)
 
-    return Operator(times=times, trans=trans, shape=(m,n), real=real)
+    return Operator(times=times, trans=trans, shape=(m,n), real=real,
+        linear=T.linear, jit_safe=T.jit_safe)
-- 
2.43.0


From 14cc93dfe5c839618c2011e50844cb426816f087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:09 +0000
Subject: [PATCH 08/57] fix: scale by a complex array scalar was declared real

---
 src/cr/sparse/_src/lop/lop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/lop.py b/src/cr/sparse/_src/lop/lop.py
index c19c351..b9181e2 100644
--- a/src/cr/sparse/_src/lop/lop.py
+++ b/src/cr/sparse/_src/lop/lop.py
@@ -217,7 +217,7 @@ def scale(A, alpha):
         (Operator): A linear operator T such that :math:`T x = \alpha A x` 
         and :math:`T^H x = \bar{\alpha} A^H x`
     """
-    real = A.real and not  isinstance(alpha, complex)
+    real = A.real and jnp.isrealobj(alpha)
     alpha_c = jnp.conjugate(alpha)
     times = lambda x : alpha * A.times(x)
     trans = lambda x : alpha_c * A.trans(x)
-- 
2.43.0


From d52e0880a1d36e73c23b4fb230a84bba1acc9a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:23 +0000
Subject: [PATCH 09/57] fix: operators built from complex data were declared
 real

---
 src/cr/sparse/_src/lop/basic.py   | 4 ++--
 src/cr/sparse/_src/lop/conv.py    | 4 ++--
 src/cr/sparse/_src/lop/filters.py | 2 +-
 src/cr/sparse/_src/lop/tv.py      | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cr/sparse/_src/lop/basic.py b/src/cr/sparse/_src/lop/basic.py
index e15d2b6..3aa4534 100644
--- a/src/cr/sparse/_src/lop/basic.py
+++ b/src/cr/sparse/_src/lop/basic.py
@@ -190,7 +190,7 @@ def diagonal(d, axis=0):
     times = lambda x: d * x
     trans = lambda x: _hermitian(d) * x
     times, trans = apply_along_axis(times, trans, axis)
-    return Operator(times=times, trans=trans, shape=(n,n))
+    return Operator(times=times, trans=trans, shape=(n,n), real=jnp.isrealobj(d))
 
 
 def scalar_mult(alpha, n):
@@ -208,7 +208,7 @@ def scalar_mult(alpha, n):
     assert alpha.ndim == 0, "alpha must be a scalar quantity"
     times = lambda x: alpha * x
     trans = lambda x: alpha_c * x
-    return Operator(times=times, trans=trans, shape=(n,n))
+    return Operator(times=times, trans=trans, shape=(n,n), real=jnp.isrealobj(alpha))
 
 
 def zero(in_dim, out_dim=None, axis=0):
diff --git a/src/cr/sparse/_src/lop/conv.py b/src/cr/sparse/_src/lop/conv.py
index fb91068..ff46cbf 100644
--- a/src/cr/sparse/_src/lop/conv.py
+++ b/src/cr/sparse/_src/lop/conv.py
@@ -74,7 +74,7 @@ def convolve(n, h, offset=0, axis=0):
         return result[0, 0, 0, b_slice]
 
     times, trans = apply_along_axis(times1d, trans1d, axis)
-    return Operator(times=times, trans=trans, shape=(n,n))
+    return Operator(times=times, trans=trans, shape=(n,n), real=jnp.isrealobj(h))
 
 def convolve2D(shape, h, offset=None, axes=None):
     """Performs 2 dimensional convolution on the input array
@@ -164,4 +164,4 @@ def convolveND(shape, h, offset=None, axes=None):
         # pick the slices from other dimensions
         return result[a_slices]
 
-    return Operator(times=times, trans=trans, shape=(shape,shape))
+    return Operator(times=times, trans=trans, shape=(shape,shape), real=jnp.isrealobj(h))
diff --git a/src/cr/sparse/_src/lop/filters.py b/src/cr/sparse/_src/lop/filters.py
index a786919..28920ef 100644
--- a/src/cr/sparse/_src/lop/filters.py
+++ b/src/cr/sparse/_src/lop/filters.py
@@ -38,5 +38,5 @@ def fir_filter(n, h, axis=0):
     times1d = lambda x : jnp.convolve(x, h, 'same')
     trans1d = lambda x : jnp.convolve(x, h_conj, 'full')[start:start+n]
     times, trans = apply_along_axis(times1d, trans1d, axis)
-    return Operator(times=times, trans=trans, shape=(n,n))
+    return Operator(times=times, trans=trans, shape=(n,n), real=jnp.isrealobj(h))
 
diff --git a/src/cr/sparse/_src/lop/tv.py b/src/cr/sparse/_src/lop/tv.py
index cfd720a..c34281e 100644
--- a/src/cr/sparse/_src/lop/tv.py
+++ b/src/cr/sparse/_src/lop/tv.py
@@ -133,4 +133,4 @@ def tv2D(shape, kind='regular'):
         # combine them to complex output
         return Dh + Dv * 1j
 
-    return Operator(times=times, trans=trans, shape=(shape,shape))
+    return Operator(times=times, trans=trans, shape=(shape,shape), real=False)
-- 
2.43.0


From 2aabe0b7c2ed3ee0c48e5e5426c195881865a1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:58 +0000
Subject: [PATCH 10/57] fix: fft: the adjoint truncated the first axis whatever
 the transform axis

---
 src/cr/sparse/_src/lop/fft.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/fft.py b/src/cr/sparse/_src/lop/fft.py
index c88d81e..773ca8e 100644
--- a/src/cr/sparse/_src/lop/fft.py
+++ b/src/cr/sparse/_src/lop/fft.py
@@ -12,6 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+from jax import lax
 import jax.numpy as jnp
 import jax.numpy.fft as jfft
 
@@ -42,7 +43,7 @@ def fft(m, n=None, axis=0, mode='r2c'):
         def trans(w):
             x = n * jnp.fft.ifft(w, n, axis=axis)
             # we need to return only first m values
-            return x[:m]
+            return lax.slice_in_dim(x, 0, m, axis=axis)
     elif mode == 'c2c':
         def times(x):
             w = jfft.fft(x, n, axis=axis)
@@ -51,7 +52,7 @@ def fft(m, n=None, axis=0, mode='r2c'):
         def trans(w):
             x = n * jnp.fft.ifft(w, n, axis=axis)
             # we need to return only first m values
-            return x[:m]
+            return lax.slice_in_dim(x, 0, m, axis=axis)
     else: 
         raise ValueError(f"Unsupported mode {mode}")
 
-- 
2.43.0


From ec55c5f0a20f9e00d6b9adc07585f2ff753356a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:07 +0000
Subject: [PATCH 11/57] fix: operators restricted to vectors were declared
 matrix safe

---
 src/cr/sparse/_src/lop/basic.py    | 2 +-
 src/cr/sparse/_src/lop/calculus.py | 4 ++--
 src/cr/sparse/_src/lop/dot.py      | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/lop/basic.py b/src/cr/sparse/_src/lop/basic.py
index 3aa4534..5cd0b85 100644
--- a/src/cr/sparse/_src/lop/basic.py
+++ b/src/cr/sparse/_src/lop/basic.py
@@ -51,7 +51,7 @@ def real_matrix(A):
     def trans(x):
         assert x.ndim == 1
         return x @ A
-    return Operator(times=times, trans=trans, shape=(m,n))
+    return Operator(times=times, trans=trans, shape=(m,n), matrix_safe=False)
 
 def matrix(A, axis=0):
     """Converts a matrix into a linear operator
diff --git a/src/cr/sparse/_src/lop/calculus.py b/src/cr/sparse/_src/lop/calculus.py
index 4f01012..8cda499 100644
--- a/src/cr/sparse/_src/lop/calculus.py
+++ b/src/cr/sparse/_src/lop/calculus.py
@@ -66,12 +66,12 @@ def first_derivative(n, dx=1., kind='centered'):
         trans = partial(_derivative_centered_adj, dx=dx)
     else:
         raise NotImplementedError()
-    return Operator(times=times, trans=trans, shape=(n,n))
+    return Operator(times=times, trans=trans, shape=(n,n), matrix_safe=False)
 
 
 def second_derivative(n, dx=1.):
     filter = jnp.array([1., -2., 1.]) / dx / dx
     times = lambda x : jnp.pad(jnp.convolve(x, filter, 'valid'), (1,1))
     trans = lambda x : jnp.convolve(x[1:-1], filter, 'full')
-    return Operator(times=times, trans=trans, shape=(n,n))
+    return Operator(times=times, trans=trans, shape=(n,n), matrix_safe=False)
 
diff --git a/src/cr/sparse/_src/lop/dot.py b/src/cr/sparse/_src/lop/dot.py
index 144f1c6..5da4c23 100644
--- a/src/cr/sparse/_src/lop/dot.py
+++ b/src/cr/sparse/_src/lop/dot.py
@@ -61,4 +61,4 @@ def dot(v, adjoint=False, axis=0):
         m,n = n, m
         times, trans = trans, times
 
-    return Operator(times=times, trans=trans, shape=(m, n))
+    return Operator(times=times, trans=trans, shape=(m, n), matrix_safe=False)
-- 
2.43.0


From 0898510ce3b5dcb26cbb95ae4dcc562086305364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:28 +0000
Subject: [PATCH 12/57] fix: moreau_envelope value uses the same mu as its prox
 and gradient

---
 src/cr/sparse/_src/opt/prox_to_smooth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/opt/prox_to_smooth.py b/src/cr/sparse/_src/opt/prox_to_smooth.py
index 110eaa1..e5e0673 100644
--- a/src/cr/sparse/_src/opt/prox_to_smooth.py
+++ b/src/cr/sparse/_src/opt/prox_to_smooth.py
@@ -26,7 +26,7 @@ def moreau_envelope(f: opt.ProxCapable, mu: float = 1.):
     @jit
     def func(x):
         px, pv = f.prox_vec_val(x, mu)
-        return pv + (1./2) * cnb.arr_rnorm_sqr(x - px)
+        return pv + (1/(2*mu)) * cnb.arr_rnorm_sqr(x - px)
 
 
     @jit
@@ -36,7 +36,7 @@ def moreau_envelope(f: opt.ProxCapable, mu: float = 1.):
     @jit
     def grad_val(x):
         px, pv = f.prox_vec_val(x, mu)
-        v = pv + (1./2) * cnb.arr_rnorm_sqr(x - px)
+        v = pv + (1/(2*mu)) * cnb.arr_rnorm_sqr(x - px)
         g = (1/mu) * (x - px)
         return g, v
 
-- 
2.43.0


From 7dd321bf800c8616d13f4b546786e8c85b1c1339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:28 +0000
Subject: [PATCH 13/57] fix: export build_from_ind_proj itself, not build under
 its name

---
 src/cr/sparse/opt/proximal_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/opt/proximal_ops.py b/src/cr/sparse/opt/proximal_ops.py
index 1606fa3..3c1ea61 100644
--- a/src/cr/sparse/opt/proximal_ops.py
+++ b/src/cr/sparse/opt/proximal_ops.py
@@ -23,7 +23,7 @@ from cr.sparse._src.opt.proximal_ops.prox import (
 )
 
 from cr.sparse._src.opt.proximal_ops.prox import build as prox_build
-from cr.sparse._src.opt.proximal_ops.prox import build as build_from_ind_proj
+from cr.sparse._src.opt.proximal_ops.prox import build_from_ind_proj
 
 from cr.sparse._src.opt.proximal_ops.basic import (
     prox_zero
-- 
2.43.0


From ccc0a0401631eebb26b445b094ca51e98307a28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:45 +0000
Subject: [PATCH 14/57] fix: huber penalty sums over all entries of an array
 argument

---
 src/cr/sparse/_src/opt/smooth/huber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/opt/smooth/huber.py b/src/cr/sparse/_src/opt/smooth/huber.py
index 8902cb4..dd93e99 100644
--- a/src/cr/sparse/_src/opt/smooth/huber.py
+++ b/src/cr/sparse/_src/opt/smooth/huber.py
@@ -37,7 +37,7 @@ def smooth_huber(tau=1.):
         x_large = x_mag - tau/2
 
         v = jnp.where(small, x_small, x_large)
-        return sum(v)
+        return jnp.sum(v)
 
     @jit
     def gradient(x):
-- 
2.43.0


From 8d88a2a180af372bdf5d0ea296257e419c63da8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:37 +0000
Subject: [PATCH 15/57] fix: matching pursuit updates the residual norm in
 every iteration

---
 src/cr/sparse/_src/pursuit/mp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/mp.py b/src/cr/sparse/_src/pursuit/mp.py
index cd53360..c133720 100644
--- a/src/cr/sparse/_src/pursuit/mp.py
+++ b/src/cr/sparse/_src/pursuit/mp.py
@@ -119,7 +119,7 @@ def solve(Phi, y, max_iters=100, res_norm_rtol=1e-4, tracker=crs.noop_tracker):
         # Compute residual norm squared
         r_norm_sqr = r.T @ r
         return MPState(x=x, r=r, 
-            r_norm_sqr=y_norm_sqr, 
+            r_norm_sqr=r_norm_sqr, 
             iterations=state.iterations+1)
 
     def cond_func(state):
@@ -195,7 +195,7 @@ def matrix_solve(Phi, y, max_iters=100, res_norm_rtol=1e-4, tracker=crs.noop_tra
         # Compute residual norm squared
         r_norm_sqr = r.T @ r
         return MPState(x=x, r=r, 
-            r_norm_sqr=y_norm_sqr, 
+            r_norm_sqr=r_norm_sqr, 
             iterations=state.iterations+1)
 
     def cond_func(state):
-- 
2.43.0


From 30aa1363b60f472f0ebbb27f1997d5cf0e1ccd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:37 +0000
Subject: [PATCH 16/57] fix: OMP operator_solve first iteration reports the
 norm of its residual and a vector of coefficients

---
 src/cr/sparse/_src/pursuit/omp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/omp.py b/src/cr/sparse/_src/pursuit/omp.py
index aeb35f9..d600e48 100644
--- a/src/cr/sparse/_src/pursuit/omp.py
+++ b/src/cr/sparse/_src/pursuit/omp.py
@@ -226,11 +226,11 @@ def operator_solve(Phi, y, K, res_norm_rtol=1e-4):
         L = jnp.ones((1,1))
         # Initial coefficient
         x0 = p[i]
-        x_I = x0
+        x_I = p[I]
         # updated residual after first iteration
         r = y - x0 * phi_0
         # norm squared of new residual
-        norm_r_new_sqr = jnp.abs(jnp.vdot(y, y))
+        norm_r_new_sqr = jnp.abs(jnp.vdot(r, r))
         return OMPState(x_I=x_I, I=I, r=r, 
             Phi_I=Phi_I, L=L, 
             r_norm_sqr=norm_r_new_sqr, iterations=1)
-- 
2.43.0


From 0cf05d30beb644c52c79c4ee1dca0c1211233e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:37 +0000
Subject: [PATCH 17/57] fix: OMP matrix_solve works with a single iteration

---
 src/cr/sparse/_src/pursuit/omp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cr/sparse/_src/pursuit/omp.py b/src/cr/sparse/_src/pursuit/omp.py
index d600e48..70ff605 100644
--- a/src/cr/sparse/_src/pursuit/omp.py
+++ b/src/cr/sparse/_src/pursuit/omp.py
@@ -70,6 +70,7 @@ def matrix_solve(Phi, y, max_iters, max_res_norm=1e-6):
     # norm squared of new residual
     norm_r_new_sqr = r.T @ r
     # conduct OMP iterations
+    k = 0
     for k in range(1, K):
         norm_r_sqr = norm_r_new_sqr
         # compute the correlations
-- 
2.43.0


From d0183405a0689a57fb86c8f256391dec4f22d24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:37 +0000
Subject: [PATCH 18/57] fix: CoSaMP initial support keeps the order of its
 coefficients

---
 src/cr/sparse/_src/pursuit/cosamp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/cosamp.py b/src/cr/sparse/_src/pursuit/cosamp.py
index 38fbe52..376e7d6 100644
--- a/src/cr/sparse/_src/pursuit/cosamp.py
+++ b/src/cr/sparse/_src/pursuit/cosamp.py
@@ -59,7 +59,7 @@ def matrix_solve(Phi, y, K, max_iters=None, res_norm_rtol=1e-4):
         # pick the K largest indices
         Ia = largest_indices(x_3I, K)
         # Identify indices for corresponding atoms
-        I = jnp.sort(I_3k[Ia])
+        I = I_3k[Ia]
         # Corresponding non-zero entries in the sparse approximation
         x_I = x_3I[Ia]
         # Form the subdictionary of corresponding atoms
@@ -171,7 +171,7 @@ def operator_solve(Phi, y, K, max_iters=None, res_norm_rtol=1e-4,
         # pick the K largest indices
         Ia = largest_indices(x_3I, K)
         # Identify indices for corresponding atoms
-        I = jnp.sort(I_3k[Ia])
+        I = I_3k[Ia]
         # Corresponding non-zero entries in the sparse approximation
         x_I = x_3I[Ia]
         # Form the subdictionary of corresponding atoms
-- 
2.43.0


From e58468661a89ec2d0b26acada2812a5ed60cb347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:37 +0000
Subject: [PATCH 19/57] fix: FISTA returns the residual of the solution it
 returns

---
 src/cr/sparse/_src/sls/fista.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/sls/fista.py b/src/cr/sparse/_src/sls/fista.py
index 0fd7e74..0e1fdb8 100644
--- a/src/cr/sparse/_src/sls/fista.py
+++ b/src/cr/sparse/_src/sls/fista.py
@@ -125,7 +125,9 @@ def fista(
         return jnp.logical_and(state.iterations < max_iters, not_converged)
 
     state = lax.while_loop(cond, body, init())
-    return state
+    # the residual in the loop belongs to z, report the one of the solution x
+    r = b - operator.times(state.x)
+    return state._replace(r=r, r_norm_sqr=arr_l2norm_sqr(r))
 
 
 fista_jit = jit(fista, static_argnums=(0, 3, 4, 5, 6, 7, 8))
-- 
2.43.0


From 1fda0098289962ddb528ef7736513ec97feaf755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:37 +0000
Subject: [PATCH 20/57] fix: SPGL1 BPIC residual norm follows the residual when
 tau is reduced

---
 src/cr/sparse/_src/cvx/spgl1.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cr/sparse/_src/cvx/spgl1.py b/src/cr/sparse/_src/cvx/spgl1.py
index a32d406..7b28a45 100644
--- a/src/cr/sparse/_src/cvx/spgl1.py
+++ b/src/cr/sparse/_src/cvx/spgl1.py
@@ -655,6 +655,7 @@ def solve_bpic_from(A,
             lambda _: update_xrgf(A, b, x, tau),
             lambda _: (x, r, g, f),
             None)
+        r_norm = norm(r)
         n_times, n_trans = n_times + tau_reduced, n_trans + tau_reduced
         n_newton = state.n_newton + change_tau
         # update past objective values with the new objective value
-- 
2.43.0


From 7975715cbc10ac4b352c0a8456d669e06227d651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:37 +0000
Subject: [PATCH 21/57] fix: YALL1 residual belongs to the clipped solution for
 non-negative problems

---
 src/cr/sparse/_src/cvx/adm/yall1.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/cvx/adm/yall1.py b/src/cr/sparse/_src/cvx/adm/yall1.py
index f9d70c0..7402d79 100644
--- a/src/cr/sparse/_src/cvx/adm/yall1.py
+++ b/src/cr/sparse/_src/cvx/adm/yall1.py
@@ -537,11 +537,17 @@ def solve(A, b, x0=None, z0=None, W=None, weights=None, nonneg=False, rho=0., de
         else:
             # It's a basis pursuit problem
             state = solve_bp(A, b, x0, z0, w, nonneg, gamma, tolerance, max_iters)
-    x = jnp.where(nonneg, jnp.maximum(0, state.x), state.x)
+    x = state.x
+    r = state.rp
+    if nonneg:
+        # the residual must be the one of the clipped solution
+        x = jnp.maximum(0, x)
+        r = b - A.times(x)
+        n_times += 1
     if W:
         # go back from sparsifying basis to signal space
         x = W.times(x)
-    return RecoveryFullSolution(x=b_max*x, r=b_max*state.rp, 
+    return RecoveryFullSolution(x=b_max*x, r=b_max*r, 
         iterations=state.iterations,
         n_times=state.n_times+n_times, 
         n_trans=state.n_trans+n_trans)
-- 
2.43.0


From 56b639c5c1206e318ebbae8eafc3fb90d29a41ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:54 +0000
Subject: [PATCH 22/57] fix: YALL1 zero solution lives in the signal space

---
 src/cr/sparse/_src/cvx/adm/yall1.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cr/sparse/_src/cvx/adm/yall1.py b/src/cr/sparse/_src/cvx/adm/yall1.py
index 7402d79..8e153b7 100644
--- a/src/cr/sparse/_src/cvx/adm/yall1.py
+++ b/src/cr/sparse/_src/cvx/adm/yall1.py
@@ -498,6 +498,9 @@ def solve(A, b, x0=None, z0=None, W=None, weights=None, nonneg=False, rho=0., de
         zero_solution = norm(b) <= delta
     if zero_solution:
         x = jnp.zeros(n)
+        if W:
+            # go back from sparsifying basis to signal space
+            x = W.times(x)
         return RecoveryFullSolution(x=x, r=b, 
             iterations=0, 
             n_times=n_times, n_trans=n_trans)
-- 
2.43.0


From cb2a1d0247c92c18171f11e4a4e4251a81a87302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:54 +0000
Subject: [PATCH 23/57] fix: SPGL1 LASSO reports its own count of adjoint
 applications

---
 src/cr/sparse/_src/cvx/spgl1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cvx/spgl1.py b/src/cr/sparse/_src/cvx/spgl1.py
index 7b28a45..9dc3535 100644
--- a/src/cr/sparse/_src/cvx/spgl1.py
+++ b/src/cr/sparse/_src/cvx/spgl1.py
@@ -384,7 +384,7 @@ def solve_lasso_from(A,
             alpha=lsearch.alpha,
             alpha_next=alpha_next,
             iterations=state.iterations+1,
-            n_times=n_times, n_trans=n_times, 
+            n_times=n_times, n_trans=n_trans, 
             n_ls_iters=state.n_ls_iters + lsearch.n_iters)
 
     def cond_func(state):
-- 
2.43.0


From 29a4fbceec620bb7143b95a5d6b7ff48390d9ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:54 +0000
Subject: [PATCH 24/57] fix: SPGL1 BPIC setup applies the operator and its
 adjoint once

---
 src/cr/sparse/_src/cvx/spgl1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cvx/spgl1.py b/src/cr/sparse/_src/cvx/spgl1.py
index 9dc3535..8a11e58 100644
--- a/src/cr/sparse/_src/cvx/spgl1.py
+++ b/src/cr/sparse/_src/cvx/spgl1.py
@@ -605,7 +605,7 @@ def solve_bpic_from(A,
             r_res_error=r_res_error, r_f_error=r_f_error,
             alpha=alpha,
             alpha_next=alpha,
-            iterations=1, n_times=2, n_trans=2,
+            iterations=1, n_times=1, n_trans=1,
             n_newton=1, n_ls_iters=0)
 
     #@jit
-- 
2.43.0


From 0de6b70dd038f1fef889cba5b57fbc0c36e9f64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:03 +0000
Subject: [PATCH 25/57] fix: L1-LS counts the adjoint application of the dual
 update

---
 src/cr/sparse/_src/cvx/l1ls.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cr/sparse/_src/cvx/l1ls.py b/src/cr/sparse/_src/cvx/l1ls.py
index 468ea4c..30eedf6 100644
--- a/src/cr/sparse/_src/cvx/l1ls.py
+++ b/src/cr/sparse/_src/cvx/l1ls.py
@@ -329,6 +329,7 @@ def solve_from(A, y, lambda_, x0, u0, tol=1e-3, xi=1e-3, t0=None,
         #--------------------------------------------------------------------------------
         # update nu (eq 11)
         nu = get_nu(z)
+        n_trans += 1
         #--------------------------------------------------------------------------------
         # Duality gap calculation TNIPM step 5
         #--------------------------------------------------------------------------------
-- 
2.43.0


From cafa29e786688813284d45a1e8018baab89a138c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:35 +0000
Subject: [PATCH 26/57] fix: OMP operator_solve residual norm is real for
 complex measurements

---
 src/cr/sparse/_src/pursuit/omp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/pursuit/omp.py b/src/cr/sparse/_src/pursuit/omp.py
index 70ff605..e0ff042 100644
--- a/src/cr/sparse/_src/pursuit/omp.py
+++ b/src/cr/sparse/_src/pursuit/omp.py
@@ -167,7 +167,7 @@ def _operator_step(times, trans, y, p, zv, state):
     # updated residual after first iteration
     r = y - Phi_I @ x_I
     # norm squared of new residual
-    norm_r_new_sqr = r.T @ r
+    norm_r_new_sqr = jnp.abs(jnp.vdot(r, r))
 
     return OMPState(x_I=x_I, I=I, Phi_I=Phi_I, r=r, L=L, 
         r_norm_sqr=norm_r_new_sqr, iterations=k + 1)
-- 
2.43.0


From 4ff77cb411d037406251fd9443e161e772458b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:42 +0000
Subject: [PATCH 27/57] fix: opt.proximal.prox_l1 used an unimported name and
 returned nothing

---
 src/cr/sparse/_src/opt/proximal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/opt/proximal.py b/src/cr/sparse/_src/opt/proximal.py
index 0d26876..633cd2f 100644
--- a/src/cr/sparse/_src/opt/proximal.py
+++ b/src/cr/sparse/_src/opt/proximal.py
@@ -16,8 +16,10 @@
 Proximal operators
 """
 
+import jax.numpy as jnp
+
 def prox_l1(x, t):
     """The proximal operator for l1 norm
     """
-    jnp.maximum(0, x-t) - jnp.maximum(0, -x - t)
+    return jnp.maximum(0, x-t) - jnp.maximum(0, -x - t)
 
-- 
2.43.0


From a337f5c7365d75a96cc80c90005eae72adc5632a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:42 +0000
Subject: [PATCH 28/57] fix: Operator.apply_columns used an index set it was
 never given

---
 src/cr/sparse/_src/lop/lop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/lop.py b/src/cr/sparse/_src/lop/lop.py
index b9181e2..4578d73 100644
--- a/src/cr/sparse/_src/lop/lop.py
+++ b/src/cr/sparse/_src/lop/lop.py
@@ -107,7 +107,7 @@ class Operator(NamedTuple):
         """Computes Y = T^H X  where y = T^H x for each column in X"""
         return jax.vmap(self.trans, (1), (1))(Y)
 
-    def apply_columns(self, x):
+    def apply_columns(self, x, I):
         """Computes y = T_I x where I is an index set selecting  a subset of columns of T"""
         xr = jnp.zeros(x.shape, x.dtype)
         xr = xr.at[I].set(x[I])
-- 
2.43.0


From 01a922433bf192cdaa326b92b4a749f0b40b8463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:42 +0000
Subject: [PATCH 29/57] fix: matrix_affine_func used an unimported name and
 declared the wrong argument static

---
 src/cr/sparse/_src/fom/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/fom/util.py b/src/cr/sparse/_src/fom/util.py
index b39a7bd..dcdc538 100644
--- a/src/cr/sparse/_src/fom/util.py
+++ b/src/cr/sparse/_src/fom/util.py
@@ -12,6 +12,8 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+from functools import partial
+
 from jax import jit
 
 import jax.numpy as jnp
@@ -62,7 +64,7 @@ def matrix_affine_func(A=None, b=None):
         ax_plus_b = affine
 
 
-    @partial(jit, static_argnums=(2,))
+    @partial(jit, static_argnums=(1,))
     def operator(x, mode=0):
         if mode == 0:
             return A @ x
-- 
2.43.0


From b5dfed9997f39464ea4a479ac5bf45ba8a70966b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:49 +0000
Subject: [PATCH 30/57] fix: spread_with_table used the removed np.int

---
 src/cr/sparse/_src/lop/spread.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/spread.py b/src/cr/sparse/_src/lop/spread.py
index 14f033c..d8d3254 100644
--- a/src/cr/sparse/_src/lop/spread.py
+++ b/src/cr/sparse/_src/lop/spread.py
@@ -52,7 +52,7 @@ def spread_with_table(in_dims, out_dims, table, dtable):
                 indices = table[ix_in, it_in]
                 dindices = dtable[ix_in, it_in]
                 not_nan = ~jnp.isnan(indices)
-                indices = (indices).astype(np.int)
+                indices = (indices).astype(int)
                 value = x[ix_in, it_in]
                 y = y.at[:, indices].add(value * not_nan)
         return y
-- 
2.43.0


From 5a238306d138033cfd1b553af7a3827e467a0c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:49 +0000
Subject: [PATCH 31/57] fix: lanbpro loop body called lanbpro_iteration with an
 extra argument

---
 src/cr/sparse/_src/sls/svdpack/lanbpro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/sls/svdpack/lanbpro.py b/src/cr/sparse/_src/sls/svdpack/lanbpro.py
index 9c98014..54f2b65 100644
--- a/src/cr/sparse/_src/sls/svdpack/lanbpro.py
+++ b/src/cr/sparse/_src/sls/svdpack/lanbpro.py
@@ -348,7 +348,7 @@ def lanbpro(A, k, p0):
         return state.iterations < k
 
     def body(state):
-        state =  lanbpro_iteration(A, state, options, state.iterations)
+        state =  lanbpro_iteration(A, state, options)
         return state
 
     # state = lax.while_loop(cond, body, state)
-- 
2.43.0


From 8b6b8e333b040a61f7b97a929dc444fdb93448f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:49 +0000
Subject: [PATCH 32/57] fix: RecoveryPerformance tests for the field x of a
 solution record

---
 src/cr/sparse/_src/tools/performance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/tools/performance.py b/src/cr/sparse/_src/tools/performance.py
index b487146..f7d590d 100644
--- a/src/cr/sparse/_src/tools/performance.py
+++ b/src/cr/sparse/_src/tools/performance.py
@@ -77,7 +77,7 @@ class RecoveryPerformance:
         # Shape of the dictionary/sensing matrix
         M, N = Phi.shape
         if sol is not None:
-            if 'x' in sol:
+            if hasattr(sol, 'x'):
                 x_hat = sol.x
             else:
                 x_hat = build_signal_from_indices_and_values(N, sol.I, sol.x_I) 
-- 
2.43.0


From 0070cbfcd94b0c930b656b5b71669fb2b86fabda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:19 +0000
Subject: [PATCH 33/57] fix: CoSaMP operator_solve_jit takes its tracker as a
 compile-time argument

---
 src/cr/sparse/_src/pursuit/cosamp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/pursuit/cosamp.py b/src/cr/sparse/_src/pursuit/cosamp.py
index 376e7d6..36c447f 100644
--- a/src/cr/sparse/_src/pursuit/cosamp.py
+++ b/src/cr/sparse/_src/pursuit/cosamp.py
@@ -251,6 +251,6 @@ def operator_solve(Phi, y, K, max_iters=None, res_norm_rtol=1e-4,
         iterations=state.iterations, length=Phi.shape[1])
 
 
-operator_solve_jit = jit(operator_solve, static_argnums=(0, 2), static_argnames=("max_iters", "res_norm_rtol"))
+operator_solve_jit = jit(operator_solve, static_argnums=(0, 2), static_argnames=("max_iters", "res_norm_rtol", "tracker"))
 
 solve = operator_solve_jit
-- 
2.43.0


From b7121fd24e4c907ea20bf7c4aafd9733c1d9b909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:19 +0000
Subject: [PATCH 34/57] fix: SPGL1 solve_lasso_jit takes its options as a
 compile-time argument

---
 src/cr/sparse/_src/cvx/spgl1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cvx/spgl1.py b/src/cr/sparse/_src/cvx/spgl1.py
index 8a11e58..a96af1c 100644
--- a/src/cr/sparse/_src/cvx/spgl1.py
+++ b/src/cr/sparse/_src/cvx/spgl1.py
@@ -415,7 +415,7 @@ def solve_lasso(A,
     x0 = jnp.zeros(n)
     return solve_lasso_from(A, b, tau, x0, options=options, tracker=tracker)
 
-solve_lasso_jit = jit(solve_lasso, static_argnames=("A", "tracker"))
+solve_lasso_jit = jit(solve_lasso, static_argnames=("A", "options", "tracker"))
 
 
 def analyze_lasso_state(A, b, tau, options, state, x0):
-- 
2.43.0


From f6703285be14a705176e955ba2cc0b3576e38fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:19 +0000
Subject: [PATCH 35/57] fix: SPG solve_from_jit takes its options as a
 compile-time argument

---
 src/cr/sparse/_src/opt/spg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/opt/spg.py b/src/cr/sparse/_src/opt/spg.py
index 3191e96..d3378ba 100644
--- a/src/cr/sparse/_src/opt/spg.py
+++ b/src/cr/sparse/_src/opt/spg.py
@@ -231,4 +231,4 @@ def solve_from(smooth_f: SmoothFunction,
     return state
 
 
-solve_from_jit = jit(solve_from, static_argnums=(0,1))
\ No newline at end of file
+solve_from_jit = jit(solve_from, static_argnums=(0,1,3))
\ No newline at end of file
-- 
2.43.0


From 9536eadb9a97eff61510690f777252c715d088e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:19 +0000
Subject: [PATCH 36/57] fix: L1-LS solve_jit accepts arrays for the initial
 point

---
 src/cr/sparse/_src/cvx/l1ls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cvx/l1ls.py b/src/cr/sparse/_src/cvx/l1ls.py
index 30eedf6..5b5cd3b 100644
--- a/src/cr/sparse/_src/cvx/l1ls.py
+++ b/src/cr/sparse/_src/cvx/l1ls.py
@@ -381,4 +381,4 @@ def solve(A, y, lambda_, x0=None, u0=None, tol=1e-3, xi=1e-3, t0=None,
     return solve_from(A, y, lambda_, x0, u0, tol, xi, t0, max_iters, pcg_max_iters)
 
 solve_jit  = jit(solve,
-    static_argnames=("A", "x0", "u0", "tol", "xi", "t0", "max_iters", "pcg_max_iters"))
+    static_argnames=("A", "tol", "xi", "t0", "max_iters", "pcg_max_iters"))
-- 
2.43.0


From 84be66c3926f99a3d952202b27083be42d5d589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:47 +0000
Subject: [PATCH 37/57] fix: draw the support and the values of sparse normal
 representations from different keys

---
 src/cr/sparse/_src/data/synthetic/random.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/data/synthetic/random.py b/src/cr/sparse/_src/data/synthetic/random.py
index ad6fea6..135cb8e 100644
--- a/src/cr/sparse/_src/data/synthetic/random.py
+++ b/src/cr/sparse/_src/data/synthetic/random.py
@@ -55,8 +55,9 @@ def sparse_normal_representations(key, D, K, S=1):
         [ 0.          0.          0.        ]
         [-0.14357079  0.59042295 -1.43841705]]
     """
+    key, subkey = random.split(key)
     r = jnp.arange(D)
-    r = random.permutation(key, r)
+    r = random.permutation(subkey, r)
     omega = r[:K]
     omega = jnp.sort(omega)
     shape = [K, S]
-- 
2.43.0


From 18974df8a978b9d379500c3f39b7d3bd7d107564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:49 +0000
Subject: [PATCH 38/57] fix: use different keys for the starting vector and
 k-means in fast spectral clustering

---
 src/cr/sparse/_src/cluster/spectral.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/cluster/spectral.py b/src/cr/sparse/_src/cluster/spectral.py
index d9ae944..1fcd60f 100644
--- a/src/cr/sparse/_src/cluster/spectral.py
+++ b/src/cr/sparse/_src/cluster/spectral.py
@@ -225,7 +225,7 @@ def normalized_symmetric_fast_k(key, W, k):
     kernel = V[:, :k]
     # normalize the rows of kernel
     kernel = cnb.normalize_l2_rw(kernel)
-    result = kmeans(key, kernel, k, iter=100)
+    result = kmeans(random.fold_in(key, 1), kernel, k, iter=100)
     return SpectralclusteringSolution(singular_values=S, 
         assignment=result.assignment,
         # technically we didn't compute the Laplacian correctly
@@ -269,7 +269,7 @@ def normalized_symmetric_sparse_fast_k(key, W, k):
     kernel = V[:, :k]
     # normalize the rows of kernel
     kernel = cnb.normalize_l2_rw(kernel)
-    result = kmeans(key, kernel, k, iter=100)
+    result = kmeans(random.fold_in(key, 1), kernel, k, iter=100)
     return SpectralclusteringSolution(singular_values=S, 
         assignment=result.assignment,
         # technically we didn't compute the Laplacian correctly
-- 
2.43.0


From af0f827e929053707310dff2e295b1da294d950c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:49 +0000
Subject: [PATCH 39/57] fix: give every trial at fixed M and N keys of its own

---
 src/cr/sparse/_src/tools/trials_at_fixed_m_n.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py b/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
index 50e3a20..b4a7375 100644
--- a/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
+++ b/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
@@ -132,18 +132,18 @@ class RecoveryTrialsAtFixed_M_N:
             start_time = time.perf_counter()
             # Keys for tests
             key, subkey = jax.random.split(key)
-            dict_keys = jax.random.split(key, num_dict_trials)
+            dict_keys = jax.random.split(subkey, num_dict_trials)
             trials = 0
             successes = 0
             success_rate = 0
             iters = []
             # Iterate over number of trials (dictionaries * signals)
             for ndt in range(num_dict_trials):
-                dict_key = dict_keys[ndt]
+                dict_key, signals_key = jax.random.split(dict_keys[ndt])
                 print('*', end='', flush=True)
                 # Construct a dictionary
                 Phi = crdict.gaussian_mtx(dict_key, M,N)
-                signal_keys = jax.random.split(dict_key, num_dict_trials)
+                signal_keys = jax.random.split(signals_key, num_signal_trials)
                 for nst in range(num_signal_trials):
                     signal_key = signal_keys[nst]
                     # Construct a signal
-- 
2.43.0


From f67c72b5435393765d4bd00dfcf867a60df35618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:28 +0000
Subject: [PATCH 40/57] fix: 1-bit RFP does not write to the standard output

---
 src/cr/sparse/_src/cs/cs1bit/rfp.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/cr/sparse/_src/cs/cs1bit/rfp.py b/src/cr/sparse/_src/cs/cs1bit/rfp.py
index d0bd816..637fcb4 100644
--- a/src/cr/sparse/_src/cs/cs1bit/rfp.py
+++ b/src/cr/sparse/_src/cs/cs1bit/rfp.py
@@ -80,7 +80,6 @@ def rfp(Phi, y, x0, lambda_=1., delta=0.1, inner_iters=200, outer_iters=20):
     algorithm     
     """
     tau = delta / lambda_
-    print(f'shrinkage threshold: {tau}')
 
     def rfpi_inner(x0, lambda_):
         def init_fun():
@@ -94,16 +93,13 @@ def rfp(Phi, y, x0, lambda_=1., delta=0.1, inner_iters=200, outer_iters=20):
             correlation = y * measurement
             # Only the bits which are wrong are important for further consideration
             problems = jnp.where(correlation <= 0, -correlation, 0)
-            print(f'number of wrong signs: {jnp.sum(correlation < 0)}, {jnp.sum(problems)}')
             # multiply with the bit vector Y^T (f'(term))
             problems = y * problems
             # correlate with columns of Phi
             f_bar = Phi.T @ problems
-            print(f'f_bar: {norm(f_bar)}')
             # STEP-4
             # Gradient Projection on Sphere Surface
             f_tilde = f_bar - jnp.vdot(f_bar,  state.x) *  state.x 
-            print(f'f_tilde: {norm(f_tilde)}, {jnp.max(jnp.abs(f_tilde))}')
             # One-sided quadratic gradient descent
             h = state.x - delta * f_tilde
             #print(jnp.sum(jnp.abs(h)>0.1))
-- 
2.43.0


From 8563cf9e70095e0759e2b7cbbdfb810be2153e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:28 +0000
Subject: [PATCH 41/57] fix: phase transition configuration does not write to
 the standard output

---
 src/cr/sparse/_src/pursuit/phasetransition.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/cr/sparse/_src/pursuit/phasetransition.py b/src/cr/sparse/_src/pursuit/phasetransition.py
index b8cf4c8..727ad8e 100644
--- a/src/cr/sparse/_src/pursuit/phasetransition.py
+++ b/src/cr/sparse/_src/pursuit/phasetransition.py
@@ -46,7 +46,6 @@ def configuration(N):
     etas = Ms / N
     #print(rhos)
     #print(etas)
-    print(Ms)
     added = set()
     configurations = []
     reverse_map = {}
-- 
2.43.0


From 7aa7c67341c4a4664983fb3a075cdd6deb9a7bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:38 +0000
Subject: [PATCH 42/57] fix: dot tests of real operators measure the gap
 relative to the magnitude

---
 src/cr/sparse/_src/lop/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/util.py b/src/cr/sparse/_src/lop/util.py
index 68438f0..c6e62e5 100644
--- a/src/cr/sparse/_src/lop/util.py
+++ b/src/cr/sparse/_src/lop/util.py
@@ -62,7 +62,7 @@ def dot_test_real(key, A, tol=1e-6):
     x = A.trans(v)
     yy = jnp.vdot(y, v)
     xx = jnp.vdot(u, x)
-    rel_gap = jnp.abs(yy - xx) / ((yy + xx + 1e-15) / 2)
+    rel_gap = jnp.abs(yy - xx) / ((jnp.abs(yy + xx) + 1e-15) / 2)
     return rel_gap < tol 
 
 
@@ -96,7 +96,7 @@ def rdot_test_complex(key, A, tol=1e-6):
     yy = cnb.arr_rdot(y, v)
     xx = cnb.arr_rdot(u, x)
 
-    rel_gap = jnp.abs(yy - xx) / ((yy + xx + 1e-15) / 2)
+    rel_gap = jnp.abs(yy - xx) / ((jnp.abs(yy + xx) + 1e-15) / 2)
     return rel_gap < tol 
 
 
-- 
2.43.0


From 8fdccdf8dbb7d41c64c395f6c1c68ec60785bffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:38 +0000
Subject: [PATCH 43/57] fix: best_map with different numbers of true and
 predicted labels

---
 src/cr/sparse/_src/cluster/util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/cluster/util.py b/src/cr/sparse/_src/cluster/util.py
index bc08b1c..2778d2c 100644
--- a/src/cr/sparse/_src/cluster/util.py
+++ b/src/cr/sparse/_src/cluster/util.py
@@ -84,8 +84,12 @@ def best_map(true_labels, pred_labels):
             G[i, j] = np.sum(ilabels & jlabels)
     # Run the Hungarian assignment algorithm
     rows, cols = linear_sum_assignment(-G)
-    mapped_labels = jnp.zeros_like(pred_labels)
-    for i in range(n_l2):
+    # predicted labels which have no counterpart match no true label
+    mapped_labels = jnp.full_like(pred_labels, labels_1[-1] + 1)
+    for i in range(n_l1):
+        if cols[i] >= n_l2:
+            # no predicted label for this true label
+            continue
         old_label = labels_2[cols[i]]
         new_label = labels_1[i]
         mapped_labels = mapped_labels.at[pred_labels == old_label].set(new_label)
-- 
2.43.0


From cb8e62b9e4975ab61b0f90c51107fb1b63a9f8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:38 +0000
Subject: [PATCH 44/57] fix: Gram and frame matrices of complex dictionaries
 keep their imaginary part

---
 src/cr/sparse/_src/dict/props.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/dict/props.py b/src/cr/sparse/_src/dict/props.py
index 02e6207..7d6e799 100644
--- a/src/cr/sparse/_src/dict/props.py
+++ b/src/cr/sparse/_src/dict/props.py
@@ -22,16 +22,14 @@ def gram(A):
     """
     if jnp.isrealobj(A):
         return A.T @ A
-    G = mat_hermitian(A) @ A
-    return G.real
+    return mat_hermitian(A) @ A
 
 def frame(A):
     """Computes the frame matrix :math:`G = A A^T`
     """
     if jnp.isrealobj(A):
         return A @ A.T
-    F = A @ mat_hermitian(A)
-    return F.real
+    return A @ mat_hermitian(A)
 
 
 def coherence_with_index(A):
-- 
2.43.0


From 62873fc232864465f8a628275dd7e1172203ee27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:39 +0000
Subject: [PATCH 45/57] fix: BSBL second moment of a block is the outer product
 of its mean

---
 src/cr/sparse/_src/block/bsbl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/block/bsbl.py b/src/cr/sparse/_src/block/bsbl.py
index bf794d2..da987be 100644
--- a/src/cr/sparse/_src/block/bsbl.py
+++ b/src/cr/sparse/_src/block/bsbl.py
@@ -166,7 +166,7 @@ def compute_sigma_x_pruned(Phi, Sigma0, H, active_blocks):
 
 def compute_cov_x(Sigma_x, mu_x):
     Cov_x = vmap(
-        lambda sx, mx: sx + mx @ mx.T,
+        lambda sx, mx: sx + jnp.outer(mx, mx),
         in_axes=(0,0))(Sigma_x, mu_x)
     return Cov_x
 
-- 
2.43.0


From 1d0281e333cbdad79bd0959046a9ce970e77b780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:39 +0000
Subject: [PATCH 46/57] fix: BSBL high SNR noise variance rule counts active
 coefficients and skips pruned blocks

---
 src/cr/sparse/_src/block/bsbl.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/block/bsbl.py b/src/cr/sparse/_src/block/bsbl.py
index da987be..bc2ce97 100644
--- a/src/cr/sparse/_src/block/bsbl.py
+++ b/src/cr/sparse/_src/block/bsbl.py
@@ -204,12 +204,15 @@ def compute_B_B_inv(B0):
 
 # This rule doesn't seem to work in noiseless case
 def update_lambda_high_snr(lambda_val, gammas, Sigma_x, B_inv, r_norm_sqr, m):
-    n_blocks = len(gammas)
+    # pruned blocks have zero gamma and no active coefficients
+    active = gammas > 0
     ll = vmap(
         lambda g, sx: jnp.trace(sx @ B_inv) / g,
-        in_axes=(0, 0))(gammas, Sigma_x)
-    lambda_comp = jnp.sum(ll)
-    carry = lambda_val * (n_blocks - lambda_comp)
+        in_axes=(0, 0))(jnp.where(active, gammas, 1), Sigma_x)
+    lambda_comp = jnp.sum(jnp.where(active, ll, 0))
+    # number of active coefficients
+    n_active = jnp.sum(active) * Sigma_x.shape[1]
+    carry = lambda_val * (n_active - lambda_comp)
     new_lambda_val = (r_norm_sqr + carry) / m
     # print(f'old:{lambda_val:.2e}, new:{new_lambda_val:.2e}, comp: {lambda_comp:.2e}, carry: {carry:.2e}, r_norm_sqr: {r_norm_sqr:.2e}')
     return new_lambda_val
-- 
2.43.0


From f19f35cb5e8fad8c85e5c76fa071fc24b68bb4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:18 +0000
Subject: [PATCH 47/57] fix: Gaussian kernel had half the requested standard
 deviation

---
 src/cr/sparse/_src/vision/kernels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/vision/kernels.py b/src/cr/sparse/_src/vision/kernels.py
index 6d57bcf..8187bae 100644
--- a/src/cr/sparse/_src/vision/kernels.py
+++ b/src/cr/sparse/_src/vision/kernels.py
@@ -73,8 +73,8 @@ def kernel_gaussian(size=5, sigma=1.):
     # form a mesh grid of 2 D points
     xx, yy = jnp.meshgrid(ax_x, ax_y)
     # Compute the kernel values at the specified points in the grid
-    factor_x = 2 / sigma_x ** 2
-    factor_y = 2 / sigma_y ** 2
+    factor_x = 1 / (2 * sigma_x ** 2)
+    factor_y = 1 / (2 * sigma_y ** 2)
     kernel = jnp.exp(-(jnp.square(xx) * factor_x + jnp.square(yy) * factor_y))
     # normalize the kernel and return
     return kernel / jnp.sum(kernel)
\ No newline at end of file
-- 
2.43.0


From e0044da15b9864aa1add3a34715191429ff68973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:18 +0000
Subject: [PATCH 48/57] fix: BSBL option learn_block_corr=0 was ignored

---
 src/cr/sparse/_src/block/bsbl.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/block/bsbl.py b/src/cr/sparse/_src/block/bsbl.py
index bc2ce97..20c7808 100644
--- a/src/cr/sparse/_src/block/bsbl.py
+++ b/src/cr/sparse/_src/block/bsbl.py
@@ -187,13 +187,14 @@ def compute_cov_x_sum_pruned(Cov_x, gammas, active_blocks):
         in_axes=(0, 0, 0))(Cov_x, gammas, active_blocks)
     return jnp.sum(B_i, axis=0)
 
-def compute_B_B_inv(B0):
+def compute_B_B_inv(B0, learn_block_corr=1):
     m0 = jnp.mean(jnp.diag(B0))
     m1 = jnp.mean(jnp.diag(B0, 1))
     # AR-1 coefficient
     r = m1 / m0
     # make sure that it is bounded
     r = jnp.clip(r, -0.99, 0.99)
+    r = jnp.where(learn_block_corr, r, 0.)
     # print(f'r: {r}')
     # block size
     b = B0.shape[0]
@@ -550,7 +551,7 @@ def bsbl_em(Phi, y, blk_len,
         Sigma_x, _ = compute_sigma_x_pruned(Phi, state.Sigma0, H, active_blocks)
         Cov_x = compute_cov_x(Sigma_x, mu_x)
         Bi_sum = compute_cov_x_sum_pruned(Cov_x, state.gammas, active_blocks)
-        B, B_inv = compute_B_B_inv(Bi_sum)
+        B, B_inv = compute_B_B_inv(Bi_sum, learn_block_corr)
         # flattened signal
         x_hat = mu_x.flatten()
         # residual
@@ -678,7 +679,7 @@ def bsbl_bo(Phi, y, blk_len,
         Sigma_x, HPhi = compute_sigma_x_pruned(Phi, state.Sigma0, H, active_blocks)
         Cov_x = compute_cov_x(Sigma_x, mu_x)
         Bi_sum = compute_cov_x_sum_pruned(Cov_x, state.gammas, active_blocks)
-        B, B_inv = compute_B_B_inv(Bi_sum)
+        B, B_inv = compute_B_B_inv(Bi_sum, learn_block_corr)
         # flattened signal
         x_hat = mu_x.flatten()
         # residual
@@ -801,7 +802,7 @@ def bsbl_bo_np(Phi, y, blk_len,
         Sigma_x, HPhi = compute_sigma_x(Phi, state.Sigma0, H)
         Cov_x = compute_cov_x(Sigma_x, mu_x)
         Bi_sum = compute_cov_x_sum(Cov_x, state.gammas)
-        B, B_inv = compute_B_B_inv(Bi_sum)
+        B, B_inv = compute_B_B_inv(Bi_sum, learn_block_corr)
         # flattened signal
         x_hat = mu_x.flatten()
         # residual
-- 
2.43.0


From 1642ba631196e268a95477e0f6658a7af9dbd2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:18 +0000
Subject: [PATCH 49/57] fix: l1ls stopped at starting points with a negative
 dual objective and used a stale relative gap

---
 src/cr/sparse/_src/cvx/l1ls.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/cvx/l1ls.py b/src/cr/sparse/_src/cvx/l1ls.py
index 5b5cd3b..422f668 100644
--- a/src/cr/sparse/_src/cvx/l1ls.py
+++ b/src/cr/sparse/_src/cvx/l1ls.py
@@ -167,7 +167,7 @@ def solve_from(A, y, lambda_, x0, u0, tol=1e-3, xi=1e-3, t0=None,
         # initial value of the dual objective
         dual_obj = get_dual_obj(nu)
         gap = primal_obj - dual_obj
-        rel_gap = gap / dual_obj
+        rel_gap = gap / jnp.abs(dual_obj)
         dxu = jnp.zeros(2*n)
         return State(x=x0, u=u0, z=z, nu=nu, dxu=dxu,
             primal_obj=primal_obj, dual_obj=dual_obj, gap=gap, rel_gap=rel_gap, 
@@ -340,7 +340,7 @@ def solve_from(A, y, lambda_, x0, u0, tol=1e-3, xi=1e-3, t0=None,
         # duality gap
         gap = primal_obj - dual_obj
         # relative gap
-        rel_gap = gap / state.dual_obj
+        rel_gap = gap / jnp.abs(dual_obj)
         #--------------------------------------------------------------------------------
         # update t if required TNIPM step 7
         #--------------------------------------------------------------------------------
-- 
2.43.0


From 0c1ad3ad700bb04f2333672b5303e61588db1848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:35 +0000
Subject: [PATCH 50/57] fix: OMP of complex operators used the transpose
 instead of the conjugate transpose in the Cholesky update

---
 src/cr/sparse/_src/pursuit/omp.py  | 6 ++++--
 src/cr/sparse/_src/pursuit/util.py | 6 +++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/omp.py b/src/cr/sparse/_src/pursuit/omp.py
index e0ff042..fe1489a 100644
--- a/src/cr/sparse/_src/pursuit/omp.py
+++ b/src/cr/sparse/_src/pursuit/omp.py
@@ -19,7 +19,7 @@ from jax import vmap, jit, lax
 
 import cr.nimble as crn
 from .util import abs_max_idx, gram_chol_update
-from cr.nimble import solve_spd_chol
+from cr.nimble import solve_spd_chol, solve_Lx_b, solve_LTx_b
 from .defs import RecoverySolution
 
 def matrix_solve(Phi, y, max_iters, max_res_norm=1e-6):
@@ -163,7 +163,9 @@ def _operator_step(times, trans, y, p, zv, state):
     # sub-vector of proxy corresponding to selected indices
     p_I = p[I]
     # sub-vector of representation coefficients estimated so far
-    x_I = solve_spd_chol(L, p_I)
+    # L L^H x_I = p_I
+    u = solve_Lx_b(L, p_I)
+    x_I = jnp.conj(solve_LTx_b(L, jnp.conj(u)))
     # updated residual after first iteration
     r = y - Phi_I @ x_I
     # norm squared of new residual
diff --git a/src/cr/sparse/_src/pursuit/util.py b/src/cr/sparse/_src/pursuit/util.py
index 8448a34..1f811f0 100644
--- a/src/cr/sparse/_src/pursuit/util.py
+++ b/src/cr/sparse/_src/pursuit/util.py
@@ -28,13 +28,13 @@ def largest_indices(h, K):
 
 
 def gram_chol_update(L, v):
-    r"""Incrementally updates the Cholesky factorization :math:`G = L L^T` where :math:`G = \Phi^T \Phi`
+    r"""Incrementally updates the Cholesky factorization :math:`G = L L^H` where :math:`G = \Phi^H \Phi`
     """
     m, n = L.shape
     z = jnp.zeros((m, 1))
     w = solve_Lx_b(L, v)
-    s = jnp.sqrt(1  - w.T @ w)
+    s = jnp.sqrt(1  - jnp.real(jnp.vdot(w, w)))
     L0 = jnp.hstack((L, z))
-    L1 = jnp.hstack((w.T, s))
+    L1 = jnp.hstack((jnp.conj(w), s))
     L = jnp.vstack((L0, L1))
     return L
-- 
2.43.0


From 2077373f65219fff2677086bfe0578e6b904b80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:38 +0000
Subject: [PATCH 51/57] fix: Grassmannian frame construction scaled columns
 twice instead of rows and columns

---
 src/cr/sparse/_src/dict/grass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/dict/grass.py b/src/cr/sparse/_src/dict/grass.py
index 689e91f..0ac55a6 100644
--- a/src/cr/sparse/_src/dict/grass.py
+++ b/src/cr/sparse/_src/dict/grass.py
@@ -95,7 +95,7 @@ def build_grassmannian_frame(init,
         # Ensure that the diagonal elements of G continue to be 1
         d = jnp.diag(g)
         d2 = 1. / jnp.sqrt(d)
-        g = d2 * g * d2
+        g = d2[:, None] * g * d2[None, :]
         return g
 
     # run the alternate projections
-- 
2.43.0


From 6f9085fe63e584ab294f1756aaca0b788a939dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:56 +0000
Subject: [PATCH 52/57] fix: yall1 declared a zero solution of weighted l1-l2
 problems without looking at the weights

---
 src/cr/sparse/_src/cvx/adm/yall1.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/cvx/adm/yall1.py b/src/cr/sparse/_src/cvx/adm/yall1.py
index 8e153b7..04f3fbd 100644
--- a/src/cr/sparse/_src/cvx/adm/yall1.py
+++ b/src/cr/sparse/_src/cvx/adm/yall1.py
@@ -490,10 +490,11 @@ def solve(A, b, x0=None, z0=None, W=None, weights=None, nonneg=False, rho=0., de
     n_trans = 1
     n = Atb.shape[0]
     b_max  = float(norm(b, ord=jnp.inf))
-    atb_max = float(norm(Atb, ord=jnp.inf))
     zero_solution = False
     if rho > 0:
-        zero_solution = atb_max <= rho
+        # optimality of zero: |A^T b| is bounded by the weighted regularization
+        w = 1. if weights is None else weights
+        zero_solution = jnp.all(jnp.abs(Atb) <= rho * w)
     if delta > 0:
         zero_solution = norm(b) <= delta
     if zero_solution:
-- 
2.43.0


From cbede471d37b9c18d52fccb063240aef5f63cc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:19 +0000
Subject: [PATCH 53/57] fix: rfp descends the one-sided quadratic cost

The gradient of sum(min(y * Phi x, 0)^2)/2 is Phi^T (y * min(y * Phi x, 0)).
The code used its negative, so each step increased the number of sign errors.
---
 src/cr/sparse/_src/cs/cs1bit/rfp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cs/cs1bit/rfp.py b/src/cr/sparse/_src/cs/cs1bit/rfp.py
index 637fcb4..3e848fd 100644
--- a/src/cr/sparse/_src/cs/cs1bit/rfp.py
+++ b/src/cr/sparse/_src/cs/cs1bit/rfp.py
@@ -92,7 +92,7 @@ def rfp(Phi, y, x0, lambda_=1., delta=0.1, inner_iters=200, outer_iters=20):
             # see which bits have same sign, which bits have different sign
             correlation = y * measurement
             # Only the bits which are wrong are important for further consideration
-            problems = jnp.where(correlation <= 0, -correlation, 0)
+            problems = jnp.where(correlation <= 0, correlation, 0)
             # multiply with the bit vector Y^T (f'(term))
             problems = y * problems
             # correlate with columns of Phi
-- 
2.43.0


From 4c939acef34cc89a6e60b3d2becfc2ed19174d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:24 +0000
Subject: [PATCH 54/57] fix: rfp uses the relaxed lambda of each outer
 iteration

tau was computed once from the initial lambda, so lambda *= 1.5 had no effect.
---
 src/cr/sparse/_src/cs/cs1bit/rfp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cs/cs1bit/rfp.py b/src/cr/sparse/_src/cs/cs1bit/rfp.py
index 3e848fd..dd810df 100644
--- a/src/cr/sparse/_src/cs/cs1bit/rfp.py
+++ b/src/cr/sparse/_src/cs/cs1bit/rfp.py
@@ -79,9 +79,10 @@ def rfp(Phi, y, x0, lambda_=1., delta=0.1, inner_iters=200, outer_iters=20):
     """Solver fo 1-bit compressive sensing with renormalized fixed points iteration
     algorithm     
     """
-    tau = delta / lambda_
 
     def rfpi_inner(x0, lambda_):
+        tau = delta / lambda_
+
         def init_fun():
             return RFPState(x=x0, x_prev=jnp.zeros_like(x0), iterations=0)
 
-- 
2.43.0


From 25c0cc5b21915e5ebbd400c8287f96419c286536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:46 +0000
Subject: [PATCH 55/57] fix: batch_build_representation_omp represents the
 vectors of X

It solved for the normalized vectors, so its coefficients and residuals differed
from build_representation_omp whenever the columns of X are not unit norm.
---
 src/cr/sparse/_src/cluster/ssc/omp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cluster/ssc/omp.py b/src/cr/sparse/_src/cluster/ssc/omp.py
index b248709..201b54b 100644
--- a/src/cr/sparse/_src/cluster/ssc/omp.py
+++ b/src/cr/sparse/_src/cluster/ssc/omp.py
@@ -93,7 +93,7 @@ def batch_build_representation_omp(X, K, batch_size):
         # rows for setting the self inner product to 0.
         r = rr + start
         # Let's restrict our attention to this batch only
-        X_batch = Xn[:, start:end]
+        X_batch = X[:, start:end]
         # The residual 
         R = X_batch
         # Let's conduct first iteration of OMP
-- 
2.43.0


From b05af4578ebd775e8eaa731c9c6896555566955c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:06 +0000
Subject: [PATCH 56/57] fix: lanbpro reorthogonalizes p against the selected
 left vectors

The index set chosen for p was computed but the one of r was used, and the
reset orthogonality estimates mu were stored in nu.
---
 src/cr/sparse/_src/sls/svdpack/lanbpro.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/sls/svdpack/lanbpro.py b/src/cr/sparse/_src/sls/svdpack/lanbpro.py
index 54f2b65..d6831ce 100644
--- a/src/cr/sparse/_src/sls/svdpack/lanbpro.py
+++ b/src/cr/sparse/_src/sls/svdpack/lanbpro.py
@@ -302,16 +302,16 @@ def lanbpro_iteration(A, state: LanBProState, options: LanBDOptions):
             None
         )
         # carry out reorthogonalization
-        p2, p2_norm, iters = reorth_mgs(U, p, p_norm, indices, gamma)
+        p2, p2_norm, iters = reorth_mgs(U, p, p_norm, reorth_indices, gamma)
         # reset mu in the entries which have been reorthogonalized
         mu2 = jnp.where(reorth_indices, M2*eps, mu)
         # if a reorthogonalization was forced. it won't be for next iteration
         b_force_reorth2 = jnp.logical_not(b_force_reorth)
         return p2, p2_norm, reorth_indices, mu2, b_force_reorth2
     # reorthogonalize p if required
-    p, p_norm, indices, nu, b_force_reorth = lax.cond(reorth_cond,
+    p, p_norm, indices, mu, b_force_reorth = lax.cond(reorth_cond,
         reorth_p,
-        lambda _ : (p, p_norm, indices, nu, b_force_reorth),
+        lambda _ : (p, p_norm, indices, mu, b_force_reorth),
         None
     )
     # Check for convergence or failure to maintain semiorthogonality
-- 
2.43.0


From 4a70d30df89b7524b0228f1bdf7fa5d55b230897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:54 +0000
Subject: [PATCH 57/57] fix: windowed_op and binary_dict_alg keep the imaginary
 part of complex data

---
 src/cr/sparse/_src/lop/random.py      | 2 +-
 src/cr/sparse/_src/lop/windowed_op.py | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/lop/random.py b/src/cr/sparse/_src/lop/random.py
index 27a6e64..dcbf647 100644
--- a/src/cr/sparse/_src/lop/random.py
+++ b/src/cr/sparse/_src/lop/random.py
@@ -169,7 +169,7 @@ def binary_dict_alg(key, m, n=None, axis=0):
         return y
 
     def trans(y):
-        x = jnp.zeros(n)
+        x = jnp.zeros(n, dtype=y.dtype)
         for i  in range(n):
             v = jax.random.bernoulli(keys[i], shape=(m,))
             x = x.at[i].set(v  @ y)
diff --git a/src/cr/sparse/_src/lop/windowed_op.py b/src/cr/sparse/_src/lop/windowed_op.py
index 1827dc6..81392ff 100644
--- a/src/cr/sparse/_src/lop/windowed_op.py
+++ b/src/cr/sparse/_src/lop/windowed_op.py
@@ -59,14 +59,15 @@ def windowed_op(m, T, overlap=0, axis=0):
     # x padding to be used in adjoint operation
     xz = jnp.zeros(tm + yl -m)
     # initial value of y for trans operation
-    ya = jnp.zeros(tn * n_blocks)
+    ya = jnp.zeros(tn * n_blocks, dtype=dtype)
 
     def times1d(x):
         def body_func(i, y):            
             xw = x[i*tn + n_range]
             idx = i * offset + m_range
             return y.at[idx].add(T.times(xw))
-        y = lax.fori_loop(0, n_blocks, body_func, yf)
+        y = lax.fori_loop(0, n_blocks, body_func,
+            yf.astype(jnp.result_type(yf, x)))
         return y[:m]
 
 
@@ -76,7 +77,8 @@ def windowed_op(m, T, overlap=0, axis=0):
         def body_func(i, y):
             xw = x[i * offset + m_range]
             return y.at[i*tn + n_range].set(T.trans(xw))
-        return lax.fori_loop(0, n_blocks, body_func, ya)
+        return lax.fori_loop(0, n_blocks, body_func,
+            ya.astype(jnp.result_type(ya, x)))
 
     times, trans = apply_along_axis(times1d, trans1d, axis)
 
-- 
2.43.0

