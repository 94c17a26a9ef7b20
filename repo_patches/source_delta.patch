From f404c1b277a9e4059a0ef79f0e74b3c226e2db87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:26 +0000
Subject: [PATCH 01/38] fix: process(t, c=...) keeps the dtype of c when no
 dtype is given

---
 sdepy/infrastructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index d722e2e..0c2d437 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -441,7 +441,7 @@ class process(np.ndarray):
             if t.size == 1:
                 x = c[np.newaxis, ..., np.newaxis]
             else:
-                x = np.empty(shape=t.shape + c.shape + (1,), dtype=dtype)
+                x = np.empty(shape=t.shape + c.shape + (1,), dtype=c.dtype)
                 x[...] = c[np.newaxis, ..., np.newaxis]
         else:
             assert False
-- 
2.43.0


From d925e6a1e792666f11a4c71663ad15683665d741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:26 +0000
Subject: [PATCH 02/38] fix: time and path indexing of a process handles NumPy
 integers as integers

---
 sdepy/infrastructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 0c2d437..406ee27 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -690,7 +690,7 @@ class process(np.ndarray):
             return cls(self.t, x=x[colon + key + colon])
         # 't' and 'p' modes - timeline an paths indexing
         assert len(key) <= 1  # only one index is expected
-        if len(key) == 1 and isinstance(key[0], int):
+        if len(key) == 1 and isinstance(key[0], (int, np.integer)):
             # an integer index is treated as a slice of 1
             i = key[0]
             key = (slice(i, None, None),) if i == -1 else \
-- 
2.43.0


From dff51460cdfb2acde0c49fafc64774f1f4aa9498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:26 +0000
Subject: [PATCH 03/38] fix: interpolation of an integer process is exact at
 its time points

---
 sdepy/infrastructure.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 406ee27..b54c7ec 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -609,7 +609,12 @@ class process(np.ndarray):
                 )
 
             def f(s):
-                return g(s).astype(x.dtype, copy=False)
+                y = g(s)
+                if not issubclass(x.dtype.type, np.inexact):
+                    # avoid altering stored values by truncation
+                    # of rounding errors
+                    y = np.rint(y)
+                return y.astype(x.dtype, copy=False)
             return f
 
     def __call__(self, s, ds=None, *, kind=None):
-- 
2.43.0


From 9ce024865541562bec97c4521ad8311b38f58511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:47 +0000
Subject: [PATCH 04/38] fix: sums, means and variances of integer and boolean
 processes are not truncated to the process dtype

---
 sdepy/infrastructure.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index b54c7ec..dbe6839 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -858,7 +858,6 @@ class process(np.ndarray):
         One path process exposing for each time point
         the sum of process values across paths.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t,
                        x=self.sum(axis=-1, dtype=dtype, out=out,
                                   keepdims=True))
@@ -868,7 +867,6 @@ class process(np.ndarray):
         One path process exposing for each time point
         the mean of process values across paths.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t,
                        x=self.mean(axis=-1, dtype=dtype, out=out,
                                    keepdims=True))
@@ -878,7 +876,6 @@ class process(np.ndarray):
         One path process exposing for each time point
         the variance of process values across paths.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t,
                        x=self.var(axis=-1, dtype=dtype, out=out,
                                   ddof=ddof, keepdims=True))
@@ -888,7 +885,6 @@ class process(np.ndarray):
         One path process exposing for each time point
         the standard deviation of process values across paths.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t,
                        x=self.std(axis=-1, dtype=dtype, out=out,
                                   ddof=ddof, keepdims=True))
@@ -987,7 +983,6 @@ class process(np.ndarray):
         Constant process exposing for each path the sum of
         process values along time.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t[:1],
                        x=self.sum(axis=0, dtype=dtype, out=out,
                                   keepdims=True))
@@ -997,7 +992,6 @@ class process(np.ndarray):
         Process exposing for each path and time point
         the cumulative sum of process values along time.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t,
                        x=self.cumsum(axis=0, dtype=dtype, out=out))
 
@@ -1006,7 +1000,6 @@ class process(np.ndarray):
         Constant process exposing for each path the mean of
         process values along time.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t[:1],
                        x=self.mean(axis=0, dtype=dtype, out=out,
                                    keepdims=True))
@@ -1016,7 +1009,6 @@ class process(np.ndarray):
         Constant process exposing for each path the variance of
         process values along time.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t[:1],
                        x=self.var(axis=0, dtype=dtype, out=out,
                                   ddof=ddof, keepdims=True))
@@ -1026,7 +1018,6 @@ class process(np.ndarray):
         Constant process exposing for each path the standard
         deviation of process values along time.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t[:1],
                        x=self.std(axis=0, dtype=dtype, out=out,
                                   ddof=ddof, keepdims=True))
-- 
2.43.0


From bc8ecf80dec3691fd9e69200e2398adf38e12740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:08 +0000
Subject: [PATCH 05/38] fix: tdiff, tder and tint of integer processes are not
 computed in the process dtype

---
 sdepy/infrastructure.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index dbe6839..0ea0101 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -1072,7 +1072,9 @@ class process(np.ndarray):
         t = self.t[:-1] if fwd else self.t[1:]
         x = np.diff(self, axis=0)
         if dt_exp:
-            np.divide(x, self.dtx**dt_exp, out=x)
+            # the result may not fit in the dtype of an integer process
+            out = x if issubclass(x.dtype.type, np.inexact) else None
+            x = np.divide(x, self.dtx**dt_exp, out=out)
         return process(t=t, x=x)
 
     def tder(self):
@@ -1109,9 +1111,13 @@ class process(np.ndarray):
         ``p.tin().tder()`` equals, within rounding errors,
         ``p['t', :-1]``
         """
-        x = np.empty(self.shape, dtype=self.dtype)
+        dx = self[:-1]*self.dtx
+        # the result may not fit in the dtype of an integer process
+        dtype = self.dtype if issubclass(self.dtype.type, np.inexact) \
+            else dx.dtype
+        x = np.empty(self.shape, dtype=dtype)
         x[0] = 0
-        x[1:] = self[:-1]*self.dtx
+        x[1:] = dx
         return process(t=self.t,
                        x=x.cumsum(axis=0, out=x))
 
-- 
2.43.0


From 84ce70fc1f51008495cae0abe2abca2c0f9d022f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:11 +0000
Subject: [PATCH 06/38] fix: double_exp_rv.exp_mean accepts array parameters

---
 sdepy/infrastructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 0ea0101..6a8e356 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -1790,7 +1790,7 @@ class _double_exp_rv:
 
     def exp_mean(self):
         a, b, pa, pb = self._a, self._b, self._pa, self._pb
-        return (pa/(1 - a) if a < 1 else np.inf) + pb/(1 + b) + 0
+        return np.where(a < 1, pa/(1 - a), np.inf) + pb/(1 + b) + 0
 
 
 # Convenience methods for handling distributions
-- 
2.43.0


From 33f313d90b681f0ce57eac362af93c9314719dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:11 +0000
Subject: [PATCH 07/38] fix: a time point close to the next stored one, within
 rtol, is matched by sources with memory

---
 sdepy/infrastructure.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 6a8e356..af28e6f 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2275,9 +2275,11 @@ class true_source(source):
 
         def f(s):
             k = bisect.bisect_right(t, s)
-            if np.isclose(s, t[k-1], rtol=rtol, atol=0.):
-                return getvalue(z[k-1])
-            elif k == len(t):
+            for h in (k-1, k):
+                if 0 <= h < len(t) and \
+                   np.isclose(s, t[h], rtol=rtol, atol=0.):
+                    return getvalue(z[h])
+            if k == len(t):
                 z.append(self.new_outside(z[-1], t[-1], s))
                 t.append(s)
                 return getvalue(z[-1])
-- 
2.43.0


From ab6ffd001804cacc32a46a181e550834889f77f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:11 +0000
Subject: [PATCH 08/38] fix: sub-sources of a source with memory index values,
 not time points

---
 sdepy/infrastructure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index af28e6f..296edf7 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2170,7 +2170,8 @@ class _indexed_true_source:
 
     def __call__(self, t, dt=None):
         """See true_source class documentation."""
-        return self._source(t, dt)[self._index]
+        t_ndim = np.broadcast(t, 0 if dt is None else dt).ndim
+        return self._source(t, dt)[(slice(None),)*t_ndim + self._index]
 
     @property
     def size(self):
-- 
2.43.0


From 20108eaf997c5e5d35d29b66d4ee66c0cedcb0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:11 +0000
Subject: [PATCH 09/38] fix: true_wiener_source accepts a process or a singular
 matrix as a time-dependent correlation

---
 sdepy/infrastructure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 296edf7..5fead02 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2491,7 +2491,9 @@ dw, source of standard Wiener process (brownian motion) increments with memory.
         if callable(corr):
             a, b = (s - t1), (t2 - s)
             A, B = corr((t1+s)/2)*a, corr((s+t2)/2)*b
-            Z = B @ np.linalg.inv(A + B)
+            if A.ndim == 3:
+                A, B = A[..., 0], B[..., 0]  # remove paths axis if present
+            Z = B @ np.linalg.pinv(A + B)  # correlations may be singular
             Id = np.eye(A.shape[0])
             dw.corr = (Z @ A)*np.sign(a)
             ws = self._mult(Z, w1) + self._mult((Id - Z), w2) + dw(0, 1)
-- 
2.43.0


From a1936d23aff83c1cc21dcb94d1fc35a307ef198e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:11 +0000
Subject: [PATCH 10/38] fix: true_cpoisson_source handles vanishing and
 cancelling jumps

---
 sdepy/infrastructure.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 5fead02..9212172 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2647,8 +2647,6 @@ class true_cpoisson_source(true_source):
 
     def _encode_y(self, dn_value, yy):
         nmax = dn_value.max()
-        assert nmax == (yy != 0).sum(axis=-1).max()
-
         y_value = []
         for i in range(1, nmax + 1):
             index = (dn_value == i)
@@ -2672,11 +2670,11 @@ class true_cpoisson_source(true_source):
         j1, y1_value = z1
         j2, _ = z2  # y2_value not needed
 
-        if (j1 == j2).all():
-            return None
-
         dn = self._dj.dn
-        n1, ns, n2 = dn(t1), dn(s), dn(t2)  # use memory of dn
+        n1, n2 = dn(t1), dn(t2)  # use memory of dn
+        if (n1 == n2).all():
+            return None
+        ns = dn(s)
 
         dn_t2_t1 = n2 - n1
         dn_s_t1 = ns - n1
-- 
2.43.0


From a25b1d936a17e8c5c577c685073812426d69cd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:34 +0000
Subject: [PATCH 11/38] fix: Poisson and compound Poisson sources work with
 counts of float dtype

---
 sdepy/infrastructure.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 9212172..263ae67 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2029,7 +2029,7 @@ class cpoisson_source(source):
         y_value = []
         for i in np.ndindex(dt.shape):
             dn_positive_i = sign_dt[i]*dn[i]
-            nmax = (dn_positive_i).max()
+            nmax = int(dn_positive_i.max())
             rv = y(t[i] + dt[i]/2) if callable(y) else y
             for j in range(1, nmax+1):
                 index = (dn_positive_i == j)
@@ -2559,7 +2559,7 @@ class true_poisson_source(true_source):
             return None
         p = (s - t1)/(t2 - t1)
         n = n2 - n1
-        return n1 + self.rng.binomial(n, p, n.shape)
+        return n1 + self.rng.binomial(n.astype(int), p, n.shape)
 
 
 class true_cpoisson_source(true_source):
@@ -2632,7 +2632,7 @@ class true_cpoisson_source(true_source):
         return [super().init(), None]
 
     def _decode_y(self, dn_value, y_value):
-        nmax = dn_value.max()
+        nmax = int(dn_value.max())
         yy = np.zeros(dn_value.shape + (nmax,),
                       dtype=self.dtype)
         for y in y_value:
@@ -2646,7 +2646,7 @@ class true_cpoisson_source(true_source):
         return yy
 
     def _encode_y(self, dn_value, yy):
-        nmax = dn_value.max()
+        nmax = int(dn_value.max())
         y_value = []
         for i in range(1, nmax + 1):
             index = (dn_value == i)
@@ -2679,7 +2679,7 @@ class true_cpoisson_source(true_source):
         dn_t2_t1 = n2 - n1
         dn_s_t1 = ns - n1
         dn_t2_s = n2 - ns
-        nmax = dn_t2_t1.max()
+        nmax = int(dn_t2_t1.max())
 
         # decode y_value
         yy1 = self._decode_y(dn_t2_t1, y1_value)
@@ -2687,7 +2687,7 @@ class true_cpoisson_source(true_source):
         # split y_value
         yy1_updated = yy1.copy()
         yy_new = np.zeros_like(yy1)
-        for i in range(dn_s_t1.max() + 1):
+        for i in range(int(dn_s_t1.max()) + 1):
             index = (dn_s_t1 == i)
             yy1_updated[index, i:] = 0
             yy_new[index, :nmax-i] = yy1[index, i:]
-- 
2.43.0


From d281f4f62f0ef6a0ecba779f6dadfcf4a6b54c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:34 +0000
Subject: [PATCH 12/38] fix: compound Poisson sources broadcast a dn source
 with fewer value axes

---
 sdepy/infrastructure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 263ae67..2759c37 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2028,7 +2028,7 @@ class cpoisson_source(source):
         y = self.y
         y_value = []
         for i in np.ndindex(dt.shape):
-            dn_positive_i = sign_dt[i]*dn[i]
+            dn_positive_i = np.broadcast_to(sign_dt[i]*dn[i], shape)
             nmax = int(dn_positive_i.max())
             rv = y(t[i] + dt[i]/2) if callable(y) else y
             for j in range(1, nmax+1):
@@ -2676,6 +2676,7 @@ class true_cpoisson_source(true_source):
             return None
         ns = dn(s)
 
+        n1, ns, n2 = (np.broadcast_to(n, j1.shape) for n in (n1, ns, n2))
         dn_t2_t1 = n2 - n1
         dn_s_t1 = ns - n1
         dn_t2_s = n2 - ns
-- 
2.43.0


From ae6128d18759fe4e1d479cd6251726c97b1c594f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:07 +0000
Subject: [PATCH 13/38] fix: jump distributions with array parameters act entry
 by entry in cpoisson_source

---
 sdepy/infrastructure.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 2759c37..d09dc6b 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -1719,6 +1719,7 @@ def _norm_rv(a=0, b=1):
     a, b = np.broadcast_arrays(a, b)
     rv = scipy.stats.norm(loc=a, scale=b)
     rv.exp_mean = lambda: exp(a + b*b/2) + 0
+    rv._shape = a.shape
     return rv
 
 
@@ -1727,6 +1728,7 @@ def _uniform_rv(a=0, b=1):
     a, b = np.broadcast_arrays(a, b)
     rv = scipy.stats.uniform(loc=a, scale=b-a)
     rv.exp_mean = lambda: (exp(b) - exp(a))/(b - a) + 0
+    rv._shape = a.shape
     return rv
 
 
@@ -1736,6 +1738,7 @@ class _exp_rv:
         a = self._a = np.asarray(a)
         if (a == 0).any():
             raise ValueError('domain error in arguments')
+        self._shape = a.shape
         self._s = np.sign(a)
         self._rv = scipy.stats.expon(scale=np.abs(a))
 
@@ -1766,6 +1769,7 @@ class _double_exp_rv:
         if (a <= 0).any() or (b <= 0).any() \
            or (pa > 1).any() or (pa < 0).any():
             raise ValueError('domain error in arguments')
+        self._shape = a.shape
         self._rvxa = scipy.stats.expon(scale=a)
         self._rvxb = scipy.stats.expon(scale=b)
         self._rvu = scipy.stats.uniform(scale=1.)
@@ -1845,6 +1849,8 @@ def rvmap(f, y):
             yt = y(t) if callable(y) else y
 
             class new_yt_class:
+                _shape = getattr(yt, '_shape', ())
+
                 def rvs(self, size, random_state=None):
                     yt_rvs = yt.rvs(size=size, random_state=random_state)
                     return (f(t, yt_rvs) if time_dependent_f
@@ -1856,6 +1862,8 @@ def rvmap(f, y):
     else:
 
         class new_y_class:
+            _shape = getattr(y, '_shape', ())
+
             def rvs(self, size, random_state=None):
                 return f(y.rvs(size=size, random_state=random_state))
 
@@ -2016,6 +2024,15 @@ class cpoisson_source(source):
                 DeprecationWarning)
             return rv_sample
 
+    def _y_sample(self, rv, index, j):
+        """Sample j variates of rv for each selected entry of index"""
+        if getattr(rv, '_shape', ()) in ((), (1,), (1, 1)):
+            return self._y_rvs(rv.rvs, (index.sum(), j), self.rng)
+        else:
+            # the parameters of rv depend on the entry
+            y = self._y_rvs(rv.rvs, (j,) + index.shape, self.rng)
+            return np.moveaxis(y, 0, -1)[index]
+
     def __call__(self, t, dt):
         """See cpoisson_source class documentation."""
 
@@ -2034,7 +2051,7 @@ class cpoisson_source(source):
             for j in range(1, nmax+1):
                 index = (dn_positive_i == j)
                 if index.any():
-                    y_sample = self._y_rvs(rv.rvs, (index.sum(), j), self.rng)
+                    y_sample = self._y_sample(rv, index, j)
                     dz[i][index] = sign_dt[i]*y_sample.sum(axis=-1)
                     y_value.append(y_sample)
         self.dn_value = dn
-- 
2.43.0


From 9991fab221b83941162c8eaf38735cca614243b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:54 +0000
Subject: [PATCH 14/38] fix: montecarlo broadcasts samples cumulated after the
 first one

---
 sdepy/infrastructure.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index d09dc6b..a62e948 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2938,6 +2938,9 @@ class montecarlo:
 
         # set flag to identify first run
         isfirst = (self.paths == 0)
+        if not isfirst:
+            sample = np.broadcast_to(sample,
+                                     self.vshape + sample.shape[-1:])
 
         # compute/cumulate value, error and stats
         self._update_moments(isfirst, sample)
-- 
2.43.0


From e28453af312048db67890ef98c8ca7e246bd4a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:54 +0000
Subject: [PATCH 15/38] fix: indexing a montecarlo instance references, and
 does not copy, single values

---
 sdepy/infrastructure.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index a62e948..e016a57 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -3058,10 +3058,15 @@ class montecarlo:
         else:
             a._bins = self._bins[i]
         if self.paths != 0:
-            a._mean = self._mean[i]
-            a._moments = tuple(moment[i] for moment in self._moments)
+            def ref(z):
+                # refer to single values via 0-dimensional arrays
+                zi = z[i]
+                return zi if isinstance(zi, np.ndarray) else \
+                    z[np.index_exp[i] + (Ellipsis,)]
+            a._mean = ref(self._mean)
+            a._moments = tuple(ref(moment) for moment in self._moments)
             a._counts = self._counts[i]
-            a._paths_outside = self._paths_outside[i]
+            a._paths_outside = ref(self._paths_outside)
         return a
 
     # user access to statistics
-- 
2.43.0


From 1e4c9185e04dfa0aa17e116cc28f862a157b3bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:54 +0000
Subject: [PATCH 16/38] fix: a montecarlo instance with bins=None can be
 indexed

---
 sdepy/infrastructure.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index e016a57..f83bb0e 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -3065,8 +3065,9 @@ class montecarlo:
                     z[np.index_exp[i] + (Ellipsis,)]
             a._mean = ref(self._mean)
             a._moments = tuple(ref(moment) for moment in self._moments)
-            a._counts = self._counts[i]
-            a._paths_outside = ref(self._paths_outside)
+            if self._bins is not None:
+                a._counts = self._counts[i]
+                a._paths_outside = ref(self._paths_outside)
         return a
 
     # user access to statistics
-- 
2.43.0


From 931def282510959941881a0a7d50e4573a0fc2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:36 +0000
Subject: [PATCH 17/38] fix: results of SDEs with log=True are exponentiated
 once

---
 sdepy/integration.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sdepy/integration.py b/sdepy/integration.py
index e3a9f2a..c26958f 100644
--- a/sdepy/integration.py
+++ b/sdepy/integration.py
@@ -1829,8 +1829,6 @@ class SDEs(SDE):
 
     def result(self, tt, XX):
         """See documentation of SDE.result"""
-        if self.log:
-            exp(XX, out=XX)
         xxs = self.unpack(XX)
         return tuple(process(t=tt, x=xx) for xx in xxs)
 
-- 
2.43.0


From db64d595e07ca0451c085e23c97f45974e436101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:36 +0000
Subject: [PATCH 18/38] fix: timelines of unsigned integers are simulated using
 floats

---
 sdepy/integration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/integration.py b/sdepy/integration.py
index c26958f..9bbde31 100644
--- a/sdepy/integration.py
+++ b/sdepy/integration.py
@@ -526,7 +526,7 @@ class paths_generator:
         #   if tt is an integer type, the use of floats is forced in
         #   computations. the integer tt is finally passed to self.exit
         #   to be set as the timeline of the returned process
-        ttype = float if tt.dtype.kind == 'i' else tt.dtype
+        ttype = float if tt.dtype.kind in 'iu' else tt.dtype
         tt, tt_asis = tt.astype(ttype), tt
 
         # built the integration steps
-- 
2.43.0


From 17549997d2c4e9868648298067f8351130382b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:36 +0000
Subject: [PATCH 19/38] fix: SDE parameters may have lists or arrays as
 defaults

---
 sdepy/integration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sdepy/integration.py b/sdepy/integration.py
index 9bbde31..a29767a 100644
--- a/sdepy/integration.py
+++ b/sdepy/integration.py
@@ -1015,8 +1015,9 @@ class SDE:
                    expected_more_args)):
             for k, z in D.items():
                 defaults[k].append(z)
-        repeated = {k for k in defaults
-                    if len(set(defaults[k])) > 1}
+        repeated = {k for k, zz in defaults.items()
+                    if not all(z is zz[0] or np.array_equal(z, zz[0])
+                               for z in zz[1:])}
         if repeated:
             raise TypeError(
                     'two or more incompatible defaults found '
-- 
2.43.0


From 4124d3e4cad80a4679b0f0b2d2186ae1464b2308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:02 +0000
Subject: [PATCH 20/38] fix: Black-Scholes functions accept lists together with
 scalar rates

---
 sdepy/analytical.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sdepy/analytical.py b/sdepy/analytical.py
index 118949a..ed111aa 100644
--- a/sdepy/analytical.py
+++ b/sdepy/analytical.py
@@ -980,7 +980,7 @@ def bscall(k, t, *, x0=1., r=0., q=0., sigma=1.):
 
         d2 = d1 - sigma*sqrt(t)
     """
-    r, q = np.asarray(r), np.asarray(q)
+    k, t, x0, r, q = (np.asarray(z) for z in (k, t, x0, r, q))
     d1, d2 = bsd1d2(k, t, x0=x0, r=r, q=q, sigma=sigma)
     return x0 * exp(-q*t) * scipy.stats.norm.cdf(d1) - \
         k * exp(-r*t) * scipy.stats.norm.cdf(d2)
@@ -997,7 +997,7 @@ def bscall_delta(k, t, *, x0=1., r=0., q=0., sigma=1.):
     --------
     bscall
     """
-    r, q = np.asarray(r), np.asarray(q)
+    k, t, x0, r, q = (np.asarray(z) for z in (k, t, x0, r, q))
     d1, d2 = bsd1d2(k, t, x0=x0, r=r, q=q, sigma=sigma)
     return exp(-q*t) * scipy.stats.norm.cdf(d1)
 
@@ -1013,7 +1013,7 @@ def bsput(k, t, *, x0=1., r=0., q=0., sigma=1.):
     --------
     bscall
     """
-    r, q = np.asarray(r), np.asarray(q)
+    k, t, x0, r, q = (np.asarray(z) for z in (k, t, x0, r, q))
     d1, d2 = bsd1d2(k, t, x0=x0, r=r, q=q, sigma=sigma)
     return k * exp(-r*t) * scipy.stats.norm.cdf(-d2) - \
         x0 * exp(-q*t) * scipy.stats.norm.cdf(-d1)
@@ -1030,6 +1030,6 @@ def bsput_delta(k, t, *, x0=1., r=0., q=0., sigma=1.):
     --------
     bscall
     """
-    r, q = np.asarray(r), np.asarray(q)
+    k, t, x0, r, q = (np.asarray(z) for z in (k, t, x0, r, q))
     d1, d2 = bsd1d2(k, t, x0=x0, r=r, q=q, sigma=sigma)
     return -exp(-q*t) * scipy.stats.norm.cdf(-d1)
-- 
2.43.0


From cbcbfe318b5813c114a5d98290f43dfeb6af4e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:02 +0000
Subject: [PATCH 21/38] fix: rvmap accepts ufuncs and other callables without a
 signature

---
 sdepy/infrastructure.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index f83bb0e..e78e1ed 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -1842,7 +1842,11 @@ def rvmap(f, y):
 
     """
 
-    time_dependent_f = _signature(f)[0][0] in ('t', 's')
+    try:
+        time_dependent_f = _signature(f)[0][0] in ('t', 's')
+    except ValueError:
+        # no signature available (e.g. NumPy ufuncs)
+        time_dependent_f = False
 
     if callable(y) or time_dependent_f:
         def new_y(t):
-- 
2.43.0


From f448fe6e6f8a7e18df07dfd9cdb67edb3ab54442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:08 +0000
Subject: [PATCH 22/38] fix: array views of a process without a timeline do not
 raise AttributeError

---
 sdepy/infrastructure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index e78e1ed..0afc8f0 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -476,7 +476,8 @@ class process(np.ndarray):
             self.t = None
         elif isinstance(obj, process):
             # handle new from template
-            if not hasattr(obj, 't') or obj.t.shape != self.shape[:1]:
+            if getattr(obj, 't', None) is None or \
+                    obj.t.shape != self.shape[:1]:
                 self.t = None
             else:
                 self.t = obj.t
-- 
2.43.0


From f3a41bf5129368aff6d4e15f68a96282cc45f5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:40 +0000
Subject: [PATCH 23/38] fix: double_exp_rv.exp_mean is finite if no positive
 jump may occur

---
 sdepy/infrastructure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 0afc8f0..f797a61 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -1795,7 +1795,8 @@ class _double_exp_rv:
 
     def exp_mean(self):
         a, b, pa, pb = self._a, self._b, self._pa, self._pb
-        return np.where(a < 1, pa/(1 - a), np.inf) + pb/(1 + b) + 0
+        return np.where(pa == 0, 0,
+                        np.where(a < 1, pa/(1 - a), np.inf)) + pb/(1 + b) + 0
 
 
 # Convenience methods for handling distributions
-- 
2.43.0


From 749fca1abb874732411bc0f970a4b10d8c695d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:56 +0000
Subject: [PATCH 24/38] fix: even and odd montecarlo samples of integers or
 booleans do not overflow

---
 sdepy/infrastructure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index f797a61..5ffc1aa 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2939,6 +2939,8 @@ class montecarlo:
                     .format(sample_paths))
             sample_paths //= 2
             sign = 1 if use == 'even' else -1
+            if sample.dtype.kind in 'biu':
+                sample = sample.astype(float)
             sample = (sample[..., :sample_paths] +
                       sign*sample[..., sample_paths:])/2
 
-- 
2.43.0


From e4cd093e85e9daed53499e49c474ffa9f90632dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:55 +0000
Subject: [PATCH 25/38] fix: montecarlo handles bins given as a NumPy integer
 as a number of bins

---
 sdepy/infrastructure.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 5ffc1aa..8a93cc5 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -3013,7 +3013,7 @@ class montecarlo:
             self._counts = np.empty(vshape, dtype=object)
             self._paths_outside = np.zeros(vshape, dtype=self.ctype)
             args = np.empty(vshape, dtype=object)
-            if isinstance(mybins, (int, str)):
+            if isinstance(mybins, (int, np.integer, str)):
                 # setup if no bins are provided
                 args[...] = dict(bins=mybins, range=self._range)
             else:
@@ -3060,7 +3060,8 @@ class montecarlo:
         """See montecarlo class documentation"""
         a = montecarlo()
         a._paths = self._paths
-        if (self._bins is None) or isinstance(self._bins, (int, str)):
+        if (self._bins is None) or isinstance(self._bins,
+                                              (int, np.integer, str)):
             a._bins = self._bins
             a._range = self._range
         else:
-- 
2.43.0


From eb1be590946e5ba0b072e802cc071c5c1f1a1cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:08 +0000
Subject: [PATCH 26/38] fix: montecarlo cumulates histogram counts of unsigned
 ctype

---
 sdepy/infrastructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 8a93cc5..7b43d15 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -3043,7 +3043,7 @@ class montecarlo:
             #   previously stored bins and cumulated
             for i in np.ndindex(vshape):
                 counts, bins = np.histogram(sample[i], bins=self._bins[i])
-                self._counts[i] += counts
+                self._counts[i] += counts.astype(self.ctype)
                 self._paths_outside[i] += (M - counts.sum())
 
         # a final consistency check
-- 
2.43.0


From 0e2cd0b42e0c225b2743d383a225cf71779d9ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:00 +0000
Subject: [PATCH 27/38] fix: interpolated montecarlo pdf is correct for bins
 given as integers

---
 sdepy/infrastructure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 7b43d15..adf71f2 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -3223,7 +3223,8 @@ class montecarlo:
                 pp[0], pp[1:] = (0, (deltas*ncounts).cumsum())
                 fill_value = (0., 1.)
             else:
-                xx = np.empty((bins.size+1,), dtype=bins.dtype)
+                xx = np.empty((bins.size+1,),
+                              dtype=np.result_type(bins, ncounts))
                 xx[0], xx[1:-1], xx[-1] = (bins[0], (bins[:-1] + bins[1:])/2,
                                            bins[-1])
                 pp = np.empty((bins.size+1,), dtype=ncounts.dtype)
-- 
2.43.0


From 330158dda23d48e07818009a4c33fbdcca215ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:27 +0000
Subject: [PATCH 28/38] fix: i0 equal to minus the timeline size starts at the
 first point for any depth

---
 sdepy/integration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sdepy/integration.py b/sdepy/integration.py
index a29767a..a8ecb7b 100644
--- a/sdepy/integration.py
+++ b/sdepy/integration.py
@@ -522,6 +522,8 @@ class paths_generator:
                 'i0 should be an integer indexing an element of the '
                 'integration timeline, but {} was given'
                 .format(i0))
+        # i0 as a non-negative index
+        i0 = range(tt.size)[i0]
         # NOTE:
         #   if tt is an integer type, the use of floats is forced in
         #   computations. the integer tt is finally passed to self.exit
-- 
2.43.0


From 9c91c94a0e12477d403558ac7d11c5cb453abbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:58 +0000
Subject: [PATCH 29/38] fix: jump-diffusion processes count jumps of a float
 ptype

---
 sdepy/integration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/integration.py b/sdepy/integration.py
index a8ecb7b..f6e4d03 100644
--- a/sdepy/integration.py
+++ b/sdepy/integration.py
@@ -2616,7 +2616,7 @@ class jumpdiff_SDE(SDE):
         if hasattr(dj, 'dn_value'):
             self.info['jump_rate'][i - 1] += \
                 dj.dn_value.sum()/(tt[i] - tt[i - 1])/self.paths
-            self.info['jump_count'] += dj.dn_value
+            self.info['jump_count'] += np.asarray(dj.dn_value, dtype=int)
 
     def info_end(self):
         if self.itervars['tt'].size > 1:
-- 
2.43.0


From 0ed26ea4b078ea8a34a1e8aa383cfaaacb7678a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:55 +0000
Subject: [PATCH 30/38] fix: results of SDEs do not depend on hash
 randomization

---
 sdepy/integration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdepy/integration.py b/sdepy/integration.py
index f6e4d03..7a0760b 100644
--- a/sdepy/integration.py
+++ b/sdepy/integration.py
@@ -1728,8 +1728,10 @@ class SDEs(SDE):
         A_ids = set()
         for a in As:
             A_ids.update(a.keys())
+        # terms are summed in order of ascending id: results should not
+        # depend, not even within rounding, on the order of a set
         A = {id: self.pack(tuple(a.get(id, 0) for a in As))
-             for id in A_ids}
+             for id in sorted(A_ids)}
         return A
 
     # public interface vs subclasses
-- 
2.43.0


From 61dfde4aa9a2362e4d08edf5a2d2bcee2c493c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:55 +0000
Subject: [PATCH 31/38] fix: itervars['i'] is set when initial values are
 stored

---
 sdepy/integration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sdepy/integration.py b/sdepy/integration.py
index 7a0760b..933427a 100644
--- a/sdepy/integration.py
+++ b/sdepy/integration.py
@@ -384,6 +384,7 @@ class paths_generator:
                 'realized s={} is beyond target value t={}'
                 .format(self, sw[k], tt[i]))
         elif tt[i] == sw[k]:
+            iv['i'] = i
             self.store(i, k)
             return 1
         else:
-- 
2.43.0


From 246ce5bc560d19609cee90c11c98e83bc36f55df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:55 +0000
Subject: [PATCH 32/38] fix: counts of steps pertain to the forwards part of a
 simulation, as documented

---
 sdepy/integration.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sdepy/integration.py b/sdepy/integration.py
index 933427a..68c963e 100644
--- a/sdepy/integration.py
+++ b/sdepy/integration.py
@@ -402,6 +402,13 @@ class paths_generator:
         # ------------------
         st = iter(steps_tt)
 
+        # initialize step counters
+        # (for backwards and forwards simulations, diagnostic info
+        # pertains to the forwards part only)
+        # -------------------------------------------------------
+        if self.getinfo:
+            self.info.update(computed_steps=0, stored_steps=0)
+
         # initialize working space
         # ------------------------
         # set sw[0] ... sw[K-2]
@@ -561,8 +568,7 @@ class paths_generator:
         # ---------------------
         if self.getinfo:
             self.info.update(
-                t0=tt[i0], tmin=tt[0], tmax=tt[-1],
-                computed_steps=0, stored_steps=0
+                t0=tt[i0], tmin=tt[0], tmax=tt[-1]
             )
 
         # MAIN LOOP
-- 
2.43.0


From 4d00080ef13b4c99364a577d882e7500567a92a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:46 +0000
Subject: [PATCH 33/38] fix: cir_pdf does not overflow or underflow for small
 xi or t

---
 sdepy/analytical.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sdepy/analytical.py b/sdepy/analytical.py
index ed111aa..03ee409 100644
--- a/sdepy/analytical.py
+++ b/sdepy/analytical.py
@@ -547,9 +547,10 @@ def cir_pdf(t, x, *, x0=1., theta=1., k=1., xi=1.):
     alpha = exp(-k*t)
     c = 2*k / (1 - alpha) / (xi*xi)
     q = 2*k * theta / (xi*xi) - 1
-    return c*exp(-c * (x0*alpha + x)) * \
-        (x / (x0*alpha))**(q/2) * \
-        scipy.special.iv(q, 2*c * sqrt(x*x0*alpha))
+    # 2*c*x follows a noncentral chi-squared distribution
+    # (stating the density via Bessel functions overflows, if xi or t are small)
+    return 2*c * scipy.stats.ncx2.pdf(2*c * np.asarray(x), df=2*(q + 1),
+                                      nc=2*c * x0*alpha)
 
 
 # --------------------
-- 
2.43.0


From c8b888bf00167e7523f4179beb947905a9b704c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:15 +0000
Subject: [PATCH 34/38] fix: bsd1d2 restores NumPy error settings also when an
 exception is raised

---
 sdepy/analytical.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sdepy/analytical.py b/sdepy/analytical.py
index 03ee409..38a3abb 100644
--- a/sdepy/analytical.py
+++ b/sdepy/analytical.py
@@ -922,9 +922,8 @@ def bsd1d2(k, t, *, x0=1., r=0., q=0., sigma=1.):
     # and/or sigma==0
     A = log(x0/k) + (r - q + 0.5 * sigma**2) * t
     B = sigma * sqrt(t)
-    old_settings = np.seterr(divide='ignore', invalid='ignore')
-    d1 = np.where(B == 0, np.where(A == 0, 0., np.inf * A), A / B)
-    np.seterr(**old_settings)
+    with np.errstate(divide='ignore', invalid='ignore'):
+        d1 = np.where(B == 0, np.where(A == 0, 0., np.inf * A), A / B)
     assert not np.isnan(d1).any()
     d2 = d1 - B
 
-- 
2.43.0


From 73d6ae6c5f533713e1cb0700553aed308a4011c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:52 +0000
Subject: [PATCH 35/38] fix: ufuncs of three operands never mix the timelines
 of two processes

---
 sdepy/infrastructure.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index adf71f2..acfaa11 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -491,18 +491,21 @@ class process(np.ndarray):
         ufunc, inputs, domain = context
         assert hasattr(self, 't')
         assert any(self is a for a in inputs)
-        for a in inputs:
-            if isinstance(a, process):
-                if not hasattr(a, 't') or a.t is None:
-                    raise ValueError(
-                        'cannot operate on a process without a timeline. '
-                        'if this results from array operations on processes, '
-                        'try using their array views instead (x attribute)')
-                if not a._is_compatible(self):
+        p_inputs = [a for a in inputs if isinstance(a, process)]
+        for i, a in enumerate(p_inputs):
+            if not hasattr(a, 't') or a.t is None:
+                raise ValueError(
+                    'cannot operate on a process without a timeline. '
+                    'if this results from array operations on processes, '
+                    'try using their array views instead (x attribute)')
+            for b in p_inputs[:i]:
+                # check each pair of inputs: two non constant processes, both
+                # compatible with a constant one, may not be so with each other
+                if not a._is_compatible(b):
                     raise ValueError(
                         'processes could not be broadcast '
                         'together due to incompatible shapes {}, {} and/or '
-                        'timelines'.format(a.shape, self.shape))
+                        'timelines'.format(a.shape, b.shape))
         return out_array
 
     def __array_wrap__(self, out_array, context=None):
-- 
2.43.0


From d5d22fa16455d24ca05bee93e85a9b65f89234c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 36/38] fix: increments of boolean, unsigned and short integer
 processes do not wrap around

---
 sdepy/infrastructure.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index acfaa11..d361dc6 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -1074,7 +1074,11 @@ class process(np.ndarray):
         is a 1-path process that estimates ``sigma(t)``.
         """
         t = self.t[:-1] if fwd else self.t[1:]
-        x = np.diff(self, axis=0)
+        x = self.x
+        if x.dtype.kind in 'bui':
+            # increments may not fit in a boolean, unsigned or short dtype
+            x = x.astype(np.int64)
+        x = np.diff(x, axis=0)
         if dt_exp:
             # the result may not fit in the dtype of an integer process
             out = x if issubclass(x.dtype.type, np.inexact) else None
-- 
2.43.0


From 83b077b506a2bd5625f8b874658b898c5952f0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 37/38] fix: true_cpoisson_source hands its t0 and rtol to the
 Poisson source it creates

---
 sdepy/infrastructure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index d361dc6..91b68e7 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2643,6 +2643,7 @@ class true_cpoisson_source(true_source):
                          rtol=rtol, t0=t0, z0=z0)
         if dn is None:
             dn = true_poisson_source(paths=paths, vshape=vshape,
+                                     rtol=rtol, t0=t0,
                                      dtype=ptype, rng=rng, lam=lam)
         self._dj = cpoisson_source(paths=paths, vshape=vshape,
                                    dtype=dtype, rng=rng,
-- 
2.43.0


From 9f31d25d510c55aafd8851d292bb048fcad25661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:04 +0000
Subject: [PATCH 38/38] fix: refuse NumPy integers of any type as rng

Only int and np.int64 seeds were refused by sources: other NumPy integers
were taken as generators, and failed when first used.
---
 sdepy/infrastructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 91b68e7..1ee2195 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -1351,7 +1351,7 @@ class source:
     def __init__(self, *, paths=1, vshape=(), dtype=None, rng=None):
         self.paths, self.dtype = paths, dtype
         self.vshape = _shape_setup(vshape)
-        if isinstance(rng, (int, np.int64, list, np.ndarray)):
+        if isinstance(rng, (int, np.integer, list, np.ndarray)):
             # catch some possible attempts to pass a seed value as `rng`
             raise TypeError(
                 f'`rng` must be an instance of a random number generator, '
-- 
2.43.0

