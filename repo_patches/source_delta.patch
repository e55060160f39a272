From d93c3ab472fbdcbc204e183386e509a7fb3c0814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:44 +0000
Subject: [PATCH 001/119] fix: CovData1D.simcond no longer writes NaNs into the
 caller's data

---
 src/wafo/covariance/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index b460e1e..b239c92 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -569,7 +569,7 @@ class CovData1D(PlotData):
         reconstructed data"
         in Proceedings of 9th ISOPE Conference, Vol III, pp 66-73
         """
-        x = atleast_1d(xo).ravel()
+        x = atleast_1d(xo).flatten()
         acf = self._get_acf()
 
         num_x = len(x)
-- 
2.43.0


From 74d9f57da54798d97e8097be528554bb04247963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:44 +0000
Subject: [PATCH 002/119] fix: CovData1D.sim and tospecdata add the nugget to a
 copy of the covariance

---
 src/wafo/covariance/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index b239c92..714e709 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -223,7 +223,7 @@ class CovData1D(PlotData):
         dt = self.sampling_period()
         # dt = time-step between data points.
 
-        acf, unused_ti = atleast_1d(self.data, self.args)
+        acf = atleast_1d(self.data).copy()
 
         if self.lagtype in 't':
             spectype = 'freq'
@@ -362,7 +362,7 @@ class CovData1D(PlotData):
 
         _set_seed(iseed)
         self._is_valid_acf()
-        acf = self.data.ravel()
+        acf = self.data.flatten()
         n = acf.size
         acf.shape = (n, 1)
 
-- 
2.43.0


From 958496f6ffd8fd3b28c094fced571b2e9da3ae0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:44 +0000
Subject: [PATCH 003/119] fix: clencurt halves the end values of a copy and
 accepts tabulated functions

---
 src/wafo/integrate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wafo/integrate.py b/src/wafo/integrate.py
index dc0b95f..746397a 100644
--- a/src/wafo/integrate.py
+++ b/src/wafo/integrate.py
@@ -94,9 +94,9 @@ def clencurt(fun, a, b, n=5, trace=False):
     if hasattr(fun, '__call__'):
         f = fun(x)
     else:
-        x_0 = np.flipud(fun[:, 0])
+        x_0 = np.flipud(fun[:, :1])
         n_2 = len(x_0) - 1
-        _assert(abs(x - x_0) <= 1e-8,
+        _assert(np.all(abs(x - x_0) <= 1e-8),
                 'Input vector x must equal cos(pi*s/n_2)*(b-a)/2+(b+a)/2')
 
         f = np.flipud(fun[:, 1::])
@@ -106,6 +106,7 @@ def clencurt(fun, a, b, n=5, trace=False):
 
     # using a Gauss-Lobatto variant, i.e., first and last
     # term f(a) and f(b) is multiplied with 0.5
+    f = 1.0 * f
     f[0, :] = f[0, :] / 2
     f[n_2, :] = f[n_2, :] / 2
 
-- 
2.43.0


From aaf573ebe3fd629fd83b7fde9540d575b00115b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:44 +0000
Subject: [PATCH 004/119] fix: gridcount does not reshape the caller's grid

---
 src/wafo/kdetools/gridding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/kdetools/gridding.py b/src/wafo/kdetools/gridding.py
index f1bf7f7..a291806 100644
--- a/src/wafo/kdetools/gridding.py
+++ b/src/wafo/kdetools/gridding.py
@@ -260,7 +260,7 @@ def _gridcount_nd(acfun, data, x, y, w, binx):
 
 
 def _gridcount_1d(acfun, data, x, y, w, binx, inc):
-    x.shape = -1,
+    x = x.ravel()
     c = (acfun(binx, (x[binx + 1] - data) * y, shape=(inc, )) +
          acfun(binx + 1, (data - x[binx]) * y, shape=(inc, ))).ravel()
     return c / w
-- 
2.43.0


From 940e175341ff0c2a652c4cc1b8c36f000692f632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:44 +0000
Subject: [PATCH 005/119] fix: KDE replaces non-positive bandwidths in a copy
 of hs

---
 src/wafo/kdetools/kdetools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index 4ba360a..25c64f9 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -619,7 +619,7 @@ class KDE(_KDE):
 
     def _check_hs(self, h):
         """make sure it has the correct dimension and replace negative vals"""
-        h = np.atleast_1d(h)
+        h = np.array(np.atleast_1d(h), dtype=float)
         if (len(h.shape) == 1) or (self.d == 1):
             h = h * np.ones(self.d) if max(h.shape) == 1 else h.reshape(self.d)
             self._replace_negatives_with_default_hs(h)
-- 
2.43.0


From 0caeb5eb6e7bdd8dabb85723f0cb58b7b6fed908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:44 +0000
Subject: [PATCH 006/119] fix: hste and hstt do not overwrite the start value
 h0

---
 src/wafo/kdetools/kernels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/kdetools/kernels.py b/src/wafo/kdetools/kernels.py
index 64845cb..8de9412 100644
--- a/src/wafo/kdetools/kernels.py
+++ b/src/wafo/kdetools/kernels.py
@@ -1005,7 +1005,7 @@ class Kernel(object):
         if h0 is None:
             h0 = sigmaA * amise_constant
 
-        h = np.asarray(h0, dtype=float)
+        h = np.array(h0, dtype=float)
 
         ax1, bx1 = self._get_grid_limits(A)
 
-- 
2.43.0


From ac211d42aa0d716fa60fb4eb60a2a827133c1a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:20 +0000
Subject: [PATCH 007/119] fix: hste does not overwrite the start value h0

---
 src/wafo/kdetools/kernels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/kdetools/kernels.py b/src/wafo/kdetools/kernels.py
index 8de9412..ca1b9e2 100644
--- a/src/wafo/kdetools/kernels.py
+++ b/src/wafo/kdetools/kernels.py
@@ -805,7 +805,7 @@ class Kernel(object):
         if h0 is None:
             h0 = sigmaA * amise_constant
 
-        h = np.asarray(h0, dtype=float)
+        h = np.array(h0, dtype=float)
 
         ax1, bx1 = self._get_grid_limits(A)
 
-- 
2.43.0


From dd16874a54ddbcedac0f06760f24e068ab6e35b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:20 +0000
Subject: [PATCH 008/119] fix: mctp2tc normalizes a copy of f_Mm

---
 src/wafo/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/markov.py b/src/wafo/markov.py
index 8383c60..2830831 100644
--- a/src/wafo/markov.py
+++ b/src/wafo/markov.py
@@ -391,7 +391,7 @@ def mctp2tc(f_Mm, utc, param, f_mM=None):
     _check_discretization(param, ntc)
 
     # normalization of frequency matrices
-    f_Mm = _normalize_rows(f_Mm)
+    f_Mm = _normalize_rows(f_Mm * 1.0)
     P = np.fliplr(f_Mm)
     Ph = np.rot90(np.fliplr(f_mM * 1.0), -1)
     Ph = _normalize_rows(Ph)
-- 
2.43.0


From 674074f17f8bdb12f3f3c74c134ea242e8b4c084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:20 +0000
Subject: [PATCH 009/119] fix: fourier does not reshape the time vector of the
 caller

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 296f95f..638794f 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -2893,7 +2893,7 @@ def fourier(data, t=None, period=None, m=None, method='trapz'):
     intfun = trapz if method.startswith('trapz') else simps
 
     # Define the vectors for computing the Fourier coefficients
-    t.shape = (1, -1)
+    t = t.reshape(1, -1)
     a = zeros((m, p))
     b = zeros((m, p))
     a[0] = intfun(x, t, axis=-1)
-- 
2.43.0


From 207dcc020e11757ba8e86298fad90ae021eedda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:20 +0000
Subject: [PATCH 010/119] fix: plot_histgrm does not reshape the bin limits of
 the caller

---
 src/wafo/misc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 638794f..4dcf929 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -2681,8 +2681,7 @@ def good_bins(data=None, range=None, num_bins=None, odd=False, loose=True):  # @
 
 
 def _make_bars(limits, bin_):
-    limits.shape = (-1, 1)
-    xx = limits.repeat(3, axis=1)
+    xx = limits.reshape(-1, 1).repeat(3, axis=1)
     xx.shape = (-1,)
     xx = xx[1:-1]
     bin_.shape = (-1, 1)
-- 
2.43.0


From 7df9a096ece8c16a9a84588538c872ac17dab004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:20 +0000
Subject: [PATCH 011/119] fix: SavitzkyGolay.smooth_last keeps the shape of its
 coefficients

---
 src/wafo/sg_filter/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/sg_filter/_core.py b/src/wafo/sg_filter/_core.py
index d5eb26b..dc7e897 100644
--- a/src/wafo/sg_filter/_core.py
+++ b/src/wafo/sg_filter/_core.py
@@ -157,7 +157,7 @@ class SavitzkyGolay(object):
         if n == 0:
             return y
         if y.ndim > 1:
-            coeff.shape = (-1, 1)
+            coeff = coeff.reshape(-1, 1)
         first_vals = y[0] - np.abs(y[n:0:-1] - y[0])
         last_vals = y[-1] + np.abs(y[-2:-n - 2:-1] - y[-1])
         y = concatenate((first_vals, y, last_vals))
-- 
2.43.0


From 61b658cfefb318cac6602b88d1cdecc33e61d1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:20 +0000
Subject: [PATCH 012/119] fix: to_mmt_pdf does not overwrite the caller's
 discretization parameters

---
 src/wafo/spectrum/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index a17248f..76f43f4 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -1693,7 +1693,7 @@ class SpecData1D(PlotData):
 
         Nx = paramu[2]
         if (defnr > 1):
-            paramu[0] = max(0, paramu[0])
+            paramu = [max(0, paramu[0])] + list(paramu[1:])
             if (paramu[1] < 0):
                 raise ValueError(
                     'Discretization levels must be larger than zero')
-- 
2.43.0


From b1d03e2cbe3f7f1c433c226179c0d29a735946d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:20 +0000
Subject: [PATCH 013/119] fix: edf sorts a copy of the data

---
 src/wafo/stats/core.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index 7972265..b0d0e4b 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -82,8 +82,7 @@ def edf(x, method=2):
 
      See also edf, pdfplot, cumtrapz
     """
-    z = atleast_1d(x)
-    z.sort()
+    z = np.sort(atleast_1d(x))
 
     n = len(z)
     if method == 1:
-- 
2.43.0


From 487a1427196ccb5341bbf454892a71dc56566395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:20 +0000
Subject: [PATCH 014/119] fix: start values of genextreme are computed from a
 sorted copy of the data

---
 src/wafo/stats/distributions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wafo/stats/distributions.py b/src/wafo/stats/distributions.py
index 7593dc4..09d87c6 100644
--- a/src/wafo/stats/distributions.py
+++ b/src/wafo/stats/distributions.py
@@ -87,11 +87,10 @@ def _genpareto_fitstart(self, data, fitstart):  # pab
 
 
 def _genextreme_fitstart(self, data, fitstart): # pab
-    d = np.asarray(data)
+    d = np.sort(data)
     # Probability weighted moments
     log = np.log
     n = len(d)
-    d.sort()
     koeff1 = np.r_[0:n] / (n - 1)
     koeff2 = koeff1 * (np.r_[0:n] - 1) / (n - 2)
     b2 = np.dot(koeff2, d) / n
-- 
2.43.0


From d7c262c7a365acb027696985e830242c9bbd21b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:20 +0000
Subject: [PATCH 015/119] fix: SpecData1D.freqtype rescales copies of args and
 data

---
 src/wafo/spectrum/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index 76f43f4..8972324 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -727,13 +727,13 @@ class SpecData1D(PlotData):
         if self._freqtype == freqtype:
             return  # do nothind
         if freqtype == 'w' and self._freqtype == 'f':
-            self.args *= 2 * np.pi
-            self.data /= 2 * np.pi
+            self.args = self.args * (2 * np.pi)
+            self.data = self.data / (2 * np.pi)
             self._freqtype = 'w'
             self.setlabels()
         elif freqtype == 'f' and self._freqtype == 'w':
-            self.args /= 2 * np.pi
-            self.data *= 2 * np.pi
+            self.args = self.args / (2 * np.pi)
+            self.data = self.data * (2 * np.pi)
             self._freqtype = 'f'
             self.setlabels()
 
-- 
2.43.0


From 8a6fb09d2bfae1b548a5b942f3ad865c0039e6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:20 +0000
Subject: [PATCH 016/119] fix: to_linspec works on copies of the frequencies
 and spectral densities

---
 src/wafo/spectrum/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index 8972324..c32df57 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -1099,7 +1099,8 @@ class SpecData1D(PlotData):
 
         f_limit_lo = sqrt(gravity * tanh(kbar * water_depth) * a_max / water_depth ** 3)
 
-        freq = S.args
+        freq = S.args = S.args.copy()
+        S.data = S.data.copy()
         eps = finfo(float).eps
         freq[-1] = freq[-1] - sqrt(eps)
         Hw2 = 0
-- 
2.43.0


From f277e91a50399a8f45d3e54475a2dd5979e41682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:20 +0000
Subject: [PATCH 017/119] fix: TransformEstimator leaves its gvar setting as
 given

---
 src/wafo/transform/estimation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wafo/transform/estimation.py b/src/wafo/transform/estimation.py
index 5cab43c..0d86769 100644
--- a/src/wafo/transform/estimation.py
+++ b/src/wafo/transform/estimation.py
@@ -336,9 +336,8 @@ class TransformEstimator(object):
         if ng == 1:
             gvar = self.gvar * np.ones(ncr)
         else:
-            self.gvar = np.atleast_1d(self.gvar)
             gvar = np.interp(np.linspace(0, 1, ncr),
-                             np.linspace(0, 1, ng), self.gvar.ravel())
+                             np.linspace(0, 1, ng), np.ravel(self.gvar))
 
         ind = np.flatnonzero(np.diff(cdf.args) > 0)  # remove equal points
         nd = len(ind)
-- 
2.43.0


From e01eb40e19cf044b5b4253a384140020dd8da51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:20 +0000
Subject: [PATCH 018/119] fix: quadrature nodes are cached under the exact
 alpha and beta

---
 src/wafo/integrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/integrate.py b/src/wafo/integrate.py
index 746397a..94c0642 100644
--- a/src/wafo/integrate.py
+++ b/src/wafo/integrate.py
@@ -939,7 +939,7 @@ class _Gaussq(object):
     @staticmethod
     def _nodes_and_weights(num_nodes, wfun, alpha, beta):
         global _NODES_AND_WEIGHTS
-        name = 'wfun{:d}_{:d}_{:g}_{:g}'.format(wfun, num_nodes, alpha, beta)
+        name = 'wfun{:d}_{:d}_{!r}_{!r}'.format(wfun, num_nodes, alpha, beta)
         nodes_and_weights = _NODES_AND_WEIGHTS[name]
         if len(nodes_and_weights) == 0:
             nodes_and_weights.extend(qrule(num_nodes, wfun, alpha, beta))
-- 
2.43.0


From f3e4a3215e8a656dbdc806f9e2a082c6e2652816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:13 +0000
Subject: [PATCH 019/119] fix: CovData1D.simcond inflates the variance of a
 copy of the covariance

---
 src/wafo/covariance/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index 714e709..0b57da1 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -570,7 +570,7 @@ class CovData1D(PlotData):
         in Proceedings of 9th ISOPE Conference, Vol III, pp 66-73
         """
         x = atleast_1d(xo).flatten()
-        acf = self._get_acf()
+        acf = self._get_acf().copy()
 
         num_x = len(x)
         num_acf = len(acf)
-- 
2.43.0


From abcfe5cb4f88096b708acdf40d97e83c64918ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:13 +0000
Subject: [PATCH 020/119] fix: TransferFunction.tran leaves w, theta and kw as
 given and accepts negative gains

---
 src/wafo/wave_theory/core.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/wafo/wave_theory/core.py b/src/wafo/wave_theory/core.py
index c0ebefc..fc09efd 100644
--- a/src/wafo/wave_theory/core.py
+++ b/src/wafo/wave_theory/core.py
@@ -328,23 +328,22 @@ class TransferFunction(object):
 
         w, theta, kw = np.atleast_1d(w, theta, kw)
         # make sure they have the correct orientation
-        theta.shape = (-1, 1)
-        kw.shape = (-1,)
-        w.shape = (-1,)
+        theta = theta.reshape(-1, 1)
+        kw = kw.reshape(-1)
+        w = w.reshape(-1)
 
         tran_fun = self._tran_dict[self.sensortype]
         Hw, Gwt = tran_fun(w, theta, kw)
 
         # New call to avoid singularities. pab 07.11.2000
         # Set Hw to 0 for expressions w*hyperbolic_ratio(z*k,h*k,1,-1)= 0*inf
-        ind = np.flatnonzero(1 - np.isfinite(Hw))
-        Hw.flat[ind] = 0
+        Hw = np.where(np.isfinite(Hw), Hw, 0)
 
         sgn = np.sign(Hw)
         k0 = np.flatnonzero(sgn < 0)
         if len(k0):  # make sure Hw>=0 ie. transfer negative signs to Gwt
             Gwt[:, k0] = -Gwt[:, k0]
-            Hw[:, k0] = -Hw[:, k0]
+            Hw[k0] = -Hw[k0]
 
         if self.igam == 2:
             # pab 09 Oct.2002: bug fix
-- 
2.43.0


From 451c01fbc069772af7fedbc862ee97636467d75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:49 +0000
Subject: [PATCH 021/119] fix: SpecData2D.rotate replaces its grid instead of
 overwriting shared arrays

---
 src/wafo/spectrum/core.py | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index c32df57..79a7635 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -4067,7 +4067,8 @@ class SpecData2D(PlotData):
             # Make sure theta is from -pi to pi
             theta = self.args[0]
             phi0 = theta[0] + pi
-            self.args[0] = theta - phi0
+            theta = theta - phi0
+            self.args = [theta] + list(self.args[1:])
 
             # make sure -pi<phi<pi
             self.phi = mod(self.phi + phi0 + pi, 2 * pi) - pi
@@ -4080,30 +4081,26 @@ class SpecData2D(PlotData):
                 else:
                     nt = ntOld
 
-                theta[0:nt] = mod(theta[0:nt] - self.phi + pi, 2 * pi) - pi
+                theta = mod(theta[0:nt] - self.phi + pi, 2 * pi) - pi
                 self.phi = 0
                 ind = theta.argsort()
-                self.data = self.data[ind, :]
-                self.args[0] = theta[ind]
+                theta = theta[ind]
+                data = self.data[ind, :]
                 if (nt < ntOld):
-                    if (self.args[0][0] == -pi):
-                        self.data[ntOld, :] = self.data[0, :]
-                    else:
+                    theta = np.hstack([theta, theta[0] + 2 * pi])
+                    data = np.vstack([data, data[:1, :]])
+                    if theta[0] != -pi:
                         # ftype = self.freqtype
                         freq = self.args[1]
+                        data = interp2d(freq,
+                                        np.hstack([theta[nt - 1] - 2 * pi,
+                                                   theta]),
+                                        np.vstack([data[nt - 1:nt, :], data]),
+                                        kind=method)(
+                                            freq, linspace(-pi, pi, ntOld))
                         theta = linspace(-pi, pi, ntOld)
-                        # [F, T] = meshgrid(freq, theta)
-
-                        dtheta = self.theta[1] - self.theta[0]
-                        self.theta[nt] = self.theta[nt - 1] + dtheta
-                        self.data[nt, :] = self.data[0, :]
-                        self.data = interp2d(freq,
-                                             np.vstack([self.theta[0] - dtheta,
-                                                        self.theta]),
-                                             np.vstack([self.data[nt, :],
-                                                        self.data]),
-                                             kind=method)(freq, theta)
-                        self.args[0] = theta
+                self.data = data
+                self.args = [theta] + list(self.args[1:])
 
         elif stype == 'k2d':
             # any of the 2D wave number types
-- 
2.43.0


From 729f59add98ba9e0c24a50bb96574c21edba10fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:21 +0000
Subject: [PATCH 022/119] fix: BKRegression.prb_empirical returns its grid as a
 vector

---
 src/wafo/kdetools/kdetools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index 25c64f9..a6854a2 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -1091,6 +1091,7 @@ class BKRegression(object):
         """
         if xi is None:
             xi = self.get_grid(hs_e)
+        xi = np.ravel(xi)
 
         x = self.x
         y = self.y
-- 
2.43.0


From 179320370b08e5bf9650a92b365a858ac012884a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:21 +0000
Subject: [PATCH 023/119] fix: _histogram returns a reshaped view of the bin
 limits

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 4dcf929..f996fd1 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -2722,7 +2722,7 @@ def _histogram(data, bins=None, range=None, density=False, weights=None):  # @Re
                                 weights=weights,
                                 density=density)
     xx, yy = _make_bars(limits, bin_)
-    return xx, yy, limits
+    return xx, yy, limits.reshape(-1, 1)
 
 
 def plot_histgrm(data, bins=None, range=None,  # @ReservedAssignment
-- 
2.43.0


From 45a702196ac32cd76d042e70f64afd762972895d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:31 +0000
Subject: [PATCH 024/119] fix: graphutil exports what it has and tallibing
 finds vectors itself

---
 src/wafo/graphutil.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/wafo/graphutil.py b/src/wafo/graphutil.py
index 5e4052c..08d1eb8 100644
--- a/src/wafo/graphutil.py
+++ b/src/wafo/graphutil.py
@@ -8,8 +8,7 @@ license BSD
 import warnings
 import numpy as np
 from .plotbackend import plotbackend
-from matplotlib import mlab
-__all__ = ['cltext', 'epcolor', 'tallibing', 'test_docstrings']
+__all__ = ['cltext', 'tallibing', 'test_docstrings']
 
 _TALLIBING_GID = 'TALLIBING'
 _CLTEXT_GID = 'CLTEXT'
@@ -211,7 +210,7 @@ def tallibing(*args, **kwds):
         axis = plotbackend.gca()
 
     x, y, n = _parse_data(*args, **kwds)
-    if mlab.isvector(x) or mlab.isvector(y):
+    if np.ndim(x) == 1 or np.ndim(y) == 1:
         x, y = np.meshgrid(x, y)
 
     n = np.round(n)
-- 
2.43.0


From 9041a3193c89ded655858668d84fa3d9a54f7d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:31 +0000
Subject: [PATCH 025/119] fix: polynomial exports map_from_interval and
 map_to_interval under their names, Cheb1d finds trim_zeros

---
 src/wafo/polynomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 9a2be6c..4a6de5e 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -34,7 +34,7 @@ except ImportError:
 __all__ = np.lib.polynomial.__all__
 __all__ = __all__ + ['pade', 'padefit', 'polyreloc', 'polyrescl', 'polytrim',
                      'poly2hstr', 'poly2str', 'polyshift', 'polyishift',
-                     'map_from_intervall', 'map_to_intervall', 'cheb2poly',
+                     'map_from_interval', 'map_to_interval', 'cheb2poly',
                      'chebextr', 'chebroot', 'chebpoly', 'chebfit', 'chebval',
                      'chebder', 'chebint', 'Cheb1d', 'dct', 'idct',
                      'chebfitnd', 'chebvalnd']
@@ -1714,7 +1714,7 @@ class Cheb1d(object):
             for key in ck.__dict__:
                 self.__dict__[key] = ck.__dict__[key]
             return
-        cki = trim_zeros(np.atleast_1d(ck), 'b')
+        cki = np.trim_zeros(np.atleast_1d(ck), 'b')
         if len(cki.shape) > 1:
             raise ValueError("Polynomial must be 1d only.")
         self.__dict__['coeffs'] = cki
-- 
2.43.0


From b2076c645af53039003dd00929771cad20591bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:31 +0000
Subject: [PATCH 026/119] fix: the optimizer of rv_continuous.fit can be given
 by name

---
 src/wafo/stats/_distn_infrastructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/_distn_infrastructure.py b/src/wafo/stats/_distn_infrastructure.py
index b15bbe4..3837e20 100644
--- a/src/wafo/stats/_distn_infrastructure.py
+++ b/src/wafo/stats/_distn_infrastructure.py
@@ -275,7 +275,7 @@ def _reduce_func2(self, args, kwds):
 def _get_optimizer(kwds):
     optimizer = kwds.pop('optimizer', optimize.fmin)
     # convert string to function in scipy.optimize
-    if not callable(optimizer) and isinstance(optimizer, string_types):
+    if not callable(optimizer) and isinstance(optimizer, str):
         if not optimizer.startswith('fmin_'):
                 optimizer = '_'.join(("fmin", optimizer))
         try:
-- 
2.43.0


From 0a4060c2849d5d6cda010f8c7467319165036ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:31 +0000
Subject: [PATCH 027/119] fix: pbinom.rvs draws the requested number of
 variates

---
 src/wafo/stats/distributions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/wafo/stats/distributions.py b/src/wafo/stats/distributions.py
index 09d87c6..0088d6b 100644
--- a/src/wafo/stats/distributions.py
+++ b/src/wafo/stats/distributions.py
@@ -271,9 +271,8 @@ class pbinom(rv_discrete):
         pass
 
 
-    def _rvs(self):
-        n = self._size
-        return sum((self._random_state.binomial(1, p) for p in self.probabilities))
+    def _rvs(self, size=None, random_state=None):
+        return sum((random_state.binomial(1, p, size=size) for p in self.probabilities))
 
     def _pmf(self, x):
         return self._pmf_values[x]
-- 
2.43.0


From b8223ccd1837a91e423aa4e5ea4f2e4705465420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:31 +0000
Subject: [PATCH 028/119] fix: KRegression rejects polynomial orders it does
 not implement instead of returning None

---
 src/wafo/kdetools/kdetools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index a6854a2..f9778df 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -929,6 +929,7 @@ class KRegression(object):
             t1 = grdfun(*args, r=1, y=self.y)
             return ((s2 * t0 - s1 * t1) /
                     (s2 * s0 - s1 ** 2)).clip(min=-_REALMAX, max=_REALMAX)
+        raise ValueError('p = {} is not implemented, p must be 0 or 1'.format(self.p))
     __call__ = eval_grid_fast
 
 
-- 
2.43.0


From 190acda2090b22bc08365ea405c22713f9a5f1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:31 +0000
Subject: [PATCH 029/119] fix: TrHermite rejects polynomials of higher order
 instead of returning None

---
 src/wafo/transform/models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wafo/transform/models.py b/src/wafo/transform/models.py
index b470827..b377b01 100644
--- a/src/wafo/transform/models.py
+++ b/src/wafo/transform/models.py
@@ -311,6 +311,7 @@ class TrHermite(TrCommon2):
             return self._solve_quadratic(p, xn)
         elif p.order == 3:
             return self._solve_third_order(p, xn)
+        raise ValueError('Polynomials of order {} are not supported'.format(p.order))
 
     def _solve_third_order(self, p, xn):
         # Solve
-- 
2.43.0


From 854b52e0fb41940ecc110f6167d29e0a1c138c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:31 +0000
Subject: [PATCH 030/119] fix: k2w and w2k return two results for empty input
 too

---
 src/wafo/wave_theory/dispersion_relation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/wave_theory/dispersion_relation.py b/src/wafo/wave_theory/dispersion_relation.py
index 0690d5e..2ed8002 100644
--- a/src/wafo/wave_theory/dispersion_relation.py
+++ b/src/wafo/wave_theory/dispersion_relation.py
@@ -75,7 +75,7 @@ def k2w(k1, k2=0e0, h=inf, g=9.81, u1=0e0, u2=0e0):
     k1i, k2i, hi, gi, u1i, u2i = np.broadcast_arrays(k1, k2, h, g, u1, u2)
 
     if np.size(k1i) == 0:
-        return zeros_like(k1i)
+        return zeros_like(k1i), zeros_like(k1i)
     ku1 = k1i * u1i
     ku2 = k2i * u2i
 
@@ -146,7 +146,7 @@ def w2k(w, theta=0.0, h=inf, g=9.81, count_limit=100, rtol=1e-7, atol=1e-14):
     gi = atleast_1d(g)
     wi, th, hi = np.broadcast_arrays(w, theta, h)
     if wi.size == 0:
-        return zeros_like(wi)
+        return zeros_like(wi), zeros_like(wi)
 
     k = 1.0 * sign(wi) * wi ** 2.0 / gi[0]  # deep water
     if (hi > 1e25).all():
-- 
2.43.0


From 2140c9d106977bcd78c1ec822383b0e21ef68328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:31 +0000
Subject: [PATCH 031/119] fix: wave_height_steepness rejects an unknown kind

---
 src/wafo/objects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wafo/objects.py b/src/wafo/objects.py
index 9a494eb..421ece3 100644
--- a/src/wafo/objects.py
+++ b/src/wafo/objects.py
@@ -1951,6 +1951,8 @@ class TimeSeries(PlotData):
             # Period zero-upcrossing waves
             Tu = np.diff(ecross(ti, xi, z_ind[1::2], v=0))
             S = 2 * pi * H / Tu ** 2 / g
+        else:
+            raise ValueError('kind = {}: not a valid value of kind'.format(kind))
 
         return S, H
 
-- 
2.43.0


From e1c7d4e94fe1a266b109d548fc618d4baf39fdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:31 +0000
Subject: [PATCH 032/119] fix: example_dct2 uses the builtin float

---
 src/wafo/dctpack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/dctpack.py b/src/wafo/dctpack.py
index 2f5e0c2..40e3462 100644
--- a/src/wafo/dctpack.py
+++ b/src/wafo/dctpack.py
@@ -403,7 +403,7 @@ def example_dct2(debug=True):
     import matplotlib.pyplot as plt
     name = os.path.join(WAFOPATH, 'autumn.gif')
     plt.figure(1)
-    rgb = np.asarray(imageio.imread(name), dtype=np.float)
+    rgb = np.asarray(imageio.imread(name), dtype=float)
     # np.fft.fft(rgb)
     out = dict(max_rgb=np.max(rgb), min_rgb=np.min(rgb))
     plt.set_cmap('jet')
-- 
2.43.0


From c38f40acad008a5acd02dffb04fe1a2ffc669585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:31 +0000
Subject: [PATCH 033/119] fix: the donelan and banner spreadings find their
 helper functions

---
 src/wafo/spectrum/models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index 1b54893..fb3aae0 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -1906,7 +1906,7 @@ class Spreading(object):
         k = flatnonzero(wn_up < wn)
         s[k] = spb * (wn_up) ** mb
         # Convert to S-paramater in COS-2S distribution
-        r1 = self.r1ofsech2(s)
+        r1 = self._r1ofsech2(s)
         s = r1 / (1. - r1)
         return s
 
@@ -1919,8 +1919,8 @@ class Spreading(object):
         s3p = self._donelan(wn_up)
         #  Scale so that parametrization will be continous
         scale = s3m / s3p
-        s[k] = scale * self.donelan(wn[k])
-        r1 = self.r1ofsech2(s)
+        s[k] = scale * self._donelan(wn[k])
+        r1 = self._r1ofsech2(s)
         # Convert to S-paramater in COS-2S distribution
         s = r1 / (1. - r1)
 
-- 
2.43.0


From 56d0e29d00c2ae3f65879378b77850737321464b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:31 +0000
Subject: [PATCH 034/119] fix: labelfig returns an empty list when labelling
 fails

---
 src/wafo/containers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wafo/containers.py b/src/wafo/containers.py
index 3371809..382da90 100644
--- a/src/wafo/containers.py
+++ b/src/wafo/containers.py
@@ -316,6 +316,7 @@ class AxisLabels:
             return self._labelfig(axis)
         except Exception as err:
             warnings.warn(str(err))
+            return []
 
 
 class Plotter_1d(object):
-- 
2.43.0


From 200ddcd7cf5c0b95ecfad8d9982b757c56ee6c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:31 +0000
Subject: [PATCH 035/119] fix: TransformEstimator.trdata returns a pair for
 every method and rejects unknown methods

---
 src/wafo/transform/estimation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/wafo/transform/estimation.py b/src/wafo/transform/estimation.py
index 0d86769..d67f52c 100644
--- a/src/wafo/transform/estimation.py
+++ b/src/wafo/transform/estimation.py
@@ -444,9 +444,12 @@ class TransformEstimator(object):
             up = min(4 * (4 * ga1 / 3) ** 2, 13)
             lo = (ga1 ** 2) * 3 / 2
             kurt1 = min(up, max(ga2, lo)) + 3
-            return TrHermite(mean=ma, var=sa ** 2, skew=ga1, kurt=kurt1)
-        elif method[0] == 'o':
+            tr = TrHermite(mean=ma, var=sa ** 2, skew=ga1, kurt=kurt1)
+            return tr, tr
+        elif method == 'o':
             ga1 = skew(data)
-            return TrOchi(mean=ma, var=sa ** 2, skew=ga1)
+            tr = TrOchi(mean=ma, var=sa ** 2, skew=ga1)
+            return tr, tr
+        raise ValueError('Unknown method: {}'.format(self.method))
 
     __call__ = trdata
-- 
2.43.0


From d110acf76726f4e2526e20e249a30c1080d2fa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:31 +0000
Subject: [PATCH 036/119] fix: CovData1D.simcond and tospecdata accept integer
 data

---
 src/wafo/covariance/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index 0b57da1..c934194 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -223,7 +223,7 @@ class CovData1D(PlotData):
         dt = self.sampling_period()
         # dt = time-step between data points.
 
-        acf = atleast_1d(self.data).copy()
+        acf = atleast_1d(self.data).astype(float)
 
         if self.lagtype in 't':
             spectype = 'freq'
@@ -569,7 +569,7 @@ class CovData1D(PlotData):
         reconstructed data"
         in Proceedings of 9th ISOPE Conference, Vol III, pp 66-73
         """
-        x = atleast_1d(xo).flatten()
+        x = atleast_1d(xo).flatten().astype(float)
         acf = self._get_acf().copy()
 
         num_x = len(x)
-- 
2.43.0


From d35261947647f313fbb592078d3e50f00d8fa902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:31 +0000
Subject: [PATCH 037/119] fix: Rind does not truncate integer barriers

---
 src/wafo/gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/gaussian.py b/src/wafo/gaussian.py
index 08bc1ef..82d455c 100644
--- a/src/wafo/gaussian.py
+++ b/src/wafo/gaussian.py
@@ -325,8 +325,8 @@ class Rind(object):
             xc = zeros((0, 1))
 
         big, b_lo, b_up, xc = atleast_2d(cov, ab, bb, xc)
-        b_lo = b_lo.copy()
-        b_up = b_up.copy()
+        b_lo = b_lo.astype(float)
+        b_up = b_up.astype(float)
 
         Ntdc = big.shape[0]
         Nc = xc.shape[0]
-- 
2.43.0


From 044040833267642106e6ab34582f8ed6868c7c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:31 +0000
Subject: [PATCH 038/119] fix: PPform evaluates integer arguments without
 truncation

---
 src/wafo/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index 34497ac..f11f88e 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -348,7 +348,7 @@ class PPform(object):
     def __call__(self, xnew):
         saveshape = np.shape(xnew)
         xnew = np.ravel(xnew)
-        res = np.empty_like(xnew)
+        res = np.empty(xnew.shape)
         mask = (self.a <= xnew) & (xnew <= self.b)
         res[~mask] = self.fill
         xx = xnew.compress(mask)
-- 
2.43.0


From 8ee11be649096be205ca23524cd7528edc3b328d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:31 +0000
Subject: [PATCH 039/119] fix: TKDE transforms integer data without truncation

---
 src/wafo/kdetools/kdetools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index f9778df..81e3e30 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -390,7 +390,7 @@ class TKDE(_KDE):
 
         L2 = np.atleast_1d(self.L2) * np.ones(self.d)
 
-        tpoints = copy.copy(points)
+        tpoints = np.array(points, dtype=float)
         for i, v2 in enumerate(L2.tolist()):
             tpoints[i] = np.log(points[i]) if v2 == 0 else points[i] ** v2
         return tpoints
-- 
2.43.0


From 9e8519a7225414a2024f6ff4cb11bb3c6f9aa006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:31 +0000
Subject: [PATCH 040/119] fix: mctp2rfc accepts integer counts

---
 src/wafo/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/markov.py b/src/wafo/markov.py
index 2830831..d212e73 100644
--- a/src/wafo/markov.py
+++ b/src/wafo/markov.py
@@ -491,7 +491,7 @@ def mctp2rfc(fmM, fMm=None):
         fMm = fmM
     else:
         fmM, fMm = np.atleast_1d(fmM, fMm)
-    f_mM, f_Mm = fmM.copy(), fMm.copy()
+    f_mM, f_Mm = fmM.astype(float), fMm.astype(float)
     N = max(f_mM.shape)
     f_max = np.sum(f_mM, axis=1)
     f_min = np.sum(f_mM, axis=0)
-- 
2.43.0


From 48cf37846684a21fd17da6608509e94e4a2ec1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:31 +0000
Subject: [PATCH 041/119] fix: moving_average of integer data is not truncated

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index f996fd1..e0346a1 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -859,7 +859,7 @@ def moving_average(x, L, axis=0):
     axes[axis] = 0
 
     x1 = np.transpose(x1, axes)
-    y = np.empty_like(x1)
+    y = np.empty(x1.shape)
 
     n = x1.shape[0]
     if n < 2 * L + 1:  # only able to remove the mean
-- 
2.43.0


From c9defa6e9f4757a8793144dccee2520ac2a5f0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:31 +0000
Subject: [PATCH 042/119] fix: cycle pairs are swapped as floats and also when
 only the first pair needs it

---
 src/wafo/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/objects.py b/src/wafo/objects.py
index 421ece3..b3dfae7 100644
--- a/src/wafo/objects.py
+++ b/src/wafo/objects.py
@@ -1049,11 +1049,11 @@ class CyclePairs(PlotData):
         --------
         cc2cmat, dcc2cmat, dcc2cc
         """
-        cp1, cp2 = np.copy(self.args), np.copy(self.data)
+        cp1, cp2 = np.array(self.args, dtype=float), np.array(self.data, dtype=float)
 
         # Make so that minima is in first column
         ix = np.flatnonzero(cp1 > cp2)
-        if np.any(ix):
+        if ix.size > 0:
             cp1[ix], cp2[ix] = cp2[ix], cp1[ix]
 
         # Make discretization
-- 
2.43.0


From d15817647af5066954dcabd05083a0f7c1795fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:31 +0000
Subject: [PATCH 043/119] fix: chebval with an integer fill value does not
 truncate

---
 src/wafo/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 4a6de5e..376fecb 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -1566,7 +1566,7 @@ def chebval(x, ck, a=-1, b=1, kind=1, fill=None):
         f = _chebval(y, ck, kind=kind)
     else:
         cond = (abs(y) <= 1)
-        f = np.where(cond, 0, fill)
+        f = np.where(cond, 0.0, fill)
         if np.any(cond):
             yk = np.extract(cond, y)
             f[cond] = _chebval(yk, ck, kind=kind)
-- 
2.43.0


From fc403e8c706715f96c5755591b4ff7e0472334a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:31 +0000
Subject: [PATCH 044/119] fix: polyreloc of integer coefficients by a fraction
 does not truncate

---
 src/wafo/polynomial.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 376fecb..bb1ffeb 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -477,7 +477,7 @@ def orthofit(x, y, n):
     # ys = np.dot(p[0, :], PL)  # smoothed y
 
 
-def polyreloc(p, x, y=0.0):
+def polyreloc(p, x, y=0):
     """
     Relocate polynomial
 
@@ -526,7 +526,8 @@ def polyreloc(p, x, y=0.0):
         return r
 
     def _relocate_with_horner(p, x, y):
-        r = np.atleast_1d(p).copy()
+        r = np.atleast_1d(p)
+        r = r.astype(np.result_type(r, x, y))
         n = r.shape[0]
         # Relocate polynomial using Horner's algorithm
         for ii in range(n, 1, -1):
-- 
2.43.0


From 62a23297cfbddbf3a8f470081eb667a091c099ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:31 +0000
Subject: [PATCH 045/119] fix: frequency dependent spreading accepts integer
 frequencies

---
 src/wafo/spectrum/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index fb3aae0..24114d8 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -1817,7 +1817,7 @@ class Spreading(object):
         A = asarray(A0)
 
         # Newton-Raphson
-        da = ones_like(r1)
+        da = ones(r1.shape)
 
         max_count = 100
         ix = flatnonzero(A)
@@ -1896,6 +1896,7 @@ class Spreading(object):
 
         # Mitsuyasu et. al and Hasselman et. al parametrization   of
         # frequency dependent spreading
+        wn = asarray(wn, dtype=float)
         s = where(wn <= wn_c, spa * wn ** ma, spb * wn ** mb)
         s[wn <= wn_lo] = 0.0
         return s, spb, wn_up, mb
-- 
2.43.0


From a7b2400d77acb9083d40ab70ccbbed8753351eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:31 +0000
Subject: [PATCH 046/119] fix: returnperiod2sf and sf2returnperiod accept
 integers and scalars

---
 src/wafo/stats/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index b0d0e4b..21b681f 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -494,7 +494,7 @@ def returnperiod2sf(period, numevents_per_unit=1):
     t, npu = np.broadcast_arrays(period, numevents_per_unit)
     invprb = t*npu
     nan_mask = (npu <= 0) | (invprb < 1)
-    invprb[nan_mask] = np.nan
+    invprb = np.where(nan_mask, np.nan, invprb)
     return 1./invprb
 
 
@@ -533,7 +533,7 @@ def sf2returnperiod(q, numevents_per_unit=1):
     prbi, npu = np.broadcast_arrays(q, numevents_per_unit)
     inv_period = npu * prbi
     nan_mask = (npu < 0) | (prbi < 0) | (1 <= prbi)
-    inv_period[nan_mask] = np.nan
+    inv_period = np.where(nan_mask, np.nan, inv_period)
     return 1./inv_period
 
 
-- 
2.43.0


From 1a9b14b0c9ade8b806093e2a6d5308ba48c0ee75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:51 +0000
Subject: [PATCH 047/119] fix: the step control of RegLogit.fit can run and
 ends for a constant Hessian too

---
 src/wafo/stats/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index 21b681f..05d2ddc 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -966,7 +966,7 @@ class RegLogit(object):
         # likelihood and derivatives at starting values
         [dev, dl, d2l] = self.loglike(tb, y, X, z, z1)
 
-        epsilon = np.std(d2l) / 1000
+        epsilon = max(np.std(d2l) / 1000, _EPS)
         if np.any(beta0) or np.any(theta00 != theta0):
             tb0 = np.vstack((theta00, beta00))
             nulldev = self.loglike(tb0, y, X, z, z1)[0]
@@ -989,7 +989,7 @@ class RegLogit(object):
                         raise ValueError('epsilon too large')
 
                     tb = tbold - \
-                        np.linalg.lstsq(d2l - epsilon * np.eye(d2l.shape), dl)
+                        np.linalg.lstsq(d2l - epsilon * np.eye(len(dl)), dl)[0]
                     [dev, dl, d2l] = self.loglike(tb, y, X, z, z1)
                     print('epsilon %g' % epsilon)
                     # end %while
-- 
2.43.0


From a589c66953673c02e6196d3fbbb0793aac90812e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:31 +0000
Subject: [PATCH 048/119] fix: refuse negative methods in findrfc

---
 src/wafo/_misc_numba.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wafo/_misc_numba.py b/src/wafo/_misc_numba.py
index 9b3f85c..6e7e048 100644
--- a/src/wafo/_misc_numba.py
+++ b/src/wafo/_misc_numba.py
@@ -241,6 +241,8 @@ def findrfc(y, h, method=0):
     Method 0 and 1 is the same implementation as found in rfcfilter.m in matlab.
     Method 2 is the same implementation as found in findrfc function found in c_functions.c.
     """
+    if method not in (0, 1, 2):
+        raise ValueError('method must be 0, 1 or 2! Got method={}.'.format(method))
     n = len(y)
     t = np.zeros(n, dtype=np.int64)
     findrfc_ = [_findrfc_le, _findrfc_lt, _findrfc][method]
-- 
2.43.0


From 69ba9ce7d6522bc09d7913c257f2ed5d5a4eb305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:31 +0000
Subject: [PATCH 049/119] fix: refuse unknown methods in simcond

---
 src/wafo/covariance/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index c934194..5980de0 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -681,6 +681,8 @@ class CovData1D(PlotData):
                     t_unknown = flatnonzero(mask_unknown[idx])
                     t_known = flatnonzero(1 - mask_unknown[idx])
                     ns = len(t_unknown)  # # missing data in the interval
+        else:
+            raise ValueError('Unknown method (%s)' % method)
         return sample, mu1o, mu1o_std
 
 
-- 
2.43.0


From ed2c8b1d2ede7bae33b95f4cd81ce994624cad2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:31 +0000
Subject: [PATCH 050/119] fix: do not truncate the nugget of integer
 covariances in simcond

---
 src/wafo/covariance/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index 5980de0..5b3575d 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -570,7 +570,7 @@ class CovData1D(PlotData):
         in Proceedings of 9th ISOPE Conference, Vol III, pp 66-73
         """
         x = atleast_1d(xo).flatten().astype(float)
-        acf = self._get_acf().copy()
+        acf = self._get_acf().astype(float)
 
         num_x = len(x)
         num_acf = len(acf)
-- 
2.43.0


From 3f1a82a2be4b46a75b0e6fa3e43c101433d7e37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:31 +0000
Subject: [PATCH 051/119] fix: refuse unknown methods for the roots of
 orthogonal polynomials

---
 src/wafo/integrate.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/wafo/integrate.py b/src/wafo/integrate.py
index 94c0642..875bd93 100644
--- a/src/wafo/integrate.py
+++ b/src/wafo/integrate.py
@@ -274,6 +274,11 @@ def _h_roots_newton(n, releps=3e-14, max_iter=10):
     return _expand_roots(z, weights, n, m)
 
 
+def _check_root_method(method):
+    _assert(method.startswith(('n', 'e')),
+            "method must be 'newton' or 'eigenvalue'! Got method={}.".format(method))
+
+
 def h_roots(n, method='newton'):
     """
     Returns the roots (x) of the nth order Hermite polynomial,
@@ -317,6 +322,7 @@ def h_roots(n, method='newton'):
       prentice-hall, Englewood cliffs, n.j.
     """
 
+    _check_root_method(method)
     if not method.startswith('n'):
         return ort.h_roots(n)
     return _h_roots_newton(n)
@@ -422,6 +428,7 @@ def j_roots(n, alpha, beta, method='newton'):
     """
     _assert((-1 < alpha) & (-1 < beta),
             'alpha and beta must be greater than -1')
+    _check_root_method(method)
     if not method.startswith('n'):
         return ort.j_roots(n, alpha, beta)
     return _j_roots_newton(n, alpha, beta)
@@ -471,6 +478,7 @@ def la_roots(n, alpha=0, method='newton'):
     """
     _assert(-1 < alpha, 'alpha must be greater than -1')
 
+    _check_root_method(method)
     if not method.startswith('n'):
         return ort.la_roots(n, alpha)
     return _la_roots_newton(n, alpha)
@@ -697,6 +705,7 @@ def p_roots(n, method='newton', a=-1, b=1):
         prentice-hall, Englewood cliffs, n.j.
     """
 
+    _check_root_method(method)
     if not method.startswith('n'):
         nodes, weights = ort.p_roots(n)
     else:
-- 
2.43.0


From c2baf7d53434b2504301b5e18e0a5a413ec35c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:31 +0000
Subject: [PATCH 052/119] fix: refuse unknown methods in discretize

---
 src/wafo/misc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index e0346a1..5c7f5c6 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -2240,6 +2240,8 @@ def discretize(fun, a, b, tol=0.005, n=5, method='linear'):
     '''
     if method.startswith('a'):
         return _discretize_adaptive(fun, a, b, tol, n)
+    if not method.startswith('l'):
+        raise ValueError("method must be 'linear' or 'adaptive'! Got method={}.".format(method))
     return _discretize_linear(fun, a, b, tol, n)
 
 
-- 
2.43.0


From 7fc37df66cbc7872b72b4bf2ec96a9e40539990e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:31 +0000
Subject: [PATCH 053/119] fix: refuse unknown methods in fourier

---
 src/wafo/misc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 5c7f5c6..5e77c02 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -2891,6 +2891,8 @@ def fourier(data, t=None, period=None, m=None, method='trapz'):
     n = len(t) if n is None else n
     m = n if m is None else m
     period = t[-1] - t[0] if period is None else period
+    if not method.startswith(('trapz', 'simps')):
+        raise ValueError("method must be 'trapz' or 'simps'! Got method={}.".format(method))
     intfun = trapz if method.startswith('trapz') else simps
 
     # Define the vectors for computing the Fourier coefficients
-- 
2.43.0


From df6ee97da6d7cc7b2acdd218ec97a08d4bc531c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:31 +0000
Subject: [PATCH 054/119] fix: refuse unknown kinds in cycle_pairs

---
 src/wafo/objects.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wafo/objects.py b/src/wafo/objects.py
index b3dfae7..37b4530 100644
--- a/src/wafo/objects.py
+++ b/src/wafo/objects.py
@@ -1225,10 +1225,12 @@ class TurningPoints(PlotData):
         if kind.lower().startswith('min2max'):
             m = data[im:-1:2]
             M = data[im + 1::2]
-        else:
+        elif kind.lower().startswith('max2min'):
             kind = 'max2min'
             M = data[iM:-1:2]
             m = data[iM + 1::2]
+        else:
+            raise ValueError('Unknown kind (%s)' % kind)
 
         time = self.args[-1] - self.args[0]
 
-- 
2.43.0


From 9a75b7374f5ea96a12d9fd16eb47a24661d2f24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:31 +0000
Subject: [PATCH 055/119] fix: refuse unknown frequency types

---
 src/wafo/spectrum/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index 79a7635..d9bae30 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -736,6 +736,8 @@ class SpecData1D(PlotData):
             self.data = self.data * (2 * np.pi)
             self._freqtype = 'f'
             self.setlabels()
+        else:
+            raise ValueError('Cannot change freqtype from {} to {}'.format(self._freqtype, freqtype))
 
     def _get_default_dt_and_rate(self, dt):
         dt_old = self.sampling_period()
-- 
2.43.0


From 60333a924feced413fb8eb9a495ad1d7261fc2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:31 +0000
Subject: [PATCH 056/119] fix: refuse unknown methods in qtf

---
 src/wafo/spectrum/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index d9bae30..bd1ca2a 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -212,6 +212,8 @@ def qtf(w, h=inf, g=9.81, method='winterstein', rtol=1e-7, atol=0):
                (k12 * g ** 2 + w12 ** 2) / (4 * g * w12 + _TINY) +
                (w_1 ** 2. + w_2 ** 2.) / (4. * g))
 
+    elif not method.startswith('winterstein'):
+        raise ValueError('Unknown method ({})'.format(method))
     else:  # Marthinsen & Winterstein
         tmp1 = 2.0 * g * k12 / (w12 + 0)
         tmp2 = (w_1 ** 2. + w_2 ** 2. + w12) / g
-- 
2.43.0


From 16354f98397d36ff6d09f03c8c72dbc23f16e0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:31 +0000
Subject: [PATCH 057/119] fix: recognise the documented methods in sim_nl and
 refuse others

---
 src/wafo/spectrum/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index bd1ca2a..fe37378 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -2924,6 +2924,7 @@ class SpecData1D(PlotData):
         T = (ns - 1) * d_t
         Ssqr = sqrt(s_u * df / 2.)
 
+        method = method.lower()
         if method.startswith('apd'):  # apdeterministic
             # Deterministic amplitude and phase
             amp[1:(ns2), :] = amp[1, 0]
@@ -2934,6 +2935,8 @@ class SpecData1D(PlotData):
             # Deterministic amplitude and random phase
             amp = sqrt(2) * Ssqr[:, newaxis] * \
                 exp(1J * arctan2(amp.imag, amp.real))
+        elif not method.startswith(('random', 'aps')):
+            raise ValueError('Unknown method ({})'.format(method))
         else:
             # stochastic amplitude
             amp = amp * Ssqr[:, newaxis]
-- 
2.43.0


From d66de2b3553607ef50da22e0de1a9a88baccfe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:31 +0000
Subject: [PATCH 058/119] fix: refuse unknown methods in jonswap_seastate

---
 src/wafo/spectrum/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index 24114d8..014a2fb 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -423,6 +423,8 @@ def jonswap_seastate(u10, fetch=150000., method='lewis', g=9.81,
         sa = 0.07
         sb = 0.09
         gam = 3.3
+    elif not method.startswith('l'):
+        raise ValueError('Unknown method ({})'.format(method))
     else:
         A = 0.074 * zeta ** (-0.22)     # Eq. 10
         ny = 3.57 * zeta ** (-0.33)     # dimensionless peakfrequency, Eq. 11
-- 
2.43.0


From ed963791f36ce1d9e0c128c6b946f49c5ec755f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:31 +0000
Subject: [PATCH 059/119] fix: refuse unknown fitting methods

---
 src/wafo/stats/estimation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index e5c7194..97a06b5 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -1200,8 +1200,10 @@ class FitDistribution(rv_frozen):
         self._method = method.lower()
         if self._method.startswith('mps'):
             self._fitfun = self._nlogps
-        else:
+        elif self._method.startswith('ml'):
             self._fitfun = self._nnlf
+        else:
+            raise ValueError('Unknown method ({})'.format(method))
 
     def __repr__(self):
         params = ['alpha', 'method', 'LLmax', 'LPSmax', 'pvalue',
-- 
2.43.0


From 624bb519208576fcadbf6517065e9ac0d5d9e42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:31 +0000
Subject: [PATCH 060/119] fix: refuse unknown methods in fit2

---
 src/wafo/stats/_distn_infrastructure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wafo/stats/_distn_infrastructure.py b/src/wafo/stats/_distn_infrastructure.py
index 3837e20..3a163c3 100644
--- a/src/wafo/stats/_distn_infrastructure.py
+++ b/src/wafo/stats/_distn_infrastructure.py
@@ -239,8 +239,10 @@ def _reduce_func2(self, args, kwds):
     method = kwds.pop('method', 'ml').lower()
     if method.startswith('mps'):
         fitfun = self._penalized_nlogps
-    else:
+    elif method.startswith('ml'):
         fitfun = self._penalized_nnlf
+    else:
+        raise ValueError('Unknown method ({})'.format(method))
 
     x0, args, fixedn = _unpack_args_kwds(self, args, kwds)
 
-- 
2.43.0


From c3adea17002dd9c60d2210030a09d8df9ecd2470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:31 +0000
Subject: [PATCH 061/119] fix: refuse unknown pardef in TrHermite

---
 src/wafo/transform/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wafo/transform/models.py b/src/wafo/transform/models.py
index b377b01..d871c07 100644
--- a/src/wafo/transform/models.py
+++ b/src/wafo/transform/models.py
@@ -157,6 +157,8 @@ class TrHermite(TrCommon2):
 
     @pardef.setter
     def pardef(self, pardef):
+        if pardef not in (1, 2):
+            raise ValueError('pardef must be 1 or 2! Got pardef={}.'.format(pardef))
         self._pardef = pardef
         if pardef == 2:
             self._softening_parameters = self._winterstein1988
-- 
2.43.0


From 4bf4e2b1b5faa7b7550e10fa6c17994c99724119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:31 +0000
Subject: [PATCH 062/119] fix: refuse unknown methods in edf

---
 src/wafo/stats/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index 05d2ddc..945b655 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -89,8 +89,10 @@ def edf(x, method=2):
         e_cdf = arange(0.5, n) / n
     elif method == 3:
         e_cdf = arange(1, n + 1) / n
-    else:
+    elif method == 2:
         e_cdf = arange(1, n + 1) / (n + 1)
+    else:
+        raise ValueError('method must be 1, 2 or 3! Got method={}.'.format(method))
 
     return PlotData(e_cdf, z, xlab='x', ylab='F(x)', plotmethod='step')
 
-- 
2.43.0


From 9187717e4dddcc65b8ff99820c5ded9745a62689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:31 +0000
Subject: [PATCH 063/119] fix: refuse unknown kinds in nt2fr

---
 src/wafo/markov.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wafo/markov.py b/src/wafo/markov.py
index d212e73..ab6a3f3 100644
--- a/src/wafo/markov.py
+++ b/src/wafo/markov.py
@@ -32,6 +32,8 @@ def nt2fr(nt, kind=0):
     fr = np.zeros(np.shape(nt))
     if kind == 0:
         fr[:n - 1, :n - 1] = fr_raw
+    elif kind != 1:
+        _raise_kind_error(kind)
     else:
         fr[1:, 1:] = fr_raw
     return fr
-- 
2.43.0


From 8501152de0a89f08d3267717bb22bee72e9c9271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:31 +0000
Subject: [PATCH 064/119] fix: refuse unknown interval methods in BKRegression

---
 src/wafo/kdetools/kdetools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index 81e3e30..cd9c497 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -1068,6 +1068,8 @@ class BKRegression(object):
         """
         if self.method.startswith('w'):
             return self._wilson_score(n, p, alpha)
+        if not self.method.startswith('b'):
+            raise ValueError("method must be 'beta' or 'wilson'! Got method={}.".format(self.method))
         return self._credible_interval(n, p, alpha)
 
     def prb_empirical(self, xi=None, hs_e=None, alpha=0.05, color='r', **kwds):
-- 
2.43.0


From 3e6af89c664ee69e516c82461efc162e6fcfaf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:28 +0000
Subject: [PATCH 065/119] fix: refuse unknown methods in SpecData1D.sim

---
 src/wafo/spectrum/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index fe37378..8f7b714 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -2625,7 +2625,9 @@ class SpecData1D(PlotData):
         if ns is None:
             ns = Nt - 1
 
-        if method in 'exact':
+        if method not in ('exact', 'random'):
+            raise ValueError('Unknown method ({})'.format(method))
+        if method == 'exact':
 
             # nr=0,Nt=None,dt=None
             acf = spec.tocovdata(nr=0)
-- 
2.43.0


From 4dc8fb4e0c52041c42d0284019ff2b491159813e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:16 +0000
Subject: [PATCH 066/119] fix: derivatives, integrals and sums of Cheb1d
 failed, and m was ignored

---
 src/wafo/polynomial.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index bb1ffeb..1ce92af 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -1745,18 +1745,14 @@ class Cheb1d(object):
         pass
 
     def __neg__(self):
-        new = Cheb1d(self)
-        new.coeffs = -self.coeffs
-        return new
+        return Cheb1d(-self.coeffs, self.a, self.b, self.kind)
 
     def __pos__(self):
         return self
 
     def __add__(self, other):
         other = Cheb1d(other)
-        new = Cheb1d(self)
-        new.coeffs = polyadd(self.coeffs, other.coeffs)
-        return new
+        return Cheb1d(polyadd(self.coeffs, other.coeffs), self.a, self.b, self.kind)
 
     def __radd__(self, other):
         return self.__add__(other)
@@ -1765,9 +1761,7 @@ class Cheb1d(object):
         return self.__add__(-other)
 
     def __rsub__(self, other):
-        new = self.__sub__(other)
-        new.coeffs *= -1
-        return new
+        return -self.__sub__(other)
 
     def __eq__(self, other):
         other = Cheb1d(other)
@@ -1819,9 +1813,10 @@ class Cheb1d(object):
         chebint : equivalent function
 
         """
-        integ = Cheb1d(self)
-        integ.coeffs = chebint(self.coeffs, self.a, self.b)
-        return integ
+        coeffs = self.coeffs
+        for _ in range(m):
+            coeffs = chebint(coeffs, self.a, self.b)
+        return Cheb1d(coeffs, self.a, self.b, self.kind)
 
     def deriv(self, m=1):
         """
@@ -1834,9 +1829,10 @@ class Cheb1d(object):
         chebder : equivalent function
 
         """
-        der = Cheb1d(self)
-        der.coeffs = chebder(self.coeffs, self.a, self.b)
-        return der
+        coeffs = self.coeffs
+        for _ in range(m):
+            coeffs = chebder(coeffs, self.a, self.b)
+        return Cheb1d(coeffs, self.a, self.b, self.kind)
 
 
 def padefit(c, m=None):
-- 
2.43.0


From a934552b7b20c59dfb153482a810333dea3772d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:16 +0000
Subject: [PATCH 067/119] fix: prbnormnd ignored allow_singular

---
 src/wafo/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/gaussian.py b/src/wafo/gaussian.py
index 82d455c..0bf350a 100644
--- a/src/wafo/gaussian.py
+++ b/src/wafo/gaussian.py
@@ -719,7 +719,7 @@ def prbnormnd(correl, a, b, abseps=1e-4, releps=1e-3, maxpts=None, allow_singula
         raise ValueError('This is not a correlation matrix')
 
     return mvn.cdf(b, cov=correl,
-                   allow_singular=False,
+                   allow_singular=allow_singular,
                    maxpts=maxpts,
                    abseps=abseps,
                    releps=releps,
-- 
2.43.0


From ba8d8409b93bae008c3e78fbfb10f47b9c94397a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:16 +0000
Subject: [PATCH 068/119] fix: derivative and integral of an extrapolating
 PPform did not extrapolate

---
 src/wafo/interpolate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index f11f88e..b79f1f7 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -414,7 +414,7 @@ class PPform(object):
 
         newcoefs = np.hstack([a_1.reshape(-1, 1), coefs, a_n.reshape(-1, 1)])
         if output:
-            return PPform(newcoefs, newbreaks, a=-inf, b=inf)
+            return PPform(newcoefs, newbreaks, fill=self.fill, a=-inf, b=inf)
         else:
             self.coeffs = newcoefs
             self.breaks = newbreaks
@@ -428,7 +428,7 @@ class PPform(object):
 
         cof = pl.polyder(self.coeffs)
         brks = self.breaks.copy()
-        return PPform(cof, brks, fill=self.fill)
+        return PPform(cof, brks, fill=self.fill, a=self.a, b=self.b)
 
     def integrate(self):
         """
@@ -450,7 +450,7 @@ class PPform(object):
 
             cof[-1] = np.hstack((0, vv)).cumsum()
 
-        return PPform(cof, self.breaks, fill=self.fill)
+        return PPform(cof, self.breaks, fill=self.fill, a=self.a, b=self.b)
 
 #     def fromspline(self, xk, cvals, order, fill=0.0):
 #         N = len(xk) - 1
-- 
2.43.0


From 3bae6b7801acc56688bda9dd60c2bdcfccc34f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:16 +0000
Subject: [PATCH 069/119] fix: use the given acceleration of gravity throughout
 sim_nl

---
 src/wafo/spectrum/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index 8f7b714..458a192 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -2860,7 +2860,7 @@ class SpecData1D(PlotData):
         """
 
         # TODO % Check the methods: 'apdeterministic' and 'adeterministic'
-        Hm0, Tm02 = self.characteristic(['Hm0', 'Tm02'])[0].tolist()
+        Hm0, Tm02 = self.characteristic(['Hm0', 'Tm02'], g=g)[0].tolist()
 
         _set_seed(iseed)
 
@@ -2962,7 +2962,7 @@ class SpecData1D(PlotData):
         # Find the critical wave frequency to ensure convergence.
 
         num_waves = 1000.  # Typical number of waves in 3 hour seastate
-        kbar = w2k(2. * pi / Tm02, 0., water_depth)[0]
+        kbar = w2k(2. * pi / Tm02, 0., water_depth, g)[0]
         # Expected maximum amplitude for 1000 waves seastate
         amp_max = sqrt(2 * log(num_waves)) * Hm0 / 4
 
-- 
2.43.0


From 7203053a44a4206c93615d7cb74202e723b13884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:16 +0000
Subject: [PATCH 070/119] fix: use the given acceleration of gravity throughout
 to_linspec

---
 src/wafo/spectrum/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index 458a192..c30e469 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -1095,7 +1095,7 @@ class SpecData1D(PlotData):
         ns = ns + mod(ns, 2)  # make sure np is even
 
         water_depth = abs(self.h)
-        kbar = w2k(2 * pi / Tm02, 0, water_depth)[0]
+        kbar = w2k(2 * pi / Tm02, 0, water_depth, gravity)[0]
 
         # Expected maximum amplitude for 10000 waves seastate
         num_waves = 10000  # Typical number of waves in 30 hour seastate
@@ -1121,7 +1121,7 @@ class SpecData1D(PlotData):
         for ix in range(max_sim):
             x2, x1 = self.sim_nl(ns=ns, cases=cases, dt=None, iseed=iseed,
                                  method=method, fnlimit=fn_limit,
-                                 output='timeseries')
+                                 output='timeseries', g=gravity)
             x2.data -= x1.data  # x2(:,2:end) = x2(:,2:end) -x1(:,2:end)
             S2 = x2.tospecdata(max_lag)
             S1 = x1.tospecdata(max_lag)
-- 
2.43.0


From c330f6b56c049c5dcead7b556276965515d703a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:16 +0000
Subject: [PATCH 071/119] fix: use the given acceleration of gravity for the
 wave numbers in TransferFunction and wave_pressure

---
 src/wafo/wave_theory/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/wave_theory/core.py b/src/wafo/wave_theory/core.py
index fc09efd..be68568 100644
--- a/src/wafo/wave_theory/core.py
+++ b/src/wafo/wave_theory/core.py
@@ -324,7 +324,7 @@ class TransferFunction(object):
         '''
         if kw is None:
             # wave number as function of angular frequency
-            kw, unusedkw2 = w2k(w, 0, self.h)
+            kw, unusedkw2 = w2k(w, 0, self.h, self.g)
 
         w, theta, kw = np.atleast_1d(w, theta, kw)
         # make sure they have the correct orientation
@@ -560,7 +560,7 @@ def wave_pressure(z, Hm0, h=10000, g=9.81, rho=1028):
     gam = _MODELS.jonswap_peakfact(Hm0, Tp)
     Tm02 = Tp / (1.30301 - 0.01698 * gam + 0.12102 / gam)
     w = 2 * np.pi / Tm02
-    kw, unused_kw2 = w2k(w, 0, h)
+    kw, unused_kw2 = w2k(w, 0, h, g)
 
     hk = kw * h
     zk1 = kw * z
-- 
2.43.0


From 64f8420a68d8a2590766664e331b8e8fe624dcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:16 +0000
Subject: [PATCH 072/119] fix: Torsethaugen ignored wnc

---
 src/wafo/spectrum/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index 014a2fb..c045926 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -1051,9 +1051,9 @@ class Torsethaugen(ModelSpectrum):
         # G0s=Ms/((Ns/Ms)**(-(Ns-1)/Ms)*gamma((Ns-1)/Ms )) #normalizing factor
 
         self.wind = Jonswap(Hm0=Hpw, Tp=Tpw, gamma=gammaw, N=Nw, M=Mw,
-                            method=self.method, chk_seastate=False)
+                            method=self.method, wnc=self.wnc, chk_seastate=False)
         self.swell = Jonswap(Hm0=Hps, Tp=Tps, gamma=gammas, N=Ns, M=Ms,
-                             method=self.method, chk_seastate=False)
+                             method=self.method, wnc=self.wnc, chk_seastate=False)
 
 
 class McCormick(Bretschneider):
-- 
2.43.0


From c07ff60bf210e4c4f3326d71c8a601933ca67e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:24 +0000
Subject: [PATCH 073/119] fix: chebfit_dct ignored args

---
 src/wafo/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 1ce92af..a6528b1 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -1353,7 +1353,7 @@ def chebfit_dct(f, n=(10, ), domain=None, args=()):
             xi = [map_to_interval(chebroot(ni), d[0], d[1])
                   for ni, d in _zip(n, domain)]
             Xi = np.meshgrid(*xi)
-            return f(*Xi) / np.product(n), len(n)
+            return f(*(tuple(Xi) + tuple(args))) / np.product(n), len(n)
         return f / np.product(f.shape), f.ndim
 
     ck, ndim = _init_ck(f, n, domain)
-- 
2.43.0


From 684b125957ee530dd407243c209ee36866c6a5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:04 +0000
Subject: [PATCH 074/119] fix: romberg: the size of the table is an integer for
 short intervals too

---
 src/wafo/integrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/integrate.py b/src/wafo/integrate.py
index 875bd93..b34f79b 100644
--- a/src/wafo/integrate.py
+++ b/src/wafo/integrate.py
@@ -171,7 +171,7 @@ def romberg(fun, a, b, releps=1e-3, abseps=1e-3):
     h = b - a
     h_min = 1.0e-9
     # Max size of extrapolation table
-    table_limit = max(min(np.round(np.log2(h / h_min)), 30), 3)
+    table_limit = int(max(min(np.round(np.log2(h / h_min)), 30), 3))
 
     rom = zeros((2, table_limit))
 
-- 
2.43.0


From 896e82540da76b29849c2852d1cb14c448b55017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:04 +0000
Subject: [PATCH 075/119] fix: to_mmt_pdf: compute the number of points and the
 index of the middle level as integers

---
 src/wafo/spectrum/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index c30e469..1b1b1fe 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -1962,8 +1962,8 @@ class SpecData1D(PlotData):
         symmetry = 0
         is_odd = np.mod(Nx1, 2)
         if def_nr <= 1:  # just plain Mm
-            Nx = Nx1 * (Nx1 - 1) / 2
-            IJ = (Nx1 + is_odd) / 2
+            Nx = Nx1 * (Nx1 - 1) // 2
+            IJ = (Nx1 + is_odd) // 2
             if (hg[0] + hg[Nx1 - 1] == 0 and (hg[IJ - 1] == 0 or
                                               hg[IJ - 1] + hg[IJ] == 0)):
                 symmetry = 0
-- 
2.43.0


From 46e1d8aef2979d90362b0e46e49608e65b09770c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:04 +0000
Subject: [PATCH 076/119] fix: TrHermite: index of the middle value is an
 integer, and the warning takes two limits

---
 src/wafo/transform/models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/transform/models.py b/src/wafo/transform/models.py
index d871c07..de90a86 100644
--- a/src/wafo/transform/models.py
+++ b/src/wafo/transform/models.py
@@ -7,7 +7,7 @@ TrLinear
 '''
 # !/usr/bin/env python
 from scipy.optimize import brentq  # @UnresolvedImport
-from numpy import (sqrt, atleast_1d, abs, imag, sign, where, cos, arccos, ceil,
+from numpy import (sqrt, atleast_1d, abs, imag, sign, where, cos, arccos,
                    expm1, log1p, pi)
 import numpy as np
 import warnings
@@ -218,7 +218,7 @@ class TrHermite(TrCommon2):
             self._x_limit = self.sigma * polynom(root) + self.mean
         txt1 = '''
     The polynomial is not a strictly increasing function.
-    The derivative of g(x) is infinite at x = %g''' % self._x_limit
+    The derivative of g(x) is infinite at x = %s''' % (self._x_limit,)
         warnings.warn(txt1)
 
     def _check_monotonicity(self, p):
@@ -347,7 +347,7 @@ class TrHermite(TrCommon2):
             d = sqrt(-p1)
             theta1 = arccos(-q0 / d ** 3) / 3
             th2 = np.r_[0, -2 * pi / 3, 2 * pi / 3]
-            x1 = abs(2 * d * cos(theta1[ceil(len(xn) / 2)] + th2) - x0)
+            x1 = abs(2 * d * cos(theta1[(len(xn) - 1) // 2] + th2) - x0)
             ix = x1.argmin()  # choose the smallest solution
             return 2. * d * cos(theta1 + th2[ix]) - x0
         else:                # Only one real root exist
-- 
2.43.0


From 63eb265c878626336e6641800e7b2aa67facff22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:30 +0000
Subject: [PATCH 077/119] fix: the covariance estimated from transformed data
 keeps the transformation

---
 src/wafo/covariance/estimation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wafo/covariance/estimation.py b/src/wafo/covariance/estimation.py
index 985cdc5..12ab128 100644
--- a/src/wafo/covariance/estimation.py
+++ b/src/wafo/covariance/estimation.py
@@ -171,6 +171,7 @@ class CovarianceEstimator(object):
                         PlotData(2. * acf.sigma[lags], t)]
         acf.plot_args_children = ['r:']
         acf.norm = self.norm
+        acf.tr = self.tr
         return acf
 
     __call__ = tocovdata
-- 
2.43.0


From 5ead90edf402897086e86f01d8986bc84975d00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:30 +0000
Subject: [PATCH 078/119] fix: the cycle matrix keeps the kind, mean, standard
 deviation and duration of its cycle pairs

---
 src/wafo/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wafo/objects.py b/src/wafo/objects.py
index 37b4530..70cf244 100644
--- a/src/wafo/objects.py
+++ b/src/wafo/objects.py
@@ -989,7 +989,8 @@ class CyclePairs(PlotData):
         # if method >= 1:
         #    F, h = smoothcmat(F,method, h, NOsubzero, alpha)
 
-        return CycleMatrix(F, (u, u))
+        return CycleMatrix(F, (u, u), kind=self.kind, sigma=self.sigma,
+                           mean=self.mean, time=self.time)
 
     def _dcp2cmat(self, dcp, n):
         """
-- 
2.43.0


From 3a6c81b104cb190b3b11b401a0eb706ebb3cad6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:30 +0000
Subject: [PATCH 079/119] fix: an extrapolated level crossing intensity remains
 an intensity

---
 src/wafo/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wafo/objects.py b/src/wafo/objects.py
index 70cf244..2bb7c98 100644
--- a/src/wafo/objects.py
+++ b/src/wafo/objects.py
@@ -250,7 +250,8 @@ class LevelCrossings(PlotData):
         i_mask = (u_min < lcx) & (lcx < u_max)
         f = np.hstack((lc_Low[:, 1], lcf[i_mask], lc_High[:, 1]))
         x = np.hstack((lc_Low[:, 0], lcx[i_mask], lc_High[:, 0]))
-        lc_out = LevelCrossings(f, x, sigma=self.sigma, mean=self.mean)
+        lc_out = LevelCrossings(f, x, sigma=self.sigma, mean=self.mean,
+                                intensity=self.intensity)
         lc_out.phat_high = phat_high
         lc_out.phat_low = phat_low
         return lc_out
-- 
2.43.0


From 2698634ec91f67de98c2edc2ffea9970e37d444f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:42 +0000
Subject: [PATCH 080/119] fix: lazywhere keeps fractions when the fill value is
 an integer

---
 src/wafo/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 5e77c02..2eff9a6 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -286,7 +286,8 @@ def lazywhere(cond, arrays, f, fillvalue=None, f2=None):
 
     arrays = np.broadcast_arrays(*arrays)
     temp = tuple(np.extract(cond, arr) for arr in arrays)
-    out = np.full(np.shape(arrays[0]), fill_value=fillvalue)
+    tcode = np.mintypecode([a.dtype.char for a in arrays])
+    out = np.full(np.shape(arrays[0]), fill_value=fillvalue, dtype=tcode)
     np.place(out, cond, f(*temp))
     if f2 is not None:
         temp = tuple(np.extract(~cond, arr) for arr in arrays)
-- 
2.43.0


From da82b17f70322b92e11df854b7557c2ced671d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:42 +0000
Subject: [PATCH 081/119] fix: piecewise keeps fractions when its arguments are
 integers

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 2eff9a6..b99fe31 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -244,7 +244,7 @@ def piecewise(condlist, funclist, xi=None, fillvalue=0.0, args=(), **kw):
         if not isinstance(xi, tuple):
             xi = (xi,)
         arrays = np.broadcast_arrays(*xi)
-        dtype = np.result_type(*arrays)
+        dtype = np.result_type(float, *arrays)
         shape = arrays[0].shape
 
     out = np.full(shape, fillvalue, dtype)
-- 
2.43.0


From ce46a87ab4407d6b04c630a5d7227ee5cf7e47a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:42 +0000
Subject: [PATCH 082/119] fix: HampelFilter replaces outliers of integer data
 by the median itself

---
 src/wafo/sg_filter/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/sg_filter/_core.py b/src/wafo/sg_filter/_core.py
index dc7e897..0daf1a2 100644
--- a/src/wafo/sg_filter/_core.py
+++ b/src/wafo/sg_filter/_core.py
@@ -1201,7 +1201,7 @@ class HampelFilter(object):
         self._check(dx)
 
         Y0, S0, ADX = self._filter(Y, X, dx)
-        YY = Y.copy()
+        YY = np.array(Y, dtype=float)
         T = self.t
         # Prepare Output
         self.UB = Y0 + T * S0
-- 
2.43.0


From 5e31cd7f5be79be206bd017be1b20cbd94185b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:42 +0000
Subject: [PATCH 083/119] fix: adaptive_levin_points ends also for delta equal
 to zero

---
 src/wafo/integrate_oscillating.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/integrate_oscillating.py b/src/wafo/integrate_oscillating.py
index a5f33d7..1f91255 100644
--- a/src/wafo/integrate_oscillating.py
+++ b/src/wafo/integrate_oscillating.py
@@ -329,7 +329,7 @@ class QuadOsc(_Integrator):
 def adaptive_levin_points(m, delta):
     m_1 = m - 1
     prm = 0.5
-    while prm * m_1 / delta >= 1:
+    while 0 < delta <= prm * m_1:
         delta = 2 * delta
     k = np.arange(m)
     x = piecewise([k < prm * m_1, k == np.ceil(prm * m_1)],
-- 
2.43.0


From a6e48f9097a6b272600e8780bc60d2c9b1810608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:42 +0000
Subject: [PATCH 084/119] fix: unbiased covariance estimate has as many
 divisors as lags

---
 src/wafo/covariance/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/covariance/estimation.py b/src/wafo/covariance/estimation.py
index 12ab128..2c8511b 100644
--- a/src/wafo/covariance/estimation.py
+++ b/src/wafo/covariance/estimation.py
@@ -148,7 +148,7 @@ class CovarianceEstimator(object):
 
         if self.flag.startswith('unbiased'):
             # unbiased result, i.e. divide by n-abs(lag)
-            auto_cov = auto_cov[:Ncens] * Ncens / np.arange(Ncens, 1, -1)
+            auto_cov = auto_cov[:Ncens] * Ncens / np.arange(Ncens, 0, -1)
 
         if self.norm:
             auto_cov = auto_cov / auto_cov[0]
-- 
2.43.0


From a32e39b1b615616382ef8fc8a490786a3e01d328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:22 +0000
Subject: [PATCH 085/119] fix: piecewise keeps the fill value when the pieces
 are integers

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index b99fe31..b01610a 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -238,7 +238,7 @@ def piecewise(condlist, funclist, xi=None, fillvalue=0.0, args=(), **kw):
 
     if xi is None:
         arrays = ()
-        dtype = np.result_type(*funclist)
+        dtype = np.result_type(float, *funclist)
         shape = condlist[0].shape
     else:
         if not isinstance(xi, tuple):
-- 
2.43.0


From 439e7630a0f5e7c1713e2b4a9103314350f8493b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:58 +0000
Subject: [PATCH 086/119] fix: findtp rejects an unknown kind

---
 src/wafo/misc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index b01610a..b703138 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -1458,6 +1458,7 @@ def findtp(x, h=0.0, kind=None, method='clib'):
     findextrema
     findrfc
     '''
+    _assert(kind in (None, 'none', 'astm', 'mw', 'Mw'), 'Unknown kind! ({})'.format(kind))
     n = len(x)
     if h < 0.0:
         return np.arange(n)
-- 
2.43.0


From ad0e4fda87773e17d49a5f9c41a68d9332c1b864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:58 +0000
Subject: [PATCH 087/119] fix: CovarianceEstimator rejects an unknown flag

---
 src/wafo/covariance/estimation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wafo/covariance/estimation.py b/src/wafo/covariance/estimation.py
index 2c8511b..8cf4f57 100644
--- a/src/wafo/covariance/estimation.py
+++ b/src/wafo/covariance/estimation.py
@@ -146,7 +146,9 @@ class CovarianceEstimator(object):
         # ifft = fft/nfft since raw_periodogram is real!
         auto_cov = np.real(fft(raw_periodogram)) / nfft
 
-        if self.flag.startswith('unbiased'):
+        if self.flag not in ('biased', 'unbiased'):
+            raise ValueError('Unknown flag! ({})'.format(self.flag))
+        if self.flag == 'unbiased':
             # unbiased result, i.e. divide by n-abs(lag)
             auto_cov = auto_cov[:Ncens] * Ncens / np.arange(Ncens, 0, -1)
 
-- 
2.43.0


From c8314fe823e29bef6ddcd208569f3525226e1496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:58 +0000
Subject: [PATCH 088/119] fix: CovData1D.tospecdata rejects an unknown method
 for every rate

---
 src/wafo/covariance/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index 5b3575d..31bbbee 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -262,12 +262,13 @@ class CovData1D(PlotData):
         spec_out.h = self.h
         spec_out.norm = self.norm
 
+        if method not in ('fft', 'stineman'):
+            intfun = interpolate.interp1d(w, spec, kind=method)
         if method != 'fft' and rate > 1:
             spec_out.args = linspace(0, pi / dt, nf * rate)
             if method == 'stineman':
                 spec_out.data = stineman_interp(spec_out.args, w, spec)
             else:
-                intfun = interpolate.interp1d(w, spec, kind=method)
                 spec_out.data = intfun(spec_out.args)
             spec_out.data = spec_out.data.clip(0)  # clip negative values to 0
         return spec_out
-- 
2.43.0


From dd4afe4f27c8b2f192fd2aecbf3196b35e9c7a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:37 +0000
Subject: [PATCH 089/119] fix: robust smoothing rejects an unknown weight
 function

---
 src/wafo/sg_filter/_core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/wafo/sg_filter/_core.py b/src/wafo/sg_filter/_core.py
index 0daf1a2..3bc7a74 100644
--- a/src/wafo/sg_filter/_core.py
+++ b/src/wafo/sg_filter/_core.py
@@ -428,8 +428,11 @@ class _Filter(object):
 
         u = self._studentized_residuals(r, I, h)
 
-        wfun = {'cauchy': cauchy, 'talworth': talworth}.get(self.weightstr,
-                                                            bisquare)
+        weight_functions = {'bisquare': bisquare, 'cauchy': cauchy,
+                            'talworth': talworth}
+        if self.weightstr not in weight_functions:
+            raise ValueError('Unknown weight function: {}'.format(self.weightstr))
+        wfun = weight_functions[self.weightstr]
         weights = wfun(u)
 
         weights[np.isnan(weights)] = 0
-- 
2.43.0


From d72c765a22320196244baa871c4dfa90896323ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:37 +0000
Subject: [PATCH 090/119] fix: TransferFunction rejects an unknown igam

---
 src/wafo/wave_theory/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wafo/wave_theory/core.py b/src/wafo/wave_theory/core.py
index be68568..9779a26 100644
--- a/src/wafo/wave_theory/core.py
+++ b/src/wafo/wave_theory/core.py
@@ -345,6 +345,8 @@ class TransferFunction(object):
             Gwt[:, k0] = -Gwt[:, k0]
             Hw[k0] = -Hw[k0]
 
+        if self.igam not in (1, 2, 3):
+            raise ValueError('igam must be 1, 2 or 3. Got {}'.format(self.igam))
         if self.igam == 2:
             # pab 09 Oct.2002: bug fix
             # Changing igam by 2 should affect the directional result in the
@@ -380,8 +382,10 @@ class TransferFunction(object):
         elif self.igam == 2:
             # z measured positive downward from mean water level
             zk = kw * (h - z)
-        else:
+        elif self.igam == 3:
             zk = kw * z  # z measured positive upward from sea floor
+        else:
+            raise ValueError('igam must be 1, 2 or 3. Got {}'.format(self.igam))
         return zk
 
     # --- Surface elevation ---
-- 
2.43.0


From bcb92a46ec0dc46bcb5cc277a7f29990d0fe6bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:37 +0000
Subject: [PATCH 091/119] fix: TransferFunction accepts a sensor number

---
 src/wafo/wave_theory/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/wave_theory/core.py b/src/wafo/wave_theory/core.py
index 9779a26..a224dc7 100644
--- a/src/wafo/wave_theory/core.py
+++ b/src/wafo/wave_theory/core.py
@@ -273,7 +273,7 @@ class TransferFunction(object):
                  bet=1, igam=1, thetax=90, thetay=0):
         self.pos = pos
         self.sensortype = sensortype if isinstance(
-            sensortype, str) else sensor_type(sensortype)
+            sensortype, str) else sensor_type(sensortype)[0]
         self.h = h
         self.g = g
         self.rho = rho
-- 
2.43.0


From 8600cf14b89d08559c967cbd6fa05ee5a3bc5b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:37 +0000
Subject: [PATCH 092/119] fix: SpecData1D and SpecData2D reject an unknown
 freqtype

---
 src/wafo/spectrum/core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index 1b1b1fe..33c2749 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -666,6 +666,12 @@ def plotspec(specdata, linetype='b-', flag=1):
 #     return
 
 
+def _check_freqtype(freqtype):
+    if freqtype not in ('w', 'f', 'k'):
+        raise ValueError("freqtype must be 'w', 'f' or 'k'. "
+                         "Got {!r}".format(freqtype))
+
+
 class SpecData1D(PlotData):
 
     """
@@ -711,6 +717,7 @@ class SpecData1D(PlotData):
         self.name_ = kwds.pop('name', 'WAFO Spectrum Object')
         self.type = kwds.pop('type', 'freq')
         self._freqtype = kwds.pop('freqtype', 'w')
+        _check_freqtype(self._freqtype)
         self.angletype = ''
         self.h = kwds.pop('h', inf)
         self.tr = kwds.pop('tr', None)  # TrLinear()
@@ -4009,6 +4016,7 @@ class SpecData2D(PlotData):
 
         self.__dict__.update(sub_dict_select(kwds, somekeys))
 
+        _check_freqtype(self.freqtype)
         if self.type.endswith('dir') and self.angletype == '':
             self.angletype = 'radians'
 
-- 
2.43.0


From 56a49ea89e58b7ab6105681ed0c49af4e4022eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:37 +0000
Subject: [PATCH 093/119] fix: CovData1D rejects an unknown lagtype

---
 src/wafo/covariance/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index 31bbbee..ac3e208 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -128,6 +128,9 @@ class CovData1D(PlotData):
         somekeys = ['phi', 'name', 'h', 'tr', 'lagtype', 'v', 'type', 'norm']
 
         self.__dict__.update(sub_dict_select(kwds, somekeys))
+        if self.lagtype not in ('x', 'y', 't'):
+            raise ValueError("lagtype must be 'x', 'y' or 't'. "
+                             "Got {!r}".format(self.lagtype))
 
         self.setlabels()
 
-- 
2.43.0


From 833006c0be735a50afe1346ed5fbd2371ffcc51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:37 +0000
Subject: [PATCH 094/119] fix: Spreading accepts the documented types 'Box-car'
 and 'Poisson'

---
 src/wafo/spectrum/models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index c045926..72e65b6 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -1539,7 +1539,7 @@ class Spreading(object):
             raise ValueError(msg.format(method, str(methods.keys())))
 
     def __call__(self, theta, w=1, wc=1):
-        spreadfun = self._spreadfun[self.type[0]]
+        spreadfun = self._spreadfun[self.type[0].lower()]
         return spreadfun(theta, w, wc)
 
     def _normalize_angle(self, wn, theta, th0):
@@ -1797,7 +1797,7 @@ class Spreading(object):
                  sech-2 spreading   : R1 = pi/(2*B*sinh(pi/(2*B))
                  Wrapped Normal     : R1 = exp(-D1^2/2)
         """
-        fourierfun = self._fourierdispatch.get(self.type[0])
+        fourierfun = self._fourierdispatch.get(self.type[0].lower())
         return fourierfun(r1)
 
     @staticmethod
@@ -1966,7 +1966,7 @@ class Spreading(object):
         if np.any(s < 0):
             raise ValueError('The COS2S spread parameter, S(w), ' +
                              'value must be larger than 0')
-        if self.type[0] == 'c':  # cos2s
+        if self.type[0].lower() == 'c':  # cos2s
             s_par = s
         else:
             # First Fourier coefficient of the directional spreading function.
-- 
2.43.0


From 0d376370259af4d1c5b7b6ce5a11f3dca99cedfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:44 +0000
Subject: [PATCH 095/119] fix: the link of the Gumbel distribution finds the
 location too

---
 src/wafo/stats/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index 97a06b5..f5df932 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -155,7 +155,7 @@ def _gumbel_r_link(x, logsf, phat, i):
     loglog_cdf = log(-log(-expm1(logsf)))
     if i == 1:
         return -(x - loc) / loglog_cdf
-    if i == 1:
+    if i == 0:
         return x + scale * loglog_cdf
     raise IndexError('Index to the fixed parameter is out of bounds')
 
-- 
2.43.0


From ef0e36080632ad602dfe938bf7eca47322a50b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:33 +0000
Subject: [PATCH 096/119] fix: the sum frequency transfer function of Langley
 is symmetric

---
 src/wafo/spectrum/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index 33c2749..26cd438 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -193,7 +193,7 @@ def qtf(w, h=inf, g=9.81, method='winterstein', rtol=1e-7, atol=0):
     if method.startswith('langley'):
         p_1 = (-2 * w1p2 * (k12 * g ** 2. - w12 ** 2.) +
                w_1 * (w_2 ** 4. - g ** 2 * k_2 ** 2) +
-               w_2 * (w_1 ** 4 - g * 2. * k_1 ** 2)) / (4. * w12 + _TINY)
+               w_2 * (w_1 ** 4 - g ** 2 * k_1 ** 2)) / (4. * w12 + _TINY)
 
         p_2 = w1p2 ** 2. * cosh((k1p2) * h) - g * (k1p2) * sinh((k1p2) * h)
         p_2 += _TINY * np.int_(p_2 == 0)
-- 
2.43.0


From ef469b1cbe2238d7304c5121e2f6b53b42e63c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:18 +0000
Subject: [PATCH 097/119] fix: to_t_pdf gives the density of the trough period
 for kind 'Tt' and 'Lt'

---
 src/wafo/spectrum/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index 26cd438..0e16f5d 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -1410,6 +1410,9 @@ class SpecData1D(PlotData):
                 ceil(2 * pi * A * exp(z) * (0.5 + erf(z) / 2))
             paramt = [0, expectedMaxPeriod, 51]
 
+        # a trough below u is a crest above -u of the mirrored process
+        un = defnr * un
+
         t0 = paramt[0]
         tn = paramt[1]
         Ntime = paramt[2]
-- 
2.43.0


From 7528a8eed1985db8d4fe98d26c27fca88b5a9412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:09 +0000
Subject: [PATCH 098/119] fix: the default relative tolerance and dimension
 limit of Rind are numbers, not tuples

---
 src/wafo/gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/gaussian.py b/src/wafo/gaussian.py
index 0bf350a..b964a1f 100644
--- a/src/wafo/gaussian.py
+++ b/src/wafo/gaussian.py
@@ -221,12 +221,12 @@ class Rind(object):
         self.method = 3
         self.xcscale = 0
         self.abseps = 0
-        self.releps = 1e-3,
+        self.releps = 1e-3
         self.coveps = 1e-10
         self.maxpts = 40000
         self.minpts = 0
         self.seed = None
-        self.nit = 1000,
+        self.nit = 1000
         self.xcutoff = None
         self.xsplit = 1.5
         self.quadno = 2
-- 
2.43.0


From fc36243486d1db8f237f23f74fe7ad8b94380ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:09 +0000
Subject: [PATCH 099/119] fix: tallibing takes the documented option mid_points

---
 src/wafo/graphutil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wafo/graphutil.py b/src/wafo/graphutil.py
index 08d1eb8..5cfe654 100644
--- a/src/wafo/graphutil.py
+++ b/src/wafo/graphutil.py
@@ -209,7 +209,8 @@ def tallibing(*args, **kwds):
     if axis is None:
         axis = plotbackend.gca()
 
-    x, y, n = _parse_data(*args, **kwds)
+    mid_points = kwds.pop('mid_points', True)
+    x, y, n = _parse_data(*args, mid_point=mid_points)
     if np.ndim(x) == 1 or np.ndim(y) == 1:
         x, y = np.meshgrid(x, y)
 
-- 
2.43.0


From db36b6bcf6e11774901d483c90ff64961d7085d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:09 +0000
Subject: [PATCH 100/119] fix: Rind documents its arguments under their names
 and its default coveps

---
 src/wafo/gaussian.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/wafo/gaussian.py b/src/wafo/gaussian.py
index b964a1f..7c088f2 100644
--- a/src/wafo/gaussian.py
+++ b/src/wafo/gaussian.py
@@ -37,19 +37,19 @@ class Rind(object):
 
     Parameters
     ----------
-    S : array-like, shape Ntdc x Ntdc
+    cov : array-like, shape Ntdc x Ntdc
         Covariance matrix of X=[Xt,Xd,Xc]  (Ntdc = Nt+Nd+Nc)
     m : array-like, size Ntdc
         expectation of X=[Xt,Xd,Xc]
-    Blo, Bup : array-like, shape Mb x Nb
-        Lower and upper barriers used to compute the integration limits,
-        Hlo and Hup, respectively.
+    ab, bb : array-like, shape Mb x Nb
+        Lower and upper barriers, Blo and Bup, used to compute the integration
+        limits, Hlo and Hup, respectively.
     indI : array-like, length Ni
         vector of indices to the different barriers in the indicator function.
         (NB! restriction  indI(1)=-1, indI(NI)=Nt+Nd, Ni = Nb+1)
         (default indI = 0:Nt+Nd)
     xc : values to condition on (default xc = zeros(0,1)), size Nc x Nx
-    Nt : size of Xt             (default Nt = Ntdc - Nc)
+    nt : size of Xt             (default nt = Ntdc - Nc)
 
     Returns
     -------
@@ -176,7 +176,7 @@ class Rind(object):
             absolute and relative error tolerance.
             (default abseps=0, releps=1e-3)
         coveps : real scalar, optional
-            error tolerance in Cholesky factorization (default 1e-13)
+            error tolerance in Cholesky factorization (default 1e-10)
         maxpts, minpts : scalar integers, optional
             maximum and minimum number of function values allowed. The
             parameter, maxpts, can be used to limit the time. A sensible
-- 
2.43.0


From b81c46e10fef3d00a058556166c2c71906eaa3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:09 +0000
Subject: [PATCH 101/119] fix: prbnormndpc documents its third return value

---
 src/wafo/gaussian.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wafo/gaussian.py b/src/wafo/gaussian.py
index 7c088f2..150108b 100644
--- a/src/wafo/gaussian.py
+++ b/src/wafo/gaussian.py
@@ -558,6 +558,7 @@ def prbnormndpc(rho, a, b, abserr=1e-4, relerr=1e-4, usesimpson=True,
     -------
     value = value of integral
     error = estimated absolute error
+    ier = error indicator, 0 if the integral was computed normally
 
     PRBNORMNDPC calculates multivariate normal probability
     with product correlation structure for rectangular regions.
-- 
2.43.0


From 786adbcf0ebd47195201fe9ff82c2c40c67861d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:09 +0000
Subject: [PATCH 102/119] fix: padefitlsq documents the values it returns

---
 src/wafo/polynomial.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index a6528b1..d57c260 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -1927,8 +1927,6 @@ def padefitlsq(fun, m, k, a=-1, b=1, trace=False, x=None, end_points=True):
     -------
     num, den : poly1d
         numerator and denominator polynomials for the pade approximation
-    dev : ndarray
-        maximum absolute deviation of the approximation
 
     The pade approximation is given by
                m
-- 
2.43.0


From 8737c4e55edc9b99b9c915949d4d85fa101858f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:09 +0000
Subject: [PATCH 103/119] fix: CovData1D documents its default type and the
 name of the argument of simcond

---
 src/wafo/covariance/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index ac3e208..fbd57a7 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -95,7 +95,7 @@ class CovData1D(PlotData):
     args : vector for 1D, list of vectors for 2D, 3D, ...
 
     type : string
-        spectrum type, one of 'freq', 'k1d', 'enc' (default 'freq')
+        type of covariance (default 'time')
     lagtype : letter
         lag type, one of: 'x', 'y' or 't' (default 't')
 
@@ -525,7 +525,7 @@ class CovData1D(PlotData):
 
         Parameters
         ----------
-        x : vector
+        xo : vector
             timeseries including missing data.
             (missing data must be NaN if i_unknown is not given)
             Assumption: The covariance of x is equal to self and have the
-- 
2.43.0


From ba799c70f0a2dda3160449c96b78ffa03d447f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:09 +0000
Subject: [PATCH 104/119] fix: SpecData1D.sim_nl and SpecData2D document their
 default values

---
 src/wafo/spectrum/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index 0e16f5d..abdc595 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -3981,7 +3981,7 @@ class SpecData2D(PlotData):
     args : vector for 1D, list of vectors for 2D, 3D, ...
 
     type : string
-        spectrum type (default 'freq')
+        spectrum type (default 'dir')
     freqtype : letter
         frequency type (default 'w')
     angletype : string
-- 
2.43.0


From 98c23ebc3df7f6c59d2970a3cc94436c4f926202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:10 +0000
Subject: [PATCH 105/119] fix: OchiHubble and Tmaspec document their default
 values

---
 src/wafo/spectrum/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index 72e65b6..950ed3e 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -733,7 +733,7 @@ class Tmaspec(Jonswap):
      N      = scalar defining decay of high frequency part.   (default 5)
      M      = scalar defining spectral width around the peak. (default 4)
      method = String defining method used to estimate Ag when gamma>1
-             'integrate' : Ag = 1/gaussq(Gf.*ggamspec(wn,N,M),0,wnc) (default)
+             'integration': Ag = 1/gaussq(Gf.*ggamspec(wn,N,M),0,wnc) (default)
               'parametric': Ag = (1+f1(N,M)*log(gamma)^f2(N,M))/gamma
               'custom'    : Ag = Ag
      wnc    = wc/wp normalized cut off frequency used when calculating Ag
@@ -1132,7 +1132,7 @@ class OchiHubble(ModelSpectrum):
     ----------------
 
     Hm0   : significant wave height (default 7 (m))
-    par   : integer defining the parametrization (default 0)
+    par   : integer defining the parametrization (default 1)
             0 : The most probable spectrum
             1,2,...10 : gives 95% Confidence spectra
 
-- 
2.43.0


From fae65da78de2f34695aa169c9b3782321c6f1d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:10 +0000
Subject: [PATCH 106/119] fix: jonswap_seastate documents the wind speed under
 its name

---
 src/wafo/spectrum/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index 950ed3e..9966eb1 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -339,7 +339,7 @@ def jonswap_seastate(u10, fetch=150000., method='lewis', g=9.81,
 
     Parameters
     ----------
-    U10 : real scalar
+    u10 : real scalar
         windspeed at 10 m above mean water surface [m/s]
     fetch : real scalar
         fetch [m]
-- 
2.43.0


From 96ea55ab8c18e07ed229bd0c8aac2d9a56843857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:10 +0000
Subject: [PATCH 107/119] fix: TransformEstimator documents its parameters
 under their names and the default of csm

---
 src/wafo/transform/estimation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/transform/estimation.py b/src/wafo/transform/estimation.py
index d67f52c..5214b14 100644
--- a/src/wafo/transform/estimation.py
+++ b/src/wafo/transform/estimation.py
@@ -29,13 +29,13 @@ class TransformEstimator(object):
         'hermite'   : cubic Hermite polynomial
         'ochi'      : exponential function
         'linear'    : identity.
-    chkDer : bool
+    chkder : bool
         False: No check on the derivative of the transform.
         True: Check if transform have positive derivative
     csm, gsm : real scalars
         defines the smoothing of the logarithm of crossing intensity and
         the transformation g, respectively. Valid values must be
-            0<=csm,gsm<=1. (default csm=0.9, gsm=0.05)
+            0<=csm,gsm<=1. (default csm=0.95, gsm=0.05)
         Smaller values gives smoother functions.
     param : vector (default (-5, 5, 513))
         defines the region of variation of the data X. If X(t) is likely to
@@ -53,7 +53,7 @@ class TransformEstimator(object):
         1 plots empirical and smoothed g(u) and the theoretical for a
             Gaussian model.
         2 monitor the development of the estimation
-    Delay : real scalar
+    delay : real scalar
         Delay time for each plot when PLOTFLAG==2.
     linextrap: int
         0 use a regular smoothing spline
-- 
2.43.0


From eadbace4fa139e257ec02453c24eebae03fdd3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:10 +0000
Subject: [PATCH 108/119] fix: KRegression documents the members it has

---
 src/wafo/kdetools/kdetools.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index cd9c497..1515722 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -851,23 +851,14 @@ class KRegression(object):
         may give some inaccuracies. Values between 100 and 500 give very
         accurate results)
 
-    Members
-    -------
-    d : int
-        number of dimensions
-    n : int
-        number of datapoints
-
     Methods
     -------
-    kde.eval_grid_fast(x0, x1,..., xd) : array
-        evaluate the estimated pdf on meshgrid(x0, x1,..., xd)
-    kde.eval_grid(x0, x1,..., xd) : array
-        evaluate the estimated pdf on meshgrid(x0, x1,..., xd)
-    kde.eval_points(points) : array
-        evaluate the estimated pdf on a provided set of points
-    kde(x0, x1,..., xd) : array
-        same as kde.eval_grid(x0, x1,..., xd)
+    kreg.eval_grid_fast(x0, x1,..., xd) : array
+        evaluate the estimated regression on meshgrid(x0, x1,..., xd)
+    kreg.eval_grid(x0, x1,..., xd) : array
+        evaluate the estimated regression on meshgrid(x0, x1,..., xd)
+    kreg(x0, x1,..., xd) : array
+        same as kreg.eval_grid_fast(x0, x1,..., xd)
 
     References
     ----------
-- 
2.43.0


From eedef9731aaba570770d5e953485da73d72a13a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:10 +0000
Subject: [PATCH 109/119] fix: prb_empirical and TKDE document their arguments
 under their names

---
 src/wafo/kdetools/kdetools.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index 1515722..099b648 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -269,7 +269,7 @@ class TKDE(_KDE):
 
     Parameters
     ----------
-    dataset : (# of dims, # of data)-array
+    data : (# of dims, # of data)-array
         datapoints to estimate from
     hs : array-like (optional)
         smooting parameter vector/matrix.
@@ -1068,10 +1068,10 @@ class BKRegression(object):
 
         Parameters
         ----------
-        x : ndarray
-            position vector
-        y : ndarray
-            binomial response variable (zeros and ones)
+        xi : ndarray
+            position vector (default get_grid(hs_e))
+        hs_e : scalar
+            smoothing parameter used to find the default positions
         alpha : scalar
             confidence level
         color:
-- 
2.43.0


From e7993087693f30e1af31dfa7d39131268a18525d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:10 +0000
Subject: [PATCH 110/119] fix: SmoothSpline documents the data under their
 names

---
 src/wafo/interpolate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index b79f1f7..4ae518c 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -470,9 +470,9 @@ class SmoothSpline(PPform):
 
     Parameters
     ----------
-    x : array-like
+    xx : array-like
         x-coordinates of data. (vector)
-    y : array-like
+    yy : array-like
         y-coordinates of data. (vector or matrix)
     p : real scalar
         smoothing parameter between 0 and 1:
-- 
2.43.0


From dabc871f3aeff86e67613345d15f23dc4c1d47ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:10 +0000
Subject: [PATCH 111/119] fix: nt2cmat documents its argument under its name

---
 src/wafo/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/markov.py b/src/wafo/markov.py
index ab6a3f3..1c91bc0 100644
--- a/src/wafo/markov.py
+++ b/src/wafo/markov.py
@@ -168,7 +168,7 @@ def nt2cmat(nt, kind=1):
 
     Parameters
     ----------
-    NT: 2D array
+    nt: 2D array
         Counting distribution. [nxn]
     kind     =  1: causes peaks to be projected upwards and troughs
                    downwards to the closest discrete level (default).
-- 
2.43.0


From bf2b8574585218f85628677e7ae4b725250c5f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:10 +0000
Subject: [PATCH 112/119] fix: findtc, cart2polar and polar2cart document their
 arguments and return values

---
 src/wafo/misc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index b703138..f8b9b7d 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -1513,7 +1513,7 @@ def findtc(x_in, v=None, kind=None):
 
     Parameters
     ----------
-    x : vector
+    x_in : vector
         surface elevation.
     v : real scalar
         reference level (default  v = mean of x).
@@ -2326,6 +2326,8 @@ def polar2cart(theta, rho, z=None):
     -------
     x, y : array-like
         Cartesian coordinates, x = rho*cos(theta), y = rho*sin(theta)
+    z : array-like
+        the third coordinate, if given
 
     Examples
     --------
@@ -2356,6 +2358,8 @@ def cart2polar(x, y, z=None):
         radial angle, arctan2(y,x)
     rho : array-like
         radial distance, sqrt(x**2+y**2)
+    z : array-like
+        the third coordinate, if given
 
     Examples
     --------
-- 
2.43.0


From df457845d1421b368d44f9c333da9bc2cebc84e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:10 +0000
Subject: [PATCH 113/119] fix: dispersion_idx documents the sampled times under
 their name

---
 src/wafo/stats/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index 945b655..7e27a33 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -257,7 +257,7 @@ def dispersion_idx(
 
     Parameters
     ----------
-    data, ti : array_like
+    data, t : array_like
         data values and sampled times, respectively.
     u :  array-like
         threshold values (default linspace(umin, umax, nu))
-- 
2.43.0


From 41a4a4f5ee0f87615f0cabe538ea848ee935e952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:10 +0000
Subject: [PATCH 114/119] fix: TimeSeries.wave_height_steepness and chebfit_dct
 document their default values

---
 src/wafo/objects.py    | 4 ++--
 src/wafo/polynomial.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/objects.py b/src/wafo/objects.py
index 2bb7c98..d7e3d2f 100644
--- a/src/wafo/objects.py
+++ b/src/wafo/objects.py
@@ -1832,9 +1832,9 @@ class TimeSeries(PlotData):
         rate : scalar integer
             interpolation rate. Interpolates with spline if greater than one.
 
-        kind : scalar integer (default 1)
+        kind : scalar integer or string (default 'Vcf')
             0 max(Vcf, Vcb) and corresponding wave height Hd or Hu in H
-            1 crest front (rise) speed (Vcf) in S and wave height Hd in H.
+            1 or 'Vcf': crest front (rise) speed (Vcf) in S and wave height Hd in H.
            -1 crest back (fall) speed (Vcb) in S and waveheight Hu in H.
             2 crest front steepness in S and the wave height Hd in H.
            -2 crest back steepness in S and the wave height Hu in H.
diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index d57c260..03ce629 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -1268,7 +1268,7 @@ def chebfit_dct(f, n=(10, ), domain=None, args=()):
         function to approximate
     n : list of integers, optional
         number of base points (abscissas) used for each dimension.
-        Default n=10 (maximum 50)
+        Default (10,) (maximum 50)
     domain : vector [a1,b1,a2,b2 ,..., an, bn], optional
         defining the rectangle [a1, b1] x [a2, b2] x ...x [an, bn].
         (default domain = (-1,1) * len(n))
-- 
2.43.0


From 020cc86a3ca4d569290dcffe082344c2f72fcdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:30 +0000
Subject: [PATCH 115/119] fix: hscv returns the smoothing parameter, its
 candidates and the score in the documented order

---
 src/wafo/kdetools/kernels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/kdetools/kernels.py b/src/wafo/kdetools/kernels.py
index ca1b9e2..540a508 100644
--- a/src/wafo/kdetools/kernels.py
+++ b/src/wafo/kdetools/kernels.py
@@ -1181,7 +1181,7 @@ class Kernel(object):
 
         hvec = hvec * (ste_constant / ste_constant2) ** (1 / 5)
         if fulloutput:
-            return h * sigmaA, score, hvec
+            return h * sigmaA, hvec, score
         return h * sigmaA
 
     def _get_grid_limits(self, data):
-- 
2.43.0


From d9a8c9a977c37c179a7c821d78000bcacf719232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:30 +0000
Subject: [PATCH 116/119] fix: sim_nl documents its default method

---
 src/wafo/spectrum/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index abdc595..a3d0701 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -2751,7 +2751,8 @@ class SpecData1D(PlotData):
             starting state/seed number for the random number generator
             (default none is set)
         method : string
-            'apStochastic'    : Random amplitude and phase (default)
+            'random'          : Random amplitude and phase (default)
+            'apStochastic'    : the same as 'random'
             'aDeterministic'  : Deterministic amplitude and random phase
             'apDeterministic' : Deterministic amplitude and phase
         fnlimit : scalar
-- 
2.43.0


From 284fc6960d1d377521f30b31ea5a71d7bc7e9463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:36 +0000
Subject: [PATCH 117/119] fix: trdata documents the default of csm

---
 src/wafo/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/objects.py b/src/wafo/objects.py
index d7e3d2f..708c296 100644
--- a/src/wafo/objects.py
+++ b/src/wafo/objects.py
@@ -518,7 +518,7 @@ class LevelCrossings(PlotData):
         csm, gsm : real scalars
             defines the smoothing of the crossing intensity and the
             transformation g.
-            Valid values must be 0<=csm,gsm<=1. (default csm = 0.9 gsm=0.05)
+            Valid values must be 0<=csm,gsm<=1. (default csm=0.95, gsm=0.05)
             Smaller values gives smoother functions.
         param :
             vector which defines the region of variation of the data X.
@@ -1565,7 +1565,7 @@ class TimeSeries(PlotData):
         csm, gsm : real scalars
             defines the smoothing of the logarithm of crossing intensity and
             the transformation g, respectively. Valid values must be
-                0<=csm,gsm<=1. (default csm=0.9, gsm=0.05)
+                0<=csm,gsm<=1. (default csm=0.95, gsm=0.05)
             Smaller values gives smoother functions.
         param : vector (default see lc2tr)
             which defines the region of variation of the data x.
-- 
2.43.0


From 380109e564fbad2b728639ab96984ec532f2435d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:32 +0000
Subject: [PATCH 118/119] fix: plotspec documents the spectrum under its name

---
 src/wafo/spectrum/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index a3d0701..a17f1ab 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -306,7 +306,7 @@ def plotspec(specdata, linetype='b-', flag=1):
 
     Parameters
     ----------
-    S : SpecData1D or SpecData2D object
+    specdata : SpecData1D or SpecData2D object
         defining spectral density.
     linetype : string
         defining color and linetype, see plot for possibilities
-- 
2.43.0


From d8f528ece6c392dcf5e59a0dfdf583c17dc9a074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:04 +0000
Subject: [PATCH 119/119] fix: chebfitnd fits: it took the scales of the
 columns for the data, and weights for columns

---
 src/wafo/polynomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 03ce629..4e03da9 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -2239,10 +2239,10 @@ def chebfitnd(xi, f, deg, rcond=None, full=False, w=None):
         if w is not None:
             w = np.asarray(w).ravel() + 0.0
             _check_size(w, len(lhs))
-            lhs = lhs * w
+            lhs = lhs * w[:, np.newaxis]
             rhs = rhs * w
         scl = _scale(lhs)
-        return lhs, scl, rhs
+        return lhs, rhs, scl
 
     # xi = np.array(xi, copy=0) + 0.0
     z = np.array(f)
-- 
2.43.0

