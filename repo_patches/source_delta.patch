From a482e962b9d512c614b187e141060770e7664798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:38 +0000
Subject: [PATCH 01/39] fix: Linear bin_slop=0 could put a pair exactly on a
 bin edge in the lower bin

---
 include/BinType.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/BinType.h b/include/BinType.h
index 9a480e1..a386c91 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -236,7 +236,8 @@ struct BinTypeHelper<Linear>
         xdbg<<"f = "<<f<<std::endl;
         xdbg<<"s1ps2 > "<<f*binsize + b<<std::endl;
 
-        if (s1ps2 > f*binsize + b) return false;
+        // Note: use >= here, since the upper edge of a bin belongs to the next bin.
+        if (s1ps2 >= f*binsize + b) return false;
 
         XAssert(int( (r - s1ps2 - minsep + b) / binsize ) == ik);
         XAssert(int( (r + s1ps2 - minsep - b) / binsize ) == ik);
-- 
2.43.0


From e735a287eaaae40ce3df9ed163b1fd20d1244e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:38 +0000
Subject: [PATCH 02/39] fix: TwoD singleBin set logr, but not r, so meanr was
 too small

---
 include/BinType.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/BinType.h b/include/BinType.h
index a386c91..7a8b530 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -369,6 +369,7 @@ struct BinTypeHelper<TwoD>
 
         int n = int(2*maxsep / binsize+0.5);
         k = j*n + i;
+        r = sqrt(rsq);
         logr = 0.5*std::log(rsq);
         xdbg<<"Single bin returning true: "<<dx<<','<<dy<<','<<s1ps2<<','<<binsize<<std::endl;
         return true;
-- 
2.43.0


From fd31f18476cf86d7330763eba6e9f0a2e4bc394b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:03 +0000
Subject: [PATCH 03/39] fix: TwoD with min_sep > 0 and bin_slop=0 could use
 cells straddling min_sep

---
 include/BinType.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/BinType.h b/include/BinType.h
index 7a8b530..6231cc5 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -367,6 +367,9 @@ struct BinTypeHelper<TwoD>
         if (jj - s1ps2/binsize < j) return false;
         if (jj + s1ps2/binsize >= j+1) return false;
 
+        // Also keep going if some of these pairs are below minsep, and some are above it.
+        if (rsq < SQR(minsep + s1ps2) && (s1ps2 > minsep || rsq >= SQR(minsep - s1ps2))) return false;
+
         int n = int(2*maxsep / binsize+0.5);
         k = j*n + i;
         r = sqrt(rsq);
-- 
2.43.0


From 36849fc639f5ae1f4ea4ddd7c8d702720f902f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 04/39] fix: Auto-correlations could miss a pair separated by
 exactly min_sep

If a cell has size == min_sep/2, then there may be a pair of points on opposite
sides of it with r == min_sep, which is in range.
---
 src/Corr2.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Corr2.cpp b/src/Corr2.cpp
index ccebc52..e182d32 100644
--- a/src/Corr2.cpp
+++ b/src/Corr2.cpp
@@ -280,7 +280,9 @@ template <int B, int M, int P, int C>
 void BaseCorr2::process2(const BaseCell<C>& c12, const MetricHelper<M,P>& metric)
 {
     if (c12.getW() == 0.) return;
-    if (c12.getSize() <= _halfminsep) return;
+    // Note: A pair separated by exactly 2*size = minsep is in range, so only skip if size < minsep/2.
+    // (When minsep == 0, cells with size == 0 don't have any pairs to consider either.)
+    if (c12.getSize() < _halfminsep || c12.getSize() == 0.) return;
 
     Assert(c12.getLeft());
     Assert(c12.getRight());
-- 
2.43.0


From d27acb28bb779e51844a848b0b550df131004d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 05/39] fix: Arc metric used chord sizes with arc distances, so
 could miss pairs

The cell sizes are chord lengths, which are smaller than the corresponding arc
distances.  So the search could skip cells that do have pairs in range.
---
 include/Metric.h | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/Metric.h b/include/Metric.h
index 95bdea6..6233d8c 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -602,7 +602,14 @@ struct MetricHelper<Arc, P>
 
     double DistSq(const Position<Sphere>& p1, const Position<Sphere>& p2,
                   double& s1, double& s2) const
-    { return SQR(Dist(p1,p2)); }
+    {
+        // The sizes are chord lengths, but rsq is the square of the Arc distance, so the sizes
+        // need to be increased to be (at least) the corresponding Arc distances.
+        // 2 asin(s/2) <= s (1 + (pi/2-1) (s/2)^2)  for s <= 2
+        s1 *= 1. + 0.1427 * s1*s1;
+        s2 *= 1. + 0.1427 * s2*s2;
+        return SQR(Dist(p1,p2));
+    }
 
     double Dist(const Position<Sphere>& p1, const Position<Sphere>& p2) const
     {
@@ -639,11 +646,17 @@ struct MetricHelper<Arc, P>
     {
         double dsq = SQR(Dist(p1,p2));
         // Also the sizes need to be converted to the effective size on the unit sphere
-        s1 /= p1.norm();
-        s2 /= p2.norm();
+        s1 = ArcSize(s1 / p1.norm());
+        s2 = ArcSize(s2 / p2.norm());
         return dsq;
     }
 
+    // Return (an upper limit for) the largest angle of any point in a cell relative to its center,
+    // where x = size / distance.  (The maximum possible angle is asin(x) if x < 1.)
+    // asin(x) <= x (1 + (pi/2-1) x^2) for x <= 1
+    static double ArcSize(double x)
+    { return x < 1. ? x * (1. + 0.5708 * x*x) : std::max(x, 3.1416); }
+
     double Dist(const Position<ThreeD>& p1, const Position<ThreeD>& p2) const
     {
         // sin(theta) = |p1 x p2| / |p1| |p2|
-- 
2.43.0


From d6f64df3c730d00d1ac67dec6a6495e7bb28498a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 06/39] fix: Arc metric with 3d coordinates folded angles
 larger than pi/2

---
 include/Metric.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/Metric.h b/include/Metric.h
index 6233d8c..9004014 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -660,8 +660,9 @@ struct MetricHelper<Arc, P>
     double Dist(const Position<ThreeD>& p1, const Position<ThreeD>& p2) const
     {
         // sin(theta) = |p1 x p2| / |p1| |p2|
-        double sintheta = p1.cross(p2).norm() / (p1.norm() * p2.norm());
-        double theta = std::asin(sintheta);
+        // cos(theta) = p1 . p2 / |p1| |p2|
+        // Use both, so this gives the right answer for theta > pi/2.
+        double theta = std::atan2(p1.cross(p2).norm(), p1.dot(p2));
         return theta;
     }
 
-- 
2.43.0


From 5521b15671155156ae73f78afc0eac0f92ab05ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:35 +0000
Subject: [PATCH 07/39] fix: Auto-correlations with Arc metric could skip cells
 with pairs in range

The cell sizes need to be converted to angles before being compared to min_sep.
In particular, with 3d coordinates, this could miss most of the pairs.
---
 src/Corr2.cpp | 5 ++++-
 src/Corr3.cpp | 9 ++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/Corr2.cpp b/src/Corr2.cpp
index e182d32..cfcd8ef 100644
--- a/src/Corr2.cpp
+++ b/src/Corr2.cpp
@@ -282,7 +282,10 @@ void BaseCorr2::process2(const BaseCell<C>& c12, const MetricHelper<M,P>& metric
     if (c12.getW() == 0.) return;
     // Note: A pair separated by exactly 2*size = minsep is in range, so only skip if size < minsep/2.
     // (When minsep == 0, cells with size == 0 don't have any pairs to consider either.)
-    if (c12.getSize() < _halfminsep || c12.getSize() == 0.) return;
+    double s1 = c12.getSize(); // May be modified by DistSq function.
+    double s2 = s1;            // "
+    metric.DistSq(c12.getPos(), c12.getPos(), s1, s2);
+    if (s1 < _halfminsep || s1 == 0.) return;
 
     Assert(c12.getLeft());
     Assert(c12.getRight());
diff --git a/src/Corr3.cpp b/src/Corr3.cpp
index b93d8bb..66f4496 100644
--- a/src/Corr3.cpp
+++ b/src/Corr3.cpp
@@ -435,7 +435,10 @@ void BaseCorr3::process3(const BaseCell<C>& c1, const MetricHelper<M,0>& metric)
         xdbg<<ws()<<"    w == 0.  return\n";
         return;
     }
-    if (c1.getSize() < _halfminsep) {
+    double s1 = c1.getSize(); // May be modified by DistSq function.
+    double s2 = s1;           // "
+    metric.DistSq(c1.getPos(), c1.getPos(), s1, s2);
+    if (s1 < _halfminsep) {
         xdbg<<ws()<<"    size < halfminsep.  return\n";
         return;
     }
@@ -474,14 +477,14 @@ void BaseCorr3::process12(const BaseCell<C>& c1, const BaseCell<C>& c2,
         return;
     }
     double s2 = c2.getSize();
+    double s1 = c1.getSize();
+    double rsq = metric.DistSq(c1.getPos(), c2.getPos(), s1, s2);
     if (BinTypeHelper<B>::tooSmallS2(s2, _halfminsep, _minu, _minv))
     {
         xdbg<<ws()<<"    s2 smaller than minimum triangle side.  return\n";
         return;
     }
 
-    double s1 = c1.getSize();
-    double rsq = metric.DistSq(c1.getPos(), c2.getPos(), s1, s2);
     double s1ps2 = s1 + s2;
 
     // If all possible triangles will have d2 < minsep, then abort the recursion here.
-- 
2.43.0


From 80ae347861dd9bab9b1f8789979f3d99ea5020cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:43 +0000
Subject: [PATCH 08/39] fix: Copying a BaseCorr2 left the angle tolerance _a
 uninitialized

---
 src/Corr2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Corr2.cpp b/src/Corr2.cpp
index cfcd8ef..e8ffad8 100644
--- a/src/Corr2.cpp
+++ b/src/Corr2.cpp
@@ -95,7 +95,7 @@ Corr2<D1,D2>::Corr2(
 BaseCorr2::BaseCorr2(const BaseCorr2& rhs) :
     _bin_type(rhs._bin_type),
     _minsep(rhs._minsep), _maxsep(rhs._maxsep), _nbins(rhs._nbins),
-    _binsize(rhs._binsize), _b(rhs._b),
+    _binsize(rhs._binsize), _b(rhs._b), _a(rhs._a),
     _minrpar(rhs._minrpar), _maxrpar(rhs._maxrpar),
     _xp(rhs._xp), _yp(rhs._yp), _zp(rhs._zp),
     _logminsep(rhs._logminsep), _halfminsep(rhs._halfminsep),
-- 
2.43.0


From 92ffe8198873f4b1e19dcf9fd372380dfb0dda6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 09/39] fix: Copying a BaseCorr3 left the periods of the
 Periodic metric uninitialized

---
 src/Corr3.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Corr3.cpp b/src/Corr3.cpp
index 66f4496..0e8af16 100644
--- a/src/Corr3.cpp
+++ b/src/Corr3.cpp
@@ -154,6 +154,7 @@ BaseCorr3::BaseCorr3(const BaseCorr3& rhs):
     _ubinsize(rhs._ubinsize), _bu(rhs._bu),
     _minv(rhs._minv), _maxv(rhs._maxv), _nvbins(rhs._nvbins),
     _vbinsize(rhs._vbinsize), _bv(rhs._bv),
+    _xp(rhs._xp), _yp(rhs._yp), _zp(rhs._zp),
     _logminsep(rhs._logminsep), _halfminsep(rhs._halfminsep),
     _minsepsq(rhs._minsepsq), _maxsepsq(rhs._maxsepsq),
     _minusq(rhs._minusq), _maxusq(rhs._maxusq),
-- 
2.43.0


From bff18de626e318a3b5ad0e1a779e90ae8a057064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:57 +0000
Subject: [PATCH 10/39] fix: nominal meanphi in empty LogSAS bins uses
 phi_units like the other bins

---
 treecorr/corr3base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 2b7af88..79f01e0 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1852,7 +1852,7 @@ class Corr3(object):
             self.meand3[mask2] = self.d3nom[mask2]
             self.meanlogd3[mask2] = self.logd3[mask2]
             if self.bin_type == 'LogSAS':
-                self.meanu[mask2] = self.phi[mask2]
+                self.meanu[mask2] = self.phi[mask2] / self._phi_units
                 self.meand1[mask2] = np.sqrt(self.d2nom[mask2]**2 + self.d3nom[mask2]**2
                                              - 2*self.d2nom[mask2]*self.d3nom[mask2]*
                                              np.cos(self.phi[mask2]))
-- 
2.43.0


From 3f183f421c9638e4d284b0a32d07679698b45c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 11/39] fix: a design matrix row without pairs no longer drops
 the random term of later rows

---
 treecorr/corr2base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 09a3cd8..1332412 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -2037,6 +2037,7 @@ def _make_cov_design_matrix_core(corrs, plist, func, name, rank=0, size=1):
     for row, pairs in enumerate(plist):
         if row % size != rank:
             continue
+        row_corrs = []
         for c, cpairs in zip(corrs, pairs):
             cpairs = list(cpairs)
             if len(cpairs) == 0:
@@ -2046,11 +2047,14 @@ def _make_cov_design_matrix_core(corrs, plist, func, name, rank=0, size=1):
                 c.logger.error("WARNING: A xi for calculating the %s covariance has no "%name +
                                "patch pairs.  This probably means these patch specifications "
                                "are inappropriate for these data.")
+                # Note: Clear a copy, since _clear also drops any randoms the later rows need.
+                c = c.copy()
                 c._clear()
             else:
                 c._calculate_xi_from_pairs(cpairs)
-        v[row] = func(corrs)
-        w[row] = np.sum([np.sum(c.getWeight()) for c in corrs])
+            row_corrs.append(c)
+        v[row] = func(row_corrs)
+        w[row] = np.sum([np.sum(c.getWeight()) for c in row_corrs])
     return v,w
 
 def _make_cov_design_matrix(corrs, plist, func, name, comm):
-- 
2.43.0


From 2224ed1e44ed10b3d9bcf8902d764963ba113cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 12/39] fix: dummy patch results added for a random term carry
 no data and refresh the pair table

---
 treecorr/nkcorrelation.py | 4 ++--
 treecorr/nzcorrelation.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/treecorr/nkcorrelation.py b/treecorr/nkcorrelation.py
index 37378e1..e03d953 100644
--- a/treecorr/nkcorrelation.py
+++ b/treecorr/nkcorrelation.py
@@ -230,9 +230,9 @@ class NKCorrelation(Corr2):
                 for ij in rk.results:
                     if ij in self.results: continue
                     new_cij = template.copy()
-                    new_cij.xi.ravel()[:] = 0
-                    new_cij.weight.ravel()[:] = 0
+                    new_cij._clear()
                     self.results[ij] = new_cij
+                    self.__dict__.pop('_ok',None)  # If it was already made, it needs to be redone.
 
                 self._cov = self.estimate_cov(self.var_method)
                 self._varxi = np.zeros_like(self.rnom, dtype=float)
diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index 0ee43ae..05d5ae4 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -132,9 +132,9 @@ class BaseNZCorrelation(Corr2):
                 for ij in rz.results:
                     if ij in self.results: continue
                     new_cij = template.copy()
-                    new_cij.xi.ravel()[:] = 0
-                    new_cij.weight.ravel()[:] = 0
+                    new_cij._clear()
                     self.results[ij] = new_cij
+                    self.__dict__.pop('_ok',None)  # If it was already made, it needs to be redone.
 
                 self._cov = self.estimate_cov(self.var_method)
                 self._varxi = np.zeros_like(self.rnom, dtype=float)
-- 
2.43.0


From a87d4ea1da5bc48ded0d21bb35afc7d93f1ce397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 13/39] fix: the compensated imaginary part is subtracted in
 patch realisations too

---
 treecorr/nzcorrelation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index 05d5ae4..d309a3d 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -159,6 +159,7 @@ class BaseNZCorrelation(Corr2):
             pairs = [ij for ij in pairs if self._rz._ok[ij[0],ij[1]]]
             self._rz._calculate_xi_from_pairs(pairs)
             self.xi -= self._rz.xi
+            self.xi_im -= self._rz.xi_im
 
     def write(self, file_name, rz=None, file_type=None, precision=None,
               write_patch_results=False, write_cov=False):
-- 
2.43.0


From 68adb2fc326b2604ad719f5472b1ca76c0983ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:41 +0000
Subject: [PATCH 14/39] fix: patch realisations with unpatched randoms no
 longer treat patch 0 differently

---
 treecorr/nkcorrelation.py  | 2 +-
 treecorr/nncorrelation.py  | 2 +-
 treecorr/nnncorrelation.py | 2 +-
 treecorr/nzcorrelation.py  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/treecorr/nkcorrelation.py b/treecorr/nkcorrelation.py
index e03d953..198aac1 100644
--- a/treecorr/nkcorrelation.py
+++ b/treecorr/nkcorrelation.py
@@ -250,7 +250,7 @@ class NKCorrelation(Corr2):
         self._finalize()
         if self._rk is not None:
             # If rk has npatch1 = 1, adjust pairs appropriately
-            if self._rk.npatch1 == 1 and not all([p[0] == 0 for p in pairs]):
+            if self._rk.npatch1 == 1 and self.npatch1 != 1:
                 pairs = [(0,ij[1]) for ij in pairs if ij[0] == ij[1]]
             # Make sure all ij are in the rk results (some might be missing, which is ok)
             pairs = [ij for ij in pairs if self._rk._ok[ij[0],ij[1]]]
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 3f1e681..014336b 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -479,7 +479,7 @@ class NNCorrelation(Corr2):
             dr = self._dr.weight
             drf = dd_tot / self._dr.tot
         if self._rd is not None:
-            if self._rd.npatch1 == 1 and not all([p[0] == 0 for p in pairs]):
+            if self._rd.npatch1 == 1 and self.npatch1 != 1:
                 # If r doesn't have patches, then convert all (i,i) pairs to (0,i).
                 pairs3 = [(0,ij[1]) for ij in pairs if ij[0] == ij[1]]
             else:
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index f6e8978..f0a06ce 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -629,7 +629,7 @@ class NNNCorrelation(Corr3):
             drr = self._drr.weight
             drrf = ddd_tot / self._drr.tot
         if self._rdd is not None:
-            if self._rdd.npatch1 == 1 and not all([p[0] == 0 for p in pairs]):
+            if self._rdd.npatch1 == 1 and self.npatch1 != 1:
                 # If r doesn't have patches, then convert all (i,i,j) pairs to (0,i,j)
                 # and all (i,j,i to (0,j,i).
                 pairs3 = [(0,ij[1],ij[2]) for ij in pairs if ij[0] == ij[1] or ij[0] == ij[2]]
diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index d309a3d..08e1029 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -153,7 +153,7 @@ class BaseNZCorrelation(Corr2):
         self._finalize()
         if self._rz is not None:
             # If rz has npatch1 = 1, adjust pairs appropriately
-            if self._rz.npatch1 == 1 and not all([p[0] == 0 for p in pairs]):
+            if self._rz.npatch1 == 1 and self.npatch1 != 1:
                 pairs = [(0,ij[1]) for ij in pairs if ij[0] == ij[1]]
             # Make sure all ij are in the rz results (some might be missing, which is ok)
             pairs = [ij for ij in pairs if self._rz._ok[ij[0],ij[1]]]
-- 
2.43.0


From a6b35d67f5f50b0b9d9c3abd158bcfc4aa37b1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 15/39] fix: area fraction of unpatched randoms when only some
 of the data catalogs have patches

When one of the data catalogs has no patches, the (i,i) results are not the
autos of the patches: only (0,0) was counted, so the jackknife rows had an
area fraction of 0 or 1.
---
 treecorr/nncorrelation.py  | 11 +++++++++--
 treecorr/nnncorrelation.py | 11 +++++++----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 014336b..71c8d62 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -457,8 +457,15 @@ class NNCorrelation(Corr2):
             # The approximation we'll use is that tot in the auto-correlations is
             # proportional to area**2.
             # So the sum of tot**0.5 when i==j gives an estimate of the fraction of the total area.
-            area_frac = np.sum([self.results[ij].tot**0.5 for ij in pairs if ij[0] == ij[1]])
-            area_frac /= np.sum([cij.tot**0.5 for ij,cij in self.results.items() if ij[0] == ij[1]])
+            # If only one of the two catalogs has patches, then every pair has the whole of the
+            # other one, so tot is proportional to area.
+            if self.npatch1 == 1 or self.npatch2 == 1:
+                area_frac = np.sum([self.results[ij].tot for ij in pairs])
+                area_frac /= np.sum([cij.tot for cij in self.results.values()])
+            else:
+                area_frac = np.sum([self.results[ij].tot**0.5 for ij in pairs if ij[0] == ij[1]])
+                area_frac /= np.sum([cij.tot**0.5 for ij,cij in self.results.items()
+                                     if ij[0] == ij[1]])
             # First figure out the original total for all DD that had the same footprint as RR.
             dd_tot = np.sum([self.results[ij].tot for ij in self.results])
             # The rrf we want will be a factor of area_frac smaller than the original
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index f0a06ce..c7a4310 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -605,10 +605,13 @@ class NNNCorrelation(Corr3):
             # The approximation we'll use is that tot in the auto-correlations is
             # proportional to area**3.
             # The sum of tot**(1/3) when i=j=k gives an estimate of the fraction of the total area.
-            area_frac = np.sum([self.results[ij].tot**(1./3.) for ij in pairs
-                                if ij[0] == ij[1] == ij[2]])
-            area_frac /= np.sum([cij.tot**(1./3.) for ij,cij in self.results.items()
-                                 if ij[0] == ij[1] == ij[2]])
+            # If some of the catalogs don't have patches, then every triangle set has the whole of
+            # those, so only the ones with patches count for the power of the area.
+            use = [k for k,n in enumerate((self.npatch1, self.npatch2, self.npatch3)) if n != 1]
+            area_frac = np.sum([self.results[ij].tot**(1./len(use)) for ij in pairs
+                                if len(set(ij[k] for k in use)) == 1])
+            area_frac /= np.sum([cij.tot**(1./len(use)) for ij,cij in self.results.items()
+                                 if len(set(ij[k] for k in use)) == 1])
             # First figure out the original total for all DDD that had the same footprint as RRR.
             ddd_tot = np.sum([self.results[ij].tot for ij in self.results])
             # The rrrf we want will be a factor of area_frac smaller than the original
-- 
2.43.0


From 05fd29bb0b035be8e8631e33b08658d137dbd89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 16/39] fix: DR pairs of a realisation when the second data
 catalog has no patches either

The results are then already keyed (i,0), so converting only the (i,i) pairs
kept (0,0) alone and the other realisations were nan.
---
 treecorr/nncorrelation.py  | 2 +-
 treecorr/nnncorrelation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 71c8d62..ea8ebec 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -477,7 +477,7 @@ class NNCorrelation(Corr2):
         rrf = dd_tot / self._rr.tot
 
         if self._dr is not None:
-            if self._dr.npatch2 == 1:
+            if self._dr.npatch2 == 1 and self.npatch2 != 1:
                 # If r doesn't have patches, then convert all (i,i) pairs to (i,0).
                 pairs2 = [(ij[0],0) for ij in pairs if ij[0] == ij[1]]
             else:
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index c7a4310..1f1ca7c 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -623,7 +623,7 @@ class NNNCorrelation(Corr3):
         rrrf = ddd_tot / self._rrr.tot
 
         if self._drr is not None:
-            if self._drr.npatch2 == 1:
+            if self._drr.npatch2 == 1 and self.npatch2 != 1:
                 # If r doesn't have patches, then convert all (i,i,i) pairs to (i,0,0).
                 pairs2 = [(ij[0],0,0) for ij in pairs if ij[0] == ij[1] == ij[2]]
             else:
-- 
2.43.0


From 07a9e44fe4e7de8113cc00426929711d6fc1a3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:55 +0000
Subject: [PATCH 17/39] fix: bin_slop for Linear and TwoD bins with sep_units

The slop b was in units of sep_units while the compiled code compares it with
natural-unit distances, so counts with the default bin_slop were badly wrong
unless sep_units was radians.
---
 treecorr/corr2base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 1332412..4f0e28c 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -473,7 +473,7 @@ class Corr2(object):
         self._ro.angle_slop = get(self.config,'angle_slop',float,self._default_angle_slop)
         if self.bin_slop < 0.0:
             self._ro.bin_slop = min(max_good_slop, 1.0)
-        self._ro.b = self.bin_size * self.bin_slop
+        self._ro.b = self._bin_size * self.bin_slop
         if self.bin_slop > max_good_slop + 0.0001 and self.angle_slop > 0.1:
             self.logger.warning(
                 "Using bin_slop = %g, angle_slop = %g, bin_size = %g (b = %g).\n"%(
-- 
2.43.0


From 6bfce9a2da4af3b3076371f9c062c8bf631d21d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 18/39] fix: implicit min_v of LogRUV bins stays within the
 valid range of |v|

---
 treecorr/corr3base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 79f01e0..9c0cf4b 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -514,7 +514,7 @@ class Corr3(object):
                     if 'max_v' not in self.config:
                         self._ro.max_v = min(self.min_v + self.nvbins * self.vbin_size, 1.)
                     else:  # min_v not in config
-                        self._ro.min_v = max(self.max_v - self.nvbins * self.vbin_size, -1.)
+                        self._ro.min_v = max(self.max_v - self.nvbins * self.vbin_size, 0.)
             # Adjust vbin_size given the other values
             self._ro.vbin_size = (self.max_v-self.min_v)/self.nvbins
             self.logger.info("v: nbins = %d, min,max = %g..%g, bin_size = %g",
-- 
2.43.0


From 2dc3821197a08dcf35d09c45b309f95016a86d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 19/39] fix: LogSAS angles with the Arc metric and 3d
 coordinates (chords on the unit sphere)

---
 include/Metric.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/Metric.h b/include/Metric.h
index 9004014..33b317e 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -723,12 +723,12 @@ struct MetricHelper<Arc, P>
         // d1^2 = d2^2 + d3^2 - 1/2 d2^2 d3^2  - 2 d2 d3 cos(a/2) cos(b/2) cos(phi)
         //
         // Unfortunately, we don't have the chord lengths here.  We have real angles.
-        // Rather than do trig though, recompute the chord lengths so we can compute
-        // cos(phi) with just regular arithmetic and a sqrt.
+        // So convert them to the chord lengths on the unit sphere.  (Don't use the differences
+        // of the positions for this, since in 3d coordinates, they are not on the unit sphere.)
         //
-        double d1sq = (c2.getPos() - c3.getPos()).normSq();
-        double d2sq = (c1.getPos() - c3.getPos()).normSq();
-        double d3sq = (c1.getPos() - c2.getPos()).normSq();
+        double d1sq = SQR(2. * std::sin(0.5*std::sqrt(theta1sq)));  // theta1 may not be set yet.
+        double d2sq = SQR(2. * std::sin(0.5*theta2));
+        double d3sq = SQR(2. * std::sin(0.5*theta3));
 
         double cosphi = (d2sq + d3sq - 0.5*d2sq*d3sq - d1sq);
         cosphi /= 2. * std::sqrt( d2sq * d3sq * (1.-0.25*d2sq) * (1.-0.25*d3sq) );
-- 
2.43.0


From 5a3d10a3e6ff7557fed9b61ac595d7243d96648f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 20/39] fix: use the metric's effective cell sizes in Corr3
 process111Sorted

---
 src/Corr3.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Corr3.cpp b/src/Corr3.cpp
index 0e8af16..57d249c 100644
--- a/src/Corr3.cpp
+++ b/src/Corr3.cpp
@@ -671,9 +671,12 @@ void BaseCorr3::process111Sorted(
     const BaseCell<C>& c1, const BaseCell<C>& c2, const BaseCell<C>& c3,
     const MetricHelper<M,0>& metric, double d1sq, double d2sq, double d3sq)
 {
-    const double s1 = c1.getSize();
-    const double s2 = c2.getSize();
-    const double s3 = c3.getSize();
+    double s1 = c1.getSize(); // May be modified by DistSq function.
+    double s2 = c2.getSize(); // "
+    double s3 = c3.getSize(); // "
+    double s = 0.;
+    metric.DistSq(c1.getPos(), c2.getPos(), s1, s2);
+    metric.DistSq(c1.getPos(), c3.getPos(), s, s3);
 
     xdbg<<"Process111Sorted: c1 = "<<c1.getPos()<<"  "<<c1.getSize()<<"  "<<c1.getN()<<std::endl;
     xdbg<<"                  c2 = "<<c2.getPos()<<"  "<<c2.getSize()<<"  "<<c2.getN()<<std::endl;
-- 
2.43.0


From ea0c9cf52b0b6727c555e0702bc2a22d9d6cc052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 21/39] fix: reset the size of c1 for each c2 in the multipole
 split functions

---
 src/Corr3.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Corr3.cpp b/src/Corr3.cpp
index 57d249c..fe031ad 100644
--- a/src/Corr3.cpp
+++ b/src/Corr3.cpp
@@ -1009,9 +1009,9 @@ void BaseCorr3::splitC2Cells(
     // Given the current c1, make a new c2 list where we throw away any from c2 list
     // that can't contribute to the bins, and split any that need to be split.
     const Position<C>& p1 = c1.getPos();
-    double s1 = c1.getSize();
     for (const BaseCell<C>* c2: c2list) {
         const Position<C>& p2 = c2->getPos();
+        double s1 = c1.getSize(); // May be modified by DistSq function.
         double s2 = c2->getSize();
         const double rsq = metric.DistSq(p1,p2,s1,s2);
         const double s1ps2 = s1+s2;
@@ -1128,7 +1128,6 @@ double BaseCorr3::splitC2CellsOrCalculateGn(
     // neither c1 nor c2 need to be split further.  In those cases, accumulate Gn and other
     // scratch arrays and don't add that c2 to newc2list.
     const Position<C>& p1 = c1.getPos();
-    double s1 = c1.getSize();
     double max_remaining_r = 0.;
     // The calculation of thresh1 here is pretty arbitrary.
     // The point of thresh1 is to only split cell1 when it is needed for the pairs with the
@@ -1147,6 +1146,7 @@ double BaseCorr3::splitC2CellsOrCalculateGn(
     double thresh1 = BinTypeHelper<B>::oneBinLessThan(prev_max_remaining_r, _binsize);
     for (const BaseCell<C>* c2: c2list) {
         const Position<C>& p2 = c2->getPos();
+        double s1 = c1.getSize(); // May be modified by DistSq function.
         double s2 = c2->getSize();
         const double rsq = metric.DistSq(p1,p2,s1,s2);
         const double s1ps2 = s1+s2;
-- 
2.43.0


From 3f5b2c7b4bb1a19afecacb4de2f7162b88bd57e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:09 +0000
Subject: [PATCH 22/39] fix: let _make_expanded_patch follow the metric, so
 patch_method='local' does not drop pairs

---
 treecorr/corr2base.py | 58 +++++++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 19 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 4f0e28c..8834549 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -731,12 +731,38 @@ class Corr2(object):
         # First figure out the center and size of cat1.
         x1,y1,z1,s1 = cat1._get_center_size()
 
-        if self._coords == _treecorr.ThreeD:
-            # For 3d coords, we collapse everything onto the unit circle, since that's
-            # what we care about for patch considerations.
-            r = np.sqrt(x1**2 + y1**2 + z1**2)
-            if r != 0:  # pragma: no branch
-                x1 /= r; y1 /= r; z1 /= r
+        max_sep = self._max_sep
+        if self.bin_type == 'TwoD':
+            # The corners of the grid are at sqrt(2) * max_sep.
+            max_sep *= 2**0.5
+
+        # For Arc with 3d coords, the separations are angles, so collapse everything onto the
+        # unit sphere.
+        use_unit = self.metric == 'Arc' and self._coords == _treecorr.ThreeD
+
+        # Metrics other than these don't have a simple limit on the distance, so for these, we
+        # need to keep everything.
+        use_limit = self.metric in ('Euclidean', 'Arc', 'Periodic')
+
+        def unit_sphere(x, y, z):
+            r = np.sqrt(x**2 + y**2 + z**2)
+            r[r==0] = 1
+            # Don't divide in place.  That would change the catalog's internals.
+            return x/r, y/r, z/r
+
+        def dist(x, y, z):
+            # The distance of the given position(s) from the center of cat1.
+            dx = x-x1; dy = y-y1; dz = z-z1
+            if self.metric == 'Periodic':
+                if self.xperiod: dx = dx - self.xperiod * np.round(dx/self.xperiod)
+                if self.yperiod: dy = dy - self.yperiod * np.round(dy/self.yperiod)
+                if self.zperiod: dz = dz - self.zperiod * np.round(dz/self.zperiod)
+            return np.sqrt(dx**2 + dy**2 + dz**2)
+
+        if use_unit:
+            ux,uy,uz = unit_sphere(cat1.x, cat1.y, cat1.z)
+            x1 = np.mean(ux); y1 = np.mean(uy); z1 = np.mean(uz)
+            s1 = np.max(dist(ux,uy,uz))
 
         cat_list = []
         mask_list = []
@@ -744,23 +770,17 @@ class Corr2(object):
         for p in cat2:
             sumw += p.sumw
             x2,y2,z2,s2 = p._get_center_size()
-            if self._coords == _treecorr.ThreeD:
-                r = np.sqrt(x2**2 + y2**2 + z2**2)
-                if r != 0:
-                    x2 /= r; y2 /= r; z2 /= r
-            if ((x2-x1)**2 + (y2-y1)**2 + (z2-z1)**2)**0.5 > self._max_sep + s1 + s2:
+            if use_limit and not use_unit and dist(x2,y2,z2) > max_sep + s1 + s2:
                 if low_mem and p is not cat1:
                     p.unload()
                 continue
             px = p.x; py = p.y; pz = 0 if p.z is None else p.z
-            if self._coords == _treecorr.ThreeD:
-                pr = np.sqrt(px**2 + py**2 + pz**2)
-                pr[pr==0] = 1
-                # Don't divide in place.  That would change p's internals.
-                px = px/pr; py = py/pr; pz = pz/pr
-            dsq = (px-x1)**2 + (py-y1)**2 + (pz-z1)**2
-            d = np.sqrt(dsq)
-            mask = np.where(d < s1+self._max_sep)
+            if use_unit:
+                px,py,pz = unit_sphere(px,py,pz)
+            if use_limit:
+                mask = np.where(dist(px,py,pz) < s1 + max_sep)
+            else:
+                mask = np.where(np.full(len(px), True))
             if len(mask[0]) == 0:
                 if low_mem and p is not cat1:
                     p.unload()
-- 
2.43.0


From 4534c85d9b7222dec34cd87bc11d525fcd33788e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:09 +0000
Subject: [PATCH 23/39] fix: the size of a patch on the sphere is relative to
 its center on the sphere

---
 treecorr/catalog.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 8fb02db..7795ae4 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1291,9 +1291,15 @@ class Catalog(object):
             mx = np.mean(self.x)
             my = np.mean(self.y)
             mz = 0
-            dsq = (self.x - mx)**2 + (self.y - my)**2
             if self.z is not None:
                 mz = np.mean(self.z)
+            if self.coords == 'spherical':
+                # The center is taken to be on the unit sphere, so make sure it is for the size.
+                r = np.sqrt(mx**2 + my**2 + mz**2)
+                if r > 0:
+                    mx /= r; my /= r; mz /= r
+            dsq = (self.x - mx)**2 + (self.y - my)**2
+            if self.z is not None:
                 dsq += (self.z - mz)**2
             s = np.max(dsq)**0.5
             self._cen_s = (mx, my, mz, s)
-- 
2.43.0


From bb5b9f0979483212ad19efca251be8a9aea47536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:21 +0000
Subject: [PATCH 24/39] fix: Corr3._trivially_zero follows the Periodic and Arc
 metrics

---
 treecorr/corr3base.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 9c0cf4b..fff6fa1 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1111,13 +1111,31 @@ class Corr3(object):
         pass
 
     def _trivially_zero(self, c1, c2, c3):
-        # For now, ignore the metric.  Just be conservative about how much space we need.
+        # Be conservative about how much space we need.
         x1,y1,z1,s1 = c1._get_center_size()
         x2,y2,z2,s2 = c2._get_center_size()
         x3,y3,z3,s3 = c3._get_center_size()
-        d3 = ((x1-x2)**2 + (y1-y2)**2 + (z1-z2)**2)**0.5
-        d1 = ((x2-x3)**2 + (y2-y3)**2 + (z2-z3)**2)**0.5
-        d2 = ((x3-x1)**2 + (y3-y1)**2 + (z3-z1)**2)**0.5
+        if self.metric == 'Arc' and self._coords == _treecorr.ThreeD:
+            # Then the separations are angles, so we need the positions and sizes on the sky.
+            r1 = (x1**2 + y1**2 + z1**2)**0.5
+            r2 = (x2**2 + y2**2 + z2**2)**0.5
+            r3 = (x3**2 + y3**2 + z3**2)**0.5
+            if s1 >= r1 or s2 >= r2 or s3 >= r3:
+                return False
+            x1 /= r1; y1 /= r1; z1 /= r1; s1 = np.arcsin(s1/r1)
+            x2 /= r2; y2 /= r2; z2 /= r2; s2 = np.arcsin(s2/r2)
+            x3 /= r3; y3 /= r3; z3 /= r3; s3 = np.arcsin(s3/r3)
+
+        def dist(dx, dy, dz):
+            if self.metric == 'Periodic':
+                if self.xperiod: dx -= self.xperiod * np.round(dx/self.xperiod)
+                if self.yperiod: dy -= self.yperiod * np.round(dy/self.yperiod)
+                if self.zperiod: dz -= self.zperiod * np.round(dz/self.zperiod)
+            return (dx**2 + dy**2 + dz**2)**0.5
+
+        d3 = dist(x1-x2, y1-y2, z1-z2)
+        d1 = dist(x2-x3, y2-y3, z2-z3)
+        d2 = dist(x3-x1, y3-y1, z3-z1)
         d3, d2, d1 = sorted([d1,d2,d3])
         return (d2 > s1 + s2 + s3 + 2*self._max_sep)  # The 2* is where we are being conservative.
 
-- 
2.43.0


From 248ed433975457983fdccb3aed62c12851f8a446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:19 +0000
Subject: [PATCH 25/39] fix: tot of patch pairs that are skipped while their
 results are kept

---
 treecorr/corr2base.py | 27 ++++++++++++++++-----------
 treecorr/corr3base.py | 14 ++++++++++----
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 8834549..fdecee3 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -790,32 +790,37 @@ class Corr2(object):
             if low_mem and p is not cat1:
                 p.unload()
         if len(cat_list) == 0:
-            return None
-        else:
-            cat2e = Catalog.combine(cat_list, mask_list=mask_list, low_mem=low_mem)
-            # This is important for NN correlations to get the tot to work out right.
-            # Basically, we treat the extended patch as though it included all of cat2
-            # for the purposes of figuring out the right tot normalization.
-            cat2e._sumw = sumw
-            if cat1.name != '':
-                cat2e.name = cat1.name + " (expanded)"
+            # Nothing is close enough to contribute, but we still need a catalog to get the tot
+            # right.  (See below.)  So just use a single object, even though it is too far away.
+            cat_list.append(cat2[0])
+            mask_list.append((np.array([0]),))
+        cat2e = Catalog.combine(cat_list, mask_list=mask_list, low_mem=low_mem)
+        # This is important for NN correlations to get the tot to work out right.
+        # Basically, we treat the extended patch as though it included all of cat2
+        # for the purposes of figuring out the right tot normalization.
+        cat2e._sumw = sumw
+        if cat1.name != '':
+            cat2e.name = cat1.name + " (expanded)"
         return cat2e
 
     def _single_process12(self, c1, c2, ij, metric, num_threads, temp, force_write=False):
         # Helper function for _process_all_auto and _process_cross for doing cross pairs.
         temp._clear()
-        if c2 is not None and not self._trivially_zero(c1, c2):
+        skip = self._trivially_zero(c1, c2)
+        if not skip:
             temp.process_cross(c1, c2, metric=metric, num_threads=num_threads)
         else:
             self.logger.info('Skipping %s pair, which are too far apart ' +
                              'for this set of separations',ij)
-        if temp.nonzero or force_write:
+        if temp.nonzero or (force_write and not skip):
             if ij in self.results and self.results[ij].nonzero:
                 self.results[ij] += temp
             else:
                 self.results[ij] = temp.copy()
             self += temp
         else:
+            if force_write and ij not in self.results:
+                self.results[ij] = temp.copy()
             # NNCorrelation needs to add the tot value
             self._add_tot(ij, c1, c2)
 
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index fff6fa1..79a2f10 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1145,19 +1145,22 @@ class Corr3(object):
         # Helper function for _process_all_auto, etc. for doing 12 cross pairs
         temp._clear()
 
-        if c2 is not None and not self._trivially_zero(c1,c2,c2):
+        skip = self._trivially_zero(c1,c2,c2)
+        if not skip:
             self.logger.info('Process patches %s cross12',ijj)
             temp.process_cross12(c1, c2, metric=metric, ordered=ordered, num_threads=num_threads)
         else:
             self.logger.info('Skipping %s pair, which are too far apart ' +
                              'for this set of separations',ijj)
-        if temp.nonzero or force_write:
+        if temp.nonzero or (force_write and not skip):
             if ijj in self.results and self.results[ijj].nonzero:
                 self.results[ijj] += temp
             else:
                 self.results[ijj] = temp.copy()
             self += temp
         else:
+            if force_write and ijj not in self.results:
+                self.results[ijj] = temp.copy()
             # NNNCorrelation needs to add the tot value
             self._add_tot(ijj, c1, c2, c2)
 
@@ -1165,19 +1168,22 @@ class Corr3(object):
         # Helper function for _process_all_auto, etc. for doing 123 cross triples
         temp._clear()
 
-        if c2 is not None and c3 is not None and not self._trivially_zero(c1,c2,c3):
+        skip = self._trivially_zero(c1,c2,c3)
+        if not skip:
             self.logger.info('Process patches %s cross',ijk)
             temp.process_cross(c1, c2, c3, metric=metric, ordered=ordered, num_threads=num_threads)
         else:
             self.logger.info('Skipping %s, which are too far apart ' +
                              'for this set of separations',ijk)
-        if temp.nonzero or force_write:
+        if temp.nonzero or (force_write and not skip):
             if ijk in self.results and self.results[ijk].nonzero:
                 self.results[ijk] += temp
             else:
                 self.results[ijk] = temp.copy()
             self += temp
         else:
+            if force_write and ijk not in self.results:
+                self.results[ijk] = temp.copy()
             # NNNCorrelation needs to add the tot value
             self._add_tot(ijk, c1, c2, c3)
 
-- 
2.43.0


From 738cf5a173cd3878211521ff45deb3c964aea8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:19 +0000
Subject: [PATCH 26/39] fix: keep earlier results of a patch pair when process
 is called with initialize=False

---
 treecorr/corr2base.py      | 16 ++++++++--------
 treecorr/corr3base.py      | 24 ++++++++++++------------
 treecorr/nncorrelation.py  |  5 ++++-
 treecorr/nnncorrelation.py |  5 ++++-
 4 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index fdecee3..2dc5343 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -813,10 +813,10 @@ class Corr2(object):
             self.logger.info('Skipping %s pair, which are too far apart ' +
                              'for this set of separations',ij)
         if temp.nonzero or (force_write and not skip):
-            if ij in self.results and self.results[ij].nonzero:
-                self.results[ij] += temp
-            else:
-                self.results[ij] = temp.copy()
+            prev = self.results.get(ij)
+            self.results[ij] = temp.copy()
+            if prev is not None:
+                self.results[ij] += prev
             self += temp
         else:
             if force_write and ij not in self.results:
@@ -903,10 +903,10 @@ class Corr2(object):
                         temp._clear()
                         self.logger.info('Process patch %d auto',i)
                         temp.process_auto(c1, metric=metric, num_threads=num_threads)
-                        if (i,i) not in self.results:
-                            self.results[(i,i)] = temp.copy()
-                        else:
-                            self.results[(i,i)] += temp
+                        prev = self.results.get((i,i))
+                        self.results[(i,i)] = temp.copy()
+                        if prev is not None:
+                            self.results[(i,i)] += prev
                         self += temp
 
                     for jj,c2 in list(enumerate(cat1))[::-1]:
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 79a2f10..e7b7416 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1153,10 +1153,10 @@ class Corr3(object):
             self.logger.info('Skipping %s pair, which are too far apart ' +
                              'for this set of separations',ijj)
         if temp.nonzero or (force_write and not skip):
-            if ijj in self.results and self.results[ijj].nonzero:
-                self.results[ijj] += temp
-            else:
-                self.results[ijj] = temp.copy()
+            prev = self.results.get(ijj)
+            self.results[ijj] = temp.copy()
+            if prev is not None:
+                self.results[ijj] += prev
             self += temp
         else:
             if force_write and ijj not in self.results:
@@ -1176,10 +1176,10 @@ class Corr3(object):
             self.logger.info('Skipping %s, which are too far apart ' +
                              'for this set of separations',ijk)
         if temp.nonzero or (force_write and not skip):
-            if ijk in self.results and self.results[ijk].nonzero:
-                self.results[ijk] += temp
-            else:
-                self.results[ijk] = temp.copy()
+            prev = self.results.get(ijk)
+            self.results[ijk] = temp.copy()
+            if prev is not None:
+                self.results[ijk] += prev
             self += temp
         else:
             if force_write and ijk not in self.results:
@@ -1262,10 +1262,10 @@ class Corr3(object):
                         temp._clear()
                         self.logger.info('Process patch %d auto',i)
                         temp.process_auto(c1, metric=metric, num_threads=num_threads)
-                        if (i,i,i) in self.results and self.results[(i,i,i)].nonzero:
-                            self.results[(i,i,i)] += temp
-                        else:
-                            self.results[(i,i,i)] = temp.copy()
+                        prev = self.results.get((i,i,i))
+                        self.results[(i,i,i)] = temp.copy()
+                        if prev is not None:
+                            self.results[(i,i,i)] += prev
                         self += temp
 
                     for jj,c2 in list(enumerate(cat1))[::-1]:
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index ea8ebec..d50ef62 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -257,7 +257,10 @@ class NNCorrelation(Corr2):
         # gets messed up.  We need to accumulate the tot value of all pairs, even if
         # the resulting weight is zero.  But use a minimal copy with just the necessary fields
         # to save some time.
-        self.results[ij] = self._zero_copy(tot)
+        if ij in self.results:
+            self.results[ij].tot += tot
+        else:
+            self.results[ij] = self._zero_copy(tot)
 
     def _mean_weight(self):
         mean_np = np.mean(self.npairs)
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index 1f1ca7c..8548ee3 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -360,7 +360,10 @@ class NNNCorrelation(Corr3):
         # We also have to keep all pairs in the results dict, otherwise the tot calculation
         # gets messed up.  We need to accumulate the tot value of all pairs, even if
         # the resulting weight is zero.
-        self.results[ijk] = self._zero_copy(tot)
+        if ijk in self.results:
+            self.results[ijk].tot += tot
+        else:
+            self.results[ijk] = self._zero_copy(tot)
 
     def __iadd__(self, other):
         """Add a second Correlation object's data to this one.
-- 
2.43.0


From 54f4f19118327b67682e504ed827d0467c631274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:19 +0000
Subject: [PATCH 27/39] fix: tot of unordered 3pt correlations with
 patch_method=local counts each triangle once

---
 treecorr/corr3base.py      | 37 +++++++++++++++++++++++++------------
 treecorr/nnncorrelation.py |  7 +++++--
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index e7b7416..068e62f 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1106,8 +1106,12 @@ class Corr3(object):
         """
         return np.any(self.ntri)
 
-    def _add_tot(self, ijk, c1, c2, c3):
-        # No op for all but NNCorrelation, which needs to add the tot value
+    def _add_tot(self, ijk, c1, c2, c3, frac=1.):
+        # No op for all but NNNCorrelation, which needs to add the tot value
+        pass
+
+    def _scale_tot(self, frac):
+        # No op for all but NNNCorrelation, which has a tot value.
         pass
 
     def _trivially_zero(self, c1, c2, c3):
@@ -1141,7 +1145,8 @@ class Corr3(object):
 
     _make_expanded_patch = Corr2._make_expanded_patch
 
-    def _single_process12(self, c1, c2, ijj, metric, ordered, num_threads, temp, force_write):
+    def _single_process12(self, c1, c2, ijj, metric, ordered, num_threads, temp, force_write,
+                         frac=1.):
         # Helper function for _process_all_auto, etc. for doing 12 cross pairs
         temp._clear()
 
@@ -1149,6 +1154,7 @@ class Corr3(object):
         if not skip:
             self.logger.info('Process patches %s cross12',ijj)
             temp.process_cross12(c1, c2, metric=metric, ordered=ordered, num_threads=num_threads)
+            temp._scale_tot(frac)
         else:
             self.logger.info('Skipping %s pair, which are too far apart ' +
                              'for this set of separations',ijj)
@@ -1162,9 +1168,10 @@ class Corr3(object):
             if force_write and ijj not in self.results:
                 self.results[ijj] = temp.copy()
             # NNNCorrelation needs to add the tot value
-            self._add_tot(ijj, c1, c2, c2)
+            self._add_tot(ijj, c1, c2, c2, frac)
 
-    def _single_process123(self, c1, c2, c3, ijk, metric, ordered, num_threads, temp, force_write):
+    def _single_process123(self, c1, c2, c3, ijk, metric, ordered, num_threads, temp, force_write,
+                          frac=1.):
         # Helper function for _process_all_auto, etc. for doing 123 cross triples
         temp._clear()
 
@@ -1172,6 +1179,7 @@ class Corr3(object):
         if not skip:
             self.logger.info('Process patches %s cross',ijk)
             temp.process_cross(c1, c2, c3, metric=metric, ordered=ordered, num_threads=num_threads)
+            temp._scale_tot(frac)
         else:
             self.logger.info('Skipping %s, which are too far apart ' +
                              'for this set of separations',ijk)
@@ -1185,7 +1193,7 @@ class Corr3(object):
             if force_write and ijk not in self.results:
                 self.results[ijk] = temp.copy()
             # NNNCorrelation needs to add the tot value
-            self._add_tot(ijk, c1, c2, c3)
+            self._add_tot(ijk, c1, c2, c3, frac)
 
     def _process_all_auto(self, cat1, metric, num_threads, comm, low_mem, local):
 
@@ -1251,8 +1259,10 @@ class Corr3(object):
                     if is_my_job(my_indices, i, i, i, n):
                         c1e = self._make_expanded_patch(c1, cat1, metric, low_mem)
                         self.logger.info('Process patch %d with surrounding local patches',i)
+                        # Each triangle is found 3 times here, once for each vertex in c1,
+                        # so only take 1/3 of the tot each time.
                         self._single_process12(c1, c1e, (i,i,i), metric, 1,
-                                               num_threads, temp, True)
+                                               num_threads, temp, True, 1./3.)
                         if low_mem:
                             c1.unload()
             else:
@@ -1377,8 +1387,10 @@ class Corr3(object):
                     if is_my_job(my_indices, i, i, i, n1, n2):
                         c2e = self._make_expanded_patch(c1, cat2, metric, low_mem)
                         self.logger.info('Process patch %d with surrounding local patches',i)
+                        # If unordered, we do three times as many triples as tot should count.
                         self._single_process12(c1, c2e, (i,i,i), metric, 1,
-                                               num_threads, temp, True)
+                                               num_threads, temp, True,
+                                               1. if ordered else 1./3.)
                         if low_mem:
                             c1.unload()
                 if not ordered:
@@ -1392,7 +1404,7 @@ class Corr3(object):
                             c2e = self._make_expanded_patch(c2, cat2, metric, low_mem)
                             self.logger.info('Process patch %d from cat2 with surrounding local patches',i)
                             self._single_process123(c2, c1e, c2e, (i,i,i), metric, 1,
-                                                    num_threads, temp, True)
+                                                    num_threads, temp, True, 1./3.)
                             if low_mem:
                                 c2.unload()
             else:
@@ -1498,7 +1510,8 @@ class Corr3(object):
                         self.logger.info('Process patch %d with surrounding local patches',i)
                         self._single_process123(c1, c2e, c3e, (i,i,i), metric,
                                                 1 if not ordered else ordered,
-                                                num_threads, temp, True)
+                                                num_threads, temp, True,
+                                                1. if ordered else 1./3.)
                         if low_mem:
                             c1.unload()
                 if not ordered:
@@ -1512,7 +1525,7 @@ class Corr3(object):
                             c3e = self._make_expanded_patch(c2, cat3, metric, low_mem)
                             self.logger.info('Process patch %d from cat2 with surrounding local patches',i)
                             self._single_process123(c2, c1e, c3e, (i,i,i), metric, 1,
-                                                    num_threads, temp, True)
+                                                    num_threads, temp, True, 1./3.)
                             if low_mem:
                                 c2.unload()
                     for ii,c3 in enumerate(cat3):
@@ -1522,7 +1535,7 @@ class Corr3(object):
                             c2e = self._make_expanded_patch(c3, cat2, metric, low_mem)
                             self.logger.info('Process patch %d from cat3 with surrounding local patches',i)
                             self._single_process123(c3, c1e, c2e, (i,i,i), metric, 1,
-                                                    num_threads, temp, True)
+                                                    num_threads, temp, True, 1./3.)
                             if low_mem:
                                 c3.unload()
             else:
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index 8548ee3..40fc542 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -348,11 +348,14 @@ class NNNCorrelation(Corr3):
                 np.sum([c.weighti for c in others], axis=0, out=self.weighti)
         self.tot = tot
 
-    def _add_tot(self, ijk, c1, c2, c3):
+    def _scale_tot(self, frac):
+        self.tot *= frac
+
+    def _add_tot(self, ijk, c1, c2, c3, frac=1.):
         # When storing results from a patch-based run, tot needs to be accumulated even if
         # the total weight being accumulated comes out to be zero.
         # This only applies to NNNCorrelation.  For the other ones, this is a no op.
-        tot = c1.sumw * c2.sumw * c3.sumw
+        tot = c1.sumw * c2.sumw * c3.sumw * frac
         if c2 is c3:
             # Account for 1/2 factor in cross12 cases.
             tot /= 2.
-- 
2.43.0


From 7e9c22ae46672bb5cfba35b13f03ed3ce740c8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:23 +0000
Subject: [PATCH 28/39] fix: TwoD auto-correlations with patches include both
 directions of each pair of patches

---
 treecorr/corr2base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 2dc5343..8103575 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -914,6 +914,9 @@ class Corr2(object):
                         if i < j and is_my_job(my_indices, i, j, n):
                             self.logger.info('Process patches %d, %d cross',i,j)
                             self._single_process12(c1, c2, (i,j), metric, num_threads, temp)
+                            if self.bin_type == 'TwoD':
+                                # TwoD auto-correlations include both signs of the separation.
+                                self._single_process12(c2, c1, (i,j), metric, num_threads, temp)
                             if low_mem and jj != ii+1:
                                 # Don't unload i+1, since that's the next one we'll need.
                                 c2.unload()
-- 
2.43.0


From 86b642f24d769c8ec64fd73eb96b0e6cf15c5ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:23 +0000
Subject: [PATCH 29/39] fix: tot of TwoD auto-correlations matches their pair
 counts

---
 treecorr/nncorrelation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index d50ef62..f4f97c2 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -175,7 +175,11 @@ class NNCorrelation(Corr2):
                                 in the constructor in the config dict.)
         """
         super()._process_auto(cat, metric, num_threads)
-        self.tot += 0.5 * cat.sumw**2
+        if self.bin_type == 'TwoD':
+            # TwoD auto-correlations count each pair twice, once for each sign of the separation.
+            self.tot += cat.sumw**2
+        else:
+            self.tot += 0.5 * cat.sumw**2
 
     def process_cross(self, cat1, cat2, *, metric=None, num_threads=None):
         """Process a single pair of catalogs, accumulating the cross-correlation.
-- 
2.43.0


From 6914cb69d0735a54964a54fc3555b168fd36c7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:29 +0000
Subject: [PATCH 30/39] fix: parallel transport to the center of 3d cells uses
 the direction of the center

---
 src/Cell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Cell.cpp b/src/Cell.cpp
index 90f9aad..e09afe0 100644
--- a/src/Cell.cpp
+++ b/src/Cell.cpp
@@ -294,7 +294,7 @@ std::complex<double> ParallelTransportSum(
         // the initial bit where we calculate A,B.  (We don't call that function directly,
         // because there is a slight efficiency gain that sinA = sinB, which we use here.)
         Position<Sphere> pi(vdata_g->getPos());
-        double z1 = center.getZ();
+        double z1 = cen.getZ();
         double z2 = pi.getZ();
         double dsq = (cen - pi).normSq();
         if (dsq < 1.e-12) {
-- 
2.43.0


From 786dcb5747f46f485c1d2ad143cba8a4a55db41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:29 +0000
Subject: [PATCH 31/39] fix: GGG multipole projections in 3d coordinates
 project all three shears

---
 include/ProjectHelper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ProjectHelper.h b/include/ProjectHelper.h
index 338e635..e8bba5c 100644
--- a/include/ProjectHelper.h
+++ b/include/ProjectHelper.h
@@ -422,7 +422,7 @@ struct ProjectHelper<ThreeD>
         Position<Sphere> p2(c2.getPos());
         Position<Sphere> p3(c3.getPos());
         // Use the Sphere implementation with these positions.
-        ProjectHelper<Sphere>::ProjectX<D>(p1,p2,p3,z1,z3,z3);
+        ProjectHelper<Sphere>::ProjectX<D>(p1,p2,p3,z1,z2,z3);
     }
 
     static std::complex<double> ExpIPhi(
-- 
2.43.0


From 0c070eb4ea41e4c36bd63fa7ed64f39fb5d5b70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:24 +0000
Subject: [PATCH 32/39] fix: meanlogd3 of ordered=1 multipole
 cross-correlations weights by the other catalog's sum in bin k2

---
 src/Corr3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Corr3.cpp b/src/Corr3.cpp
index fe031ad..0ef6ecf 100644
--- a/src/Corr3.cpp
+++ b/src/Corr3.cpp
@@ -1486,7 +1486,7 @@ void Corr3<D1,D2,D3>::calculateZeta(
                 _meand3[i] += w1 * (mp2.sumw[k2] * mp3.sumwr[k3] +
                                     mp3.sumw[k2] * mp2.sumwr[k3]);
                 _meanlogd3[i] += w1 * (mp2.sumw[k2] * mp3.sumwlogr[k3] +
-                                       mp3.sumw[k3] * mp2.sumwlogr[k3]);
+                                       mp3.sumw[k2] * mp2.sumwlogr[k3]);
             }
             i += (_nbins - k3end) * nnbins;
         }
-- 
2.43.0


From da5922416c99081c94f4776be3619f3ecf0f6a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:09 +0000
Subject: [PATCH 33/39] fix: LogSAS pruning with min_phi or max_phi no longer
 drops triangles in range

---
 include/BinType.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/BinType.h b/include/BinType.h
index 6231cc5..56bb1b6 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -818,8 +818,9 @@ struct BinTypeHelper<LogSAS>
     {
         // When still doing process12, if the s2 cell is smaller than the minimum
         // possible triangle side length, then we can stop early.
-        // 2s < sin(min_phi) * minsep < min_phi * minsep
-        return (s2 == 0. || s2 < halfminsep * minphi);
+        // The smallest possible d1 is 2 sin(min_phi/2) * minsep > min_phi (1-min_phi^2/24) * minsep
+        // But the two points in c2 might also be the ends of d2 or d3, so never use more than 1.
+        return (s2 == 0. || s2 < halfminsep * std::min(1., minphi * (1. - minphi*minphi/24.)));
     }
 
     // Check if all posisble pairs for a two cells (given s1 + s2) necessarily have too small
@@ -994,9 +995,12 @@ struct BinTypeHelper<LogSAS>
                     if (cosdphi < maxcosphi) return false;
                     double sindphi = sindphi2 * cosdphi3 + sindphi3 * cosdphi2;
                     double sinphi = sqrt(1-cosphi*cosphi);
+                    // If phi + dphi > pi, then phi can be as large as pi.
+                    if (sinphi * cosdphi + cosphi * sindphi < 0) return false;
                     cosphimax = cosphi * cosdphi - sinphi * sindphi;
                 } else {
                     double sinphi = sqrt(1-cosphi*cosphi);
+                    if (sinphi * cosdphi2 + cosphi * sindphi2 < 0) return false;
                     cosphimax = cosphi * cosdphi2 - sinphi * sindphi2;
                 }
             } else if (s1+s3 > 0) {
@@ -1005,6 +1009,7 @@ struct BinTypeHelper<LogSAS>
                 if (cosdphi3sq < maxcosphisq) return false;
                 double cosdphi3 = sqrt(cosdphi3sq);
                 double sinphi = sqrt(1-cosphi*cosphi);
+                if (sinphi * cosdphi3 + cosphi * sindphi3 < 0) return false;
                 cosphimax = cosphi * cosdphi3 - sinphi * sindphi3;
             }
 
@@ -1045,9 +1050,12 @@ struct BinTypeHelper<LogSAS>
                     if (cosdphi < -mincosphi) return false;
                     double sindphi = sindphi2 * cosdphi3 + sindphi3 * cosdphi2;
                     double sinphi = sqrt(1-cosphi*cosphi);
+                    // If phi - dphi < 0, then phi can be as small as 0.
+                    if (sinphi * cosdphi - cosphi * sindphi < 0) return false;
                     cosphimin = cosphi * cosdphi + sinphi * sindphi;
                 } else {
                     double sinphi = sqrt(1-cosphi*cosphi);
+                    if (sinphi * cosdphi2 - cosphi * sindphi2 < 0) return false;
                     cosphimin = cosphi * cosdphi2 + sinphi * sindphi2;
                 }
             } else if (s1+s3 > 0) {
@@ -1056,6 +1064,7 @@ struct BinTypeHelper<LogSAS>
                 if (cosdphi3sq < maxcosphisq) return false;
                 double cosdphi3 = sqrt(cosdphi3sq);
                 double sinphi = sqrt(1-cosphi*cosphi);
+                if (sinphi * cosdphi3 - cosphi * sindphi3 < 0) return false;
                 cosphimin = cosphi * cosdphi3 + sinphi * sindphi3;
             }
 
-- 
2.43.0


From fd125443160a383984a7c8a4474e4aefb774cdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:36 +0000
Subject: [PATCH 34/39] fix: do not divide a cell whose size underflows single
 precision

The stored size of such a cell is 0, which everywhere means that it is a leaf, so the
list of indices was read from the pointers to its children.
---
 src/Cell.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Cell.cpp b/src/Cell.cpp
index e09afe0..6258f27 100644
--- a/src/Cell.cpp
+++ b/src/Cell.cpp
@@ -589,9 +589,11 @@ Cell<D,C>* BuildCell(std::vector<std::pair<BaseCellData<C>*,WPosLeafInfo> >& vda
     }
 
     xdbg<<"sizesq = "<<sizesq<<" cf. "<<minsizesq<<", brute="<<brute<<std::endl;
-    if (sizesq > minsizesq) {
+    double size = brute ? std::numeric_limits<double>::infinity() : sqrt(sizesq);
+    // Note: The size is stored as a float, and a stored size of 0 means that this is a leaf.  So if
+    //       the size underflows (e.g. when coincident points have tiny rounding errors), stop here.
+    if (sizesq > minsizesq && float(size) >= std::numeric_limits<float>::min()) {
         // If size is large enough, recurse to leaves.
-        double size = brute ? std::numeric_limits<double>::infinity() : sqrt(sizesq);
         if (brute) sizesq = std::numeric_limits<double>::infinity();
         xdbg<<"size,sizesq = "<<size<<","<<sizesq<<std::endl;
         size_t mid = SplitData<C,SM>(vdata,start,end,data->getPos());
-- 
2.43.0


From 285501a205814c62b8ba1b11e5fb56e0c61e57fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:36 +0000
Subject: [PATCH 35/39] fix: get_near listed wrong objects when rounding made
 the count differ from the list

The array was allocated with the number of objects counted by countNear, which accepts
whole cells and so can disagree about objects within rounding error of the separation.
Unfilled entries were returned uninitialized, and objects beyond the count were dropped.
---
 include/Field.h   |  2 +-
 src/Field.cpp     | 20 ++++++++++++++++----
 treecorr/field.py | 10 +++++-----
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/include/Field.h b/include/Field.h
index 6b2fd25..1de796b 100644
--- a/include/Field.h
+++ b/include/Field.h
@@ -65,7 +65,7 @@ public:
         return reinterpret_cast<std::vector<const BaseCell<C>*>&>(_cells);
     }
     long countNear(double x, double y, double z, double sep) const;
-    void getNear(double x, double y, double z, double sep, long* indices, long n) const;
+    long getNear(double x, double y, double z, double sep, long* indices, long n) const;
 
     long _nobj;
     double _minsize;
diff --git a/src/Field.cpp b/src/Field.cpp
index 3ecd669..ed4ea49 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -381,6 +381,17 @@ void GetNear(const BaseCell<C>& cell, const Position<C>& pos, double sep, double
         if (dsq > sepsq && dsq > SQR(sep+s)) {
             Assert(sqrt(dsq) - s > sep);
             dbg<<"d - s > sep: "<<sqrt(dsq)-s<<" > "<<sep<<std::endl;
+        } else if (dsq <= sepsq && s < sep && dsq <= SQR(sep-s)) {
+            // If d + s < sep, then all points are close enough.
+            // This needs to match what CountNear does, since rounding differences could otherwise
+            // lead to listing a different number of points here than were counted there.
+            Assert(sqrt(dsq) + s <= sep);
+            const std::vector<long> all_indices = cell.getAllIndices();
+            const long n1 = all_indices.size();
+            Assert(k + n1 <= n);
+            if (k + n1 > n) return;
+            for (long m=0; m<n1; ++m)
+                indices[k++] = all_indices[m];
         } else {
             // Otherwise check the subcells.
             Assert(cell.getLeft());
@@ -393,7 +404,7 @@ void GetNear(const BaseCell<C>& cell, const Position<C>& pos, double sep, double
 }
 
 template <int C>
-void BaseField<C>::getNear(double x, double y, double z, double sep, long* indices, long n) const
+long BaseField<C>::getNear(double x, double y, double z, double sep, long* indices, long n) const
 {
     BuildCells();  // Make sure this is done.
     Position<C> pos(x, y, z);
@@ -405,6 +416,7 @@ void BaseField<C>::getNear(double x, double y, double z, double sep, long* indic
         GetNear(*_cells[i], pos, sep, sepsq, indices, k, n);
         dbg<<"k -> "<<k<<std::endl;
     }
+    return k;
 }
 
 //
@@ -572,12 +584,12 @@ Field<QData,C>* BuildQField(
 }
 
 template <int C>
-void FieldGetNear(BaseField<C>& field, double x, double y, double z, double sep,
+long FieldGetNear(BaseField<C>& field, double x, double y, double z, double sep,
                   py::array_t<long>& inp)
 {
     long n = inp.size();
     long* indices = static_cast<long*>(inp.mutable_data());
-    field.getNear(x, y, z, sep, indices, n);
+    return field.getNear(x, y, z, sep, indices, n);
 }
 
 // Export the above functions using pybind11
@@ -610,7 +622,7 @@ void GenerateXYZ(
 template <int C>
 void WrapField(py::module& _treecorr, std::string Cstr)
 {
-    typedef void (*getnear_type)(BaseField<C>& field, double x, double y, double z,
+    typedef long (*getnear_type)(BaseField<C>& field, double x, double y, double z,
                                  double sep, py::array_t<long>& inp);
     typedef void (*init_type)(BaseField<C>& field, py::array_t<double>& cenp, int npatch,
                               long long seed);
diff --git a/treecorr/field.py b/treecorr/field.py
index 6946bea..e33bb29 100644
--- a/treecorr/field.py
+++ b/treecorr/field.py
@@ -262,12 +262,12 @@ class Field(object):
     def _get_near(self, x, y, z, sep):
         # If self.min_size > 0, these results may be approximate, since the tree will have
         # grouped points within this separation together.
-        # First count how many there are, so we can allocate the array for the indices.
-        n = self._count_near(x, y, z, sep)
-        indices = np.empty(n, dtype=int)
+        # Note: Allocate enough space for all the points, since _count_near may disagree about points
+        # that are within rounding error of the given separation.
+        indices = np.empty(self.ntot, dtype=int)
         # Now fill the array with the indices of the nearby points.
-        self.data.getNear(x, y, z, sep, indices)
-        return indices
+        n = self.data.getNear(x, y, z, sep, indices)
+        return indices[:n]
 
     def run_kmeans(self, npatch, *, max_iter=200, tol=1.e-5, init='tree', alt=False, rng=None):
         r"""Use k-means algorithm to set patch labels for a field.
-- 
2.43.0


From 86b9155889c630b64700210522275ec38933d4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:02 +0000
Subject: [PATCH 36/39] fix: sampling pairs could leave entries of the output
 unfilled

When a pair of cells with more than n pairs came after some but fewer than n pairs had
been found, a position could be left without a pair when two of the original items were
selected.  Also the random position overflowed an int for more than 2^31 pairs.
---
 src/Corr2.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Corr2.cpp b/src/Corr2.cpp
index e8ffad8..6383ff5 100644
--- a/src/Corr2.cpp
+++ b/src/Corr2.cpp
@@ -856,7 +856,7 @@ void Sampler::finishProcess(
                         long j = _k;  // j is where in the lists we will place this
                         if (_k >= _n) {
                             double urd = urand(); // 0 < urd < 1
-                            j = int(urd * (_k+1)); // 0 <= j < k+1
+                            j = long(urd * (_k+1)); // 0 <= j < k+1
                         }
                         if (j < _n)  {
                             _i1[j] = index1;
@@ -875,8 +875,12 @@ void Sampler::finishProcess(
         SelectRandomFrom(_k+m, selection);
         // If any items in k<=i<n are from the original set, put them in their original place.
         for(long i=_k;i<_n;++i) {
-            long j = selection[i];
-            if (j < _n) std::swap(selection[i], selection[j]);
+            // Note: The item coming back from position j may also be from the original set, so
+            //       repeat this until position i really has a new item.
+            while (selection[i] < _k) {
+                long j = selection[i];
+                std::swap(selection[i], selection[j]);
+            }
         }
 
         // Now any items with j >= k can replace the value at their i in this list.
-- 
2.43.0


From 56bf1fe7cd8e7abe3bd6685a819962a5aa34fa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:02 +0000
Subject: [PATCH 37/39] fix: sample_pairs with bin_slop=0 returned pairs
 outside of the range

Cells whose pairs fall in one bin of the correlation object are accepted as a whole, but the
range of separations to sample need not match the edges of these bins.
---
 src/Corr2.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Corr2.cpp b/src/Corr2.cpp
index 6383ff5..41ec9e8 100644
--- a/src/Corr2.cpp
+++ b/src/Corr2.cpp
@@ -717,7 +717,13 @@ Sampler::Sampler(const BaseCorr2& base_corr2, double minsep, double maxsep,
     _halfminsep = 0.5*_minsep;
     _minsepsq = _minsep*_minsep;
     _maxsepsq = _maxsep*_maxsep;
-    _fullmaxsep = CalculateFullMaxSep(base_corr2.getBinType(), _minsep, _maxsep, _nbins, _binsize);
+    // The pairs of two cells are all accepted when they fall in a single bin, so adjust the bins to
+    // have edges at minsep and maxsep.  Otherwise, some of these pairs might be out of the range.
+    const BinType bin_type = base_corr2.getBinType();
+    const double range = (bin_type == TwoD ? 2.*_maxsep : bin_type == Linear ? _maxsep - _minsep :
+                          _minsep > 0. ? log(_maxsep) - _logminsep : 0.);
+    if (range > 0.) _binsize = range / ceil(range / _binsize);
+    _fullmaxsep = CalculateFullMaxSep(bin_type, _minsep, _maxsep, _nbins, _binsize);
     _fullmaxsepsq = _fullmaxsep*_fullmaxsep;
 }
 
-- 
2.43.0


From c8188e4fd8968a6f7ad57172642e3fb5a7279927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:02 +0000
Subject: [PATCH 38/39] fix: sample_pairs used whichever field happened to be
 cached by the catalog

A field made for another correlation object can have cells that are too large for the
bin_slop and brute settings of this one, so the pairs could be outside of the range.
---
 treecorr/corr2base.py | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 8103575..dbf96ee 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1524,28 +1524,20 @@ class Corr2(object):
 
         self._set_metric(metric, cat1.coords, cat2.coords)
 
-        f1 = cat1.field
-        f2 = cat2.field
-
-        if f1 is None or f1._coords != self._coords:
-            # I don't really know if it's possible to get the coords out of sync,
-            # so the 2nd check might be superfluous.
-            # The first one though is definitely possible, so we need to check that.
-            self.logger.debug("In sample_pairs, making default field for cat1")
-            min_size, max_size = self._get_minmax_size()
-            f1 = cat1.getNField(min_size=min_size, max_size=max_size,
-                                split_method=self.split_method,
-                                brute=self.brute is True or self.brute == 1,
-                                min_top=self.min_top, max_top=self.max_top,
-                                coords=self.coords)
-        if f2 is None or f2._coords != self._coords:
-            self.logger.debug("In sample_pairs, making default field for cat2")
-            min_size, max_size = self._get_minmax_size()
-            f2 = cat2.getNField(min_size=min_size, max_size=max_size,
-                                split_method=self.split_method,
-                                brute=self.brute is True or self.brute == 2,
-                                min_top=self.min_top, max_top=self.max_top,
-                                coords=self.coords)
+        # Note: Don't use cat1.field or cat2.field here, since they may have been made for a different
+        # correlation object, in which case the cells might be too large for this one.
+        # These are cached, so if they are appropriate, this is fast.
+        min_size, max_size = self._get_minmax_size()
+        f1 = cat1.getNField(min_size=min_size, max_size=max_size,
+                            split_method=self.split_method,
+                            brute=self.brute is True or self.brute == 1,
+                            min_top=self.min_top, max_top=self.max_top,
+                            coords=self.coords)
+        f2 = cat2.getNField(min_size=min_size, max_size=max_size,
+                            split_method=self.split_method,
+                            brute=self.brute is True or self.brute == 2,
+                            min_top=self.min_top, max_top=self.max_top,
+                            coords=self.coords)
 
         # Apply units to min_sep, max_sep:
         min_sep *= self._sep_units
-- 
2.43.0


From e2e66da305d1a80fce985e799f9fbe373e2c61ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:17 +0000
Subject: [PATCH 39/39] fix: selecting single patches duplicated objects
 equally near to two centers

---
 src/KMeans.cpp | 62 ++++----------------------------------------------
 1 file changed, 4 insertions(+), 58 deletions(-)

diff --git a/src/KMeans.cpp b/src/KMeans.cpp
index 8ceb09c..8331a4d 100644
--- a/src/KMeans.cpp
+++ b/src/KMeans.cpp
@@ -944,68 +944,14 @@ void SelectPatch(int patch, py::array_t<double>& cenp, int npatch,
                  py::array_t<double>& zp, py::array_t<long>& usep)
 {
     long n = xp.size();
-    Assert(yp.size() == n);
-    Assert(zp.size() == n || zp.size() == 0);
     Assert(usep.size() == n);
     Assert(patch < npatch);
 
-    const double* centers = static_cast<const double*>(cenp.data());
-    const double* x = static_cast<const double*>(xp.data());
-    const double* y = static_cast<const double*>(yp.data());
+    // Use the same calculation as QuickAssign, so objects that are (possibly only numerically)
+    // equally near to two centers are selected for exactly one patch, the one they are assigned.
+    QuickAssign(cenp, npatch, xp, yp, zp, usep);
     long* use = static_cast<long*>(usep.mutable_data());
-
-    // Notation: p = the good patch we are looking for
-    //           q = other patches
-    //           if p is the closest, then use = 1, else use = 0.
-
-    if (zp.size() > 0) {
-        // 3d version
-        Assert(cenp.size() == npatch * 3);
-        double px = centers[3*patch];
-        double py = centers[3*patch+1];
-        double pz = centers[3*patch+2];
-        const double* z = static_cast<const double*>(zp.data());
-#ifdef _OPENMP
-#pragma omp parallel for schedule(static)
-#endif
-        for (int i=0; i<n; ++i) {
-            double p_dsq = SQR(x[i]-px) + SQR(y[i]-py) + SQR(z[i]-pz);
-            use[i] = 1;
-            for (int q=0; q<npatch; ++q) {
-                if (q == patch) continue;
-                double qx = centers[3*q];
-                double qy = centers[3*q+1];
-                double qz = centers[3*q+2];
-                double q_dsq = SQR(x[i]-qx) + SQR(y[i]-qy) + SQR(z[i]-qz);
-                if (q_dsq < p_dsq) {
-                    use[i] = 0;
-                    break;
-                }
-            }
-        }
-    } else {
-        // 2d version
-        Assert(cenp.size() == npatch * 2);
-        double px = centers[2*patch];
-        double py = centers[2*patch+1];
-#ifdef _OPENMP
-#pragma omp parallel for schedule(static)
-#endif
-        for (int i=0; i<n; ++i) {
-            double p_dsq = SQR(x[i]-px) + SQR(y[i]-py);
-            use[i] = 1;
-            for (int q=0; q<npatch; ++q) {
-                if (q == patch) continue;
-                double qx = centers[2*q];
-                double qy = centers[2*q+1];
-                double q_dsq = SQR(x[i]-qx) + SQR(y[i]-qy);
-                if (q_dsq < p_dsq) {
-                    use[i] = 0;
-                    break;
-                }
-            }
-        }
-    }
+    for (long i=0; i<n; ++i) use[i] = (use[i] == patch);
 }
 
 void GenerateXYZ(
-- 
2.43.0

