From d4c2eca936f713aad13d59f039d5b2266023d9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 001/117] fix: keep splitting cells in Log binning when the
 singleBin bound is not valid

The expansion used for the lower edge is only conservative for s/r < 0.68.  With very wide bins
and bin_slop=0 (angle_slop=1), cell pairs with larger s/r could be dropped into a single bin
even though some pairs belong to another bin or are below min_sep.
---
 include/BinType.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/BinType.h b/include/BinType.h
index 9a480e1..c40fe9f 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -139,8 +139,10 @@ struct BinTypeHelper<Log>
         // This test is safe for the up direction, but slightly too liberal in the down
         // direction.  log(r-x) < log(r) - x/r
         // So refine the test slightly to make sure we have a conservative check here.
-        // log(r-x) > log(r) - x/r - x^2/r^2   (if x<r)
+        // log(r-x) > log(r) - x/r - x^2/r^2   (if x < 0.68 r)
         // s/r + s^2/r^2 > f*binsize + b
+        // For larger s/r (possible for very wide bins), this bound isn't valid, so keep splitting.
+        if (s1ps2sq > 0.46 * rsq) return false;
         if (s1ps2sq > SQR(frackk*binsize + b - s1ps2sq/rsq) * rsq) return false;
 
         xdbg<<"Both checks passed.\n";
-- 
2.43.0


From 91659ad288d8a60412df90827b0fa6acbb6459e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 002/117] fix: set r for TwoD cell pairs that fit in a single
 bin

singleBin set k and logr, but not r, so such pairs contributed r=0 to meanr.
---
 include/BinType.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/BinType.h b/include/BinType.h
index c40fe9f..9346b82 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -370,6 +370,7 @@ struct BinTypeHelper<TwoD>
 
         int n = int(2*maxsep / binsize+0.5);
         k = j*n + i;
+        r = sqrt(rsq);  // If we set k, then r and logr need to be set too.
         logr = 0.5*std::log(rsq);
         xdbg<<"Single bin returning true: "<<dx<<','<<dy<<','<<s1ps2<<','<<binsize<<std::endl;
         return true;
-- 
2.43.0


From b78a13ccda05543b7a0ee893eba8c0b660d310ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:31 +0000
Subject: [PATCH 003/117] fix: respect min_sep for TwoD cell pairs that fit in
 a single bin

With min_sep > 0, a cell pair inside a single TwoD bin might straddle min_sep, in which case it
needs to be split further to include only the pairs with r >= min_sep.
---
 include/BinType.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/BinType.h b/include/BinType.h
index 9346b82..6c7e1fc 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -360,6 +360,9 @@ struct BinTypeHelper<TwoD>
         int mid = int(maxsep/binsize);
         if (i == mid && j == mid) return false;
 
+        // Also, if the range of separations might straddle minsep, need to keep splitting.
+        if (minsep > 0. && rsq < SQR(minsep + s1ps2)) return false;
+
         // Check how much ii,jj can change for x,y +- s1ps2
         // This is simpler than the Log case, because we don't have to try to avoid
         // gratuitous log function calls.
-- 
2.43.0


From e4ecab6a3b2616ee22b08583740fa58752c839c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:19 +0000
Subject: [PATCH 004/117] fix: do not scale an infinite (brute) cell size by
 zero excess in OldRperp

With -ffast-math, s2 *= (1 + 0.25*0) on an infinite size can evaluate inf*0 and lose all pairs
when both cells are at the same distance.
---
 include/Metric.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Metric.h b/include/Metric.h
index 95bdea6..d738790 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -300,7 +300,7 @@ struct MetricHelper<OldRperp, P>
         if (r1sq < r2sq) {
             if (s1 != 0. && s1 < std::numeric_limits<double>::infinity())
                 s1 *= (1. + 0.25 * (r2sq-r1sq)/r1sq);
-        } else {
+        } else if (r2sq < r1sq) {
             if (s2 != 0. && s2 < std::numeric_limits<double>::infinity())
                 s2 *= (1. + 0.25 * (r1sq-r2sq)/r2sq);
         }
-- 
2.43.0


From 729f9bf50b3f33134e979d134b94e2c1d026f826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:35 +0000
Subject: [PATCH 005/117] fix: use the unscaled cell sizes for the rpar limits
 with the Rlens metric

---
 include/Metric.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/Metric.h b/include/Metric.h
index d738790..02a48f9 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -555,13 +555,28 @@ struct MetricHelper<Rlens, P>
         return r21.cross(r31).dot(p1) < 0.;
     }
 
+    // DistSq scales s2 by r1/r2, which is not appropriate for the extent along the line of sight.
+    // So undo this when it made s2 smaller.
+    static double unscaledSize(const Position<ThreeD>& p1, const Position<ThreeD>& p2, double s1ps2)
+    {
+        const double r1 = p1.norm();
+        const double r2 = p2.norm();
+        return (s1ps2 > 0. && r2 > r1) ? s1ps2 * (r2/r1) : s1ps2;
+    }
+
     bool isRParOutsideRange(const Position<ThreeD>& p1, const Position<ThreeD>& p2,
                             double s1ps2, double& rpar) const
-    { return ParHelper<P>::isRParOutsideRange(p1,p2,minrpar,maxrpar,s1ps2,rpar); }
+    {
+        return ParHelper<P>::isRParOutsideRange(p1,p2,minrpar,maxrpar,
+                                                unscaledSize(p1,p2,s1ps2),rpar);
+    }
 
     bool isRParInsideRange(const Position<ThreeD>& p1, const Position<ThreeD>& p2,
                            double s1ps2, double rpar) const
-    { return ParHelper<P>::isRParInsideRange(p1,p2,minrpar,maxrpar,s1ps2,rpar); }
+    {
+        return ParHelper<P>::isRParInsideRange(p1,p2,minrpar,maxrpar,
+                                               unscaledSize(p1,p2,s1ps2),rpar);
+    }
 
     // We've already accounted for the way that the raw s1+s2 may not be sufficient in DistSq
     // where we update s2 according to the relative distances.  So there is nothing further to
-- 
2.43.0


From c53c57a97b7e14ff1f0e974a550b4415ef70ae27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:35 +0000
Subject: [PATCH 006/117] fix: convert cell sizes to arc lengths for the Arc
 metric

---
 include/Metric.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/Metric.h b/include/Metric.h
index 02a48f9..6d7beb8 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -617,7 +617,13 @@ struct MetricHelper<Arc, P>
 
     double DistSq(const Position<Sphere>& p1, const Position<Sphere>& p2,
                   double& s1, double& s2) const
-    { return SQR(Dist(p1,p2)); }
+    {
+        // The sizes are chord distances, so they need to be increased to cover at least the
+        // corresponding arc.  asin(s/2) <= s/2 (1 + (pi/2-1) (s/2)^2) for 0 <= s <= 2.
+        s1 *= 1. + 0.14269908169872414 * SQR(s1);
+        s2 *= 1. + 0.14269908169872414 * SQR(s2);
+        return SQR(Dist(p1,p2));
+    }
 
     double Dist(const Position<Sphere>& p1, const Position<Sphere>& p2) const
     {
-- 
2.43.0


From 23a8abe3c7dffa5b051052ed6add3724161fc1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 007/117] fix: keep the multipole bin index inside the arrays
 at the top edge of the last bin

---
 src/Corr3.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Corr3.cpp b/src/Corr3.cpp
index b93d8bb..dd76871 100644
--- a/src/Corr3.cpp
+++ b/src/Corr3.cpp
@@ -1180,6 +1180,11 @@ double BaseCorr3::splitC2CellsOrCalculateGn(
                     k = BinTypeHelper<B>::calculateBinK(p1, p2, r, logr, _binsize,
                                                         _minsep, _maxsep, _logminsep);
                 }
+                // As in Corr2, k can (rarely) be == _nbins due to rounding when r is very
+                // close to the top of the last bin.
+                if (k == _nbins) --k;
+                Assert(k >= 0);
+                Assert(k < _nbins);
                 calculateGn(c1, *c2, rsq, r, logr, k, mp);
             }
             continue;
-- 
2.43.0


From ef2dbbe5a2702abed6f6d23f2bec2c3d95934fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:37 +0000
Subject: [PATCH 008/117] fix: use the unit vector of the cell center when
 parallel transporting 3d spin fields

---
 src/Cell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Cell.cpp b/src/Cell.cpp
index 90f9aad..e09afe0 100644
--- a/src/Cell.cpp
+++ b/src/Cell.cpp
@@ -294,7 +294,7 @@ std::complex<double> ParallelTransportSum(
         // the initial bit where we calculate A,B.  (We don't call that function directly,
         // because there is a slight efficiency gain that sinA = sinB, which we use here.)
         Position<Sphere> pi(vdata_g->getPos());
-        double z1 = center.getZ();
+        double z1 = cen.getZ();
         double z2 = pi.getZ();
         double dsq = (cen - pi).normSq();
         if (dsq < 1.e-12) {
-- 
2.43.0


From 4eefb0796f6a50955dcdbafa3c2922b3cd87821b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:00 +0000
Subject: [PATCH 009/117] fix: do not discard triangles by cell orientation
 when it can flip out of the plane

---
 include/BinType.h | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/BinType.h b/include/BinType.h
index 6c7e1fc..61ce82b 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -807,6 +807,24 @@ struct BinTypeHelper<LogRUV>
     { return (1.-binsize)*r; }
 };
 
+// Check whether moving each point by at most s1,s2,s3 could flip the orientation of a triangle as
+// seen from the origin.  The orientation is the sign of the triple product p1 . (p2 x p3), so this
+// bounds how much the triple product can change.
+inline bool canFlipOrientation(const Position<ThreeD>& p1, const Position<ThreeD>& p2,
+                               const Position<ThreeD>& p3, double s1, double s2, double s3)
+{
+    Position<ThreeD> c23 = p2.cross(p3);
+    double maxdelta = (
+        s1*c23.norm() + s2*p1.cross(p3).norm() + s3*p1.cross(p2).norm() +
+        s1*s2*p3.norm() + s1*s3*p2.norm() + s2*s3*p1.norm() + s1*s2*s3);
+    return maxdelta > 0. && maxdelta >= std::abs(c23.dot(p1));
+}
+
+// For flat coordinates, the orientation only flips when the three points are collinear.
+inline bool canFlipOrientation(const Position<Flat>& , const Position<Flat>& ,
+                               const Position<Flat>& , double , double , double )
+{ return false; }
+
 template <>
 struct BinTypeHelper<LogSAS>
 {
@@ -930,6 +948,12 @@ struct BinTypeHelper<LogSAS>
         // If we are not swapping 2,3, stop if orientation cannot be counter-clockwise.
         if (O > 1 &&
             !metric.CCW(c1.getPos(), c3.getPos(), c2.getPos())) {
+            // In 3 dimensions, the orientation as seen from the origin can flip without phi ever
+            // being 0 or pi.
+            if (canFlipOrientation(c1.getPos(), c2.getPos(), c3.getPos(), s1, s2, s3)) {
+                xdbg<<"CW but orientation could flip\n";
+                return false;
+            }
             // For skinny triangles, be careful that the points can't flip to the other side.
             // This is similar to the calculation below.  We effecively check that cosphi can't
             // increase to 1.
-- 
2.43.0


From a210812ea2435cde13f3211c8c26d357759dbafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:36 +0000
Subject: [PATCH 010/117] fix: conjugate xi+ for the reversed pair in TwoD
 auto-correlations

---
 src/Corr2.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Corr2.cpp b/src/Corr2.cpp
index ccebc52..5e580cb 100644
--- a/src/Corr2.cpp
+++ b/src/Corr2.cpp
@@ -496,7 +496,8 @@ struct DirectHelper2<3,ZData,ZData>
 
         if (R) {
             xi.xip[k2] += z1z2cr;
-            xi.xip_im[k2] += z1z2ci;
+            // The reversed pair has the conjugate of z1 conj(z2).
+            xi.xip_im[k2] -= z1z2ci;
             xi.xim[k2] += z1z2r;
             xi.xim_im[k2] += z1z2i;
         }
@@ -551,7 +552,8 @@ struct DirectHelper2<5,D1,D2>
 
         if (R) {
             xi.xip[k2] += g1g2cr;
-            xi.xip_im[k2] += g1g2ci;
+            // The reversed pair has the conjugate of g1 conj(g2).
+            xi.xip_im[k2] -= g1g2ci;
             xi.xim[k2] += g1g2r;
             xi.xim_im[k2] += g1g2i;
         }
-- 
2.43.0


From 24d9006581494add2cda920076b8b088edb00aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:27 +0000
Subject: [PATCH 011/117] fix: do not treat a patch array with one element as a
 single patch number

---
 treecorr/catalog.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 8fb02db..f285fdb 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -825,11 +825,10 @@ class Catalog(object):
         if self.every_nth < 1:
             raise ValueError("every_nth should be >= 1")
 
-        try:
+        # Note: an array with a single element would also convert to int, but that's not what
+        # it means here.
+        if patch is not None and np.ndim(patch) == 0:
             self._single_patch = int(patch)
-        except TypeError:
-            pass
-        else:
             patch = None
 
         if patch_centers is None and 'patch_centers' in self.config:
-- 
2.43.0


From 98487222b5e62d762b16486f66ce7702fd50c91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:27 +0000
Subject: [PATCH 012/117] fix: respect the npatch value given along with patch
 numbers

---
 treecorr/catalog.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index f285fdb..92ddb75 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1525,10 +1525,12 @@ class Catalog(object):
 
     def _set_npatch(self):
         npatch = max(self._patch) + 1
-        if self._npatch not in [None, 1] and npatch > self._npatch:
+        if self._npatch not in [None, 1]:
             # Note: it's permissible for self._npatch to be larger, but not smaller.
-            raise ValueError("npatch is incompatible with provided patch numbers")
-        self._npatch = npatch
+            if npatch > self._npatch:
+                raise ValueError("npatch is incompatible with provided patch numbers")
+        else:
+            self._npatch = npatch
         self.logger.info("Assigned patch numbers 0..%d",self._npatch-1)
 
     def _get_patch_index(self, single_patch):
-- 
2.43.0


From 97af0ed04332b7445f5103d2ecacd62aa5805070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:55 +0000
Subject: [PATCH 013/117] fix: keep the tot value of skipped patch pairs in the
 saved results

---
 treecorr/corr2base.py      | 49 ++++++++++++++++++++++----------------
 treecorr/corr3base.py      | 34 +++++++++++---------------
 treecorr/nncorrelation.py  |  5 +++-
 treecorr/nnncorrelation.py |  5 +++-
 4 files changed, 51 insertions(+), 42 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 09a3cd8..dba6141 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -770,35 +770,47 @@ class Corr2(object):
             if low_mem and p is not cat1:
                 p.unload()
         if len(cat_list) == 0:
-            return None
-        else:
-            cat2e = Catalog.combine(cat_list, mask_list=mask_list, low_mem=low_mem)
-            # This is important for NN correlations to get the tot to work out right.
-            # Basically, we treat the extended patch as though it included all of cat2
-            # for the purposes of figuring out the right tot normalization.
-            cat2e._sumw = sumw
-            if cat1.name != '':
-                cat2e.name = cat1.name + " (expanded)"
+            # Nothing is close enough to matter, but we still need a catalog with the right sumw.
+            # So use a single point, which is too far away to contribute.
+            cat_list.append(cat2[0])
+            mask_list.append(np.array([0]))
+        cat2e = Catalog.combine(cat_list, mask_list=mask_list, low_mem=low_mem)
+        # This is important for NN correlations to get the tot to work out right.
+        # Basically, we treat the extended patch as though it included all of cat2
+        # for the purposes of figuring out the right tot normalization.
+        cat2e._sumw = sumw
+        if cat1.name != '':
+            cat2e.name = cat1.name + " (expanded)"
         return cat2e
 
     def _single_process12(self, c1, c2, ij, metric, num_threads, temp, force_write=False):
         # Helper function for _process_all_auto and _process_cross for doing cross pairs.
         temp._clear()
-        if c2 is not None and not self._trivially_zero(c1, c2):
+        skip = self._trivially_zero(c1, c2)
+        if not skip:
             temp.process_cross(c1, c2, metric=metric, num_threads=num_threads)
         else:
             self.logger.info('Skipping %s pair, which are too far apart ' +
                              'for this set of separations',ij)
-        if temp.nonzero or force_write:
-            if ij in self.results and self.results[ij].nonzero:
-                self.results[ij] += temp
-            else:
-                self.results[ij] = temp.copy()
+        write = temp.nonzero or force_write
+        if write:
+            self._add_result(ij, temp)
             self += temp
-        else:
+        if skip or not write:
             # NNCorrelation needs to add the tot value
             self._add_tot(ij, c1, c2)
 
+    def _add_result(self, ij, temp):
+        # Add temp to whatever we already have in results for this key (if anything).
+        prev = self.results.get(ij, None)
+        if prev is not None and prev.nonzero:
+            prev += temp
+        else:
+            self.results[ij] = temp.copy()
+            if prev is not None:
+                # Even if the weight is all zero, NNCorrelation needs to keep the tot value.
+                self.results[ij] += prev
+
     def _process_all_auto(self, cat1, metric, num_threads, comm, low_mem, local):
 
         def is_my_job(my_indices, i, j, n):
@@ -878,10 +890,7 @@ class Corr2(object):
                         temp._clear()
                         self.logger.info('Process patch %d auto',i)
                         temp.process_auto(c1, metric=metric, num_threads=num_threads)
-                        if (i,i) not in self.results:
-                            self.results[(i,i)] = temp.copy()
-                        else:
-                            self.results[(i,i)] += temp
+                        self._add_result((i,i), temp)
                         self += temp
 
                     for jj,c2 in list(enumerate(cat1))[::-1]:
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 2b7af88..b74623c 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1122,44 +1122,41 @@ class Corr3(object):
         return (d2 > s1 + s2 + s3 + 2*self._max_sep)  # The 2* is where we are being conservative.
 
     _make_expanded_patch = Corr2._make_expanded_patch
+    _add_result = Corr2._add_result
 
     def _single_process12(self, c1, c2, ijj, metric, ordered, num_threads, temp, force_write):
         # Helper function for _process_all_auto, etc. for doing 12 cross pairs
         temp._clear()
-
-        if c2 is not None and not self._trivially_zero(c1,c2,c2):
+        skip = self._trivially_zero(c1,c2,c2)
+        if not skip:
             self.logger.info('Process patches %s cross12',ijj)
             temp.process_cross12(c1, c2, metric=metric, ordered=ordered, num_threads=num_threads)
         else:
             self.logger.info('Skipping %s pair, which are too far apart ' +
                              'for this set of separations',ijj)
-        if temp.nonzero or force_write:
-            if ijj in self.results and self.results[ijj].nonzero:
-                self.results[ijj] += temp
-            else:
-                self.results[ijj] = temp.copy()
+        write = temp.nonzero or force_write
+        if write:
+            self._add_result(ijj, temp)
             self += temp
-        else:
+        if skip or not write:
             # NNNCorrelation needs to add the tot value
             self._add_tot(ijj, c1, c2, c2)
 
     def _single_process123(self, c1, c2, c3, ijk, metric, ordered, num_threads, temp, force_write):
         # Helper function for _process_all_auto, etc. for doing 123 cross triples
         temp._clear()
-
-        if c2 is not None and c3 is not None and not self._trivially_zero(c1,c2,c3):
+        skip = self._trivially_zero(c1,c2,c3)
+        if not skip:
             self.logger.info('Process patches %s cross',ijk)
             temp.process_cross(c1, c2, c3, metric=metric, ordered=ordered, num_threads=num_threads)
         else:
             self.logger.info('Skipping %s, which are too far apart ' +
                              'for this set of separations',ijk)
-        if temp.nonzero or force_write:
-            if ijk in self.results and self.results[ijk].nonzero:
-                self.results[ijk] += temp
-            else:
-                self.results[ijk] = temp.copy()
+        write = temp.nonzero or force_write
+        if write:
+            self._add_result(ijk, temp)
             self += temp
-        else:
+        if skip or not write:
             # NNNCorrelation needs to add the tot value
             self._add_tot(ijk, c1, c2, c3)
 
@@ -1238,10 +1235,7 @@ class Corr3(object):
                         temp._clear()
                         self.logger.info('Process patch %d auto',i)
                         temp.process_auto(c1, metric=metric, num_threads=num_threads)
-                        if (i,i,i) in self.results and self.results[(i,i,i)].nonzero:
-                            self.results[(i,i,i)] += temp
-                        else:
-                            self.results[(i,i,i)] = temp.copy()
+                        self._add_result((i,i,i), temp)
                         self += temp
 
                     for jj,c2 in list(enumerate(cat1))[::-1]:
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 3f1e681..94be80d 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -257,7 +257,10 @@ class NNCorrelation(Corr2):
         # gets messed up.  We need to accumulate the tot value of all pairs, even if
         # the resulting weight is zero.  But use a minimal copy with just the necessary fields
         # to save some time.
-        self.results[ij] = self._zero_copy(tot)
+        if ij in self.results:
+            self.results[ij].tot += tot
+        else:
+            self.results[ij] = self._zero_copy(tot)
 
     def _mean_weight(self):
         mean_np = np.mean(self.npairs)
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index f6e8978..ed1beb5 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -360,7 +360,10 @@ class NNNCorrelation(Corr3):
         # We also have to keep all pairs in the results dict, otherwise the tot calculation
         # gets messed up.  We need to accumulate the tot value of all pairs, even if
         # the resulting weight is zero.
-        self.results[ijk] = self._zero_copy(tot)
+        if ijk in self.results:
+            self.results[ijk].tot += tot
+        else:
+            self.results[ijk] = self._zero_copy(tot)
 
     def __iadd__(self, other):
         """Add a second Correlation object's data to this one.
-- 
2.43.0


From 401ecba61e8b91ba24c00a3da930c35a80ee439a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:33 +0000
Subject: [PATCH 014/117] fix: do not drop objects within reach from the
 expanded patches of the local patch method

---
 treecorr/corr2base.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index dba6141..558bcb2 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -731,12 +731,15 @@ class Corr2(object):
         # First figure out the center and size of cat1.
         x1,y1,z1,s1 = cat1._get_center_size()
 
-        if self._coords == _treecorr.ThreeD:
-            # For 3d coords, we collapse everything onto the unit circle, since that's
-            # what we care about for patch considerations.
-            r = np.sqrt(x1**2 + y1**2 + z1**2)
-            if r != 0:  # pragma: no branch
-                x1 /= r; y1 /= r; z1 /= r
+        # This is the maximum physical distance between two points that can contribute.
+        if self.metric in ('Euclidean', 'Arc'):
+            max_sep = self._max_sep
+            if self.bin_type == 'TwoD':
+                # The corners of the 2d grid are farther than max_sep.
+                max_sep *= 2**0.5
+        else:
+            # For other metrics, points can be arbitrarily far apart physically.
+            max_sep = np.inf
 
         cat_list = []
         mask_list = []
@@ -744,23 +747,14 @@ class Corr2(object):
         for p in cat2:
             sumw += p.sumw
             x2,y2,z2,s2 = p._get_center_size()
-            if self._coords == _treecorr.ThreeD:
-                r = np.sqrt(x2**2 + y2**2 + z2**2)
-                if r != 0:
-                    x2 /= r; y2 /= r; z2 /= r
-            if ((x2-x1)**2 + (y2-y1)**2 + (z2-z1)**2)**0.5 > self._max_sep + s1 + s2:
+            if ((x2-x1)**2 + (y2-y1)**2 + (z2-z1)**2)**0.5 > max_sep + s1 + s2:
                 if low_mem and p is not cat1:
                     p.unload()
                 continue
             px = p.x; py = p.y; pz = 0 if p.z is None else p.z
-            if self._coords == _treecorr.ThreeD:
-                pr = np.sqrt(px**2 + py**2 + pz**2)
-                pr[pr==0] = 1
-                # Don't divide in place.  That would change p's internals.
-                px = px/pr; py = py/pr; pz = pz/pr
             dsq = (px-x1)**2 + (py-y1)**2 + (pz-z1)**2
             d = np.sqrt(dsq)
-            mask = np.where(d < s1+self._max_sep)
+            mask = np.where(d < s1+max_sep)
             if len(mask[0]) == 0:
                 if low_mem and p is not cat1:
                     p.unload()
-- 
2.43.0


From e3dbc98a61863a0adc3252da6dccc312b5a21172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:01 +0000
Subject: [PATCH 015/117] fix: count TwoD auto-correlation pairs between
 patches in both orders

---
 treecorr/corr2base.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 558bcb2..216dd8c 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -777,12 +777,19 @@ class Corr2(object):
             cat2e.name = cat1.name + " (expanded)"
         return cat2e
 
-    def _single_process12(self, c1, c2, ij, metric, num_threads, temp, force_write=False):
+    def _single_process12(self, c1, c2, ij, metric, num_threads, temp, force_write=False,
+                          both=False):
         # Helper function for _process_all_auto and _process_cross for doing cross pairs.
         temp._clear()
         skip = self._trivially_zero(c1, c2)
         if not skip:
             temp.process_cross(c1, c2, metric=metric, num_threads=num_threads)
+            if both:
+                # Include the pairs in the other order too, but don't double count tot.
+                tot = getattr(temp, 'tot', None)
+                temp.process_cross(c2, c1, metric=metric, num_threads=num_threads)
+                if tot is not None:
+                    temp.tot = tot
         else:
             self.logger.info('Skipping %s pair, which are too far apart ' +
                              'for this set of separations',ij)
@@ -873,6 +880,10 @@ class Corr2(object):
                     i = c1._single_patch if c1._single_patch is not None else ii
                     if is_my_job(my_indices, i, i, n):
                         c1e = self._make_expanded_patch(c1, cat1, metric, low_mem)
+                        if self.bin_type == 'TwoD':
+                            # TwoD auto-correlations already count each pair in both orders,
+                            # so unlike the other bin types, local doesn't count pairs twice.
+                            c1e._sumw /= 2.
                         self.logger.info('Process patch %d with surrounding local patches',i)
                         self._single_process12(c1, c1e, (i,i), metric, num_threads, temp, True)
                         if low_mem:
@@ -891,7 +902,9 @@ class Corr2(object):
                         j = c2._single_patch if c2._single_patch is not None else jj
                         if i < j and is_my_job(my_indices, i, j, n):
                             self.logger.info('Process patches %d, %d cross',i,j)
-                            self._single_process12(c1, c2, (i,j), metric, num_threads, temp)
+                            # TwoD auto-correlations count each pair in both orders.
+                            self._single_process12(c1, c2, (i,j), metric, num_threads, temp,
+                                                   both=self.bin_type == 'TwoD')
                             if low_mem and jj != ii+1:
                                 # Don't unload i+1, since that's the next one we'll need.
                                 c2.unload()
-- 
2.43.0


From a0f11b9363f8d187187d9d02eef76e392235e548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:53 +0000
Subject: [PATCH 016/117] fix: use the projected center and size of patches on
 the sphere when skipping distant patches

---
 treecorr/catalog.py   | 33 +++++++++++++++++++++++----------
 treecorr/corr2base.py | 16 ++++++++++------
 treecorr/corr3base.py | 12 ++++++++----
 3 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 92ddb75..4db12f8 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1285,18 +1285,31 @@ class Catalog(object):
             else:
                 return '3d'
 
-    def _get_center_size(self):
+    def _get_center_size(self, coords=None):
+        # If coords == 'spherical', then this returns the center and size on the unit sphere,
+        # even if the catalog has 3d coordinates.
         if not hasattr(self, '_cen_s'):
-            mx = np.mean(self.x)
-            my = np.mean(self.y)
-            mz = 0
-            dsq = (self.x - mx)**2 + (self.y - my)**2
-            if self.z is not None:
-                mz = np.mean(self.z)
-                dsq += (self.z - mz)**2
+            self._cen_s = {}
+        if coords not in self._cen_s:
+            x = self.x
+            y = self.y
+            z = self.z if self.z is not None else 0
+            if coords == 'spherical' and self.coords == '3d':
+                r = np.sqrt(x**2 + y**2 + z**2)
+                r[r==0] = 1
+                # Don't divide in place.  That would change the internals.
+                x = x/r; y = y/r; z = z/r
+            mx = np.mean(x)
+            my = np.mean(y)
+            mz = np.mean(z)
+            if coords == 'spherical':
+                mr = np.sqrt(mx**2 + my**2 + mz**2)
+                if mr != 0:  # pragma: no branch
+                    mx /= mr; my /= mr; mz /= mr
+            dsq = (x - mx)**2 + (y - my)**2 + (z - mz)**2
             s = np.max(dsq)**0.5
-            self._cen_s = (mx, my, mz, s)
-        return self._cen_s
+            self._cen_s[coords] = (mx, my, mz, s)
+        return self._cen_s[coords]
 
     def _finish_input(self):
         # Finish processing the data based on given inputs.
diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 216dd8c..11d2835 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -722,17 +722,21 @@ class Corr2(object):
         pass
 
     def _trivially_zero(self, c1, c2):
-        x1,y1,z1,s1 = c1._get_center_size()
-        x2,y2,z2,s2 = c2._get_center_size()
-        return self.corr.triviallyZero(self._metric, self._coords,
+        # For Arc, only the positions on the sphere matter.
+        coords = 'spherical' if self.metric == 'Arc' else self.coords
+        x1,y1,z1,s1 = c1._get_center_size(coords)
+        x2,y2,z2,s2 = c2._get_center_size(coords)
+        return self.corr.triviallyZero(self._metric, coord_enum(coords),
                                        x1, y1, z1, s1, x2, y2, z2, s2)
 
     def _make_expanded_patch(self, cat1, cat2, metric, low_mem):
         # First figure out the center and size of cat1.
-        x1,y1,z1,s1 = cat1._get_center_size()
+        x1,y1,z1,s1 = cat1._get_center_size(self.coords)
 
         # This is the maximum physical distance between two points that can contribute.
-        if self.metric in ('Euclidean', 'Arc'):
+        # (For Arc, that's only true if everything is on the unit sphere.)
+        if (self.metric == 'Euclidean' or
+                (self.metric == 'Arc' and all(c.coords == 'spherical' for c in [cat1] + cat2))):
             max_sep = self._max_sep
             if self.bin_type == 'TwoD':
                 # The corners of the 2d grid are farther than max_sep.
@@ -746,7 +750,7 @@ class Corr2(object):
         sumw = 0
         for p in cat2:
             sumw += p.sumw
-            x2,y2,z2,s2 = p._get_center_size()
+            x2,y2,z2,s2 = p._get_center_size(self.coords)
             if ((x2-x1)**2 + (y2-y1)**2 + (z2-z1)**2)**0.5 > max_sep + s1 + s2:
                 if low_mem and p is not cat1:
                     p.unload()
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index b74623c..3bcc125 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1111,10 +1111,14 @@ class Corr3(object):
         pass
 
     def _trivially_zero(self, c1, c2, c3):
-        # For now, ignore the metric.  Just be conservative about how much space we need.
-        x1,y1,z1,s1 = c1._get_center_size()
-        x2,y2,z2,s2 = c2._get_center_size()
-        x3,y3,z3,s3 = c3._get_center_size()
+        # For now, mostly ignore the metric.  Just be conservative about how much space we need.
+        if self.metric == 'Periodic':
+            return False
+        # For Arc, only the positions on the sphere matter.
+        coords = 'spherical' if self.metric == 'Arc' else self.coords
+        x1,y1,z1,s1 = c1._get_center_size(coords)
+        x2,y2,z2,s2 = c2._get_center_size(coords)
+        x3,y3,z3,s3 = c3._get_center_size(coords)
         d3 = ((x1-x2)**2 + (y1-y2)**2 + (z1-z2)**2)**0.5
         d1 = ((x2-x3)**2 + (y2-y3)**2 + (z2-z3)**2)**0.5
         d2 = ((x3-x1)**2 + (y3-y1)**2 + (z3-z1)**2)**0.5
-- 
2.43.0


From e4ecb8bb3f1246414f6e5bfae20b29d010d80f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:42 +0000
Subject: [PATCH 017/117] fix: use the full range of angles for the Arc metric
 with 3d positions

---
 include/Metric.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/Metric.h b/include/Metric.h
index 6d7beb8..e127ff5 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -654,7 +654,7 @@ struct MetricHelper<Arc, P>
                       double rsq, double rpar, double s1ps2, double maxsep, double maxsepsq) const
     { return true; }
 
-    // For 3d coordinates, use the cross product to get sin(theta)
+    // For 3d coordinates, use the cross and dot products to get theta
     double DistSq(const Position<ThreeD>& p1, const Position<ThreeD>& p2,
                   double& s1, double& s2) const
     {
@@ -668,9 +668,9 @@ struct MetricHelper<Arc, P>
     double Dist(const Position<ThreeD>& p1, const Position<ThreeD>& p2) const
     {
         // sin(theta) = |p1 x p2| / |p1| |p2|
-        double sintheta = p1.cross(p2).norm() / (p1.norm() * p2.norm());
-        double theta = std::asin(sintheta);
-        return theta;
+        // cos(theta) = p1 . p2 / |p1| |p2|
+        // Using both of these is accurate for all angles from 0 to pi.
+        return std::atan2(p1.cross(p2).norm(), p1.dot(p2));
     }
 
     // This is the same as Euclidean
-- 
2.43.0


From 148307b4d5d41ff388cc0973ba78c27a7acc95ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:47 +0000
Subject: [PATCH 018/117] fix: use angular cell sizes throughout for the Arc
 metric with 3d positions

---
 include/Metric.h | 13 +++++++++++--
 src/Corr2.cpp    |  8 +++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/Metric.h b/include/Metric.h
index e127ff5..4b279c7 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -660,11 +660,20 @@ struct MetricHelper<Arc, P>
     {
         double dsq = SQR(Dist(p1,p2));
         // Also the sizes need to be converted to the effective size on the unit sphere
-        s1 /= p1.norm();
-        s2 /= p2.norm();
+        s1 = ArcSize(s1, p1.norm());
+        s2 = ArcSize(s2, p2.norm());
         return dsq;
     }
 
+    static double ArcSize(double s, double r)
+    {
+        // The largest angle from the center for a cell with size s at distance r is asin(s/r)
+        // for s < r.  And asin(x) <= x (1 + (pi/2-1) x^2).
+        // If s >= r, then the cell might include positions in every direction, so at least pi.
+        double x = s/r;
+        return x < 1. ? x * (1. + 0.57079632679489662 * SQR(x)) : std::max(x, M_PI);
+    }
+
     double Dist(const Position<ThreeD>& p1, const Position<ThreeD>& p2) const
     {
         // sin(theta) = |p1 x p2| / |p1| |p2|
diff --git a/src/Corr2.cpp b/src/Corr2.cpp
index 5e580cb..74b639a 100644
--- a/src/Corr2.cpp
+++ b/src/Corr2.cpp
@@ -280,7 +280,13 @@ template <int B, int M, int P, int C>
 void BaseCorr2::process2(const BaseCell<C>& c12, const MetricHelper<M,P>& metric)
 {
     if (c12.getW() == 0.) return;
-    if (c12.getSize() <= _halfminsep) return;
+
+    // As in process11, DistSq may modify the size to be appropriate for this metric.
+    double s1 = c12.getSize();
+    if (s1 == 0.) return;
+    double s2 = s1;
+    metric.DistSq(c12.getPos(), c12.getPos(), s1, s2);
+    if (s1 <= _halfminsep) return;
 
     Assert(c12.getLeft());
     Assert(c12.getRight());
-- 
2.43.0


From 4b7c064801d0997269678949815662e8a4c2de3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:38 +0000
Subject: [PATCH 019/117] fix: write and read the right patch files when some
 patches are empty

---
 treecorr/catalog.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 4db12f8..24a95a9 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2844,7 +2844,11 @@ class Catalog(object):
         for file_name in file_names:
             if os.path.exists(file_name):
                 os.remove(file_name)
-        for i, p, file_name in zip(range(self.npatch), self.patches, file_names):
+        for i, p in enumerate(self.patches):
+            # If some patches are empty, then i isn't necessarily the right patch number.
+            if p is not self:
+                i = p._single_patch
+            file_name = file_names[i]
             self.logger.info('Writing patch %d to %s',i,file_name)
             if p.ra is not None:
                 # Don't multiply and divide by the units on round trip.
@@ -2873,6 +2877,10 @@ class Catalog(object):
             save_patch_dir = self.save_patch_dir
         if save_patch_dir is None:
             raise ValueError("save_patch_dir is required here, since not given in constructor.")
+        self._read_patches(save_patch_dir, range(self.npatch))
+
+    def _read_patches(self, save_patch_dir, patch_set):
+        # Implementation of read_patches for a given set of (usually all) patch numbers.
 
         # Need to be careful here to not trigger a load by accident.
         # This would be easier if we just checked e.g. if self.ra is not None, etc.
@@ -2921,11 +2929,11 @@ class Catalog(object):
         file_names = self.get_patch_file_names(save_patch_dir)
         self._patches = []
         # Check that the files exist, although we won't actually load them yet.
-        for i, file_name in zip(range(self.npatch), file_names):
-            if not os.path.isfile(file_name):
-                raise OSError("Patch file %s not found"%file_name)
-        self._patches = [Catalog(file_name=name, patch=i, npatch=self.npatch, **kwargs)
-                         for i, name in enumerate(file_names)]
+        for i in patch_set:
+            if not os.path.isfile(file_names[i]):
+                raise OSError("Patch file %s not found"%file_names[i])
+        self._patches = [Catalog(file_name=file_names[i], patch=i, npatch=self.npatch, **kwargs)
+                         for i in patch_set]
         self.logger.info('Patches created from files %s .. %s',file_names[0],file_names[-1])
 
     def get_patches(self, *, low_mem=False):
@@ -3018,7 +3026,8 @@ class Catalog(object):
             if low_mem:
                 # If low_mem, replace _patches with a version the reads from these files.
                 # This will typically be a lot faster for when the load does happen.
-                self.read_patches()
+                # (Any patches that are empty don't have a file to read.)
+                self._read_patches(self.save_patch_dir, patch_set)
 
         return self._patches
 
-- 
2.43.0


From 43104019a1bbafb1c5b04fa305c4dccaf858cd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:38 +0000
Subject: [PATCH 020/117] fix: leave the patches alone if reading patch files
 fails

---
 treecorr/catalog.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 24a95a9..e5ae604 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2927,7 +2927,6 @@ class Catalog(object):
             kwargs['q2_col'] = 'q2'
 
         file_names = self.get_patch_file_names(save_patch_dir)
-        self._patches = []
         # Check that the files exist, although we won't actually load them yet.
         for i in patch_set:
             if not os.path.isfile(file_names[i]):
-- 
2.43.0


From cc23f4f439494f54d43aabf929107b55aef118a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:37 +0000
Subject: [PATCH 021/117] fix: project all three shears for 3d positions in the
 multipole projection

---
 include/ProjectHelper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ProjectHelper.h b/include/ProjectHelper.h
index 338e635..e8bba5c 100644
--- a/include/ProjectHelper.h
+++ b/include/ProjectHelper.h
@@ -422,7 +422,7 @@ struct ProjectHelper<ThreeD>
         Position<Sphere> p2(c2.getPos());
         Position<Sphere> p3(c3.getPos());
         // Use the Sphere implementation with these positions.
-        ProjectHelper<Sphere>::ProjectX<D>(p1,p2,p3,z1,z3,z3);
+        ProjectHelper<Sphere>::ProjectX<D>(p1,p2,p3,z1,z2,z3);
     }
 
     static std::complex<double> ExpIPhi(
-- 
2.43.0


From f5d6f89a6df2d497fca1c4a51272bc26ea4a20b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:39 +0000
Subject: [PATCH 022/117] fix: use valid patch indices for local results when a
 catalog has no patches

---
 treecorr/corr2base.py |  4 +++-
 treecorr/corr3base.py | 20 +++++++++++++++-----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 11d2835..c535001 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -982,7 +982,9 @@ class Corr2(object):
                     if is_my_job(my_indices, i, i, n1, n2):
                         c2e = self._make_expanded_patch(c1, cat2, metric, low_mem)
                         self.logger.info('Process patch %d with surrounding local patches',i)
-                        self._single_process12(c1, c2e, (i,i), metric, num_threads, temp, True)
+                        # If cat2 doesn't have patches, its only index is 0.
+                        ij = (i, i if n2 > 1 else 0)
+                        self._single_process12(c1, c2e, ij, metric, num_threads, temp, True)
                         if low_mem:
                             c1.unload()
             else:
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 3bcc125..2714d5b 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1340,6 +1340,11 @@ class Corr3(object):
             else:
                 my_indices = None
 
+            def local_key(i):
+                # The key to use for local processing.
+                # If a catalog doesn't have patches, its only index is 0.
+                return tuple(i if n > 1 else 0 for n in (n1,n2,n2))
+
             self._set_metric(metric, cat1[0].coords)
             temp = self.copy()
             temp.results = {}
@@ -1351,7 +1356,7 @@ class Corr3(object):
                     if is_my_job(my_indices, i, i, i, n1, n2):
                         c2e = self._make_expanded_patch(c1, cat2, metric, low_mem)
                         self.logger.info('Process patch %d with surrounding local patches',i)
-                        self._single_process12(c1, c2e, (i,i,i), metric, 1,
+                        self._single_process12(c1, c2e, local_key(i), metric, 1,
                                                num_threads, temp, True)
                         if low_mem:
                             c1.unload()
@@ -1365,7 +1370,7 @@ class Corr3(object):
                             c1e = self._make_expanded_patch(c2, cat1, metric, low_mem)
                             c2e = self._make_expanded_patch(c2, cat2, metric, low_mem)
                             self.logger.info('Process patch %d from cat2 with surrounding local patches',i)
-                            self._single_process123(c2, c1e, c2e, (i,i,i), metric, 1,
+                            self._single_process123(c2, c1e, c2e, local_key(i), metric, 1,
                                                     num_threads, temp, True)
                             if low_mem:
                                 c2.unload()
@@ -1459,6 +1464,11 @@ class Corr3(object):
             else:
                 my_indices = None
 
+            def local_key(i):
+                # The key to use for local processing.
+                # If a catalog doesn't have patches, its only index is 0.
+                return tuple(i if n > 1 else 0 for n in (n1,n2,n3))
+
             self._set_metric(metric, cat1[0].coords)
             temp = self.copy()
             temp.results = {}
@@ -1470,7 +1480,7 @@ class Corr3(object):
                         c2e = self._make_expanded_patch(c1, cat2, metric, low_mem)
                         c3e = self._make_expanded_patch(c1, cat3, metric, low_mem)
                         self.logger.info('Process patch %d with surrounding local patches',i)
-                        self._single_process123(c1, c2e, c3e, (i,i,i), metric,
+                        self._single_process123(c1, c2e, c3e, local_key(i), metric,
                                                 1 if not ordered else ordered,
                                                 num_threads, temp, True)
                         if low_mem:
@@ -1485,7 +1495,7 @@ class Corr3(object):
                             c1e = self._make_expanded_patch(c2, cat1, metric, low_mem)
                             c3e = self._make_expanded_patch(c2, cat3, metric, low_mem)
                             self.logger.info('Process patch %d from cat2 with surrounding local patches',i)
-                            self._single_process123(c2, c1e, c3e, (i,i,i), metric, 1,
+                            self._single_process123(c2, c1e, c3e, local_key(i), metric, 1,
                                                     num_threads, temp, True)
                             if low_mem:
                                 c2.unload()
@@ -1495,7 +1505,7 @@ class Corr3(object):
                             c1e = self._make_expanded_patch(c3, cat1, metric, low_mem)
                             c2e = self._make_expanded_patch(c3, cat2, metric, low_mem)
                             self.logger.info('Process patch %d from cat3 with surrounding local patches',i)
-                            self._single_process123(c3, c1e, c2e, (i,i,i), metric, 1,
+                            self._single_process123(c3, c1e, c2e, local_key(i), metric, 1,
                                                     num_threads, temp, True)
                             if low_mem:
                                 c3.unload()
-- 
2.43.0


From aedc780cfdeee227daa84829f1efb283356b71d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:11 +0000
Subject: [PATCH 023/117] fix: a row of a covariance design matrix without
 pairs must not drop the randoms for later rows

---
 treecorr/corr2base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index c535001..2c1b8d6 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -2059,7 +2059,8 @@ def _make_cov_design_matrix_core(corrs, plist, func, name, rank=0, size=1):
     for row, pairs in enumerate(plist):
         if row % size != rank:
             continue
-        for c, cpairs in zip(corrs, pairs):
+        row_corrs = list(corrs)
+        for k, (c, cpairs) in enumerate(zip(corrs, pairs)):
             cpairs = list(cpairs)
             if len(cpairs) == 0:
                 # This will cause problems downstream if we let it go.
@@ -2068,11 +2069,13 @@ def _make_cov_design_matrix_core(corrs, plist, func, name, rank=0, size=1):
                 c.logger.error("WARNING: A xi for calculating the %s covariance has no "%name +
                                "patch pairs.  This probably means these patch specifications "
                                "are inappropriate for these data.")
-                c._clear()
+                # Use a copy, since clear also drops things that we need for the other rows.
+                row_corrs[k] = c.copy()
+                row_corrs[k]._clear()
             else:
                 c._calculate_xi_from_pairs(cpairs)
-        v[row] = func(corrs)
-        w[row] = np.sum([np.sum(c.getWeight()) for c in corrs])
+        v[row] = func(row_corrs)
+        w[row] = np.sum([np.sum(c.getWeight()) for c in row_corrs])
     return v,w
 
 def _make_cov_design_matrix(corrs, plist, func, name, comm):
-- 
2.43.0


From edfc3a3d83c9dec93d1d18472d0a9ab4bc439ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 024/117] fix: NN row without patch pairs used the xi and rr
 weight of the previous row

---
 treecorr/nncorrelation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 94be80d..98f6fa6 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -216,6 +216,10 @@ class NNCorrelation(Corr2):
         """
         super()._clear()
         self.tot = 0.
+        if self._rr_weight is not None:
+            # With no pairs, xi = 0, and rr has the same guard value as in calculateXi.
+            self.xi = np.zeros_like(self.weight)
+            self._rr_weight = np.ones_like(self.weight)
 
     def __iadd__(self, other):
         """Add a second Correlation object's data to this one.
-- 
2.43.0


From ce8825ed0746266a949ada9238f973d18aa64dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 025/117] fix: add dummy NN results only for randoms with the
 same patches as the data

---
 treecorr/nncorrelation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 98f6fa6..74c31a3 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -420,17 +420,17 @@ class NNCorrelation(Corr2):
             # patches with no items), then we need to add some dummy results to make sure all the
             # right pairs are computed when we make the vectors for the covariance matrix.
             add_ij = set()
-            if rr.npatch1 != 1 and rr.npatch2 != 1:
+            if rr.npatch1 == self.npatch1 and rr.npatch2 == self.npatch2:
                 for ij in rr.results:
                     if ij not in self.results:
                         add_ij.add(ij)
 
-            if dr is not None and dr.npatch2 != 1:
+            if dr is not None and dr.npatch2 == self.npatch2:
                 for ij in dr.results:
                     if ij not in self.results:
                         add_ij.add(ij)
 
-            if rd is not None and rd.npatch1 != 1:
+            if rd is not None and rd.npatch1 == self.npatch1:
                 for ij in rd.results:
                     if ij not in self.results:
                         add_ij.add(ij)
-- 
2.43.0


From 321d1e253e9980cbe7b1347d699a37ddb4449bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 026/117] fix: NN with unpatched randoms and one unpatched
 catalog scales RR by the area, not its square root

---
 treecorr/nncorrelation.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 74c31a3..4c44f97 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -464,8 +464,14 @@ class NNCorrelation(Corr2):
             # The approximation we'll use is that tot in the auto-correlations is
             # proportional to area**2.
             # So the sum of tot**0.5 when i==j gives an estimate of the fraction of the total area.
-            area_frac = np.sum([self.results[ij].tot**0.5 for ij in pairs if ij[0] == ij[1]])
-            area_frac /= np.sum([cij.tot**0.5 for ij,cij in self.results.items() if ij[0] == ij[1]])
+            if self.npatch1 == 1 or self.npatch2 == 1:
+                # If only one of the catalogs has patches, tot is proportional to just area.
+                area_frac = np.sum([self.results[ij].tot for ij in pairs])
+                area_frac /= np.sum([cij.tot for cij in self.results.values()])
+            else:
+                area_frac = np.sum([self.results[ij].tot**0.5 for ij in pairs if ij[0] == ij[1]])
+                area_frac /= np.sum([cij.tot**0.5 for ij,cij in self.results.items()
+                                     if ij[0] == ij[1]])
             # First figure out the original total for all DD that had the same footprint as RR.
             dd_tot = np.sum([self.results[ij].tot for ij in self.results])
             # The rrf we want will be a factor of area_frac smaller than the original
-- 
2.43.0


From b0f652661f386970b7b192c9d2d351aa1bb397b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 027/117] fix: NN with one patched catalog: do not map the
 patch pairs of dr, rd when the data have no patches there

---
 treecorr/nncorrelation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 4c44f97..ffcb7ee 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -483,7 +483,7 @@ class NNCorrelation(Corr2):
         rrf = dd_tot / self._rr.tot
 
         if self._dr is not None:
-            if self._dr.npatch2 == 1:
+            if self._dr.npatch2 == 1 and self.npatch2 != 1:
                 # If r doesn't have patches, then convert all (i,i) pairs to (i,0).
                 pairs2 = [(ij[0],0) for ij in pairs if ij[0] == ij[1]]
             else:
@@ -492,7 +492,7 @@ class NNCorrelation(Corr2):
             dr = self._dr.weight
             drf = dd_tot / self._dr.tot
         if self._rd is not None:
-            if self._rd.npatch1 == 1 and not all([p[0] == 0 for p in pairs]):
+            if self._rd.npatch1 == 1 and self.npatch1 != 1:
                 # If r doesn't have patches, then convert all (i,i) pairs to (0,i).
                 pairs3 = [(0,ij[1]) for ij in pairs if ij[0] == ij[1]]
             else:
-- 
2.43.0


From 88e3639977ddf6613d4049f1e575f8e2c281533a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 028/117] fix: repeated calculateXi and raw_varxi of N-field
 correlations used the compensated covariance

---
 treecorr/nkcorrelation.py | 12 +++++++++++-
 treecorr/nzcorrelation.py | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/treecorr/nkcorrelation.py b/treecorr/nkcorrelation.py
index 37378e1..ae1ee38 100644
--- a/treecorr/nkcorrelation.py
+++ b/treecorr/nkcorrelation.py
@@ -156,7 +156,12 @@ class NKCorrelation(Corr2):
         if self._raw_varxi is None:
             self._raw_varxi = np.zeros_like(self.rnom, dtype=float)
             if self._var_num != 0:
-                self._raw_varxi.ravel()[:] = self.cov_diag
+                raw = self
+                if self._rk is not None:
+                    # The current covariance is for the compensated xi.
+                    raw = self.copy()
+                    raw._rk = raw._cov = None
+                self._raw_varxi.ravel()[:] = raw.cov_diag
         return self._raw_varxi
 
     @property
@@ -214,6 +219,11 @@ class NKCorrelation(Corr2):
                 - xi = array of :math:`\xi(r)`
                 - varxi = array of variance estimates of :math:`\xi(r)`
         """
+        if self._rk is not None:
+            # Undo any previous use of rk.
+            self._rk = None
+            self._cov = None
+
         if rk is not None:
             self.xi = self.raw_xi - rk.xi
             self._rk = rk
diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index 0ee43ae..81ac669 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -77,7 +77,12 @@ class BaseNZCorrelation(Corr2):
         if self._raw_varxi is None:
             self._raw_varxi = np.zeros_like(self.rnom, dtype=float)
             if self._var_num != 0:
-                self._raw_varxi.ravel()[:] = self.cov_diag
+                raw = self
+                if self._rz is not None:
+                    # The current covariance is for the compensated xi.
+                    raw = self.copy()
+                    raw._rz = raw._cov = None
+                self._raw_varxi.ravel()[:] = raw.cov_diag
         return self._raw_varxi
 
     @property
@@ -115,6 +120,11 @@ class BaseNZCorrelation(Corr2):
         self._cov = None
 
     def calculateXi(self, rz=None):
+        if self._rz is not None:
+            # Undo any previous use of rz.
+            self._rz = None
+            self._cov = None
+
         if rz is not None:
             self.xi = self.raw_xi - rz.xi
             self.xi_im = self.raw_xi_im - rz.xi_im
-- 
2.43.0


From 098dc0eddfe326e5fe126b2fdc2d183e712da470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 029/117] fix: compensated N-field correlations: dummy results
 were not empty and shot variance with patches ignored

---
 treecorr/nkcorrelation.py | 7 +++++--
 treecorr/nzcorrelation.py | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/treecorr/nkcorrelation.py b/treecorr/nkcorrelation.py
index ae1ee38..8bf66f1 100644
--- a/treecorr/nkcorrelation.py
+++ b/treecorr/nkcorrelation.py
@@ -240,15 +240,18 @@ class NKCorrelation(Corr2):
                 for ij in rk.results:
                     if ij in self.results: continue
                     new_cij = template.copy()
-                    new_cij.xi.ravel()[:] = 0
-                    new_cij.weight.ravel()[:] = 0
+                    new_cij._clear()
                     self.results[ij] = new_cij
+                    self.__dict__.pop('_ok',None)  # If it was already made, it needs to be redone.
 
+            if len(self.results) > 0 and self.var_method != 'shot':
                 self._cov = self.estimate_cov(self.var_method)
                 self._varxi = np.zeros_like(self.rnom, dtype=float)
                 self._varxi.ravel()[:] = self.cov_diag
             else:
                 self._varxi = self.raw_varxi + rk.varxi
+                if self._cov is None or self._cov.ndim == 1:
+                    self._cov = self._varxi.ravel().copy()
         else:
             self.xi = self.raw_xi
             self._varxi = self.raw_varxi
diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index 81ac669..fb4763c 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -142,15 +142,18 @@ class BaseNZCorrelation(Corr2):
                 for ij in rz.results:
                     if ij in self.results: continue
                     new_cij = template.copy()
-                    new_cij.xi.ravel()[:] = 0
-                    new_cij.weight.ravel()[:] = 0
+                    new_cij._clear()
                     self.results[ij] = new_cij
+                    self.__dict__.pop('_ok',None)  # If it was already made, it needs to be redone.
 
+            if len(self.results) > 0 and self.var_method != 'shot':
                 self._cov = self.estimate_cov(self.var_method)
                 self._varxi = np.zeros_like(self.rnom, dtype=float)
                 self._varxi.ravel()[:] = self.cov_diag
             else:
                 self._varxi = self.raw_varxi + rz.varxi
+                if self._cov is None or self._cov.ndim == 1:
+                    self._cov = self._varxi.ravel().copy()
         else:
             self.xi = self.raw_xi
             self.xi_im = self.raw_xi_im
-- 
2.43.0


From d2be7d02e899bcded053d72a92ca62c064dae342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 030/117] fix: compensated N-field rows: subtract xi_im too,
 and handle unpatched or missing randoms

---
 treecorr/nkcorrelation.py | 17 ++++++++++-------
 treecorr/nzcorrelation.py | 18 +++++++++++-------
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/treecorr/nkcorrelation.py b/treecorr/nkcorrelation.py
index 8bf66f1..da76443 100644
--- a/treecorr/nkcorrelation.py
+++ b/treecorr/nkcorrelation.py
@@ -262,13 +262,16 @@ class NKCorrelation(Corr2):
         self._sum([self.results[ij] for ij in pairs])
         self._finalize()
         if self._rk is not None:
-            # If rk has npatch1 = 1, adjust pairs appropriately
-            if self._rk.npatch1 == 1 and not all([p[0] == 0 for p in pairs]):
-                pairs = [(0,ij[1]) for ij in pairs if ij[0] == ij[1]]
-            # Make sure all ij are in the rk results (some might be missing, which is ok)
-            pairs = [ij for ij in pairs if self._rk._ok[ij[0],ij[1]]]
-            self._rk._calculate_xi_from_pairs(pairs)
-            self.xi -= self._rk.xi
+            if len(self._rk.results) > 0:
+                # If rk has npatch1 = 1, adjust pairs appropriately
+                if self._rk.npatch1 == 1 and self.npatch1 != 1:
+                    pairs = [(0,ij[1]) for ij in pairs if ij[0] == ij[1]]
+                # Make sure all ij are in the rk results (some might be missing, which is ok)
+                pairs = [ij for ij in pairs if self._rk._ok[ij[0],ij[1]]]
+                if len(pairs) == 0:
+                    return
+                self._rk._calculate_xi_from_pairs(pairs)
+            self.xi = self.raw_xi - self._rk.xi
 
     def write(self, file_name, * ,rk=None, file_type=None, precision=None,
               write_patch_results=False, write_cov=False):
diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index fb4763c..79b5eef 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -165,13 +165,17 @@ class BaseNZCorrelation(Corr2):
         self._sum([self.results[ij] for ij in pairs])
         self._finalize()
         if self._rz is not None:
-            # If rz has npatch1 = 1, adjust pairs appropriately
-            if self._rz.npatch1 == 1 and not all([p[0] == 0 for p in pairs]):
-                pairs = [(0,ij[1]) for ij in pairs if ij[0] == ij[1]]
-            # Make sure all ij are in the rz results (some might be missing, which is ok)
-            pairs = [ij for ij in pairs if self._rz._ok[ij[0],ij[1]]]
-            self._rz._calculate_xi_from_pairs(pairs)
-            self.xi -= self._rz.xi
+            if len(self._rz.results) > 0:
+                # If rz has npatch1 = 1, adjust pairs appropriately
+                if self._rz.npatch1 == 1 and self.npatch1 != 1:
+                    pairs = [(0,ij[1]) for ij in pairs if ij[0] == ij[1]]
+                # Make sure all ij are in the rz results (some might be missing, which is ok)
+                pairs = [ij for ij in pairs if self._rz._ok[ij[0],ij[1]]]
+                if len(pairs) == 0:
+                    return
+                self._rz._calculate_xi_from_pairs(pairs)
+            self.xi = self.raw_xi - self._rz.xi
+            self.xi_im = self.raw_xi_im - self._rz.xi_im
 
     def write(self, file_name, rz=None, file_type=None, precision=None,
               write_patch_results=False, write_cov=False):
-- 
2.43.0


From eb7752451046461bfdee5c57500019a526cdc370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 031/117] fix: patches of a catalog with user-specified
 variances must use those variances

---
 treecorr/catalog.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index e5ae604..abdbcbd 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2879,6 +2879,11 @@ class Catalog(object):
             raise ValueError("save_patch_dir is required here, since not given in constructor.")
         self._read_patches(save_patch_dir, range(self.npatch))
 
+    def _get_var_kwargs(self):
+        # If the user specified any variances, they apply to the patches too.
+        return {var : self.config[var] for var in ['vark', 'varz', 'varv', 'varg', 'vart', 'varq']
+                if self.config.get(var, None) is not None}
+
     def _read_patches(self, save_patch_dir, patch_set):
         # Implementation of read_patches for a given set of (usually all) patch numbers.
 
@@ -2925,6 +2930,7 @@ class Catalog(object):
             kwargs['q1_col'] = 'q1'
         if self._q2 is not None or self.config.get('q2_col','0') != '0':
             kwargs['q2_col'] = 'q2'
+        kwargs.update(self._get_var_kwargs())
 
         file_names = self.get_patch_file_names(save_patch_dir)
         # Check that the files exist, although we won't actually load them yet.
@@ -3013,6 +3019,7 @@ class Catalog(object):
                     kwargs['ra_units'] = 'rad'
                     kwargs['dec_units'] = 'rad'
                     kwargs['allow_xyz'] = True
+                kwargs.update(self._get_var_kwargs())
                 p = Catalog(x=x, y=y, z=z, ra=ra, dec=dec, r=r, w=w, wpos=wpos,
                             k=k, z1=z1, z2=z2, v1=v1, v2=v2, g1=g1, g2=g2,
                             t1=t1, t2=t2, q1=q1, q2=q2,
-- 
2.43.0


From bc5d2f139cd846e8adda8a1d01297736dce85b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 032/117] fix: shot-noise variance of 3pt correlations must use
 all catalogs when processing is deferred

---
 treecorr/corr3base.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 2714d5b..9eee5b2 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -735,6 +735,9 @@ class Corr3(object):
         self._ro.var_method = get(self.config,'var_method',str,'shot')
         self._ro.num_bootstrap = get(self.config,'num_bootstrap',int,500)
         self.results = {}  # for jackknife, etc. store the results of each pair of patches.
+        self._processed_cats1 = []
+        self._processed_cats2 = []
+        self._processed_cats3 = []
         self.npatch1 = self.npatch2 = self.npatch3 = 1
         self._rng = rng
 
@@ -1098,6 +1101,9 @@ class Corr3(object):
         self._clear()
         self.results = {}
         self.npatch1 = self.npatch2 = self.npatch3 = 1
+        self._processed_cats1.clear()
+        self._processed_cats2.clear()
+        self._processed_cats3.clear()
         self.__dict__.pop('_ok',None)
 
     @property
@@ -1784,15 +1790,20 @@ class Corr3(object):
             self._process_all_cross(cat1, cat2, cat3, metric, ordered, num_threads, comm, low_mem,
                                     local)
 
+        self._processed_cats1.extend(cat1)
+        if cat2 is not None:
+            self._processed_cats2.extend(cat2)
+        if cat3 is not None:
+            self._processed_cats3.extend(cat3)
         if finalize:
             if cat2 is None:
-                var1 = var2 = var3 = self._calculateVar1(cat1, low_mem=low_mem)
+                var1 = var2 = var3 = self._calculateVar1(self._processed_cats1, low_mem=low_mem)
                 if var1 is not None:
                     self.logger.info(f"var%s = %f: {self._sig1} = %f",
                                      self._letter1.lower(), var1, math.sqrt(var1))
             elif cat3 is None:
-                var1 = self._calculateVar1(cat1, low_mem=low_mem)
-                var2 = var3 = self._calculateVar2(cat2, low_mem=low_mem)
+                var1 = self._calculateVar1(self._processed_cats1, low_mem=low_mem)
+                var2 = var3 = self._calculateVar2(self._processed_cats2, low_mem=low_mem)
                 # For now, only the letter1 == letter2 case until we add cross type 3pt.
                 if var1 is not None:
                     self.logger.info(f"var%s1 = %f: {self._sig1} = %f",
@@ -1800,9 +1811,9 @@ class Corr3(object):
                     self.logger.info(f"var%s2 = %f: {self._sig2} = %f",
                                      self._letter2, var2, math.sqrt(var2))
             else:
-                var1 = self._calculateVar1(cat1, low_mem=low_mem)
-                var2 = self._calculateVar2(cat2, low_mem=low_mem)
-                var3 = self._calculateVar3(cat3, low_mem=low_mem)
+                var1 = self._calculateVar1(self._processed_cats1, low_mem=low_mem)
+                var2 = self._calculateVar2(self._processed_cats2, low_mem=low_mem)
+                var3 = self._calculateVar3(self._processed_cats3, low_mem=low_mem)
                 if var1 is not None:
                     self.logger.info(f"var%s1 = %f: {self._sig1} = %f",
                                      self._letter1, var1, math.sqrt(var1))
@@ -1814,6 +1825,9 @@ class Corr3(object):
                 self.finalize()
             else:
                 self.finalize(var1, var2, var3)
+            self._processed_cats1.clear()
+            self._processed_cats2.clear()
+            self._processed_cats3.clear()
 
     def _finalize(self):
         mask1 = self.weightr != 0
-- 
2.43.0


From 6a6f8ef1e6867a11dea514c08885bf70fd35f85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 033/117] fix: further processing of a copied correlation must
 not change the original's patch results

---
 treecorr/corr2base.py      | 20 +++++++++++---------
 treecorr/corr3base.py      |  5 +++++
 treecorr/nncorrelation.py  |  2 ++
 treecorr/nnncorrelation.py |  2 ++
 4 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 2c1b8d6..83aca71 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -678,9 +678,12 @@ class Corr2(object):
                 # In particular don't deep copy config or logger
                 # Most of the rest are scalars, which copy fine this way.
                 # And the read-only things are all in _ro.
-                # The results dict is trickier.  We rely on it being copied in places, but we
-                # never add more to it after the copy, so shallow copy is fine.
                 ret.__dict__[key] = item
+        # The copy may be used for further processing, so it needs its own containers.
+        # (The items in the results dict are never changed in place, so they may be shared.)
+        for key in ['results', '_processed_cats1', '_processed_cats2']:
+            if key in ret.__dict__:
+                ret.__dict__[key] = ret.__dict__[key].copy()
         ret._corr = None # We'll want to make a new one of these if we need it.
         return ret
 
@@ -807,14 +810,13 @@ class Corr2(object):
 
     def _add_result(self, ij, temp):
         # Add temp to whatever we already have in results for this key (if anything).
+        # Note: Don't change prev in place, since copies of self may be using it as well.
         prev = self.results.get(ij, None)
-        if prev is not None and prev.nonzero:
-            prev += temp
-        else:
-            self.results[ij] = temp.copy()
-            if prev is not None:
-                # Even if the weight is all zero, NNCorrelation needs to keep the tot value.
-                self.results[ij] += prev
+        self.results[ij] = temp.copy()
+        if prev is not None:
+            # Even if the weight is all zero, NNCorrelation needs to keep the tot value.
+            self.results[ij] += prev
+        self.__dict__.pop('_ok',None)  # If it was already made, it will need to be redone.
 
     def _process_all_auto(self, cat1, metric, num_threads, comm, low_mem, local):
 
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 9eee5b2..60484f3 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1073,6 +1073,11 @@ class Corr3(object):
                 # In particular don't deep copy config or logger
                 # Most of the rest are scalars, which copy fine this way.
                 ret.__dict__[key] = item
+        # The copy may be used for further processing, so it needs its own containers.
+        # (The items in the results dict are never changed in place, so they may be shared.)
+        for key in ['results', '_processed_cats1', '_processed_cats2', '_processed_cats3']:
+            if key in ret.__dict__:
+                ret.__dict__[key] = ret.__dict__[key].copy()
         ret._corr = None # We'll want to make a new one of these if we need it.
         return ret
 
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index ffcb7ee..705105f 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -262,6 +262,8 @@ class NNCorrelation(Corr2):
         # the resulting weight is zero.  But use a minimal copy with just the necessary fields
         # to save some time.
         if ij in self.results:
+            # Don't change this in place, since copies of self may be using it as well.
+            self.results[ij] = self.results[ij].copy()
             self.results[ij].tot += tot
         else:
             self.results[ij] = self._zero_copy(tot)
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index ed1beb5..7151456 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -361,6 +361,8 @@ class NNNCorrelation(Corr3):
         # gets messed up.  We need to accumulate the tot value of all pairs, even if
         # the resulting weight is zero.
         if ijk in self.results:
+            # Don't change this in place, since copies of self may be using it as well.
+            self.results[ijk] = self.results[ijk].copy()
             self.results[ijk].tot += tot
         else:
             self.results[ijk] = self._zero_copy(tot)
-- 
2.43.0


From 4cfd9b3c7e7f1b16d023c47130b6c615d259caf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:47 +0000
Subject: [PATCH 034/117] fix: clear must also forget the randoms and the
 catalogs processed so far

---
 treecorr/corr2base.py      |  4 ++--
 treecorr/nncorrelation.py  | 10 ++++++++++
 treecorr/nnncorrelation.py | 10 ++++++++++
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 83aca71..f3265e7 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -712,6 +712,8 @@ class Corr2(object):
         self._clear()
         self.results = {}
         self.npatch1 = self.npatch2 = 1
+        self._processed_cats1.clear()
+        self._processed_cats2.clear()
         self.__dict__.pop('_ok',None)
 
     @property
@@ -1137,8 +1139,6 @@ class Corr2(object):
             raise TypeError(f"cat2 is required for {self._cls}.process")
         if initialize:
             self.clear()
-            self._processed_cats1.clear()
-            self._processed_cats2.clear()
 
         if patch_method not in ['local', 'global']:
             raise ValueError("Invalid patch_method %s"%patch_method)
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 705105f..5383621 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -211,6 +211,16 @@ class NNCorrelation(Corr2):
         # The lazy version when we can be sure the object isn't going to accumulate any more.
         return self.nonzero
 
+    def clear(self):
+        """Clear all data vectors, the results dict, and any related values.
+        """
+        # Also forget about any previous calculateXi.
+        self._rr = self._dr = self._rd = None
+        self._rr_weight = None
+        self.__dict__.pop('xi',None)
+        self.__dict__.pop('varxi',None)
+        super().clear()
+
     def _clear(self):
         """Clear the data vectors
         """
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index 7151456..ac10968 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -317,6 +317,16 @@ class NNNCorrelation(Corr3):
         # The lazy version when we can be sure the object isn't going to accumulate any more.
         return self.nonzero
 
+    def clear(self):
+        """Clear all data vectors, the results dict, and any related values.
+        """
+        # Also forget about any previous calculateZeta.
+        self._rrr = self._drr = self._rdd = None
+        self._rrr_weight = None
+        self.zeta = None
+        self.__dict__.pop('varzeta',None)
+        super().clear()
+
     def _clear(self):
         super()._clear()
         self.tot = 0.
-- 
2.43.0


From 7dac40117ed736ec80f60b1932b236744080d7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:47 +0000
Subject: [PATCH 035/117] fix: adding correlations: refuse different bin types
 or units, accept unprocessed objects

---
 treecorr/corr2base.py | 9 ++++++---
 treecorr/corr3base.py | 5 ++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index f3265e7..ba5abf3 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1233,12 +1233,15 @@ class Corr2(object):
         """
         if not isinstance(other, self.__class__):
             raise TypeError(f"Can only add another {self._cls} object")
-        if not (self._nbins == other._nbins and
+        if not (self.bin_type == other.bin_type and
+                self._nbins == other._nbins and
                 self.min_sep == other.min_sep and
-                self.max_sep == other.max_sep):
+                self.max_sep == other.max_sep and
+                self.sep_units == other.sep_units):
             raise ValueError(f"{self._cls} to be added is not compatible with this one.")
 
-        self._set_metric(other.metric, other.coords, other.coords)
+        if other.coords is not None:  # It's None if nothing has been processed yet.
+            self._set_metric(other.metric, other.coords, other.coords)
         if not other.nonzero: return self
         self._xi1[:] += other._xi1
         self._xi2[:] += other._xi2
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 60484f3..c7cf492 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1014,6 +1014,8 @@ class Corr3(object):
                   self.max_sep == other.max_sep and
                   self.nbins == other.nbins and
                   self.max_n == other.max_n)
+        eq = (eq and self.sep_units == other.sep_units and
+              (self.bin_type != 'LogSAS' or self.phi_units == other.phi_units))
         if brief or not eq:
             return eq
         else:
@@ -1939,7 +1941,8 @@ class Corr3(object):
         if not self._equal_binning(other, brief=True):
             raise ValueError(f"{self._cls} to be added is not compatible with this one.")
 
-        self._set_metric(other.metric, other.coords, other.coords, other.coords)
+        if other.coords is not None:  # It's None if nothing has been processed yet.
+            self._set_metric(other.metric, other.coords, other.coords, other.coords)
         if not other.nonzero: return self
         self._z1[:] += other._z1[:]
         self._z2[:] += other._z2[:]
-- 
2.43.0


From c698bd71f022934b68934228a208d60ba2389b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:54 +0000
Subject: [PATCH 036/117] fix: equality must also compare the metric and the
 total weight of count correlations

---
 treecorr/corr2base.py      | 1 +
 treecorr/corr3base.py      | 5 ++---
 treecorr/nncorrelation.py  | 4 ++++
 treecorr/nnncorrelation.py | 4 ++++
 4 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index ba5abf3..c16fbfd 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -649,6 +649,7 @@ class Corr2(object):
                 self.max_sep == other.max_sep and
                 self.sep_units == other.sep_units and
                 self.coords == other.coords and
+                self.metric == other.metric and
                 self.bin_type == other.bin_type and
                 self.bin_slop == other.bin_slop and
                 self.angle_slop == other.angle_slop and
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index c7cf492..165a2d6 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1019,9 +1019,8 @@ class Corr3(object):
         if brief or not eq:
             return eq
         else:
-            return (self.sep_units == other.sep_units and
-                    (self.bin_type != 'LogSAS' or self.phi_units == other.phi_units) and
-                    self.coords == other.coords and
+            return (self.coords == other.coords and
+                    self.metric == other.metric and
                     self.bin_slop == other.bin_slop and
                     self.angle_slop == other.angle_slop and
                     self.xperiod == other.xperiod and
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 5383621..87160b4 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -117,6 +117,10 @@ class NNCorrelation(Corr2):
         self._write_patch_results = False
         self.logger.debug('Finished building NNCorr')
 
+    def __eq__(self, other):
+        """Return whether two Correlation instances are equal"""
+        return super().__eq__(other) and self.tot == other.tot
+
     def copy(self):
         """Make a copy"""
         ret = super().copy()
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index ac10968..98d1ad0 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -189,6 +189,10 @@ class NNNCorrelation(Corr3):
         self._z5 = self._z6 = self._z7 = self._z8 = x
         self.logger.debug('Finished building NNNCorr')
 
+    def __eq__(self, other):
+        """Return whether two Correlation instances are equal"""
+        return super().__eq__(other) and self.tot == other.tot
+
     def copy(self):
         """Make a copy"""
         ret = super().copy()
-- 
2.43.0


From 20523a7d350bc19fc98f46d4b9f14e5e4373f700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 037/117] fix: adding correlations: only warn-compatible units,
 as before; refuse different bin types

---
 treecorr/corr2base.py | 3 +--
 treecorr/corr3base.py | 2 --
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index c16fbfd..0a5fa12 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1237,8 +1237,7 @@ class Corr2(object):
         if not (self.bin_type == other.bin_type and
                 self._nbins == other._nbins and
                 self.min_sep == other.min_sep and
-                self.max_sep == other.max_sep and
-                self.sep_units == other.sep_units):
+                self.max_sep == other.max_sep):
             raise ValueError(f"{self._cls} to be added is not compatible with this one.")
 
         if other.coords is not None:  # It's None if nothing has been processed yet.
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 165a2d6..b81ab71 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1014,8 +1014,6 @@ class Corr3(object):
                   self.max_sep == other.max_sep and
                   self.nbins == other.nbins and
                   self.max_n == other.max_n)
-        eq = (eq and self.sep_units == other.sep_units and
-              (self.bin_type != 'LogSAS' or self.phi_units == other.phi_units))
         if brief or not eq:
             return eq
         else:
-- 
2.43.0


From bc5a03afdc72e5a46664107a5e48055589f39e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:58 +0000
Subject: [PATCH 038/117] fix: repr of a catalog must include npatch, and for
 unloaded catalogs how to select the patch and columns

---
 treecorr/catalog.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index abdbcbd..162952c 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -3206,6 +3206,7 @@ class Catalog(object):
             if self.q1 is not None: s += 'q1='+repr(self.q1)+','
             if self.q2 is not None: s += 'q2='+repr(self.q2)+','
             if self.patch is not None: s += 'patch='+repr(self.patch)+','
+            if self.patch is not None and self.npatch != 1: s += 'npatch='+repr(self.npatch)+','
             wpos = self._wpos if self._wpos is not None else self._w
             if np.any(wpos == 0): s += 'keep_zero_weight=True,'
             # remove the last ','
@@ -3213,6 +3214,10 @@ class Catalog(object):
         else:
             # Catalog isn't loaded yet. Use file_name info here instead.
             s += 'file_name='+repr(self.file_name)+','
+            if self._num != 0: s += 'num='+repr(self._num)+','
+            if self._is_rand: s += 'is_rand='+repr(self._is_rand)+','
+            if self._single_patch is not None: s += 'patch='+repr(self._single_patch)+','
+            if self._centers is not None: s += 'patch_centers='+repr(self._centers)+','
             s += 'config ='+repr(self.config)
             s += ')'
         return s
-- 
2.43.0


From 66219ff859cc4e474039d52bbf7be47b4e284e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:58 +0000
Subject: [PATCH 039/117] fix: equality of three-point correlations must notice
 different sep_units

---
 treecorr/corr3base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index b81ab71..9541023 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1019,6 +1019,7 @@ class Corr3(object):
         else:
             return (self.coords == other.coords and
                     self.metric == other.metric and
+                    self.sep_units == other.sep_units and
                     self.bin_slop == other.bin_slop and
                     self.angle_slop == other.angle_slop and
                     self.xperiod == other.xperiod and
-- 
2.43.0


From 30413224df22c4124735c1662f109f7f87b55fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 040/117] fix: keep the shot-noise variance information when a
 correlation is written and read back

---
 treecorr/corr2base.py      | 3 +++
 treecorr/corr3base.py      | 3 +++
 treecorr/nncorrelation.py  | 2 ++
 treecorr/nnncorrelation.py | 2 ++
 4 files changed, 10 insertions(+)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 0a5fa12..625736e 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1722,6 +1722,8 @@ class Corr2(object):
         params['coords'] = self.coords
         params['metric'] = self.metric
         params['corr'] = self._letters
+        # This is needed for the shot-noise variance and covariance on round trip.
+        params['var_num'] = float(self._var_num)
         return params
 
     def _write(self, writer, name, write_patch_results, write_cov=False, zero_tot=False):
@@ -1816,6 +1818,7 @@ class Corr2(object):
         self.metric = params['metric'].strip()
         self.npatch1 = params.get('npatch1', 1)
         self.npatch2 = params.get('npatch2', 1)
+        self._var_num = params.get('var_num', 0)
 
     def read(self, file_name, *, file_type=None):
         """Read in values from a file.
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 9541023..753fa78 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -2448,6 +2448,8 @@ class Corr3(object):
         params['coords'] = self.coords
         params['metric'] = self.metric
         params['corr'] = self._letters
+        # This is needed for the shot-noise variance and covariance on round trip.
+        params['var_num'] = float(self._var_num)
         return params
 
     def _write(self, writer, name, write_patch_results, write_cov=False, zero_tot=False):
@@ -2556,6 +2558,7 @@ class Corr3(object):
         self.npatch1 = params.get('npatch1', 1)
         self.npatch2 = params.get('npatch2', 1)
         self.npatch3 = params.get('npatch3', 1)
+        self._var_num = params.get('var_num', 0)
 
     def read(self, file_name, *, file_type=None):
         """Read in values from a file.
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 87160b4..41996dd 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -725,6 +725,8 @@ class NNCorrelation(Corr2):
             rr = self.copy()
             rr._read(reader, name='_rr')
             self._rr = rr
+            if rr.tot != 0:
+                self._rr_weight = rr.weight * (self.tot/rr.tot)
         if self._dr:
             dr = self.copy()
             dr._read(reader, name='_dr')
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index 98d1ad0..0212807 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -950,6 +950,8 @@ class NNNCorrelation(Corr3):
             rrr = self.copy()
             rrr._read(reader, name='_rrr')
             self._rrr = rrr
+            if rrr.tot != 0:
+                self._rrr_weight = rrr.weight * (self.tot/rrr.tot)
         if self._drr:
             drr = self.copy()
             drr._read(reader, name='_drr')
-- 
2.43.0


From 093414eac5838f808d2a0309f9a350733dcc485e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:55 +0000
Subject: [PATCH 041/117] fix: an ASCII file with the covariance but no patch
 results can be read back

---
 treecorr/corr2base.py | 4 +++-
 treecorr/corr3base.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 625736e..8900efd 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1735,12 +1735,14 @@ class Corr2(object):
         data = self._write_data
         params = self._write_params
 
+        if write_patch_results or write_cov:
+            # This is needed to know where the next table starts in an ASCII file.
+            params['num_rows'] = len(self.rnom.ravel())
         if write_patch_results:
             # Note: Only include npatch1, npatch2 in serialization if we are also serializing
             # results.  Otherwise, the corr that is read in will behave oddly.
             params['npatch1'] = self.npatch1
             params['npatch2'] = self.npatch2
-            params['num_rows'] = len(self.rnom.ravel())
             num_patch_pairs = len(self.results)
             if zero_tot:
                 i = 0
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 753fa78..2b45d23 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -2460,13 +2460,15 @@ class Corr3(object):
         data = self._write_data
         params = self._write_params
 
+        if write_patch_results or write_cov:
+            # This is needed to know where the next table starts in an ASCII file.
+            params['num_rows'] = self._nbins
         if write_patch_results:
             # Note: Only include npatch1, npatch2 in serialization if we are also serializing
             # results.  Otherwise, the corr that is read in will behave oddly.
             params['npatch1'] = self.npatch1
             params['npatch2'] = self.npatch2
             params['npatch3'] = self.npatch3
-            params['num_rows'] = self._nbins
             num_patch_tri = len(self.results)
             if zero_tot:
                 i = 0
-- 
2.43.0


From a3cf61cb90198d4703eb68803b61051dabdfc527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:55 +0000
Subject: [PATCH 042/117] fix: read back a covariance matrix with a single
 element from an ASCII file

---
 treecorr/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treecorr/reader.py b/treecorr/reader.py
index f09c0b0..884cb7c 100644
--- a/treecorr/reader.py
+++ b/treecorr/reader.py
@@ -191,8 +191,8 @@ class AsciiReader(object):
         Returns:
             array
         """
-        data = np.genfromtxt(self.file, max_rows=shape[0])
-        assert data.shape == shape
+        # Note: genfromtxt squeezes out any dimensions with length 1.
+        data = np.genfromtxt(self.file, max_rows=shape[0]).reshape(shape)
         return data
 
     def row_count(self, col=None, *, ext=None):
-- 
2.43.0


From f852af73f9280fb57f807c1dd1c80cbffd703fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:29 +0000
Subject: [PATCH 043/117] fix: NN varxi has the shape of xi for TwoD binning

---
 treecorr/nncorrelation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 41996dd..c6a1bdc 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -458,7 +458,7 @@ class NNCorrelation(Corr2):
 
         # Now that it's all set up, calculate the covariance and set varxi to the diagonal.
         self._cov = self.estimate_cov(self.var_method)
-        self.varxi = self.cov_diag
+        self.varxi = self.cov_diag.reshape(self.xi.shape)
         return self.xi, self.varxi
 
     def _calculate_xi_from_pairs(self, pairs):
-- 
2.43.0


From e3f4924fe0f6429394fcafd5d56d03ad0fdfb8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:59 +0000
Subject: [PATCH 044/117] fix: read patch results from an ASCII file when none
 of the patches have any pairs

---
 treecorr/corr2base.py | 2 +-
 treecorr/corr3base.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 8900efd..01895cd 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1782,7 +1782,7 @@ class Corr2(object):
         num_patch_pairs = params.get('num_patch_pairs', 0)
         num_zero_patch = params.get('num_zero_patch', 0)
         cov_shape = params.get('cov_shape', None)
-        name = 'main' if num_patch_pairs and name is None else name
+        name = 'main' if (num_patch_pairs or num_zero_patch) and name is None else name
         data = reader.read_data(max_rows=num_rows, ext=name)
 
         # This helper function defines how to set the attributes for each class
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 2b45d23..9dbea97 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -2508,7 +2508,7 @@ class Corr3(object):
         num_patch_tri = params.get('num_patch_tri', 0)
         num_zero_patch = params.get('num_zero_patch', 0)
         cov_shape = params.get('cov_shape', None)
-        name = 'main' if num_patch_tri and name is None else name
+        name = 'main' if (num_patch_tri or num_zero_patch) and name is None else name
         data = reader.read_data(max_rows=num_rows, ext=name)
 
         # This helper function defines how to set the attributes for each class
-- 
2.43.0


From e94ee667685d87f097564e0c1fc84acfdb7fa124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 045/117] fix: a numpy integer is accepted as a bool parameter
 (e.g. brute read from an HDF file)

---
 treecorr/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treecorr/config.py b/treecorr/config.py
index cadaf84..942e4d5 100644
--- a/treecorr/config.py
+++ b/treecorr/config.py
@@ -78,9 +78,9 @@ def parse_bool(value):
                 return int(value)
     elif isinstance(value,(bool, np.bool_)):
         return value
-    elif isinstance(value,int):
+    elif isinstance(value,(int, np.integer)):
         # Note: integers aren't converted to bool, since brute distinguishes 1 vs 2 vs True.
-        return value
+        return int(value)
     else:
         raise ValueError("Unable to parse %s as a bool."%value)
 
-- 
2.43.0


From a7c1860be84d702fa1661bca39310741ced1c29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:20 +0000
Subject: [PATCH 046/117] fix: complex covariance matrices (e.g. of GGG) can be
 written and read back

---
 treecorr/reader.py | 27 +++++++++++++++++++--------
 treecorr/writer.py | 14 ++++++++++++--
 2 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/treecorr/reader.py b/treecorr/reader.py
index 884cb7c..467b502 100644
--- a/treecorr/reader.py
+++ b/treecorr/reader.py
@@ -28,6 +28,21 @@ both provide dicts.
 """
 import numpy as np
 
+def from_real_view(data, shape):
+    """Undo the conversion done by writer.real_view, if it had been a complex array.
+
+    Parameters:
+        data (array):       The real data that was read in.
+        shape (tuple):      The expected shape of the array.
+
+    Returns:
+        The array with the given shape
+    """
+    if data.size == 2*np.prod(shape):
+        data = np.ascontiguousarray(data, dtype=float).view(complex)
+    # Note: genfromtxt squeezes out any dimensions with length 1.
+    return data.reshape(shape)
+
 class AsciiReader(object):
     """Reader interface for ASCII files using numpy.
     """
@@ -191,9 +206,7 @@ class AsciiReader(object):
         Returns:
             array
         """
-        # Note: genfromtxt squeezes out any dimensions with length 1.
-        data = np.genfromtxt(self.file, max_rows=shape[0]).reshape(shape)
-        return data
+        return from_real_view(np.genfromtxt(self.file, max_rows=shape[0]), shape)
 
     def row_count(self, col=None, *, ext=None):
         """Count the number of rows in the file.
@@ -595,9 +608,7 @@ class FitsReader(object):
             array
         """
         ext = self._update_ext(ext, 0)
-        data = self.file[ext].read()
-        assert data.shape == shape
-        return data
+        return from_real_view(self.file[ext].read(), shape)
 
     def row_count(self, col=None, *, ext=None):
         """Count the number of rows in the named extension
@@ -770,8 +781,8 @@ class HdfReader(object):
             array
         """
         g = self._group(ext)
-        data = np.empty(shape)
-        data[:] = g['data']
+        data = g['data'][:]
+        assert data.shape == tuple(shape)
         return data
 
     def row_count(self, col, *, ext=None):
diff --git a/treecorr/writer.py b/treecorr/writer.py
index 7855a3c..63ad50a 100644
--- a/treecorr/writer.py
+++ b/treecorr/writer.py
@@ -20,6 +20,16 @@ def ensure_dir(target):
         if not os.path.exists(d):
             os.makedirs(d)
 
+def real_view(data):
+    """View a complex array as a real one whose last axis alternates real and imaginary parts.
+
+    Real arrays are returned as they are.
+    """
+    if np.iscomplexobj(data):
+        return np.ascontiguousarray(data, dtype=complex).view(float)
+    else:
+        return data
+
 class AsciiWriter(object):
     """Write data to an ASCII (text) file.
     """
@@ -85,7 +95,7 @@ class AsciiWriter(object):
         if ext is not None:
             s = '## %s\n'%ext
             self.file.write(s.encode())
-        np.savetxt(self.file, data, fmt=self.fmt)
+        np.savetxt(self.file, real_view(data), fmt=self.fmt)
 
     def __enter__(self):
         self._file = open(self.file_name, 'wb')
@@ -148,7 +158,7 @@ class FitsWriter(object):
             data:           The array to write.
             ext:            Optional ext name for these data. (default: None)
         """
-        self.file.write(data, extname=ext)
+        self.file.write(real_view(data), extname=ext)
 
     def __enter__(self):
         import fitsio
-- 
2.43.0


From b102abdd384dcb721bcbb7d19a45dd9b859ff018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:39 +0000
Subject: [PATCH 047/117] fix: read drops what the object held before
 (covariance, list of patch pairs, xi)

---
 treecorr/corr2base.py | 3 +++
 treecorr/corr3base.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 01895cd..d4b7557 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1785,6 +1785,9 @@ class Corr2(object):
         name = 'main' if (num_patch_pairs or num_zero_patch) and name is None else name
         data = reader.read_data(max_rows=num_rows, ext=name)
 
+        # Forget everything about whatever this object might have held before.
+        self.clear()
+
         # This helper function defines how to set the attributes for each class
         # based on what was read in.
         self._read_from_data(data, params)
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 9dbea97..2cfe043 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -2511,6 +2511,9 @@ class Corr3(object):
         name = 'main' if (num_patch_tri or num_zero_patch) and name is None else name
         data = reader.read_data(max_rows=num_rows, ext=name)
 
+        # Forget everything about whatever this object might have held before.
+        self.clear()
+
         # This helper function defines how to set the attributes for each class
         # based on what was read in.
         self._read_from_data(data, params)
-- 
2.43.0


From 1665646542e1fd2dd728628cbad0af85a6f893fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 048/117] fix: list-valued parameters with limited valid values
 (e.g. ra_units) are checked element by element

---
 treecorr/config.py | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/treecorr/config.py b/treecorr/config.py
index 942e4d5..4300691 100644
--- a/treecorr/config.py
+++ b/treecorr/config.py
@@ -212,6 +212,26 @@ def parse(value, value_type, name):
         raise ValueError("Could not parse {}={} as type {}".format(name, value, value_type))
 
 
+def _check_valid(value, value_type, key, orig_value, valid_values):
+    # Check that a single (already parsed) value is one of the allowed values, and return the
+    # standard version of it.
+    if value_type is str:
+        matches = [ v for v in valid_values if value == v ]
+        if len(matches) == 0:
+            # Allow the string to be longer.
+            # e.g. degrees is valid if 'deg' is in valid_values.
+            matches = [v for v in valid_values if isinstance(v,str) and value.startswith(v)]
+        if len(matches) != 1:
+            raise ValueError("Parameter %s has invalid value %s.  Valid values are %s."%(
+                key, orig_value, str(valid_values)))
+        return matches[0]
+    else:
+        if value not in valid_values:
+            raise ValueError("Parameter %s has invalid value %s.  Valid values are %s."%(
+                key, orig_value, str(valid_values)))
+        return value
+
+
 def check_config(config, params, aliases=None, logger=None):
     """Check (and update) a config dict to conform to the given parameter rules.
     The params dict has an entry for each valid config parameter whose value is a tuple
@@ -264,20 +284,11 @@ def check_config(config, params, aliases=None, logger=None):
 
         # If limited allowed value, check that this is one of them.
         if valid_values is not None and value is not None:
-            if value_type is str:
-                matches = [ v for v in valid_values if value == v ]
-                if len(matches) == 0:
-                    # Allow the string to be longer.
-                    # e.g. degrees is valid if 'deg' is in valid_values.
-                    matches = [v for v in valid_values if isinstance(v,str) and value.startswith(v)]
-                if len(matches) != 1:
-                    raise ValueError("Parameter %s has invalid value %s.  Valid values are %s."%(
-                        key, config[key], str(valid_values)))
-                value = matches[0]
+            if may_be_list and isinstance(value, list):
+                value = [_check_valid(v, value_type, key, config[key], valid_values)
+                         if v is not None else None for v in value]
             else:
-                if value not in valid_values:
-                    raise ValueError("Parameter %s has invalid value %s.  Valid values are %s."%(
-                        key, config[key], str(valid_values)))
+                value = _check_valid(value, value_type, key, config[key], valid_values)
 
         # Write it back to the dict with the right type
         config[key] = value
-- 
2.43.0


From 2a4e50fbb531d6d3789cdf6a9071d35b6804d49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 049/117] fix: check the length of flag, and of ra, dec given
 along with x, y

---
 treecorr/catalog.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 162952c..72283e6 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -965,6 +965,10 @@ class Catalog(object):
                 ntot = len(self._ra)
                 if len(self._dec) != ntot:
                     raise ValueError("ra and dec have different numbers of elements")
+            if self._ra is not None and len(self._ra) != ntot:
+                raise ValueError("ra has the wrong numbers of elements")
+            if self._dec is not None and len(self._dec) != ntot:
+                raise ValueError("dec has the wrong numbers of elements")
             if self._z is not None and len(self._z) != ntot:
                 raise ValueError("z has the wrong numbers of elements")
             if self._r is not None and len(self._r) != ntot:
@@ -973,6 +977,8 @@ class Catalog(object):
                 raise ValueError("w has the wrong numbers of elements")
             if self._wpos is not None and len(self._wpos) != ntot:
                 raise ValueError("wpos has the wrong numbers of elements")
+            if self._flag is not None and len(self._flag) != ntot:
+                raise ValueError("flag has the wrong numbers of elements")
             if self._k is not None and len(self._k) != ntot:
                 raise ValueError("k has the wrong numbers of elements")
             if self._z1 is not None and len(self._z1) != ntot:
-- 
2.43.0


From 522b8cf75bf6e5950f1f772cff1993fa415cf4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 050/117] fix: selecting one patch of arrays with flags; stale
 flags after unload

---
 treecorr/catalog.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 72283e6..59f4ed4 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1625,6 +1625,7 @@ class Catalog(object):
         self._r = self._r[indx] if self._r is not None else None
         self._w = self._w[indx] if self._w is not None else None
         self._wpos = self._wpos[indx] if self._wpos is not None else None
+        self._flag = self._flag[indx] if self._flag is not None else None
         self._k = self._k[indx] if self._k is not None else None
         self._z1 = self._z1[indx] if self._z1 is not None else None
         self._z2 = self._z2[indx] if self._z2 is not None else None
@@ -2794,6 +2795,7 @@ class Catalog(object):
             self._r = None
             self._w = None
             self._wpos = None
+            self._flag = None
             self._k = None
             self._z1 = None
             self._z2 = None
-- 
2.43.0


From 6165bb27ac7f1edbfda9fd0c600db6592f7f1b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 051/117] fix: rows with NaN have wpos = 0 too, so they are
 skipped rather than moved to the origin

---
 treecorr/catalog.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 59f4ed4..7b6889d 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1680,6 +1680,8 @@ class Catalog(object):
             if self._w is None:
                 self._w = np.ones_like(col, dtype=float)
             self._w[index] = 0
+            if self._wpos is not None:
+                self._wpos[index] = 0
             col[index] = 0  # Don't leave the nans there.
 
     def _check_file(self, file_name, reader, num=0, is_rand=False):
-- 
2.43.0


From a5b52f4e9b5dafd728c851568f6531a70751e25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:20 +0000
Subject: [PATCH 052/117] fix: list-valued delimiter, comment_marker, allow_xyz
 and vark, ... use the item for the catalog's num

---
 treecorr/catalog.py | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 7b6889d..0378a6e 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -858,7 +858,7 @@ class Catalog(object):
             self._npatch = 1  # We might yet change this, but it will be correct at end of init.
 
         self.save_patch_dir = self.config.get('save_patch_dir',None)
-        allow_xyz = self.config.get('allow_xyz', False)
+        allow_xyz = get_from_list(self.config,'allow_xyz',num,bool,False)
 
         # First style -- read from a file
         if file_name is not None:
@@ -883,8 +883,8 @@ class Catalog(object):
                 self.reader = ParquetReader(file_name)
                 self._check_file(file_name, self.reader, num, is_rand)
             else:
-                delimiter = self.config.get('delimiter',None)
-                comment_marker = self.config.get('comment_marker','#')
+                delimiter = get_from_list(self.config,'delimiter',num,str,None)
+                comment_marker = get_from_list(self.config,'comment_marker',num,str,'#')
                 try:
                     self.reader = PandasReader(file_name, delimiter=delimiter,
                                                comment_marker=comment_marker)
@@ -1029,28 +1029,34 @@ class Catalog(object):
             if 'dec_units' in self.config:
                 raise TypeError("dec_units is invalid without dec")
 
-        if self.config.get('vark', None) is not None:
-            self._vark = self.config['vark']
+        vark = get_from_list(self.config,'vark',num,float)
+        if vark is not None:
+            self._vark = vark
             self._meank = 0.
             self._altmeank = 0.
-        if self.config.get('varz', None) is not None:
-            self._varz = self._varz1 = self._varz2 = self.config['varz']
+        varz = get_from_list(self.config,'varz',num,float)
+        if varz is not None:
+            self._varz = self._varz1 = self._varz2 = varz
             self._meanz1 = self._meanz2 = 0.
             self._altmeanz1 = self._altmeanz2 = 0.
-        if self.config.get('varv', None) is not None:
-            self._varv = self._varv1 = self._varv2 = self.config['varv']
+        varv = get_from_list(self.config,'varv',num,float)
+        if varv is not None:
+            self._varv = self._varv1 = self._varv2 = varv
             self._meanv1 = self._meanv2 = 0.
             self._altmeanv1 = self._altmeanv2 = 0.
-        if self.config.get('varg', None) is not None:
-            self._varg = self._varg1 = self._varg2 = self.config['varg']
+        varg = get_from_list(self.config,'varg',num,float)
+        if varg is not None:
+            self._varg = self._varg1 = self._varg2 = varg
             self._meang1 = self._meang2 = 0.
             self._altmeang1 = self._altmeang2 = 0.
-        if self.config.get('vart', None) is not None:
-            self._vart = self._vart1 = self._vart2 = self.config['vart']
+        vart = get_from_list(self.config,'vart',num,float)
+        if vart is not None:
+            self._vart = self._vart1 = self._vart2 = vart
             self._meant1 = self._meant2 = 0.
             self._altmeant1 = self._altmeant2 = 0.
-        if self.config.get('varq', None) is not None:
-            self._varq = self._varq1 = self._varq2 = self.config['varq']
+        varq = get_from_list(self.config,'varq',num,float)
+        if varq is not None:
+            self._varq = self._varq1 = self._varq2 = varq
             self._meanq1 = self._meanq2 = 0.
             self._altmeanq1 = self._altmeanq2 = 0.
 
@@ -1709,7 +1715,7 @@ class Catalog(object):
         q1_col = get_from_list(self.config,'q1_col',num,str,'0')
         q2_col = get_from_list(self.config,'q2_col',num,str,'0')
         patch_col = get_from_list(self.config,'patch_col',num,str,'0')
-        allow_xyz = self.config.get('allow_xyz', False)
+        allow_xyz = get_from_list(self.config,'allow_xyz',num,bool,False)
 
         x_eval = get_from_list(self.config,'x_eval',num,str,None)
         y_eval = get_from_list(self.config,'y_eval',num,str,None)
@@ -2891,8 +2897,9 @@ class Catalog(object):
 
     def _get_var_kwargs(self):
         # If the user specified any variances, they apply to the patches too.
-        return {var : self.config[var] for var in ['vark', 'varz', 'varv', 'varg', 'vart', 'varq']
-                if self.config.get(var, None) is not None}
+        var_kwargs = { var : get_from_list(self.config,var,self._num,float)
+                       for var in ['vark', 'varz', 'varv', 'varg', 'vart', 'varq'] }
+        return { var : value for var, value in var_kwargs.items() if value is not None }
 
     def _read_patches(self, save_patch_dir, patch_set):
         # Implementation of read_patches for a given set of (usually all) patch numbers.
-- 
2.43.0


From 83eef1c61bb178552360a1a14ec4bc97284cbc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:20 +0000
Subject: [PATCH 053/117] fix: flip options are ignored for columns a catalog
 does not have (e.g. randoms)

---
 treecorr/catalog.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 0378a6e..6bd5f1e 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1329,46 +1329,46 @@ class Catalog(object):
         # Apply flips if requested
         flip_z1 = get_from_list(self.config,'flip_z1',self._num,bool,False)
         flip_z2 = get_from_list(self.config,'flip_z2',self._num,bool,False)
-        if flip_z1:
+        if flip_z1 and self._z1 is not None:
             self.logger.info("   Flipping sign of z1.")
             self._z1 = -self._z1
-        if flip_z2:
+        if flip_z2 and self._z2 is not None:
             self.logger.info("   Flipping sign of z2.")
             self._z2 = -self._z2
 
         flip_v1 = get_from_list(self.config,'flip_v1',self._num,bool,False)
         flip_v2 = get_from_list(self.config,'flip_v2',self._num,bool,False)
-        if flip_v1:
+        if flip_v1 and self._v1 is not None:
             self.logger.info("   Flipping sign of v1.")
             self._v1 = -self._v1
-        if flip_v2:
+        if flip_v2 and self._v2 is not None:
             self.logger.info("   Flipping sign of v2.")
             self._v2 = -self._v2
 
         flip_g1 = get_from_list(self.config,'flip_g1',self._num,bool,False)
         flip_g2 = get_from_list(self.config,'flip_g2',self._num,bool,False)
-        if flip_g1:
+        if flip_g1 and self._g1 is not None:
             self.logger.info("   Flipping sign of g1.")
             self._g1 = -self._g1
-        if flip_g2:
+        if flip_g2 and self._g2 is not None:
             self.logger.info("   Flipping sign of g2.")
             self._g2 = -self._g2
 
         flip_t1 = get_from_list(self.config,'flip_t1',self._num,bool,False)
         flip_t2 = get_from_list(self.config,'flip_t2',self._num,bool,False)
-        if flip_t1:
+        if flip_t1 and self._t1 is not None:
             self.logger.info("   Flipping sign of t1.")
             self._t1 = -self._t1
-        if flip_t2:
+        if flip_t2 and self._t2 is not None:
             self.logger.info("   Flipping sign of t2.")
             self._t2 = -self._t2
 
         flip_q1 = get_from_list(self.config,'flip_q1',self._num,bool,False)
         flip_q2 = get_from_list(self.config,'flip_q2',self._num,bool,False)
-        if flip_q1:
+        if flip_q1 and self._q1 is not None:
             self.logger.info("   Flipping sign of q1.")
             self._q1 = -self._q1
-        if flip_q2:
+        if flip_q2 and self._q2 is not None:
             self.logger.info("   Flipping sign of q2.")
             self._q2 = -self._q2
 
-- 
2.43.0


From 0375a15a43155113da995ffec5a0f99f5691f00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:11 +0000
Subject: [PATCH 054/117] fix: one component of a pair of columns may be an
 expression and the other a column

---
 treecorr/catalog.py | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 6bd5f1e..4d0a6f5 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1783,19 +1783,19 @@ class Catalog(object):
             raise ValueError("q2_col is missing for file %s"%file_name)
 
         # Either both shoudl be 0 or both != 0.
-        if (z1_col == '0' and z1_eval is None) != (z2_col == '0' and z1_eval is None):
+        if (z1_col == '0' and z1_eval is None) != (z2_col == '0' and z2_eval is None):
             raise ValueError("z1_col, z2_col=(%s, %s) are invalid for file %s"%(
                         z1_col,z2_col,file_name))
-        if (v1_col == '0' and v1_eval is None) != (v2_col == '0' and v1_eval is None):
+        if (v1_col == '0' and v1_eval is None) != (v2_col == '0' and v2_eval is None):
             raise ValueError("v1_col, v2_col=(%s, %s) are invalid for file %s"%(
                         v1_col,v2_col,file_name))
-        if (g1_col == '0' and g1_eval is None) != (g2_col == '0' and g1_eval is None):
+        if (g1_col == '0' and g1_eval is None) != (g2_col == '0' and g2_eval is None):
             raise ValueError("g1_col, g2_col=(%s, %s) are invalid for file %s"%(
                         g1_col,g2_col,file_name))
-        if (t1_col == '0' and t1_eval is None) != (t2_col == '0' and t1_eval is None):
+        if (t1_col == '0' and t1_eval is None) != (t2_col == '0' and t2_eval is None):
             raise ValueError("t1_col, t2_col=(%s, %s) are invalid for file %s"%(
                         t1_col,t2_col,file_name))
-        if (q1_col == '0' and q1_eval is None) != (q2_col == '0' and q1_eval is None):
+        if (q1_col == '0' and q1_eval is None) != (q2_col == '0' and q2_eval is None):
             raise ValueError("q1_col, q2_col=(%s, %s) are invalid for file %s"%(
                         q1_col,q2_col,file_name))
 
@@ -1867,11 +1867,11 @@ class Catalog(object):
                                 k_col, file_name, num) +
                             "because it is invalid, but unneeded.")
 
-            if z1_col != '0':
+            if z1_col != '0' or z2_col != '0':
                 z1_ext = get_from_list(self.config, 'z1_ext', num, str, ext)
                 z2_ext = get_from_list(self.config, 'z2_ext', num, str, ext)
-                if (z1_col not in reader.names(ext=z1_ext) or
-                    z2_col not in reader.names(ext=z2_ext)):
+                if ((z1_eval is None and z1_col not in reader.names(ext=z1_ext)) or
+                    (z2_eval is None and z2_col not in reader.names(ext=z2_ext))):
                     if isZColRequired(self.orig_config,num) or 'corr2' not in self.orig_config:
                         raise ValueError(
                             "z1_col, z2_col=(%s, %s) are invalid for file %s"%(
@@ -1882,11 +1882,11 @@ class Catalog(object):
                                 z1_col, z2_col, file_name, num) +
                             "because they are invalid, but unneeded.")
 
-            if v1_col != '0':
+            if v1_col != '0' or v2_col != '0':
                 v1_ext = get_from_list(self.config, 'v1_ext', num, str, ext)
                 v2_ext = get_from_list(self.config, 'v2_ext', num, str, ext)
-                if (v1_col not in reader.names(ext=v1_ext) or
-                    v2_col not in reader.names(ext=v2_ext)):
+                if ((v1_eval is None and v1_col not in reader.names(ext=v1_ext)) or
+                    (v2_eval is None and v2_col not in reader.names(ext=v2_ext))):
                     if isVColRequired(self.orig_config,num) or 'corr2' not in self.orig_config:
                         raise ValueError(
                             "v1_col, v2_col=(%s, %s) are invalid for file %s"%(
@@ -1897,11 +1897,11 @@ class Catalog(object):
                                 v1_col, v2_col, file_name, num) +
                             "because they are invalid, but unneeded.")
 
-            if g1_col != '0':
+            if g1_col != '0' or g2_col != '0':
                 g1_ext = get_from_list(self.config, 'g1_ext', num, str, ext)
                 g2_ext = get_from_list(self.config, 'g2_ext', num, str, ext)
-                if (g1_col not in reader.names(ext=g1_ext) or
-                    g2_col not in reader.names(ext=g2_ext)):
+                if ((g1_eval is None and g1_col not in reader.names(ext=g1_ext)) or
+                    (g2_eval is None and g2_col not in reader.names(ext=g2_ext))):
                     if isGColRequired(self.orig_config,num) or 'corr2' not in self.orig_config:
                         raise ValueError(
                             "g1_col, g2_col=(%s, %s) are invalid for file %s"%(
@@ -1912,11 +1912,11 @@ class Catalog(object):
                                 g1_col, g2_col, file_name, num) +
                             "because they are invalid, but unneeded.")
 
-            if t1_col != '0':
+            if t1_col != '0' or t2_col != '0':
                 t1_ext = get_from_list(self.config, 't1_ext', num, str, ext)
                 t2_ext = get_from_list(self.config, 't2_ext', num, str, ext)
-                if (t1_col not in reader.names(ext=t1_ext) or
-                    t2_col not in reader.names(ext=t2_ext)):
+                if ((t1_eval is None and t1_col not in reader.names(ext=t1_ext)) or
+                    (t2_eval is None and t2_col not in reader.names(ext=t2_ext))):
                     if isTColRequired(self.orig_config,num) or 'corr2' not in self.orig_config:
                         raise ValueError(
                             "t1_col, t2_col=(%s, %s) are invalid for file %s"%(
@@ -1927,11 +1927,11 @@ class Catalog(object):
                                 t1_col, t2_col, file_name, num) +
                             "because they are invalid, but unneeded.")
 
-            if q1_col != '0':
+            if q1_col != '0' or q2_col != '0':
                 q1_ext = get_from_list(self.config, 'q1_ext', num, str, ext)
                 q2_ext = get_from_list(self.config, 'q2_ext', num, str, ext)
-                if (q1_col not in reader.names(ext=q1_ext) or
-                    q2_col not in reader.names(ext=q2_ext)):
+                if ((q1_eval is None and q1_col not in reader.names(ext=q1_ext)) or
+                    (q2_eval is None and q2_col not in reader.names(ext=q2_ext))):
                     if isQColRequired(self.orig_config,num) or 'corr2' not in self.orig_config:
                         raise ValueError(
                             "q1_col, q2_col=(%s, %s) are invalid for file %s"%(
-- 
2.43.0


From 3bf868bab40a9ad83be9d2b332febd09542bb2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:11 +0000
Subject: [PATCH 055/117] fix: expressions using data['n'] with columns given
 by number

---
 treecorr/catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 4d0a6f5..3b95489 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1960,7 +1960,7 @@ class Catalog(object):
                 exec('import ' + mod, gdict)
             gdict['data'] = data
             for k in data:
-                if k in s:
+                if k in s and k.isidentifier():
                     exec(f"{k} = data['{k}']", gdict)
             return eval(s, gdict)
 
-- 
2.43.0


From 6e923e45fdaeec80bdd7b38aef4f584ce155adf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:11 +0000
Subject: [PATCH 056/117] fix: patch_eval was ignored, and patch_col given as a
 list or along with arrays

---
 treecorr/catalog.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 3b95489..3e99d76 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -835,8 +835,11 @@ class Catalog(object):
             # file name version may be in a config dict, rather than kwarg.
             patch_centers = get(self.config,'patch_centers',str)
 
+        has_patch_col = (get_from_list(self.config,'patch_col',num,str,'0') != '0' or
+                         get_from_list(self.config,'patch_eval',num,str,None) is not None)
+
         if patch_centers is not None:
-            if patch is not None or self.config.get('patch_col',0) not in (0,'0'):
+            if patch is not None or has_patch_col:
                 raise ValueError("Cannot provide both patch and patch_centers")
             if isinstance(patch_centers, np.ndarray):
                 self._centers = patch_centers
@@ -849,7 +852,7 @@ class Catalog(object):
             self._npatch = get(self.config,'npatch',int)
             if self._npatch < 1:
                 raise ValueError("npatch must be >= 1")
-        elif self.config.get('patch_col',0) not in (0,'0'):
+        elif has_patch_col and file_name is not None:
             self._npatch = None  # Mark that we need to finish loading to figure out npatch.
         elif self._single_patch:
             raise ValueError("Either npatch or patch_centers is required when providing "
@@ -1995,9 +1998,9 @@ class Catalog(object):
                     self.logger.debug('read r')
                 self._apply_radec_units()
 
-        def set_patch(data, patch_col):
-            if patch_col != '0' and patch_col in data:
-                self._patch = data[patch_col].astype(int)
+        def set_patch(data, patch_col, patch_eval):
+            if patch_eval is not None or (patch_col != '0' and patch_col in data):
+                self._patch = parse_value(data, patch_col, patch_eval, int)
                 self.logger.debug('read patch')
                 self._set_npatch()
 
@@ -2044,6 +2047,7 @@ class Catalog(object):
         t2_eval = get_from_list(self.config,'t2_eval',num,str,None)
         q1_eval = get_from_list(self.config,'q1_eval',num,str,None)
         q2_eval = get_from_list(self.config,'q2_eval',num,str,None)
+        patch_eval = get_from_list(self.config,'patch_eval',num,str,None)
         extra_cols = get(self.config,'extra_cols',list,[])
 
         with reader:
@@ -2104,10 +2108,18 @@ class Catalog(object):
             data = {}
             # Also, if we are only reading in one patch, we should adjust s before doing this.
             if self._single_patch is not None:
-                if patch_col != '0':
-                    data[patch_col] = reader.read(patch_col, s, ext=patch_ext)
-                    all_cols.remove(patch_col)
-                    set_patch(data, patch_col)
+                if patch_col != '0' or patch_eval is not None:
+                    if patch_col != '0':
+                        data[patch_col] = reader.read(patch_col, s, ext=patch_ext)
+                        all_cols.remove(patch_col)
+                    if patch_eval is not None:
+                        for ext in all_exts:
+                            for c in extra_cols:
+                                if c in reader.names(ext=ext):
+                                    data[c] = reader.read(c, s, ext=ext)
+                    set_patch(data, patch_col, patch_eval)
+                    patch_col = '0'
+                    patch_eval = None
                 elif self._centers is not None:
                     pos_cols = [x_col, y_col, z_col, ra_col, dec_col, r_col]
                     pos_cols = [c for c in pos_cols if c != '0']
@@ -2154,7 +2166,7 @@ class Catalog(object):
                     x_eval, y_eval, z_eval, ra_eval, dec_eval, r_eval)
 
             # Set patch
-            set_patch(data, patch_col)
+            set_patch(data, patch_col, patch_eval)
 
             # Set w
             if w_col != '0' or w_eval is not None:
-- 
2.43.0


From 1b9ede9164fc6a01426e58afbd6abfb94f731342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:12 +0000
Subject: [PATCH 057/117] fix: reading a single patch from a file when the
 positions are in another extension or only some rows are used

---
 treecorr/catalog.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 3e99d76..0708a8a 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2128,6 +2128,8 @@ class Catalog(object):
                     for ext in all_exts:
                         use_cols1 = [c for c in pos_cols if col_by_ext[c] == ext]
                         use_cols1 += [c for c in extra_cols if c in reader.names(ext=ext)]
+                        if len(use_cols1) == 0:
+                            continue
                         data1 = reader.read(use_cols1, s, ext=ext)
                         for c in use_cols1:
                             data[c] = data1[c]
@@ -2139,15 +2141,15 @@ class Catalog(object):
                 self.select(use)
                 if s == slice(None):
                     s = use
-                else:
-                    end1 = np.max(use)*s.step+s.start+1
-                    s = np.arange(s.start, end1, s.step)[use]
+                elif not isinstance(use, slice):
+                    s = s.start + s.step * use
                 self._patch = None
                 data = {}  # Start fresh, since the ones we used so far are done.
 
                 # We might actually be done now, in which case, just return.
                 # (Else the fits read below won't actually work.)
-                if len(all_cols) == 0 or (isinstance(s,np.ndarray) and len(s) == 0):
+                if ((len(all_cols) == 0 and len(extra_cols) == 0) or
+                        (isinstance(s,np.ndarray) and len(s) == 0)):
                     return
 
             # Now read the rest using the updated s
-- 
2.43.0


From 3076ac4b587e94b8a9b98be6256095614e1edf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:12 +0000
Subject: [PATCH 058/117] fix: patches made with low_mem keep num and is_rand

---
 treecorr/catalog.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 0708a8a..a5f7f00 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -3013,6 +3013,7 @@ class Catalog(object):
                 # This triggers a load of the current catalog, but no choice here.
                 patch_set = sorted(set(self.patch))
             self._patches = [Catalog(config=self.config, file_name=self.file_name,
+                                     num=self._num, is_rand=self._is_rand,
                                      patch=i, npatch=self.npatch, patch_centers=self._centers)
                              for i in patch_set]
         else:
-- 
2.43.0


From 22dc096c4a17d94b319107b4c573159b09519944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:12 +0000
Subject: [PATCH 059/117] fix: reading a single value from an ASCII file

---
 treecorr/reader.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/treecorr/reader.py b/treecorr/reader.py
index 467b502..f2c58bc 100644
--- a/treecorr/reader.py
+++ b/treecorr/reader.py
@@ -134,13 +134,8 @@ class AsciiReader(object):
                              skip_header=skiprows, max_rows=nrows)
         self.file.seek(0)
 
-        # If only one column, then the shape comes in as one-d.  Reshape it:
-        if len(icols) == 1:
-            data = data.reshape(len(data),1)
-
-        # If only one row, then the shape comes in as one-d.  Reshape it:
-        if len(data.shape) == 1:
-            data = data.reshape(1,len(data))
+        # If only one row or column (or both), then the shape isn't two-d.  Reshape it:
+        data = data.reshape(-1,len(icols))
 
         # Select the rows we want if start/end wasn't sufficient.
         if isinstance(s, slice):
-- 
2.43.0


From 90c06533ba4f6ef530682888e8b590c05242d13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:12 +0000
Subject: [PATCH 060/117] fix: reading selected rows of a Parquet file by
 position

---
 treecorr/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treecorr/reader.py b/treecorr/reader.py
index f2c58bc..46a9db4 100644
--- a/treecorr/reader.py
+++ b/treecorr/reader.py
@@ -430,9 +430,9 @@ class ParquetReader():
             The data as a recarray or simple numpy array as appropriate
         """
         if np.isscalar(cols):
-            return self.df[cols][s].to_numpy()
+            return self.df[cols].iloc[s].to_numpy()
         else:
-            return self.df[cols][s].to_records()
+            return self.df[cols].iloc[s].to_records()
 
     def row_count(self, col=None, *, ext=None):
         """Count the number of rows in the named extension and column
-- 
2.43.0


From 70325bd8d5e270786622ba1a27f03a6b22e38006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:06 +0000
Subject: [PATCH 061/117] fix: writing a catalog whose units were set to
 coord.AngleUnit instances, as documented

---
 treecorr/catalog.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index a5f7f00..1ca816d 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -3121,21 +3121,24 @@ class Catalog(object):
         """
         self.logger.info('Writing catalog to %s',file_name)
 
+        # Units set by the user may be coord.AngleUnit instances rather than floats.
+        unit_value = lambda unit: unit/coord.radians if isinstance(unit, coord.AngleUnit) else unit
+
         col_names = []
         columns = []
         if self.ra is not None:
             col_names.append('ra')
-            columns.append(self.ra / self.ra_units)
+            columns.append(self.ra / unit_value(self.ra_units))
             col_names.append('dec')
-            columns.append(self.dec / self.dec_units)
+            columns.append(self.dec / unit_value(self.dec_units))
             if self.r is not None:
                 col_names.append('r')
                 columns.append(self.r)
         else:
             col_names.append('x')
-            columns.append(self.x / self.x_units)
+            columns.append(self.x / unit_value(self.x_units))
             col_names.append('y')
-            columns.append(self.y / self.y_units)
+            columns.append(self.y / unit_value(self.y_units))
             if self.z is not None:
                 col_names.append('z')
                 columns.append(self.z)
-- 
2.43.0


From f293fab74c4d986a1e80fc620fca249e5ce3e992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:06 +0000
Subject: [PATCH 062/117] fix: write_patches of a catalog holding a single
 patch uses its patch number

---
 treecorr/catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 1ca816d..e659c9c 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2876,7 +2876,7 @@ class Catalog(object):
                 os.remove(file_name)
         for i, p in enumerate(self.patches):
             # If some patches are empty, then i isn't necessarily the right patch number.
-            if p is not self:
+            if p._single_patch is not None:
                 i = p._single_patch
             file_name = file_names[i]
             self.logger.info('Writing patch %d to %s',i,file_name)
-- 
2.43.0


From 35f0d68eb39a9d510a848b0ccdc44a626e8e99af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:06 +0000
Subject: [PATCH 063/117] fix: write_patches leaves the units alone, and
 ignores x_units, y_units too

---
 treecorr/catalog.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index e659c9c..3ae78c2 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2880,10 +2880,16 @@ class Catalog(object):
                 i = p._single_patch
             file_name = file_names[i]
             self.logger.info('Writing patch %d to %s',i,file_name)
-            if p.ra is not None:
-                # Don't multiply and divide by the units on round trip.
-                p.ra_units = p.dec_units = 1
+            # Don't multiply and divide by the units on round trip.
+            # (But p might be self or a patch the user has, so put them back afterwards.)
+            p.load()
+            names = ['ra_units', 'dec_units'] if p.ra is not None else ['x_units', 'y_units']
+            units = [getattr(p, name) for name in names]
+            for name in names:
+                setattr(p, name, 1)
             p.write(file_name)
+            for name, unit in zip(names, units):
+                setattr(p, name, unit)
 
     def read_patches(self, save_patch_dir=None):
         """Read the patches from files on disk.
-- 
2.43.0


From 425cadcb245c1fa21f27005bd62d299a5deb0654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:06 +0000
Subject: [PATCH 064/117] fix: patches read from saved files have the columns
 that were written and keep_zero_weight

---
 treecorr/catalog.py | 69 +++++++++++++++------------------------------
 1 file changed, 22 insertions(+), 47 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 3ae78c2..8ee5058 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2924,58 +2924,33 @@ class Catalog(object):
     def _read_patches(self, save_patch_dir, patch_set):
         # Implementation of read_patches for a given set of (usually all) patch numbers.
 
-        # Need to be careful here to not trigger a load by accident.
-        # This would be easier if we just checked e.g. if self.ra is not None, etc.
-        # But that would trigger an unnecessary load if we aren't loaded yet.
-        # So do all this with the underscore attributes.
-        kwargs = {}
-        if self._ra is not None or self.config.get('ra_col','0') != '0':
-            kwargs['ra_col'] = 'ra'
-            kwargs['dec_col'] = 'dec'
-            kwargs['ra_units'] = 'rad'
-            kwargs['dec_units'] = 'rad'
-            if self._r is not None or self.config.get('r_col','0') != '0':
-                kwargs['r_col'] = 'r'
-        else:
-            kwargs['x_col'] = 'x'
-            kwargs['y_col'] = 'y'
-            if self._z is not None or self.config.get('z_col','0') != '0':
-                kwargs['z_col'] = 'z'
-        if (self._w is not None and self._nontrivial_w)  or self.config.get('w_col','0') != '0':
-            kwargs['w_col'] = 'w'
-        if self._wpos is not None or self.config.get('wpos_col','0') != '0':
-            kwargs['wpos_col'] = 'wpos'
-        if self._k is not None or self.config.get('k_col','0') != '0':
-            kwargs['k_col'] = 'k'
-        if self._z1 is not None or self.config.get('z1_col','0') != '0':
-            kwargs['z1_col'] = 'z1'
-        if self._z2 is not None or self.config.get('z2_col','0') != '0':
-            kwargs['z2_col'] = 'z2'
-        if self._v1 is not None or self.config.get('v1_col','0') != '0':
-            kwargs['v1_col'] = 'v1'
-        if self._v2 is not None or self.config.get('v2_col','0') != '0':
-            kwargs['v2_col'] = 'v2'
-        if self._g1 is not None or self.config.get('g1_col','0') != '0':
-            kwargs['g1_col'] = 'g1'
-        if self._g2 is not None or self.config.get('g2_col','0') != '0':
-            kwargs['g2_col'] = 'g2'
-        if self._t1 is not None or self.config.get('t1_col','0') != '0':
-            kwargs['t1_col'] = 't1'
-        if self._t2 is not None or self.config.get('t2_col','0') != '0':
-            kwargs['t2_col'] = 't2'
-        if self._q1 is not None or self.config.get('q1_col','0') != '0':
-            kwargs['q1_col'] = 'q1'
-        if self._q2 is not None or self.config.get('q2_col','0') != '0':
-            kwargs['q2_col'] = 'q2'
-        kwargs.update(self._get_var_kwargs())
-
         file_names = self.get_patch_file_names(save_patch_dir)
         # Check that the files exist, although we won't actually load them yet.
         for i in patch_set:
             if not os.path.isfile(file_names[i]):
                 raise OSError("Patch file %s not found"%file_names[i])
-        self._patches = [Catalog(file_name=file_names[i], patch=i, npatch=self.npatch, **kwargs)
-                         for i in patch_set]
+
+        keep_zero_weight = get(self.config,'keep_zero_weight',bool,False)
+        patches = []
+        for i in patch_set:
+            # Need to be careful here to not trigger a load of this catalog by accident, and what
+            # columns it has might not be clear until it is loaded.  So use whichever were written.
+            with make_reader(file_names[i], logger=self.logger) as reader:
+                names = reader.names()
+            kwargs = self._get_var_kwargs()
+            if 'ra' in names:
+                pos_cols = ['ra', 'dec', 'r']
+                kwargs['ra_units'] = 'rad'
+                kwargs['dec_units'] = 'rad'
+            else:
+                pos_cols = ['x', 'y', 'z']
+            for col in pos_cols + ['w', 'wpos', 'k', 'z1', 'z2', 'v1', 'v2', 'g1', 'g2',
+                                   't1', 't2', 'q1', 'q2']:
+                if col in names:
+                    kwargs[col + '_col'] = col
+            patches.append(Catalog(file_name=file_names[i], patch=i, npatch=self.npatch,
+                                   keep_zero_weight=keep_zero_weight, **kwargs))
+        self._patches = patches
         self.logger.info('Patches created from files %s .. %s',file_names[0],file_names[-1])
 
     def get_patches(self, *, low_mem=False):
-- 
2.43.0


From 63cc29d6df10ce602b2f79694b8d4047ae0f0c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:49 +0000
Subject: [PATCH 065/117] fix: select on a catalog that is not loaded, or which
 has already computed something

---
 treecorr/catalog.py | 55 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 15 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 8ee5058..a365154 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -796,12 +796,6 @@ class Catalog(object):
         self._nobj = None
         self._sumw = None
         self._sumw2 = None
-        self._vark = None
-        self._varz = None
-        self._varv = None
-        self._varg = None
-        self._vart = None
-        self._varq = None
         self._patches = None
         self._centers = None
         self._computed_centers = None
@@ -1032,6 +1026,24 @@ class Catalog(object):
             if 'dec_units' in self.config:
                 raise TypeError("dec_units is invalid without dec")
 
+        self._reset_var()
+
+        if file_name is None:
+            # For vector input option, can finish up now.
+            if self._single_patch is not None:
+                self._select_patch(self._single_patch)
+            self._finish_input()
+
+    def _reset_var(self):
+        # Set the variances to be the values specified by the user, if any.  Otherwise, they will
+        # be calculated when needed.
+        num = self._num
+        self._vark = None
+        self._varz = None
+        self._varv = None
+        self._varg = None
+        self._vart = None
+        self._varq = None
         vark = get_from_list(self.config,'vark',num,float)
         if vark is not None:
             self._vark = vark
@@ -1063,12 +1075,6 @@ class Catalog(object):
             self._meanq1 = self._meanq2 = 0.
             self._altmeanq1 = self._altmeanq2 = 0.
 
-        if file_name is None:
-            # For vector input option, can finish up now.
-            if self._single_patch is not None:
-                self._select_patch(self._single_patch)
-            self._finish_input()
-
     @property
     def loaded(self):
         # _x gets set regardless of whether input used x,y or ra,dec, so the state of this
@@ -1446,7 +1452,7 @@ class Catalog(object):
         if self._nontrivial_w and not keep_zero_weight:
             wpos = self._wpos if self._wpos is not None else self._w
             if np.any(wpos == 0):
-                self.select(np.where(wpos != 0)[0])
+                self._select(np.where(wpos != 0)[0])
 
         if self._single_patch is not None or self._patch is not None:
             # Easier to get these options out of the way first.
@@ -1616,7 +1622,7 @@ class Catalog(object):
         # which items to remove along the way based on the patch_centers.
         indx = self._get_patch_index(single_patch)
         self._patch = None
-        self.select(indx)
+        self._select(indx)
 
     def select(self, indx):
         """Trim the catalog to only include those objects with the give indices.
@@ -1624,6 +1630,25 @@ class Catalog(object):
         Parameters:
             indx:       A numpy array of index values to keep.
         """
+        self.load()
+        if isinstance(indx, slice) and indx == slice(None):
+            return
+        self._select(indx)
+
+        # Anything that was already calculated is for the full set of objects.
+        self._sumw = np.sum(self._w) if self._nontrivial_w else self.ntot
+        self._nobj = None
+        self._sumw2 = None
+        self._reset_var()
+        self._patches = None
+        self._computed_centers = None
+        self.__dict__.pop('_cen_s', None)
+        self.clear_cache()
+        # And loading it (or its patches) from the file would give the full set of objects too.
+        self.file_name = None
+        self.file_type = None
+
+    def _select(self, indx):
         if type(indx) == slice and indx == slice(None):
             return
         self._x = self._x[indx] if self._x is not None else None
@@ -2138,7 +2163,7 @@ class Catalog(object):
                     x_col = y_col = z_col = ra_col = dec_col = r_col = '0'
                     x_eval = y_eval = z_eval = ra_eval = dec_eval = r_eval = None
                 use = self._get_patch_index(self._single_patch)
-                self.select(use)
+                self._select(use)
                 if s == slice(None):
                     s = use
                 elif not isinstance(use, slice):
-- 
2.43.0


From dbf63c2569eee1af3b2172e825715745e1b3d1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:36 +0000
Subject: [PATCH 066/117] fix: a list with a single catalog which has patches
 is processed by patches

---
 treecorr/corr2base.py | 5 +++++
 treecorr/corr3base.py | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index d4b7557..cb3e211 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1145,6 +1145,11 @@ class Corr2(object):
             raise ValueError("Invalid patch_method %s"%patch_method)
         local = patch_method == 'local'
 
+        # A list with a single catalog means the same thing as that catalog.
+        if isinstance(cat1,list) and len(cat1) == 1:
+            cat1 = cat1[0]
+        if isinstance(cat2,list) and len(cat2) == 1:
+            cat2 = cat2[0]
         if not isinstance(cat1,list):
             cat1 = cat1.get_patches(low_mem=low_mem)
         if cat2 is not None and not isinstance(cat2,list):
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 2cfe043..d928cf4 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1774,6 +1774,13 @@ class Corr3(object):
             if not local and self.bin_type == 'LogMultipole':
                 raise ValueError("LogMultipole binning cannot use patch_method='global'")
 
+        # A list with a single catalog means the same thing as that catalog.
+        if isinstance(cat1,list) and len(cat1) == 1:
+            cat1 = cat1[0]
+        if isinstance(cat2,list) and len(cat2) == 1:
+            cat2 = cat2[0]
+        if isinstance(cat3,list) and len(cat3) == 1:
+            cat3 = cat3[0]
         if not isinstance(cat1,list):
             cat1 = cat1.get_patches(low_mem=low_mem)
         if cat2 is not None and not isinstance(cat2,list):
-- 
2.43.0


From 435f67d23c660bf5bfb52ca739a6cdad78f39689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:36 +0000
Subject: [PATCH 067/117] fix: combine keeps zero-weight objects of all the
 catalogs, not only if the first one has some

---
 treecorr/catalog.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index a365154..a179b9c 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1530,6 +1530,8 @@ class Catalog(object):
             if i == 0: continue
             loaded = cat.loaded
             cat.load()
+            check_wpos = cat._wpos if cat._wpos is not None else cat._w
+            kwargs['keep_zero_weight'] |= np.any(check_wpos==0)
             for key in keys:  # These are now just the ones that were in cat0.
                 if getattr(cat, key) is None:
                     raise ValueError("Column %s not found in cat %d"%(key,i))
-- 
2.43.0


From f3557bc270ed4e389a8084df91b7a2ba7da7a5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:57 +0000
Subject: [PATCH 068/117] fix: select with a slice made strided arrays, which
 are not valid for building fields

---
 treecorr/catalog.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index a179b9c..fedc7f1 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1633,8 +1633,11 @@ class Catalog(object):
             indx:       A numpy array of index values to keep.
         """
         self.load()
-        if isinstance(indx, slice) and indx == slice(None):
-            return
+        if isinstance(indx, slice):
+            if indx == slice(None):
+                return
+            # The C++ layer needs contiguous arrays, so don't let this make strided views.
+            indx = np.arange(self.ntot)[indx]
         self._select(indx)
 
         # Anything that was already calculated is for the full set of objects.
-- 
2.43.0


From bfc54687ec960c3e799f5174efff5cb7bc2b475e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:46 +0000
Subject: [PATCH 069/117] fix: fields of all types accept a numpy Generator as
 the rng of the catalog

---
 treecorr/field.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/treecorr/field.py b/treecorr/field.py
index 6946bea..6f414d7 100644
--- a/treecorr/field.py
+++ b/treecorr/field.py
@@ -678,7 +678,7 @@ class ZField(Field):
         self.min_top, self.max_top = self._determine_top(min_top, max_top)
         self.coords = coords if coords is not None else cat.coords
         self._coords = coord_enum(self.coords)  # These are the C++-layer enums
-        seed = 0 if rng is None else int(rng.random_sample() * 2**63)
+        seed = 0 if rng is None else int(rng.random() * 2**63)
 
         zx = cat.z if cat.z is not None else np.array([])
         wpx = cat.wpos if cat.wpos is not None else np.array([])
@@ -741,7 +741,7 @@ class VField(Field):
         self.min_top, self.max_top = self._determine_top(min_top, max_top)
         self.coords = coords if coords is not None else cat.coords
         self._coords = coord_enum(self.coords)  # These are the C++-layer enums
-        seed = 0 if rng is None else int(rng.random_sample() * 2**63)
+        seed = 0 if rng is None else int(rng.random() * 2**63)
 
         zx = cat.z if cat.z is not None else np.array([])
         wpx = cat.wpos if cat.wpos is not None else np.array([])
@@ -867,7 +867,7 @@ class TField(Field):
         self.min_top, self.max_top = self._determine_top(min_top, max_top)
         self.coords = coords if coords is not None else cat.coords
         self._coords = coord_enum(self.coords)  # These are the C++-layer enums
-        seed = 0 if rng is None else int(rng.random_sample() * 2**63)
+        seed = 0 if rng is None else int(rng.random() * 2**63)
 
         zx = cat.z if cat.z is not None else np.array([])
         wpx = cat.wpos if cat.wpos is not None else np.array([])
@@ -929,7 +929,7 @@ class QField(Field):
         self.min_top, self.max_top = self._determine_top(min_top, max_top)
         self.coords = coords if coords is not None else cat.coords
         self._coords = coord_enum(self.coords)  # These are the C++-layer enums
-        seed = 0 if rng is None else int(rng.random_sample() * 2**63)
+        seed = 0 if rng is None else int(rng.random() * 2**63)
 
         zx = cat.z if cat.z is not None else np.array([])
         wpx = cat.wpos if cat.wpos is not None else np.array([])
-- 
2.43.0


From 4fb1d05a0aa391f94dc51632132fc055f235e3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 070/117] fix: kmeans_refine_centers with an array of centers
 that is not contiguous

---
 treecorr/field.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/treecorr/field.py b/treecorr/field.py
index 6f414d7..918a28f 100644
--- a/treecorr/field.py
+++ b/treecorr/field.py
@@ -485,7 +485,11 @@ class Field(object):
                                 (default: False)
         """
         npatch = centers.shape[0]
-        self.data.KMeansRun(centers, npatch, int(max_iter), float(tol), bool(alt))
+        # The C++ code needs a contiguous array of doubles.
+        new_centers = np.ascontiguousarray(centers, dtype=float)
+        self.data.KMeansRun(new_centers, npatch, int(max_iter), float(tol), bool(alt))
+        if new_centers is not centers:
+            centers[:] = new_centers
 
     def kmeans_assign_patches(self, centers):
         """Assign patch numbers to each point according to the given centers.
-- 
2.43.0


From b26ecba303830ed08ca76b3c0820da1a8b0686b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 071/117] fix: k-means++ used the centers that are not set yet
 as if there were centers at the origin

---
 src/KMeans.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/KMeans.cpp b/src/KMeans.cpp
index 8ceb09c..39f8920 100644
--- a/src/KMeans.cpp
+++ b/src/KMeans.cpp
@@ -301,7 +301,7 @@ void InitializeCentersKMPP(std::vector<Position<C> >& centers,
             if (u < p[k]) {
                 dbg<<"Choose next center from cell "<<k<<std::endl;
                 xdbg<<"N = "<<cells[k]->getN()<<" ncen so far = "<<centers_per_cell[k]<<std::endl;
-                centers[i] = InitializeCentersKMPP(cells[k], centers, ncenters);
+                centers[i] = InitializeCentersKMPP(cells[k], centers, i);
                 xdbg<<"center["<<i<<"] = "<<centers[i]<<std::endl;
                 centers_per_cell[k] += 1;
                 break;
-- 
2.43.0


From 225b1905187b303d11f971db1aef720e691d7d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 072/117] fix: the center of a patch without objects moved to
 the origin in each iteration of k-means

---
 src/KMeans.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/KMeans.cpp b/src/KMeans.cpp
index 39f8920..9c85491 100644
--- a/src/KMeans.cpp
+++ b/src/KMeans.cpp
@@ -366,12 +366,15 @@ struct UpdateCenters
         }
     }
 
-    void finalize()
+    void finalize(const std::vector<Position<C> >& centers)
     {
         for (int i=0; i<npatch; ++i) {
             if (w[i] > 0.) {
                 new_centers[i] /= w[i];
                 new_centers[i].normalize();
+            } else {
+                // If there is nothing in this patch, leave the center where it is.
+                new_centers[i] = centers[i];
             }
             xdbg<<"New center = "<<new_centers[i]<<std::endl;
         }
@@ -811,7 +814,7 @@ void KMeansRun1(BaseField<C>& field, double* pycenters, int npatch, int max_iter
         // in the way of allocation here.
         update_centers.reset();
         FindCellsInPatches(centers, cells, update_centers, pinertia);
-        update_centers.finalize();
+        update_centers.finalize(centers);
         xdbg<<"After UpdateCenters\n";
 
         // Check for convergence
-- 
2.43.0


From 992759ca3fd5984fba42cffb1054d4c55f5e1e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:48 +0000
Subject: [PATCH 073/117] fix: k-means++ with coincident objects failed when
 all positions in the chosen cell were already used

---
 src/KMeans.cpp | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/KMeans.cpp b/src/KMeans.cpp
index 9c85491..6c572d5 100644
--- a/src/KMeans.cpp
+++ b/src/KMeans.cpp
@@ -156,12 +156,12 @@ void InitializeCentersRand(std::vector<Position<C> >& centers,
     }
 }
 
+struct LeafAlreadyUsed {};
+
 template <int C>
 Position<C> InitializeCentersKMPP(const BaseCell<C>* cell,
                                   const std::vector<Position<C> >& centers, long ncen)
 {
-    struct LeafAlreadyUsed {};
-
     xdbg<<"Start recursive InitializeCentersKMPP\n";
 
     // If we are in a leaf, then return this position as the next center to use.
@@ -293,24 +293,34 @@ void InitializeCentersKMPP(std::vector<Position<C> >& centers,
                         centers_per_cell[k]) * (dsq1 + coef * SQR(cells[k]->getSize()));
             sump += p[k];
         }
-        double u = urand();
+        double u = urand() * sump;
         xdbg<<"u = "<<u<<std::endl;
-        for (long k=0; k<ncells; ++k) {
-            p[k] /= sump;
-            xdbg<<"Prob("<<k<<") = "<<p[k]<<std::endl;
-            if (u < p[k]) {
+        long kfirst = 0;
+        while (kfirst < ncells-1 && u >= p[kfirst]) u -= p[kfirst++];
+
+        // Normally the next center comes from cell kfirst.  But if there are coincident points,
+        // it's possible that all the positions in this cell have already been used.
+        // Then use the next cell that still has something left.
+        bool found = false;
+        for (long j=0; j<ncells && !found; ++j) {
+            long k = (kfirst + j) % ncells;
+            try {
                 dbg<<"Choose next center from cell "<<k<<std::endl;
                 xdbg<<"N = "<<cells[k]->getN()<<" ncen so far = "<<centers_per_cell[k]<<std::endl;
                 centers[i] = InitializeCentersKMPP(cells[k], centers, i);
                 xdbg<<"center["<<i<<"] = "<<centers[i]<<std::endl;
                 centers_per_cell[k] += 1;
-                break;
-            } else {
-                u -= p[k];
-                xdbg<<"u -> "<<u<<std::endl;
-                Assert(k != ncells-1);
+                found = true;
+            } catch (LeafAlreadyUsed) {
+                dbg<<"No unused positions in cell "<<k<<std::endl;
             }
         }
+        if (!found) {
+            // There are fewer distinct positions than centers.
+            // As for the other methods, repeat one with a small arbitrary shift.
+            dbg<<"All positions have been used.\n";
+            centers[i] = Position<C>(centers[0] * (1. + urand() * 1.e-8));
+        }
     }
 }
 
-- 
2.43.0


From 7d94284ca9aae76aa2dac9fabd9fb7ecb9a96c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:04 +0000
Subject: [PATCH 074/117] fix: objects equidistant from two patch centers
 belong to only one of the patches

---
 treecorr/catalog.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index fedc7f1..745ba0b 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1575,8 +1575,6 @@ class Catalog(object):
             use = np.where(self._patch == single_patch)[0]
         elif self._centers is not None:
             self._generate_xyz()
-            use = np.empty(self.ntot, dtype=int)
-            npatch = self._centers.shape[0]
             centers = np.ascontiguousarray(self._centers)
             if self._z is None:
                 assert centers.shape[1] == 2
@@ -1584,8 +1582,11 @@ class Catalog(object):
                 assert centers.shape[1] == 3
             set_omp_threads(self.config.get('num_threads',None))
             zx = self._z if self._z is not None else np.array([])
-            _treecorr.SelectPatch(single_patch, centers, self.npatch, self._x, self._y, zx, use)
-            use = np.where(use)[0]
+            # Use the same function as _assign_patches, so (nearly) equidistant objects are
+            # consistently assigned to one patch.
+            patch = np.empty(self.ntot, dtype=int)
+            _treecorr.QuickAssign(centers, self.npatch, self._x, self._y, zx, patch)
+            use = np.where(patch == single_patch)[0]
         else:
             use = slice(None)  # Which ironically means use all. :)
         return use
-- 
2.43.0


From 8838cebac71ab26b43d459518f04d7a755190a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:49 +0000
Subject: [PATCH 075/117] fix: k-means++ took cells whose center is at an
 existing center as being used up

---
 src/KMeans.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/KMeans.cpp b/src/KMeans.cpp
index 6c572d5..c9248be 100644
--- a/src/KMeans.cpp
+++ b/src/KMeans.cpp
@@ -191,12 +191,6 @@ Position<C> InitializeCentersKMPP(const BaseCell<C>* cell,
         if (dsq2j < dsq2) dsq2 = dsq2j;
     }
     xdbg<<"dsq1 = "<<dsq1<<", dsq2 = "<<dsq2<<std::endl;
-    if (dsq1 + dsq2 == 0.) {
-        dbg<<"All used.  Throw exception and try other branch.\n";
-        xdbg<<"N1 = "<<left->getN()<<"  N2 = "<<right->getN()<<std::endl;
-        throw LeafAlreadyUsed();
-    }
-
     double u = urand() * (dsq1 + dsq2);
     if (u < dsq1) {
         xdbg<<"u = "<<u<<", recurse left\n";
-- 
2.43.0


From 12919c5d8a77b520697d9c423fd8c4bfa1657049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:50 +0000
Subject: [PATCH 076/117] fix: sample_pairs used whichever tree was made last,
 even if made with a larger minimum cell size

---
 treecorr/corr2base.py | 37 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index cb3e211..6d75642 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1528,28 +1528,21 @@ class Corr2(object):
 
         self._set_metric(metric, cat1.coords, cat2.coords)
 
-        f1 = cat1.field
-        f2 = cat2.field
-
-        if f1 is None or f1._coords != self._coords:
-            # I don't really know if it's possible to get the coords out of sync,
-            # so the 2nd check might be superfluous.
-            # The first one though is definitely possible, so we need to check that.
-            self.logger.debug("In sample_pairs, making default field for cat1")
-            min_size, max_size = self._get_minmax_size()
-            f1 = cat1.getNField(min_size=min_size, max_size=max_size,
-                                split_method=self.split_method,
-                                brute=self.brute is True or self.brute == 1,
-                                min_top=self.min_top, max_top=self.max_top,
-                                coords=self.coords)
-        if f2 is None or f2._coords != self._coords:
-            self.logger.debug("In sample_pairs, making default field for cat2")
-            min_size, max_size = self._get_minmax_size()
-            f2 = cat2.getNField(min_size=min_size, max_size=max_size,
-                                split_method=self.split_method,
-                                brute=self.brute is True or self.brute == 2,
-                                min_top=self.min_top, max_top=self.max_top,
-                                coords=self.coords)
+        # Note: Don't just use any field that the catalogs may already have, since that might have
+        # been made with other parameters (e.g. a larger min_size), which would not be appropriate
+        # for this sampling.  If the right kind of field has already been made, then it will
+        # usually still be in the cache.
+        min_size, max_size = self._get_minmax_size()
+        f1 = cat1.getNField(min_size=min_size, max_size=max_size,
+                            split_method=self.split_method,
+                            brute=self.brute is True or self.brute == 1,
+                            min_top=self.min_top, max_top=self.max_top,
+                            coords=self.coords)
+        f2 = cat2.getNField(min_size=min_size, max_size=max_size,
+                            split_method=self.split_method,
+                            brute=self.brute is True or self.brute == 2,
+                            min_top=self.min_top, max_top=self.max_top,
+                            coords=self.coords)
 
         # Apply units to min_sep, max_sep:
         min_sep *= self._sep_units
-- 
2.43.0


From 1b038236dfd40860368819486b76aeebdb8217ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:49 +0000
Subject: [PATCH 077/117] fix: get_near with min_size > 0 on a spherical field
 of a catalog with r compared distances in 3d

---
 treecorr/field.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/treecorr/field.py b/treecorr/field.py
index 918a28f..1f13acc 100644
--- a/treecorr/field.py
+++ b/treecorr/field.py
@@ -250,9 +250,15 @@ class Field(object):
             # Get those indices
             ind = self._get_near(x, y, z, sep1)
             # Now check the actual radii of these points using the catalog x,y,z values.
-            rsq = (self.cat.x[ind]-x)**2 + (self.cat.y[ind]-y)**2
-            if self._coords != _treecorr.Flat:
-                rsq += (self.cat.z[ind]-z)**2
+            catx, caty = self.cat.x[ind], self.cat.y[ind]
+            catz = self.cat.z[ind] if self._coords != _treecorr.Flat else None
+            if self._coords == _treecorr.Sphere:
+                # The catalog values include r if it has one, but the field is on the unit sphere.
+                r = np.sqrt(catx**2 + caty**2 + catz**2)
+                catx, caty, catz = catx/r, caty/r, catz/r
+            rsq = (catx-x)**2 + (caty-y)**2
+            if catz is not None:
+                rsq += (catz-z)**2
             # Select the ones with r < sep
             near = rsq < sep**2
             ind = ind[near]
-- 
2.43.0


From d18b3efaca6c8f8aabe803bcf5fb8d7990d29025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:40 +0000
Subject: [PATCH 078/117] fix: sample_pairs could return pairs outside the
 given range even with bin_slop=0

---
 src/Corr2.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/Corr2.cpp b/src/Corr2.cpp
index 74b639a..6252ea2 100644
--- a/src/Corr2.cpp
+++ b/src/Corr2.cpp
@@ -720,6 +720,19 @@ Sampler::Sampler(const BaseCorr2& base_corr2, double minsep, double maxsep,
     _halfminsep = 0.5*_minsep;
     _minsepsq = _minsep*_minsep;
     _maxsepsq = _maxsep*_maxsep;
+    // Adjust the bin size slightly to make both minsep and maxsep be edges of bins.
+    // Otherwise cells could be taken to be within a single bin when that bin is partly
+    // outside of the given range.
+    if (_bin_type == Log && _minsep == 0.) {
+        // Here there is no bin size that would work.  With binsize = 0, cells are only taken
+        // together when they are small enough that it doesn't matter where the bin edges are.
+        _binsize = 0.;
+    } else if (_maxsep > _minsep) {
+        double range = (_bin_type == Log ? log(_maxsep/_minsep) :
+                        _bin_type == TwoD ? 2.*_maxsep :
+                        _maxsep - _minsep);
+        _binsize = range / std::ceil(range / _binsize);
+    }
     _fullmaxsep = CalculateFullMaxSep(base_corr2.getBinType(), _minsep, _maxsep, _nbins, _binsize);
     _fullmaxsepsq = _fullmaxsep*_fullmaxsep;
 }
-- 
2.43.0


From a132e139faf1155efd4ec4b86d806384bd3ea6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:53 +0000
Subject: [PATCH 079/117] fix: sample_pairs could return entries that are not
 pairs when the list was filled by several cells

---
 src/Corr2.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Corr2.cpp b/src/Corr2.cpp
index 6252ea2..68f96f9 100644
--- a/src/Corr2.cpp
+++ b/src/Corr2.cpp
@@ -890,9 +890,12 @@ void Sampler::finishProcess(
         std::vector<long> selection(_n);
         SelectRandomFrom(_k+m, selection);
         // If any items in k<=i<n are from the original set, put them in their original place.
+        // Note: the item swapped into location i might also be one of the original set.
         for(long i=_k;i<_n;++i) {
-            long j = selection[i];
-            if (j < _n) std::swap(selection[i], selection[j]);
+            while (selection[i] < _k) {
+                long j = selection[i];
+                std::swap(selection[i], selection[j]);
+            }
         }
 
         // Now any items with j >= k can replace the value at their i in this list.
-- 
2.43.0


From c59232567e27596d4dd99822b78f3641f2757c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:58 +0000
Subject: [PATCH 080/117] fix: get_near could return uninitialized values when
 a point was right at the given separation

---
 include/Field.h   |  2 +-
 src/Field.cpp     | 11 +++++++----
 treecorr/field.py |  4 ++--
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/Field.h b/include/Field.h
index 6b2fd25..1de796b 100644
--- a/include/Field.h
+++ b/include/Field.h
@@ -65,7 +65,7 @@ public:
         return reinterpret_cast<std::vector<const BaseCell<C>*>&>(_cells);
     }
     long countNear(double x, double y, double z, double sep) const;
-    void getNear(double x, double y, double z, double sep, long* indices, long n) const;
+    long getNear(double x, double y, double z, double sep, long* indices, long n) const;
 
     long _nobj;
     double _minsize;
diff --git a/src/Field.cpp b/src/Field.cpp
index 3ecd669..e494763 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -393,7 +393,7 @@ void GetNear(const BaseCell<C>& cell, const Position<C>& pos, double sep, double
 }
 
 template <int C>
-void BaseField<C>::getNear(double x, double y, double z, double sep, long* indices, long n) const
+long BaseField<C>::getNear(double x, double y, double z, double sep, long* indices, long n) const
 {
     BuildCells();  // Make sure this is done.
     Position<C> pos(x, y, z);
@@ -405,6 +405,9 @@ void BaseField<C>::getNear(double x, double y, double z, double sep, long* indic
         GetNear(*_cells[i], pos, sep, sepsq, indices, k, n);
         dbg<<"k -> "<<k<<std::endl;
     }
+    // Usually k == n, but for points right at the given separation, rounding errors may
+    // make this slightly different from what countNear had returned.
+    return k;
 }
 
 //
@@ -572,12 +575,12 @@ Field<QData,C>* BuildQField(
 }
 
 template <int C>
-void FieldGetNear(BaseField<C>& field, double x, double y, double z, double sep,
+long FieldGetNear(BaseField<C>& field, double x, double y, double z, double sep,
                   py::array_t<long>& inp)
 {
     long n = inp.size();
     long* indices = static_cast<long*>(inp.mutable_data());
-    field.getNear(x, y, z, sep, indices, n);
+    return field.getNear(x, y, z, sep, indices, n);
 }
 
 // Export the above functions using pybind11
@@ -610,7 +613,7 @@ void GenerateXYZ(
 template <int C>
 void WrapField(py::module& _treecorr, std::string Cstr)
 {
-    typedef void (*getnear_type)(BaseField<C>& field, double x, double y, double z,
+    typedef long (*getnear_type)(BaseField<C>& field, double x, double y, double z,
                                  double sep, py::array_t<long>& inp);
     typedef void (*init_type)(BaseField<C>& field, py::array_t<double>& cenp, int npatch,
                               long long seed);
diff --git a/treecorr/field.py b/treecorr/field.py
index 1f13acc..b94f981 100644
--- a/treecorr/field.py
+++ b/treecorr/field.py
@@ -272,8 +272,8 @@ class Field(object):
         n = self._count_near(x, y, z, sep)
         indices = np.empty(n, dtype=int)
         # Now fill the array with the indices of the nearby points.
-        self.data.getNear(x, y, z, sep, indices)
-        return indices
+        n = self.data.getNear(x, y, z, sep, indices)
+        return indices[:n]
 
     def run_kmeans(self, npatch, *, max_iter=200, tol=1.e-5, init='tree', alt=False, rng=None):
         r"""Use k-means algorithm to set patch labels for a field.
-- 
2.43.0


From 42734701034e1be3fcd2a8f2dfeae0bc386d1ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:14 +0000
Subject: [PATCH 081/117] fix: bin_slop was applied in the wrong units for
 Linear bins with sep_units

---
 treecorr/corr2base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 6d75642..6f53fec 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -474,6 +474,7 @@ class Corr2(object):
         if self.bin_slop < 0.0:
             self._ro.bin_slop = min(max_good_slop, 1.0)
         self._ro.b = self.bin_size * self.bin_slop
+        self._ro._b = self._bin_size * self.bin_slop
         if self.bin_slop > max_good_slop + 0.0001 and self.angle_slop > 0.1:
             self.logger.warning(
                 "Using bin_slop = %g, angle_slop = %g, bin_size = %g (b = %g).\n"%(
@@ -575,6 +576,8 @@ class Corr2(object):
     @property
     def _bin_size(self): return self._ro._bin_size
     @property
+    def _b(self): return self._ro._b
+    @property
     def split_method(self): return self._ro.split_method
     @property
     def min_top(self): return self._ro.min_top
@@ -633,7 +636,7 @@ class Corr2(object):
         if self._corr is None:
             x = np.array([])
             self._corr = self._builder(self._bintype, self._min_sep, self._max_sep, self._nbins,
-                                       self._bin_size, self.b, self.angle_slop,
+                                       self._bin_size, self._b, self.angle_slop,
                                        self.min_rpar, self.max_rpar,
                                        self.xperiod, self.yperiod, self.zperiod,
                                        self._xi1, self._xi2, self._xi3, self._xi4,
@@ -1449,11 +1452,11 @@ class Corr2(object):
             #      s = 0.5 * b * minsep / (1+1.5 b)
             #        = b * minsep / (2+3b)
             if self.bin_type == 'Log':
-                b1 = min(self.angle_slop, self.b)
+                b1 = min(self.angle_slop, self._b)
                 min_size = self._min_sep * b1 / (2.+3.*b1)
             else:
                 a = self.angle_slop
-                min_size = min(a * self._min_sep / (2.+3.*a), self.b/2.)
+                min_size = min(a * self._min_sep / (2.+3.*a), self._b/2.)
 
             # The maximum size cell that will be useful is one where a cell of size s will
             # be split at the maximum separation even if the other size = 0.
@@ -1461,7 +1464,7 @@ class Corr2(object):
             if self.bin_type == 'Log':
                 max_size = self._max_sep * b1
             else:
-                max_size = min(a * self._max_sep, self.b)
+                max_size = min(a * self._max_sep, self._b)
 
             return min_size, max_size
         else:
-- 
2.43.0


From 744e2f5ada5556b56dfc762b02a3bc23b6db93a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:24 +0000
Subject: [PATCH 082/117] fix: Catalog.resize_cache had no effect on caches
 that had not been used yet

---
 treecorr/catalog.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 745ba0b..3684417 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2394,13 +2394,13 @@ class Catalog(object):
         Parameters:
             maxsize (float):    The new maximum number of fields of each type to cache.
         """
-        if hasattr(self, '_nfields'): self.nfields.resize(maxsize)
-        if hasattr(self, '_kfields'): self.kfields.resize(maxsize)
-        if hasattr(self, '_zfields'): self.zfields.resize(maxsize)
-        if hasattr(self, '_vfields'): self.vfields.resize(maxsize)
-        if hasattr(self, '_gfields'): self.gfields.resize(maxsize)
-        if hasattr(self, '_tfields'): self.tfields.resize(maxsize)
-        if hasattr(self, '_qfields'): self.qfields.resize(maxsize)
+        self.nfields.resize(maxsize)
+        self.kfields.resize(maxsize)
+        self.zfields.resize(maxsize)
+        self.vfields.resize(maxsize)
+        self.gfields.resize(maxsize)
+        self.tfields.resize(maxsize)
+        self.qfields.resize(maxsize)
 
     def clear_cache(self):
         """Clear all field caches.
-- 
2.43.0


From 1eca7f12fbe96664881d162f9132eb58e9ee88d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:24 +0000
Subject: [PATCH 083/117] fix: LRU_Cache with an initial size of 0 could not be
 used

---
 treecorr/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treecorr/util.py b/treecorr/util.py
index 0fcc205..466e1b6 100644
--- a/treecorr/util.py
+++ b/treecorr/util.py
@@ -198,7 +198,7 @@ class LRU_Cache(object):
         self.user_function = user_function
         self.cache = {}
 
-        last = self.root
+        last = self.root[1] = self.root
         for i in range(maxsize):
             key = object()
             self.cache[key] = last[1] = last = [last, self.root, key, None]
-- 
2.43.0


From 2db095f02cd0116ffcd955def0b0f872498c43a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:55 +0000
Subject: [PATCH 084/117] fix: 3pt correlations with the Arc metric mixed up
 cell sizes and angular separations

---
 include/Metric.h | 14 ++++++++++++++
 src/Corr3.cpp    | 15 ++++++++-------
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/include/Metric.h b/include/Metric.h
index 4b279c7..5db8163 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -887,6 +887,20 @@ struct MetricHelper<Periodic, P>
 
 };
 
+// The size of a cell in the same units as the distances.  For most metrics, this is just the size,
+// but the Arc metric uses angles, for which DistSq also converts the sizes.
+template <int M, int P, int C>
+inline double effectiveSize(const MetricHelper<M,P>& , const Position<C>& , double s)
+{ return s; }
+
+template <int P, int C>
+inline double effectiveSize(const MetricHelper<Arc,P>& metric, const Position<C>& p, double s)
+{
+    double s2=0.;
+    if (s > 0.) metric.DistSq(p, p, s, s2);
+    return s;
+}
+
 // A quick helper struct so we only instantiate valid combinations of M, C
 template <int M, int C>
 struct ValidMC;
diff --git a/src/Corr3.cpp b/src/Corr3.cpp
index dd76871..06340ef 100644
--- a/src/Corr3.cpp
+++ b/src/Corr3.cpp
@@ -435,7 +435,7 @@ void BaseCorr3::process3(const BaseCell<C>& c1, const MetricHelper<M,0>& metric)
         xdbg<<ws()<<"    w == 0.  return\n";
         return;
     }
-    if (c1.getSize() < _halfminsep) {
+    if (effectiveSize(metric, c1.getPos(), c1.getSize()) < _halfminsep) {
         xdbg<<ws()<<"    size < halfminsep.  return\n";
         return;
     }
@@ -473,15 +473,16 @@ void BaseCorr3::process12(const BaseCell<C>& c1, const BaseCell<C>& c2,
         xdbg<<ws()<<"    w2 == 0.  return\n";
         return;
     }
-    double s2 = c2.getSize();
+    double s2 = effectiveSize(metric, c2.getPos(), c2.getSize());
     if (BinTypeHelper<B>::tooSmallS2(s2, _halfminsep, _minu, _minv))
     {
         xdbg<<ws()<<"    s2 smaller than minimum triangle side.  return\n";
         return;
     }
 
-    double s1 = c1.getSize();
-    double rsq = metric.DistSq(c1.getPos(), c2.getPos(), s1, s2);
+    double s1 = effectiveSize(metric, c1.getPos(), c1.getSize());
+    double s=0.;
+    double rsq = metric.DistSq(c1.getPos(), c2.getPos(), s, s);
     double s1ps2 = s1 + s2;
 
     // If all possible triangles will have d2 < minsep, then abort the recursion here.
@@ -667,9 +668,9 @@ void BaseCorr3::process111Sorted(
     const BaseCell<C>& c1, const BaseCell<C>& c2, const BaseCell<C>& c3,
     const MetricHelper<M,0>& metric, double d1sq, double d2sq, double d3sq)
 {
-    const double s1 = c1.getSize();
-    const double s2 = c2.getSize();
-    const double s3 = c3.getSize();
+    const double s1 = effectiveSize(metric, c1.getPos(), c1.getSize());
+    const double s2 = effectiveSize(metric, c2.getPos(), c2.getSize());
+    const double s3 = effectiveSize(metric, c3.getPos(), c3.getSize());
 
     xdbg<<"Process111Sorted: c1 = "<<c1.getPos()<<"  "<<c1.getSize()<<"  "<<c1.getN()<<std::endl;
     xdbg<<"                  c2 = "<<c2.getPos()<<"  "<<c2.getSize()<<"  "<<c2.getN()<<std::endl;
-- 
2.43.0


From 0321986bcc820a1f247ac0c22bdfbdb2c6fcd943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:16 +0000
Subject: [PATCH 085/117] fix: LogRUV min_v, max_v pruning was not valid for
 large triangles on the sphere with the Arc metric

---
 include/BinType.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/BinType.h b/include/BinType.h
index 61ce82b..c8a3a16 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -541,7 +541,9 @@ struct BinTypeHelper<LogRUV>
         // d1 > maxv d3 + d2+s1+s2+s3 + maxv*(s1+s2)
         // As before, use the fact that d3 < d2, so check
         // d1 > maxv d2 + d2+s1+s2+s3 + maxv*(s1+s2)
-        double sums = s1+s2+s3;
+        // Note: In the plane, moving p3 by s3 changes d1-d2 by at most s3, since the angle at p3 is
+        // at most 60 degrees.  But on the sphere, it can be larger, so allow for 2*s3.
+        double sums = s1+s2+2.*s3;
         if (maxv < 1. && d1sq > SQR((1.+maxv)*d2 + sums + maxv * (s1+s2))) {
             // We don't need any extra checks here related to the possibility of the sides
             // switching roles, since if this condition is true, than d1 has to be the largest
-- 
2.43.0


From 31691f4448b492db532e6c1293f877950052f295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:20 +0000
Subject: [PATCH 086/117] fix: LogRUV min_v could be set to a negative value
 when implied by max_v, vbin_size and nvbins

---
 treecorr/corr3base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index d928cf4..e51786e 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -514,7 +514,7 @@ class Corr3(object):
                     if 'max_v' not in self.config:
                         self._ro.max_v = min(self.min_v + self.nvbins * self.vbin_size, 1.)
                     else:  # min_v not in config
-                        self._ro.min_v = max(self.max_v - self.nvbins * self.vbin_size, -1.)
+                        self._ro.min_v = max(self.max_v - self.nvbins * self.vbin_size, 0.)
             # Adjust vbin_size given the other values
             self._ro.vbin_size = (self.max_v-self.min_v)/self.nvbins
             self.logger.info("v: nbins = %d, min,max = %g..%g, bin_size = %g",
-- 
2.43.0


From 7d26565d209239290c5a5c54789555eb4183333d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:31 +0000
Subject: [PATCH 087/117] fix: meanphi of empty bins was in radians rather than
 phi_units

---
 treecorr/corr3base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index e51786e..1d57c28 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1886,7 +1886,7 @@ class Corr3(object):
             self.meand3[mask2] = self.d3nom[mask2]
             self.meanlogd3[mask2] = self.logd3[mask2]
             if self.bin_type == 'LogSAS':
-                self.meanu[mask2] = self.phi[mask2]
+                self.meanu[mask2] = self.phi[mask2] / self._phi_units
                 self.meand1[mask2] = np.sqrt(self.d2nom[mask2]**2 + self.d3nom[mask2]**2
                                              - 2*self.d2nom[mask2]*self.d3nom[mask2]*
                                              np.cos(self.phi[mask2]))
-- 
2.43.0


From 4a207e9bbdfe39a4664686168dd3331daeb431e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 088/117] fix: the angle of LogSAS triangles was wrong for the
 Arc metric with 3d coordinates

---
 include/Metric.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/Metric.h b/include/Metric.h
index 5db8163..dc72f0f 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -742,9 +742,13 @@ struct MetricHelper<Arc, P>
         // Rather than do trig though, recompute the chord lengths so we can compute
         // cos(phi) with just regular arithmetic and a sqrt.
         //
-        double d1sq = (c2.getPos() - c3.getPos()).normSq();
-        double d2sq = (c1.getPos() - c3.getPos()).normSq();
-        double d3sq = (c1.getPos() - c2.getPos()).normSq();
+        // Note: For 3d coordinates, the positions need to be normalized first.
+        const Position<Sphere> p1(c1.getPos());
+        const Position<Sphere> p2(c2.getPos());
+        const Position<Sphere> p3(c3.getPos());
+        double d1sq = (p2 - p3).normSq();
+        double d2sq = (p1 - p3).normSq();
+        double d3sq = (p1 - p2).normSq();
 
         double cosphi = (d2sq + d3sq - 0.5*d2sq*d3sq - d1sq);
         cosphi /= 2. * std::sqrt( d2sq * d3sq * (1.-0.25*d2sq) * (1.-0.25*d3sq) );
-- 
2.43.0


From 6382b1e36acb113adff1a0503c9af7e3c4ee3bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:08 +0000
Subject: [PATCH 089/117] fix: LogSAS min_phi/max_phi pruning was not valid for
 large triangles on the sphere with the Arc metric, or for triangles across
 the Periodic boundary

---
 include/BinType.h | 45 +++++++++++++++++++++++++++++--------------
 include/Metric.h  | 49 +++++++++++++++++++++++++++++++++++++++++++++++
 src/Corr3.cpp     |  4 +++-
 3 files changed, 83 insertions(+), 15 deletions(-)

diff --git a/include/BinType.h b/include/BinType.h
index c8a3a16..4e35595 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -420,7 +420,8 @@ struct BinTypeHelper<LogRUV>
     static bool noAllowedAngles(double rsq, double s1ps2, double s1, double s2,
                                 double halfminsep,
                                 double minu, double minusq, double maxu, double maxusq,
-                                double minv, double minvsq, double maxv, double maxvsq)
+                                double minv, double minvsq, double maxv, double maxvsq,
+                                double , bool )
     {
         // The maximum possible u value at this point is 2s2 / (r - s1 - s2)
         // If this is less than minu, we can stop.
@@ -864,7 +865,8 @@ struct BinTypeHelper<LogSAS>
     static bool noAllowedAngles(double rsq, double s1ps2, double s1, double s2,
                                 double halfminsep,
                                 double minphi, double , double maxphi, double ,
-                                double mincosphi, double , double maxcosphi, double )
+                                double mincosphi, double , double maxcosphi, double ,
+                                double ascale, bool wrap)
     {
         xdbg<<"Check noAllowedAngles\n";
         // Maximum phi/2 is for right triangle with legs d and s2, and hypotenuse r-s1.
@@ -877,9 +879,9 @@ struct BinTypeHelper<LogSAS>
         //          = 1 - 2 (s2/(r-s1))^2
         // Note: if not ordered, we still might be able to do this check if 2*s2 < minsep,
         // since then the only allowed orientation will be with d1 fully in c2.
-        if (maxcosphi < 1 && (O || s2 < halfminsep) && (SQR(s1) < rsq)) {
+        if (maxcosphi < 1 && !wrap && (O || s2 < halfminsep) && (SQR(s1) < rsq)) {
             double h = sqrt(rsq) - s1;  // h = r-s1
-            double cosphi = 1. - 2*SQR(s2/h);
+            double cosphi = 1. - 2*SQR(ascale*s2/h);
             if (cosphi > maxcosphi) {
                 xdbg<<"noAllowedAngles: "<<sqrt(rsq)<<"  "<<s1ps2<<"  "<<s1<<"  "<<s2<<std::endl;
                 xdbg<<"cosphi = "<<cosphi<<std::endl;
@@ -947,12 +949,26 @@ struct BinTypeHelper<LogSAS>
 
         cosphi = metric.calculateCosPhi(c1,c2,c3,d1sq,d2sq,d3sq,d1,d2,d3);
 
+        // On the sphere, the directions from c1 can change more than the below bounds would imply.
+        const double ascale2 = angleScale(metric, d3, s1+s2);
+        const double ascale3 = angleScale(metric, d2, s1+s3);
+        if (s1+s2+s3 > 0. && canWrap(metric, d2+d3 + 2*s1+s2+s3)) {
+            xdbg<<"separations could be to different images, continue splitting.\n";
+            return false;
+        }
+        if (ascale2*(s1+s2) >= d3 || ascale3*(s1+s3) >= d2) {
+            xdbg<<"directions from c1 could be anything, continue splitting.\n";
+            return false;
+        }
+
         // If we are not swapping 2,3, stop if orientation cannot be counter-clockwise.
         if (O > 1 &&
             !metric.CCW(c1.getPos(), c3.getPos(), c2.getPos())) {
             // In 3 dimensions, the orientation as seen from the origin can flip without phi ever
             // being 0 or pi.
-            if (canFlipOrientation(c1.getPos(), c2.getPos(), c3.getPos(), s1, s2, s3)) {
+            if (canFlipOrientation(c1.getPos(), nearestImage(metric, c1.getPos(), c2.getPos()),
+                                   nearestImage(metric, c1.getPos(), c3.getPos()),
+                                   s1, s2, s3)) {
                 xdbg<<"CW but orientation could flip\n";
                 return false;
             }
@@ -963,7 +979,7 @@ struct BinTypeHelper<LogSAS>
             double sindphi2=0., sindphi3=0.;
             double cosdphi2sq=0., cosdphi3sq=0.;
             if (s1+s2 > 0) {
-                sindphi2 = (s1+s2)/d3;
+                sindphi2 = ascale2*(s1+s2)/d3;
                 cosdphi2sq = 1-SQR(sindphi2);
                 if (cosdphi2sq < SQR(cosphi)) {
                     xdbg<<"CW but dphi2 could be larger than phi\n";
@@ -971,7 +987,7 @@ struct BinTypeHelper<LogSAS>
                 }
             }
             if (s1+s3 > 0) {
-                sindphi3 = (s1+s3)/d2;
+                sindphi3 = ascale3*(s1+s3)/d2;
                 cosdphi3sq = 1-SQR(sindphi3);
                 if (cosdphi3sq < SQR(cosphi)) {
                     xdbg<<"CW but dphi3 could be larger than phi\n";
@@ -1007,12 +1023,12 @@ struct BinTypeHelper<LogSAS>
             // Start with the current value of cosphi, and adjust by dphi2, dphi3
             double cosphimax = cosphi;
             if (s1+s2 > 0) {
-                double sindphi2 = (s1+s2)/d3;
+                double sindphi2 = ascale2*(s1+s2)/d3;
                 double cosdphi2sq = 1-SQR(sindphi2);
                 if (cosdphi2sq < maxcosphisq) return false;
                 double cosdphi2 = sqrt(cosdphi2sq);
                 if (s1+s3 > 0) {
-                    double sindphi3 = (s1+s3)/d2;
+                    double sindphi3 = ascale3*(s1+s3)/d2;
                     double cosdphi3sq = 1-SQR(sindphi3);
                     if (cosdphi3sq < maxcosphisq) return false;
                     double cosdphi3 = sqrt(cosdphi3sq);
@@ -1027,7 +1043,7 @@ struct BinTypeHelper<LogSAS>
                     cosphimax = cosphi * cosdphi2 - sinphi * sindphi2;
                 }
             } else if (s1+s3 > 0) {
-                double sindphi3 = (s1+s3)/d2;
+                double sindphi3 = ascale3*(s1+s3)/d2;
                 double cosdphi3sq = 1-SQR(sindphi3);
                 if (cosdphi3sq < maxcosphisq) return false;
                 double cosdphi3 = sqrt(cosdphi3sq);
@@ -1055,7 +1071,7 @@ struct BinTypeHelper<LogSAS>
             // Start with the current value of cosphi, and adjust by dphi2, dphi3
             double cosphimin = cosphi;
             if (s1+s2 > 0) {
-                double sindphi2 = (s1+s2)/d3;
+                double sindphi2 = ascale2*(s1+s2)/d3;
                 double cosdphi2sq = 1-SQR(sindphi2);
                 // Note mincosphisq is really sgn(mincosphi) mincosphi^2
                 // So this test will only pass if dphi2 > Pi-phi_max.
@@ -1063,7 +1079,7 @@ struct BinTypeHelper<LogSAS>
                 if (cosdphi2sq < -mincosphisq) return false;
                 double cosdphi2 = sqrt(cosdphi2sq);
                 if (s1+s3 > 0) {
-                    double sindphi3 = (s1+s3)/d2;
+                    double sindphi3 = ascale3*(s1+s3)/d2;
                     double cosdphi3sq = 1-SQR(sindphi3);
                     if (cosdphi3sq < -mincosphisq) return false;
                     double cosdphi3 = sqrt(cosdphi3sq);
@@ -1078,7 +1094,7 @@ struct BinTypeHelper<LogSAS>
                     cosphimin = cosphi * cosdphi2 + sinphi * sindphi2;
                 }
             } else if (s1+s3 > 0) {
-                double sindphi3 = (s1+s3)/d2;
+                double sindphi3 = ascale3*(s1+s3)/d2;
                 double cosdphi3sq = 1-SQR(sindphi3);
                 if (cosdphi3sq < maxcosphisq) return false;
                 double cosdphi3 = sqrt(cosdphi3sq);
@@ -1327,7 +1343,8 @@ struct BinTypeHelper<LogMultipole>
     static bool noAllowedAngles(double rsq, double s1ps2, double s1, double s2,
                                 double halfminsep,
                                 double , double , double , double ,
-                                double , double , double , double )
+                                double , double , double , double ,
+                                double , bool )
     { return false; }
 
     // Once we have all the distances, see if it's possible to stop
diff --git a/include/Metric.h b/include/Metric.h
index dc72f0f..69a1a36 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -905,6 +905,55 @@ inline double effectiveSize(const MetricHelper<Arc,P>& metric, const Position<C>
     return s;
 }
 
+// When a point at distance d moves by s, its direction changes by at most asin(s/d) in the plane.
+// On the sphere, this can be larger.  This function returns the factor by which s/d needs to be
+// multiplied to be a valid bound.
+template <int M, int P>
+inline double angleScale(const MetricHelper<M,P>& , double , double )
+{ return 1.; }
+
+template <int P>
+inline double angleScale(const MetricHelper<Arc,P>& , double d, double s)
+{
+    if (s == 0.) return 1.;
+    // If the point could be coincident or opposite, then any change is possible.
+    const double huge = 1.e10;
+    if (d-s <= 0. || d+s >= M_PI) return huge;
+    double minsin = std::min(std::sin(d-s), std::sin(d+s));
+    return minsin * huge > d ? d / minsin : huge;
+}
+
+// With periodic boundaries, the separation vector from one point to another jumps when the points
+// move past half a period, so neither the directions nor the angle between two separations can be
+// bounded for points which might do that.  If d is the sum of the two separations, then the third
+// side also connects the same images of the points when this function returns false.
+template <int M, int P>
+inline bool canWrap(const MetricHelper<M,P>& , double )
+{ return false; }
+
+template <int P>
+inline bool canWrap(const MetricHelper<Periodic,P>& metric, double d)
+{
+    double minp = std::min(metric.xp, metric.yp);
+    if (metric.zp > 0.) minp = std::min(minp, metric.zp);
+    return d >= minp / 2.;
+}
+
+// The image of p2 which is closest to p1.
+template <int M, int P, int C>
+inline Position<C> nearestImage(const MetricHelper<M,P>& , const Position<C>& ,
+                                const Position<C>& p2)
+{ return p2; }
+
+template <int P>
+inline Position<ThreeD> nearestImage(const MetricHelper<Periodic,P>& metric,
+                                     const Position<ThreeD>& p1, const Position<ThreeD>& p2)
+{
+    Position<ThreeD> r = p2-p1;
+    r.wrap(metric.xp, metric.yp, metric.zp);
+    return p1+r;
+}
+
 // A quick helper struct so we only instantiate valid combinations of M, C
 template <int M, int C>
 struct ValidMC;
diff --git a/src/Corr3.cpp b/src/Corr3.cpp
index 06340ef..fd7a764 100644
--- a/src/Corr3.cpp
+++ b/src/Corr3.cpp
@@ -502,7 +502,9 @@ void BaseCorr3::process12(const BaseCell<C>& c1, const BaseCell<C>& c2,
     // Depending on the binning, we may be able to stop due to allowed angles.
     if (BinTypeHelper<B>::template noAllowedAngles<O>(rsq, s1ps2, s1, s2, _halfminsep,
                                                       _minu, _minusq, _maxu, _maxusq,
-                                                      _minv, _minvsq, _maxv, _maxvsq)) {
+                                                      _minv, _minvsq, _maxv, _maxvsq,
+                                                      angleScale(metric, sqrt(rsq), s1ps2),
+                                                      canWrap(metric, sqrt(rsq) + s1ps2))) {
         xdbg<<ws()<<"    No possible triangles with allowed angles\n";
         return;
     }
-- 
2.43.0


From ebe8fb5ae3c34dbdcf94feb96eb29c5651253047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:30 +0000
Subject: [PATCH 090/117] fix: LogSAS min_phi/max_phi pruning was not valid
 when the angle could change by enough to reach 0 or pi

---
 include/BinType.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/BinType.h b/include/BinType.h
index 4e35595..9451f79 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -1020,7 +1020,8 @@ struct BinTypeHelper<LogSAS>
                 xdbg<<"s2+s3 > d1 on their own imply small enough phi, continue splitting.\n";
                 return false;
             }
-            // Start with the current value of cosphi, and adjust by dphi2, dphi3
+            // Start with the current value of cosphi, and adjust by dphi2, dphi3.
+            // (If this could take us past phi = pi, then phi could be anything up to that.)
             double cosphimax = cosphi;
             if (s1+s2 > 0) {
                 double sindphi2 = ascale2*(s1+s2)/d3;
@@ -1037,9 +1038,11 @@ struct BinTypeHelper<LogSAS>
                     if (cosdphi < maxcosphi) return false;
                     double sindphi = sindphi2 * cosdphi3 + sindphi3 * cosdphi2;
                     double sinphi = sqrt(1-cosphi*cosphi);
+                    if (cosdphi < -cosphi) return false;
                     cosphimax = cosphi * cosdphi - sinphi * sindphi;
                 } else {
                     double sinphi = sqrt(1-cosphi*cosphi);
+                    if (cosdphi2 < -cosphi) return false;
                     cosphimax = cosphi * cosdphi2 - sinphi * sindphi2;
                 }
             } else if (s1+s3 > 0) {
@@ -1048,6 +1051,7 @@ struct BinTypeHelper<LogSAS>
                 if (cosdphi3sq < maxcosphisq) return false;
                 double cosdphi3 = sqrt(cosdphi3sq);
                 double sinphi = sqrt(1-cosphi*cosphi);
+                if (cosdphi3 < -cosphi) return false;
                 cosphimax = cosphi * cosdphi3 - sinphi * sindphi3;
             }
 
@@ -1068,7 +1072,8 @@ struct BinTypeHelper<LogSAS>
         // If the user sets maxphi < pi, then we can abort if no possible triangle can have
         // phi as small as this.
         if (maxphi < M_PI && cosphi < mincosphi) {
-            // Start with the current value of cosphi, and adjust by dphi2, dphi3
+            // Start with the current value of cosphi, and adjust by dphi2, dphi3.
+            // (If this could take us past phi = 0, then phi could be anything down to that.)
             double cosphimin = cosphi;
             if (s1+s2 > 0) {
                 double sindphi2 = ascale2*(s1+s2)/d3;
@@ -1088,9 +1093,11 @@ struct BinTypeHelper<LogSAS>
                     if (cosdphi < -mincosphi) return false;
                     double sindphi = sindphi2 * cosdphi3 + sindphi3 * cosdphi2;
                     double sinphi = sqrt(1-cosphi*cosphi);
+                    if (cosdphi < cosphi) return false;
                     cosphimin = cosphi * cosdphi + sinphi * sindphi;
                 } else {
                     double sinphi = sqrt(1-cosphi*cosphi);
+                    if (cosdphi2 < cosphi) return false;
                     cosphimin = cosphi * cosdphi2 + sinphi * sindphi2;
                 }
             } else if (s1+s3 > 0) {
@@ -1099,6 +1106,7 @@ struct BinTypeHelper<LogSAS>
                 if (cosdphi3sq < maxcosphisq) return false;
                 double cosdphi3 = sqrt(cosdphi3sq);
                 double sinphi = sqrt(1-cosphi*cosphi);
+                if (cosdphi3 < cosphi) return false;
                 cosphimin = cosphi * cosdphi3 + sinphi * sindphi3;
             }
 
-- 
2.43.0


From 31cbddb441bd60dd5faf312f62dc8f2a32a1e00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:01 +0000
Subject: [PATCH 091/117] fix: LogSAS min_phi pruning stopped too early when
 min_phi is large

---
 include/BinType.h |  8 ++++----
 include/Metric.h  | 14 ++++++++++++++
 src/Corr3.cpp     |  3 ++-
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/BinType.h b/include/BinType.h
index 9451f79..df39a24 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -392,7 +392,7 @@ struct BinTypeHelper<LogRUV>
     static int calculateNTot(int nbins, int nubins, int nvbins)
     { return nbins * nubins * nvbins * 2; }
 
-    static bool tooSmallS2(double s2, double halfminsep, double minu, double minv)
+    static bool tooSmallS2(double s2, double halfminsep, double , double minu)
     {
         // When still doing process12, if the s2 cell is smaller than the minimum
         // possible triangle side length, then we can stop early.
@@ -836,12 +836,12 @@ struct BinTypeHelper<LogSAS>
     static int calculateNTot(int nbins, int nphibins, int )
     { return nbins * nbins * nphibins; }
 
-    static bool tooSmallS2(double s2, double halfminsep, double minphi, double )
+    static bool tooSmallS2(double s2, double halfminsep, double mintrans, double minphi)
     {
         // When still doing process12, if the s2 cell is smaller than the minimum
         // possible triangle side length, then we can stop early.
-        // 2s < sin(min_phi) * minsep < min_phi * minsep
-        return (s2 == 0. || s2 < halfminsep * minphi);
+        // Sides d2 and d3 are at least minsep, and side d1 is at least 2 mintrans sin(minphi/2).
+        return (s2 == 0. || (s2 < halfminsep && s2 < mintrans * sin(0.5*minphi)));
     }
 
     // Check if all posisble pairs for a two cells (given s1 + s2) necessarily have too small
diff --git a/include/Metric.h b/include/Metric.h
index 69a1a36..2f9f5af 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -954,6 +954,20 @@ inline Position<ThreeD> nearestImage(const MetricHelper<Periodic,P>& metric,
     return p1+r;
 }
 
+// For two sides of a triangle with separations from minsep to maxsep and an angle phi between them,
+// half the third side is at least this value times sin(phi/2).
+template <int M, int P>
+inline double minTransverse(const MetricHelper<M,P>& , double minsep, double )
+{ return minsep; }
+
+template <int P>
+inline double minTransverse(const MetricHelper<Arc,P>& , double minsep, double maxsep)
+{
+    // hav(d1) = hav(d2-d3) + sin(d2) sin(d3) hav(phi)
+    if (maxsep >= M_PI) return 0.;
+    return std::min(std::sin(minsep), std::sin(maxsep));
+}
+
 // A quick helper struct so we only instantiate valid combinations of M, C
 template <int M, int C>
 struct ValidMC;
diff --git a/src/Corr3.cpp b/src/Corr3.cpp
index fd7a764..f7fee48 100644
--- a/src/Corr3.cpp
+++ b/src/Corr3.cpp
@@ -474,7 +474,8 @@ void BaseCorr3::process12(const BaseCell<C>& c1, const BaseCell<C>& c2,
         return;
     }
     double s2 = effectiveSize(metric, c2.getPos(), c2.getSize());
-    if (BinTypeHelper<B>::tooSmallS2(s2, _halfminsep, _minu, _minv))
+    if (BinTypeHelper<B>::tooSmallS2(s2, _halfminsep,
+                                      minTransverse(metric, _minsep, _maxsep), _minu))
     {
         xdbg<<ws()<<"    s2 smaller than minimum triangle side.  return\n";
         return;
-- 
2.43.0


From bbcfc027d347f7640141e22feb49d5efe61b199c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:56 +0000
Subject: [PATCH 092/117] fix: multipole calculations with the Arc metric used
 a size of the first cell that grew with each comparison

---
 src/Corr3.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Corr3.cpp b/src/Corr3.cpp
index f7fee48..eb38d08 100644
--- a/src/Corr3.cpp
+++ b/src/Corr3.cpp
@@ -1006,9 +1006,9 @@ void BaseCorr3::splitC2Cells(
     // Given the current c1, make a new c2 list where we throw away any from c2 list
     // that can't contribute to the bins, and split any that need to be split.
     const Position<C>& p1 = c1.getPos();
-    double s1 = c1.getSize();
     for (const BaseCell<C>* c2: c2list) {
         const Position<C>& p2 = c2->getPos();
+        double s1 = c1.getSize();  // May be changed by the metric.
         double s2 = c2->getSize();
         const double rsq = metric.DistSq(p1,p2,s1,s2);
         const double s1ps2 = s1+s2;
@@ -1125,7 +1125,6 @@ double BaseCorr3::splitC2CellsOrCalculateGn(
     // neither c1 nor c2 need to be split further.  In those cases, accumulate Gn and other
     // scratch arrays and don't add that c2 to newc2list.
     const Position<C>& p1 = c1.getPos();
-    double s1 = c1.getSize();
     double max_remaining_r = 0.;
     // The calculation of thresh1 here is pretty arbitrary.
     // The point of thresh1 is to only split cell1 when it is needed for the pairs with the
@@ -1144,6 +1143,7 @@ double BaseCorr3::splitC2CellsOrCalculateGn(
     double thresh1 = BinTypeHelper<B>::oneBinLessThan(prev_max_remaining_r, _binsize);
     for (const BaseCell<C>* c2: c2list) {
         const Position<C>& p2 = c2->getPos();
+        double s1 = c1.getSize();  // May be changed by the metric.
         double s2 = c2->getSize();
         const double rsq = metric.DistSq(p1,p2,s1,s2);
         const double s1ps2 = s1+s2;
-- 
2.43.0


From 02139c56a013a67eb86e25691af7a47d9072c368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:48 +0000
Subject: [PATCH 093/117] fix: multipole calculations with the Periodic metric
 used the directions of the wrong images

---
 include/BinType.h |  6 ++++--
 include/Corr3.h   | 24 ++++++++++++------------
 include/Metric.h  | 13 +++++++++++--
 src/Corr3.cpp     | 18 +++++++++---------
 4 files changed, 36 insertions(+), 25 deletions(-)

diff --git a/include/BinType.h b/include/BinType.h
index df39a24..e8e4a3d 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -1525,8 +1525,10 @@ struct BinTypeHelper<LogMultipole>
 
         // Calculate cosphi, sinphi for this triangle.
         // (We use the u variable for sinphi in this class.)
-        std::complex<double> r3 = ProjectHelper<C>::ExpIPhi(c1.getPos(), c2.getPos(), d3);
-        std::complex<double> r2 = ProjectHelper<C>::ExpIPhi(c1.getPos(), c3.getPos(), d2);
+        std::complex<double> r3 = ProjectHelper<C>::ExpIPhi(
+            c1.getPos(), nearestImage(metric, c1.getPos(), c2.getPos()), d3);
+        std::complex<double> r2 = ProjectHelper<C>::ExpIPhi(
+            c1.getPos(), nearestImage(metric, c1.getPos(), c3.getPos()), d2);
         std::complex<double> expiphi = r3 * std::conj(r2);
         cosphi = std::real(expiphi);
         sinphi = std::imag(expiphi);
diff --git a/include/Corr3.h b/include/Corr3.h
index 5600973..609098f 100644
--- a/include/Corr3.h
+++ b/include/Corr3.h
@@ -143,9 +143,9 @@ public:
 
     template <int C>
     void calculateGn(const BaseCell<C>& c1, const BaseCell<C>& c2,
-                     double rsq, double r, double logr, int k,
+                     const Position<C>& p2, double rsq, double r, double logr, int k,
                      BaseMultipoleScratch& mp)
-    { doCalculateGn(c1, c2, rsq, r, logr, k, mp); }
+    { doCalculateGn(c1, c2, p2, rsq, r, logr, k, mp); }
 
     template <int C>
     void calculateZeta(const BaseCell<C>& c1, BaseMultipoleScratch& mp,
@@ -192,13 +192,13 @@ protected:
 
     virtual void doCalculateGn(
         const BaseCell<Flat>& c1, const BaseCell<Flat>& c2,
-        double rsq, double r, double logr, int k, BaseMultipoleScratch& mp) =0;
+        const Position<Flat>& p2, double rsq, double r, double logr, int k, BaseMultipoleScratch& mp) =0;
     virtual void doCalculateGn(
         const BaseCell<Sphere>& c1, const BaseCell<Sphere>& c2,
-        double rsq, double r, double logr, int k, BaseMultipoleScratch& mp) =0;
+        const Position<Sphere>& p2, double rsq, double r, double logr, int k, BaseMultipoleScratch& mp) =0;
     virtual void doCalculateGn(
         const BaseCell<ThreeD>& c1, const BaseCell<ThreeD>& c2,
-        double rsq, double r, double logr, int k, BaseMultipoleScratch& mp) =0;
+        const Position<ThreeD>& p2, double rsq, double r, double logr, int k, BaseMultipoleScratch& mp) =0;
 
     virtual void doCalculateZeta(const BaseCell<Flat>& c1, BaseMultipoleScratch& mp,
                                  int kstart, int mink_zeta) =0;
@@ -300,7 +300,7 @@ public:
 
     template <int C>
     void calculateGn(const BaseCell<C>& c1, const BaseCell<C>& c2,
-                     double rsq, double r, double logr, int k, BaseMultipoleScratch& mp);
+                     const Position<C>& p2, double rsq, double r, double logr, int k, BaseMultipoleScratch& mp);
 
     template <int C>
     void calculateZeta(const BaseCell<C>& c1, BaseMultipoleScratch& mp,
@@ -351,16 +351,16 @@ protected:
 
     void doCalculateGn(
         const BaseCell<Flat>& c1, const BaseCell<Flat>& c2,
-        double rsq, double r, double logr, int k, BaseMultipoleScratch& mp)
-    { calculateGn(c1, c2, rsq, r, logr, k, mp); }
+        const Position<Flat>& p2, double rsq, double r, double logr, int k, BaseMultipoleScratch& mp)
+    { calculateGn(c1, c2, p2, rsq, r, logr, k, mp); }
     void doCalculateGn(
         const BaseCell<Sphere>& c1, const BaseCell<Sphere>& c2,
-        double rsq, double r, double logr, int k, BaseMultipoleScratch& mp)
-    { calculateGn(c1, c2, rsq, r, logr, k, mp); }
+        const Position<Sphere>& p2, double rsq, double r, double logr, int k, BaseMultipoleScratch& mp)
+    { calculateGn(c1, c2, p2, rsq, r, logr, k, mp); }
     void doCalculateGn(
         const BaseCell<ThreeD>& c1, const BaseCell<ThreeD>& c2,
-        double rsq, double r, double logr, int k, BaseMultipoleScratch& mp)
-    { calculateGn(c1, c2, rsq, r, logr, k, mp); }
+        const Position<ThreeD>& p2, double rsq, double r, double logr, int k, BaseMultipoleScratch& mp)
+    { calculateGn(c1, c2, p2, rsq, r, logr, k, mp); }
 
     void doCalculateZeta(const BaseCell<Flat>& c1, BaseMultipoleScratch& mp,
                          int kstart, int mink_zeta)
diff --git a/include/Metric.h b/include/Metric.h
index 2f9f5af..d797fa5 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -941,10 +941,19 @@ inline bool canWrap(const MetricHelper<Periodic,P>& metric, double d)
 
 // The image of p2 which is closest to p1.
 template <int M, int P, int C>
-inline Position<C> nearestImage(const MetricHelper<M,P>& , const Position<C>& ,
-                                const Position<C>& p2)
+inline const Position<C>& nearestImage(const MetricHelper<M,P>& , const Position<C>& ,
+                                       const Position<C>& p2)
 { return p2; }
 
+template <int P>
+inline Position<Flat> nearestImage(const MetricHelper<Periodic,P>& metric,
+                                   const Position<Flat>& p1, const Position<Flat>& p2)
+{
+    Position<Flat> r = p2-p1;
+    r.wrap(metric.xp, metric.yp);
+    return p1+r;
+}
+
 template <int P>
 inline Position<ThreeD> nearestImage(const MetricHelper<Periodic,P>& metric,
                                      const Position<ThreeD>& p1, const Position<ThreeD>& p2)
diff --git a/src/Corr3.cpp b/src/Corr3.cpp
index eb38d08..0164bc0 100644
--- a/src/Corr3.cpp
+++ b/src/Corr3.cpp
@@ -1189,7 +1189,7 @@ double BaseCorr3::splitC2CellsOrCalculateGn(
                 if (k == _nbins) --k;
                 Assert(k >= 0);
                 Assert(k < _nbins);
-                calculateGn(c1, *c2, rsq, r, logr, k, mp);
+                calculateGn(c1, *c2, nearestImage(metric, p1, p2), rsq, r, logr, k, mp);
             }
             continue;
         }
@@ -1353,7 +1353,7 @@ struct DirectHelper;
 template <int D1, int D2, int D3> template <int C>
 void Corr3<D1,D2,D3>::calculateGn(
     const BaseCell<C>& c1, const BaseCell<C>& c2,
-    double rsq, double r, double logr, int k,
+    const Position<C>& p2, double rsq, double r, double logr, int k,
     BaseMultipoleScratch& mp)
 {
     xdbg<<ws()<<"Gn Index = "<<k<<std::endl;
@@ -1375,7 +1375,7 @@ void Corr3<D1,D2,D3>::calculateGn(
     DirectHelper<D1,D2,D3>::CalculateGn(
         static_cast<const Cell<D1,C>&>(c1),
         static_cast<const Cell<D2,C>&>(c2),
-        rsq, r, k, _nubins, w,
+        p2, rsq, r, k, _nubins, w,
         static_cast<MultipoleScratch<D1, D2>&>(mp));
 }
 
@@ -1535,10 +1535,10 @@ struct DirectHelper<NData,NData,NData>
     template <int C>
     static void CalculateGn(
         const Cell<NData,C>& c1, const Cell<NData,C>& c2,
-        double rsq, double r, int k, int maxn, double w,
+        const Position<C>& p2, double rsq, double r, int k, int maxn, double w,
         MultipoleScratch<NData, NData>& mp)
     {
-        std::complex<double> z = ProjectHelper<C>::ExpIPhi(c1.getPos(), c2.getPos(), r);
+        std::complex<double> z = ProjectHelper<C>::ExpIPhi(c1.getPos(), p2, r);
         int index = k*(maxn+1);
         mp.Wn[index] += w;
         std::complex<double> wztothen = w;
@@ -1706,14 +1706,14 @@ struct DirectHelper<KData,KData,KData>
     template <int C>
     static void CalculateGn(
         const Cell<KData,C>& c1, const Cell<KData,C>& c2,
-        double rsq, double r, int k, int maxn, double w,
+        const Position<C>& p2, double rsq, double r, int k, int maxn, double w,
         MultipoleScratch<KData, KData>& mp)
     {
         double wk = c2.getWK();
         if (mp.ww) {
             mp.sumwwkk[k] += c2.calculateSumWKSq();
         }
-        std::complex<double> z = ProjectHelper<C>::ExpIPhi(c1.getPos(), c2.getPos(), r);
+        std::complex<double> z = ProjectHelper<C>::ExpIPhi(c1.getPos(), p2, r);
         int index = k*(maxn+1);
         mp.Wn[index] += w;
         mp.Gn[index] += wk;
@@ -1989,11 +1989,11 @@ struct DirectHelper<GData,GData,GData>
     template <int C>
     static void CalculateGn(
         const Cell<GData,C>& c1, const Cell<GData,C>& c2,
-        double rsq, double r, int k, int maxn, double w,
+        const Position<C>& p2, double rsq, double r, int k, int maxn, double w,
         MultipoleScratch<GData, GData>& mp)
     {
         std::complex<double> wg = c2.getWG();
-        std::complex<double> z = ProjectHelper<C>::ExpIPhi(c1.getPos(), c2.getPos(), r);
+        std::complex<double> z = ProjectHelper<C>::ExpIPhi(c1.getPos(), p2, r);
 
         // The projection is not quite how Porth et al do it, but it's necessary to get
         // it to work properly with spherical coordinates, since the shear at c2 doesn't
-- 
2.43.0


From c7fba4e20d96a0ca97ef5e8d7dca494c4b1122b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:54 +0000
Subject: [PATCH 094/117] fix: meanlogd3 of multipole cross correlations with
 ordered=False used the wrong weights

---
 src/Corr3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Corr3.cpp b/src/Corr3.cpp
index 0164bc0..579c728 100644
--- a/src/Corr3.cpp
+++ b/src/Corr3.cpp
@@ -1488,7 +1488,7 @@ void Corr3<D1,D2,D3>::calculateZeta(
                 _meand3[i] += w1 * (mp2.sumw[k2] * mp3.sumwr[k3] +
                                     mp3.sumw[k2] * mp2.sumwr[k3]);
                 _meanlogd3[i] += w1 * (mp2.sumw[k2] * mp3.sumwlogr[k3] +
-                                       mp3.sumw[k3] * mp2.sumwlogr[k3]);
+                                       mp3.sumw[k2] * mp2.sumwlogr[k3]);
             }
             i += (_nbins - k3end) * nnbins;
         }
-- 
2.43.0


From dcf2e6beef6e9ab864ca1cf330aa9a852e4a4fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:03 +0000
Subject: [PATCH 095/117] fix: tot of NNN correlations made with
 patch_method='local' counted triangles three times

---
 treecorr/corr3base.py      | 37 ++++++++++++++++++++++++++-----------
 treecorr/nnncorrelation.py |  7 +++++--
 2 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 1d57c28..8bb7318 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1117,10 +1117,14 @@ class Corr3(object):
         """
         return np.any(self.ntri)
 
-    def _add_tot(self, ijk, c1, c2, c3):
+    def _add_tot(self, ijk, c1, c2, c3, frac=1.):
         # No op for all but NNCorrelation, which needs to add the tot value
         pass
 
+    def _scale_tot(self, frac):
+        # No op for all but NNNCorrelation, which has a tot value.
+        pass
+
     def _trivially_zero(self, c1, c2, c3):
         # For now, mostly ignore the metric.  Just be conservative about how much space we need.
         if self.metric == 'Periodic':
@@ -1139,13 +1143,16 @@ class Corr3(object):
     _make_expanded_patch = Corr2._make_expanded_patch
     _add_result = Corr2._add_result
 
-    def _single_process12(self, c1, c2, ijj, metric, ordered, num_threads, temp, force_write):
+    def _single_process12(self, c1, c2, ijj, metric, ordered, num_threads, temp, force_write,
+                          frac=1.):
         # Helper function for _process_all_auto, etc. for doing 12 cross pairs
+        # frac is the fraction of the possible triangles that are counted here.
         temp._clear()
         skip = self._trivially_zero(c1,c2,c2)
         if not skip:
             self.logger.info('Process patches %s cross12',ijj)
             temp.process_cross12(c1, c2, metric=metric, ordered=ordered, num_threads=num_threads)
+            temp._scale_tot(frac)
         else:
             self.logger.info('Skipping %s pair, which are too far apart ' +
                              'for this set of separations',ijj)
@@ -1155,15 +1162,18 @@ class Corr3(object):
             self += temp
         if skip or not write:
             # NNNCorrelation needs to add the tot value
-            self._add_tot(ijj, c1, c2, c2)
+            self._add_tot(ijj, c1, c2, c2, frac)
 
-    def _single_process123(self, c1, c2, c3, ijk, metric, ordered, num_threads, temp, force_write):
+    def _single_process123(self, c1, c2, c3, ijk, metric, ordered, num_threads, temp, force_write,
+                           frac=1.):
         # Helper function for _process_all_auto, etc. for doing 123 cross triples
+        # frac is the fraction of the possible triangles that are counted here.
         temp._clear()
         skip = self._trivially_zero(c1,c2,c3)
         if not skip:
             self.logger.info('Process patches %s cross',ijk)
             temp.process_cross(c1, c2, c3, metric=metric, ordered=ordered, num_threads=num_threads)
+            temp._scale_tot(frac)
         else:
             self.logger.info('Skipping %s, which are too far apart ' +
                              'for this set of separations',ijk)
@@ -1173,7 +1183,7 @@ class Corr3(object):
             self += temp
         if skip or not write:
             # NNNCorrelation needs to add the tot value
-            self._add_tot(ijk, c1, c2, c3)
+            self._add_tot(ijk, c1, c2, c3, frac)
 
     def _process_all_auto(self, cat1, metric, num_threads, comm, low_mem, local):
 
@@ -1239,8 +1249,9 @@ class Corr3(object):
                     if is_my_job(my_indices, i, i, i, n):
                         c1e = self._make_expanded_patch(c1, cat1, metric, low_mem)
                         self.logger.info('Process patch %d with surrounding local patches',i)
+                        # Only a third of these triangles have their first vertex in c1.
                         self._single_process12(c1, c1e, (i,i,i), metric, 1,
-                                               num_threads, temp, True)
+                                               num_threads, temp, True, 1./3.)
                         if low_mem:
                             c1.unload()
             else:
@@ -1362,13 +1373,15 @@ class Corr3(object):
             ordered1 = 1 if ordered else 0
 
             if local:
+                # If not ordered, each catalog goes in the first spot in turn.
+                frac = 1. if ordered else 1./3.
                 for ii,c1 in enumerate(cat1):
                     i = c1._single_patch if c1._single_patch is not None else ii
                     if is_my_job(my_indices, i, i, i, n1, n2):
                         c2e = self._make_expanded_patch(c1, cat2, metric, low_mem)
                         self.logger.info('Process patch %d with surrounding local patches',i)
                         self._single_process12(c1, c2e, local_key(i), metric, 1,
-                                               num_threads, temp, True)
+                                               num_threads, temp, True, frac)
                         if low_mem:
                             c1.unload()
                 if not ordered:
@@ -1382,7 +1395,7 @@ class Corr3(object):
                             c2e = self._make_expanded_patch(c2, cat2, metric, low_mem)
                             self.logger.info('Process patch %d from cat2 with surrounding local patches',i)
                             self._single_process123(c2, c1e, c2e, local_key(i), metric, 1,
-                                                    num_threads, temp, True)
+                                                    num_threads, temp, True, frac)
                             if low_mem:
                                 c2.unload()
             else:
@@ -1485,6 +1498,8 @@ class Corr3(object):
             temp.results = {}
 
             if local:
+                # If not ordered, each catalog goes in the first spot in turn.
+                frac = 1. if ordered else 1./3.
                 for ii,c1 in enumerate(cat1):
                     i = c1._single_patch if c1._single_patch is not None else ii
                     if is_my_job(my_indices, i, i, i, n1, n2, n3):
@@ -1493,7 +1508,7 @@ class Corr3(object):
                         self.logger.info('Process patch %d with surrounding local patches',i)
                         self._single_process123(c1, c2e, c3e, local_key(i), metric,
                                                 1 if not ordered else ordered,
-                                                num_threads, temp, True)
+                                                num_threads, temp, True, frac)
                         if low_mem:
                             c1.unload()
                 if not ordered:
@@ -1507,7 +1522,7 @@ class Corr3(object):
                             c3e = self._make_expanded_patch(c2, cat3, metric, low_mem)
                             self.logger.info('Process patch %d from cat2 with surrounding local patches',i)
                             self._single_process123(c2, c1e, c3e, local_key(i), metric, 1,
-                                                    num_threads, temp, True)
+                                                    num_threads, temp, True, frac)
                             if low_mem:
                                 c2.unload()
                     for ii,c3 in enumerate(cat3):
@@ -1517,7 +1532,7 @@ class Corr3(object):
                             c2e = self._make_expanded_patch(c3, cat2, metric, low_mem)
                             self.logger.info('Process patch %d from cat3 with surrounding local patches',i)
                             self._single_process123(c3, c1e, c2e, local_key(i), metric, 1,
-                                                    num_threads, temp, True)
+                                                    num_threads, temp, True, frac)
                             if low_mem:
                                 c3.unload()
             else:
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index 0212807..f1da070 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -362,11 +362,14 @@ class NNNCorrelation(Corr3):
                 np.sum([c.weighti for c in others], axis=0, out=self.weighti)
         self.tot = tot
 
-    def _add_tot(self, ijk, c1, c2, c3):
+    def _scale_tot(self, frac):
+        self.tot *= frac
+
+    def _add_tot(self, ijk, c1, c2, c3, frac=1.):
         # When storing results from a patch-based run, tot needs to be accumulated even if
         # the total weight being accumulated comes out to be zero.
         # This only applies to NNNCorrelation.  For the other ones, this is a no op.
-        tot = c1.sumw * c2.sumw * c3.sumw
+        tot = c1.sumw * c2.sumw * c3.sumw * frac
         if c2 is c3:
             # Account for 1/2 factor in cross12 cases.
             tot /= 2.
-- 
2.43.0


From 1651868760200d58a8b7df0b7a2bf0030df99b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:05 +0000
Subject: [PATCH 096/117] fix: NNN with unpatched randoms and some unpatched
 catalogs scales RRR by the area of the patches

---
 treecorr/nnncorrelation.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index f1da070..29537fa 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -627,10 +627,13 @@ class NNNCorrelation(Corr3):
             # The approximation we'll use is that tot in the auto-correlations is
             # proportional to area**3.
             # The sum of tot**(1/3) when i=j=k gives an estimate of the fraction of the total area.
-            area_frac = np.sum([self.results[ij].tot**(1./3.) for ij in pairs
-                                if ij[0] == ij[1] == ij[2]])
-            area_frac /= np.sum([cij.tot**(1./3.) for ij,cij in self.results.items()
-                                 if ij[0] == ij[1] == ij[2]])
+            # (If only some of the catalogs have patches, then it's proportional to a lower power.)
+            indx = [m for m,n in enumerate([self.npatch1, self.npatch2, self.npatch3]) if n > 1]
+            is_auto = lambda ij: all(ij[m] == ij[indx[0]] for m in indx)
+            area_frac = np.sum([self.results[ij].tot**(1./len(indx)) for ij in pairs
+                                if is_auto(ij)])
+            area_frac /= np.sum([cij.tot**(1./len(indx)) for ij,cij in self.results.items()
+                                 if is_auto(ij)])
             # First figure out the original total for all DDD that had the same footprint as RRR.
             ddd_tot = np.sum([self.results[ij].tot for ij in self.results])
             # The rrrf we want will be a factor of area_frac smaller than the original
-- 
2.43.0


From bfe01cce3f54ee9a5d6fed543bbc454b02d19a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:05 +0000
Subject: [PATCH 097/117] fix: NNN with unpatched randoms used the wrong
 patches of RDD when only patch 0 is selected

---
 treecorr/nnncorrelation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index 29537fa..3a71729 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -654,7 +654,7 @@ class NNNCorrelation(Corr3):
             drr = self._drr.weight
             drrf = ddd_tot / self._drr.tot
         if self._rdd is not None:
-            if self._rdd.npatch1 == 1 and not all([p[0] == 0 for p in pairs]):
+            if self._rdd.npatch1 == 1 and self.npatch1 != 1:
                 # If r doesn't have patches, then convert all (i,i,j) pairs to (0,i,j)
                 # and all (i,j,i to (0,j,i).
                 pairs3 = [(0,ij[1],ij[2]) for ij in pairs if ij[0] == ij[1] or ij[0] == ij[2]]
-- 
2.43.0


From ce06f8ef76c4c9f31c334ca02762a89a35f47ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:21 +0000
Subject: [PATCH 098/117] fix: NNN dummy results for the triples of the randoms
 were not added when the first catalog has no patches

---
 treecorr/nnncorrelation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index 3a71729..b4accf3 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -582,17 +582,18 @@ class NNNCorrelation(Corr3):
             # some dummy results to make sure all the right ijk "pair"s are computed when we make
             # the vectors for the covariance matrix.
             add_ijk = set()
-            if rrr.npatch1 != 1:
+            npatch = (self.npatch1, self.npatch2, self.npatch3)
+            if (rrr.npatch1, rrr.npatch2, rrr.npatch3) == npatch:
                 for ijk in rrr.results:
                     if ijk not in self.results:
                         add_ijk.add(ijk)
 
-            if drr is not None and drr.npatch2 != 1:
+            if drr is not None and (drr.npatch1, drr.npatch2, drr.npatch3) == npatch:
                 for ijk in drr.results:
                     if ijk not in self.results:
                         add_ijk.add(ijk)
 
-            if rdd is not None and rdd.npatch1 != 1:
+            if rdd is not None and (rdd.npatch1, rdd.npatch2, rdd.npatch3) == npatch:
                 for ijk in rdd.results:
                     if ijk not in self.results:
                         add_ijk.add(ijk)
-- 
2.43.0


From 5fdb01a599089751f77b9345ca4fe71ef3cbe501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:57 +0000
Subject: [PATCH 099/117] fix: NNN covariance rows without any triangles used
 the zeta of another row

---
 treecorr/nnncorrelation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index b4accf3..6cf5af9 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -334,6 +334,10 @@ class NNNCorrelation(Corr3):
     def _clear(self):
         super()._clear()
         self.tot = 0.
+        if self._rrr_weight is not None:
+            # With no triangles, zeta = 0, and rrr has the same guard value as in calculateZeta.
+            self.zeta = np.zeros_like(self.weight)
+            self._rrr_weight = np.ones_like(self.weight)
 
     def _sum(self, others):
         # Equivalent to the operation of:
-- 
2.43.0


From b7dbbb35bc497cd53f166bea6611b811bb634827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:20 +0000
Subject: [PATCH 100/117] fix: calculateNMap and calculateNapSq silently gave
 wrong results for bins that are not logarithmic

---
 treecorr/ngcorrelation.py | 6 ++++++
 treecorr/nncorrelation.py | 8 +++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/treecorr/ngcorrelation.py b/treecorr/ngcorrelation.py
index 38270b5..9990974 100644
--- a/treecorr/ngcorrelation.py
+++ b/treecorr/ngcorrelation.py
@@ -229,6 +229,10 @@ class NGCorrelation(BaseNZCorrelation):
         In neither case is this formula in the above papers, but the derivation is similar
         to the derivations of :math:`T_+` and :math:`T_-` in Schneider et al. (2002).
 
+        .. note::
+
+            This function is only implemented for Log binning.
+
         Parameters:
             R (array):          The R values at which to calculate the aperture mass statistics.
                                 (default: None, which means use self.rnom)
@@ -249,6 +253,8 @@ class NGCorrelation(BaseNZCorrelation):
             m2_uform = self.config.get('m2_uform','Crittenden')
         if m2_uform not in ['Crittenden', 'Schneider']:
             raise ValueError("Invalid m2_uform")
+        if self.bin_type != 'Log':
+            raise ValueError("calculateNMap requires Log binning.")
         if R is None:
             R = self.rnom
 
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index c6a1bdc..7d54cf6 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -754,7 +754,7 @@ class NNCorrelation(Corr2):
 
         .. math::
 
-            \langle N_{ap}^2 \rangle(R) &= \int_{0}^{rmax} \frac{r dr}{2R^2}
+            \langle N_{ap}^2 \rangle(R) &= \int_{0}^{rmax} \frac{r dr}{R^2}
             \left [ T_+\left(\frac{r}{R}\right) \xi(r) \right] \\
 
         The ``m2_uform`` parameter sets which definition of the aperture mass to use.
@@ -781,6 +781,10 @@ class NNCorrelation(Corr2):
 
         cf. Schneider, et al (2002): A&A, 389, 729
 
+        .. note::
+
+            This function is only implemented for Log binning.
+
         This is used by `NGCorrelation.writeNorm`.  See that function and also
         `GGCorrelation.calculateMapSq` for more details.
 
@@ -805,6 +809,8 @@ class NNCorrelation(Corr2):
             m2_uform = self.config.get('m2_uform', 'Crittenden')
         if m2_uform not in ['Crittenden', 'Schneider']:
             raise ValueError("Invalid m2_uform")
+        if self.bin_type != 'Log':
+            raise ValueError("calculateNapSq requires Log binning.")
         if R is None:
             R = self.rnom
 
-- 
2.43.0


From deded1afacc7852c0eec4b3a55b9d652dd667f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:25 +0000
Subject: [PATCH 101/117] fix: treat ignore_flag=None (e.g. for one catalog of
 a list) as not given

---
 treecorr/catalog.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 3684417..2549f00 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1383,9 +1383,8 @@ class Catalog(object):
 
         # Convert the flag to a weight
         if self._flag is not None:
-            if 'ignore_flag' in self.config:
-                ignore_flag = get_from_list(self.config,'ignore_flag',self._num,int)
-            else:
+            ignore_flag = get_from_list(self.config,'ignore_flag',self._num,int)
+            if ignore_flag is None:
                 ok_flag = get_from_list(self.config,'ok_flag',self._num,int,0)
                 ignore_flag = ~ok_flag
             # If we don't already have a weight column, make one with all values = 1.
-- 
2.43.0


From 27434e378acb3098a60feb60045721a5b051e5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:25 +0000
Subject: [PATCH 102/117] fix: a KZ run requires the k column of the first
 catalog

---
 treecorr/catalog.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 2549f00..636d9e9 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -3531,6 +3531,7 @@ def isKColRequired(config, num):
 
     """
     return config and ('kk_file_name' in config
+                       or (num==0 and 'kz_file_name' in config)
                        or (num==0 and 'kv_file_name' in config)
                        or (num==0 and 'kg_file_name' in config)
                        or (num==0 and 'kt_file_name' in config)
-- 
2.43.0


From bfdb4e3d7cf3cc3ad3806db8142ea48f4cf76d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:52 +0000
Subject: [PATCH 103/117] fix: say that randoms are required for norm_file_name
 rather than failing with an AttributeError

---
 treecorr/exec_corr2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treecorr/exec_corr2.py b/treecorr/exec_corr2.py
index f197c74..b48cfaf 100644
--- a/treecorr/exec_corr2.py
+++ b/treecorr/exec_corr2.py
@@ -300,6 +300,8 @@ def corr2(config, logger=None):
             logger.warning("Wrote NMap values to %s",config['nm_file_name'])
 
         if 'norm_file_name' in config:
+            if rand1 is None:
+                raise TypeError("rand_file_name is required for norm_file_name")
             gg = GGCorrelation(config, logger=logger)
             gg.process(cat2)
             logger.info("Done GG calculation for norm")
-- 
2.43.0


From 40bff793ebda8b527ee46cb4b01a351b92cbe5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:36 +0000
Subject: [PATCH 104/117] fix: calculateMap3 says that LogMultipole binning is
 not valid rather than failing an assertion

---
 treecorr/gggcorrelation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/treecorr/gggcorrelation.py b/treecorr/gggcorrelation.py
index 06c7f6f..019ce77 100644
--- a/treecorr/gggcorrelation.py
+++ b/treecorr/gggcorrelation.py
@@ -856,6 +856,10 @@ class GGGCorrelation(Corr3):
             - mx3 = array of :math:`\langle M_\times(R) M_\times(k_2 R) M_\times(k_3 R)\rangle`
             - varmap3 = array of variance estimates of the above values
         """
+        if self.bin_type == 'LogMultipole':
+            raise TypeError("calculateMap3 is not valid for LogMultipole binning. "
+                            "Use toSAS first.")
+
         # As in the calculateMapSq function, we Make s and t matrices, so we can eventually do the
         # integral by doing a matrix product.
         if R is None:
-- 
2.43.0


From 57bc4d504fd66a983d15fd5cb12048eef0e0a03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:34 +0000
Subject: [PATCH 105/117] fix: allow a single extra_cols item in a params file

---
 treecorr/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/treecorr/config.py b/treecorr/config.py
index 4300691..5c3465c 100644
--- a/treecorr/config.py
+++ b/treecorr/config.py
@@ -206,6 +206,9 @@ def parse(value, value_type, name):
             return parse_bool(value)
         elif value is None:
             return None
+        elif value_type is list and isinstance(value, str):
+            # A list with a single item looks like a plain string in a params file.
+            return [value]
         else:
             return value_type(value)
     except ValueError:
-- 
2.43.0


From a539e1a518b08c5c6b018cac1eab110ab7e35963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:46 +0000
Subject: [PATCH 106/117] fix: raise ValueError for a catalog without objects
 rather than crashing when its field is built

---
 treecorr/catalog.py |  2 ++
 treecorr/field.py   | 20 +++++++++++++-------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 636d9e9..f113425 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1441,6 +1441,8 @@ class Catalog(object):
             self._sumw = np.sum(self._w)
             if self._sumw == 0:
                 raise ValueError("Catalog has invalid sumw == 0")
+        elif self.ntot == 0 and self._single_patch is None:
+            raise ValueError("Catalog has no objects")
         else:
             self._nontrivial_w = False
             self._sumw = self.ntot
diff --git a/treecorr/field.py b/treecorr/field.py
index b94f981..60cfc75 100644
--- a/treecorr/field.py
+++ b/treecorr/field.py
@@ -21,6 +21,12 @@ import weakref
 from . import _treecorr
 from .util import get_omp_threads, parse_xyzsep, coord_enum
 
+def _get_ntot(cat):
+    # The number of objects to put into the field.  The C++ layer requires at least one.
+    if cat.ntot == 0:
+        raise ValueError("Cannot build a field from a catalog with no objects.")
+    return cat.ntot
+
 def _parse_split_method(split_method):
     if split_method == 'middle': return _treecorr.Middle
     elif split_method == 'median': return _treecorr.Median
@@ -553,7 +559,7 @@ class NField(Field):
                 logger.info('Building NField')
 
         self._cat = weakref.ref(cat)
-        self.ntot = cat.ntot
+        self.ntot = _get_ntot(cat)
         self.min_size = float(min_size) if not brute else 0.
         self.max_size = float(max_size) if max_size is not None else np.inf
         self.split_method = split_method
@@ -616,7 +622,7 @@ class KField(Field):
                 logger.info('Building KField')
 
         self._cat = weakref.ref(cat)
-        self.ntot = cat.ntot
+        self.ntot = _get_ntot(cat)
         self.min_size = float(min_size) if not brute else 0.
         self.max_size = float(max_size) if max_size is not None else np.inf
         self.split_method = split_method
@@ -679,7 +685,7 @@ class ZField(Field):
                 logger.info('Building ZField')
 
         self._cat = weakref.ref(cat)
-        self.ntot = cat.ntot
+        self.ntot = _get_ntot(cat)
         self.min_size = float(min_size) if not brute else 0.
         self.max_size = float(max_size) if max_size is not None else np.inf
         self.split_method = split_method
@@ -742,7 +748,7 @@ class VField(Field):
                 logger.info('Building VField')
 
         self._cat = weakref.ref(cat)
-        self.ntot = cat.ntot
+        self.ntot = _get_ntot(cat)
         self.min_size = float(min_size) if not brute else 0.
         self.max_size = float(max_size) if max_size is not None else np.inf
         self.split_method = split_method
@@ -805,7 +811,7 @@ class GField(Field):
                 logger.info('Building GField')
 
         self._cat = weakref.ref(cat)
-        self.ntot = cat.ntot
+        self.ntot = _get_ntot(cat)
         self.min_size = float(min_size) if not brute else 0.
         self.max_size = float(max_size) if max_size is not None else np.inf
         self.split_method = split_method
@@ -868,7 +874,7 @@ class TField(Field):
                 logger.info('Building TField')
 
         self._cat = weakref.ref(cat)
-        self.ntot = cat.ntot
+        self.ntot = _get_ntot(cat)
         self.min_size = float(min_size) if not brute else 0.
         self.max_size = float(max_size) if max_size is not None else np.inf
         self.split_method = split_method
@@ -930,7 +936,7 @@ class QField(Field):
                 logger.info('Building QField')
 
         self._cat = weakref.ref(cat)
-        self.ntot = cat.ntot
+        self.ntot = _get_ntot(cat)
         self.min_size = float(min_size) if not brute else 0.
         self.max_size = float(max_size) if max_size is not None else np.inf
         self.split_method = split_method
-- 
2.43.0


From 41b605f7c6ddae4316b2793cde387cf4f3e07503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:05 +0000
Subject: [PATCH 107/117] fix: count_near and get_near with a separation larger
 than pi radians find all the objects

---
 treecorr/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/treecorr/util.py b/treecorr/util.py
index 466e1b6..e3fad55 100644
--- a/treecorr/util.py
+++ b/treecorr/util.py
@@ -563,7 +563,8 @@ def parse_xyzsep(args, kwargs, _coords):
                 raise TypeError("Missing required argument sep_units")
             sep = sep * coord.AngleUnit.from_name(kwargs.pop('sep_units'))
         # We actually want the chord distance for this angle.
-        sep = 2. * np.sin(sep/2.)
+        # No separation is larger than pi.
+        sep = 2. * np.sin(min(sep/coord.radians, np.pi)/2.)
 
     if radec:
         if not isinstance(ra, coord.Angle):
-- 
2.43.0


From 7b518815b5e9c759a16eb336d94a83800a9e0925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:05 +0000
Subject: [PATCH 108/117] fix: refuse the Periodic metric for spherical
 coordinates rather than computing with an invalid combination

---
 treecorr/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treecorr/util.py b/treecorr/util.py
index e3fad55..60afece 100644
--- a/treecorr/util.py
+++ b/treecorr/util.py
@@ -334,6 +334,8 @@ def parse_metric(metric, coords, coords2=None, coords3=None):
         raise ValueError("Rlens metric is only valid for catalogs with 3d positions.")
     if metric == 'Arc' and coords not in ['spherical', '3d']:
         raise ValueError("Arc metric is only valid for catalogs with spherical positions.")
+    if metric == 'Periodic' and coords == 'spherical':
+        raise ValueError("Periodic metric is only valid for catalogs with flat or 3d positions.")
 
     return coords, metric
 
-- 
2.43.0


From 5b9f76939cbd22333274bb46dd14d3231d285b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:14 +0000
Subject: [PATCH 109/117] fix: check the shape of patch_centers and of the
 centers given to the k-means methods

---
 treecorr/catalog.py |  2 ++
 treecorr/field.py   | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index f113425..1f6ac29 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -839,6 +839,8 @@ class Catalog(object):
                 self._centers = patch_centers
             else:
                 self._centers = self.read_patch_centers(patch_centers)
+            if self._centers.ndim != 2 or self._centers.shape[0] == 0:
+                raise ValueError("Centers array has wrong shape.")
             self._npatch = self._centers.shape[0]
             if self.config.get('npatch', self._npatch) != self._npatch:
                 raise ValueError("npatch is incompatible with provided centers")
diff --git a/treecorr/field.py b/treecorr/field.py
index 60cfc75..362cfd7 100644
--- a/treecorr/field.py
+++ b/treecorr/field.py
@@ -496,9 +496,9 @@ class Field(object):
                                 deviation of the inertia rather than the total inertia (aka WCSS).
                                 (default: False)
         """
-        npatch = centers.shape[0]
         # The C++ code needs a contiguous array of doubles.
-        new_centers = np.ascontiguousarray(centers, dtype=float)
+        new_centers = self._check_centers(centers)
+        npatch = new_centers.shape[0]
         self.data.KMeansRun(new_centers, npatch, int(max_iter), float(tol), bool(alt))
         if new_centers is not centers:
             centers[:] = new_centers
@@ -519,11 +519,20 @@ class Field(object):
             An array of patch labels, all integers from 0..npatch-1.  Size is self.ntot.
         """
         patches = np.empty(self.ntot, dtype=int)
+        centers = self._check_centers(centers)
         npatch = centers.shape[0]
-        centers = np.ascontiguousarray(centers)
         self.data.KMeansAssign(centers, npatch, patches)
         return patches
 
+    def _check_centers(self, centers):
+        # Return centers as a contiguous array of doubles, which is what the C++ code needs,
+        # having checked that it has the right shape for this field.
+        centers = np.ascontiguousarray(centers, dtype=float)
+        ncoord = 2 if self._coords == _treecorr.Flat else 3
+        if centers.ndim != 2 or centers.shape[0] == 0 or centers.shape[1] != ncoord:
+            raise ValueError("centers must have shape (npatch, %d) for these coords"%ncoord)
+        return centers
+
 
 class NField(Field):
     r"""This class stores the positions and number of objects in a tree structure from which it is
-- 
2.43.0


From 0e9ceba832189059848f7d7c4b1d7ab6e73c6850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:09 +0000
Subject: [PATCH 110/117] fix: cells whose size underflows to zero in single
 precision are leaves

---
 src/Cell.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Cell.cpp b/src/Cell.cpp
index e09afe0..db9d7d3 100644
--- a/src/Cell.cpp
+++ b/src/Cell.cpp
@@ -589,7 +589,10 @@ Cell<D,C>* BuildCell(std::vector<std::pair<BaseCellData<C>*,WPosLeafInfo> >& vda
     }
 
     xdbg<<"sizesq = "<<sizesq<<" cf. "<<minsizesq<<", brute="<<brute<<std::endl;
-    if (sizesq > minsizesq) {
+    // Note: the size is stored as a float, so cells whose size would underflow to 0 need to be
+    // leaves too, since other functions take size == 0 to mean that the cell is a leaf.
+    const double min_float_size = std::numeric_limits<float>::min();
+    if (sizesq > minsizesq && sizesq >= SQR(min_float_size)) {
         // If size is large enough, recurse to leaves.
         double size = brute ? std::numeric_limits<double>::infinity() : sqrt(sizesq);
         if (brute) sizesq = std::numeric_limits<double>::infinity();
-- 
2.43.0


From 438fcc1f429c7d162928846b526e1a392fcc0149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:05 +0000
Subject: [PATCH 111/117] fix: objects at the origin and opposite each other no
 longer give NaN separations and a crash

---
 include/Metric.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/Metric.h b/include/Metric.h
index d797fa5..8341037 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -55,7 +55,9 @@ struct ParHelper<1> // P = 1 for most Metrics (all except OldRPerp)
     {
         Position<ThreeD> r = p2-p1;
         Position<ThreeD> L = (p1+p2)*0.5;
-        return r.dot(L) / L.norm();
+        // If p1 = -p2, then L = 0, and the direction is undefined.  In this case, r_par = 0.
+        double normL = L.norm();
+        return normL > 0. ? r.dot(L) / normL : 0.;
     }
 
     static bool isRParOutsideRange(const Position<ThreeD>& p1, const Position<ThreeD>& p2,
@@ -274,7 +276,9 @@ struct MetricHelper<OldRperp, P>
         // Numerically more stable value if rpar << r1,r2:
         // r_par^2 = ((r1^2 + r2^2)^2 - 4r1^2 r2^2) / (r1^2 + r2^2 + 2r1r2)
         //         = (r1^2 - r2^2)^2 / (r1^2 + r2^2 + 2r1r2)
-        double rparsq = SQR(r1sq - r2sq) / (r1sq + r2sq + 2.*sqrt(r1sq*r2sq));
+        // (And if both are at the origin, then this is just 0.)
+        double denom = r1sq + r2sq + 2.*sqrt(r1sq*r2sq);
+        double rparsq = denom > 0. ? SQR(r1sq - r2sq) / denom : 0.;
 
         // For the usual case that the angle theta between p1 and p2 is << 1, the above
         // calculation reduces to
@@ -531,11 +535,12 @@ struct MetricHelper<Rlens, P>
     {
         // Rlens = |p1 x p2| / |p2|
         double r2sq = p2.normSq();
-        double rsq = p1.cross(p2).normSq() / r2sq;
+        // If p2 is at the origin, its direction is undefined.  Take Rlens = 0 in this case.
+        double rsq = r2sq > 0. ? p1.cross(p2).normSq() / r2sq : 0.;
 
         // The effect of s2 needs to be modified here.  Its effect on Rlens is approximately
         //      s2' = r1/r2 s2
-        s2 *= sqrt(p1.normSq() / r2sq);
+        if (s2 != 0.) s2 *= sqrt(p1.normSq() / r2sq);
 
         return rsq;
     }
@@ -670,6 +675,7 @@ struct MetricHelper<Arc, P>
         // The largest angle from the center for a cell with size s at distance r is asin(s/r)
         // for s < r.  And asin(x) <= x (1 + (pi/2-1) x^2).
         // If s >= r, then the cell might include positions in every direction, so at least pi.
+        if (s == 0.) return 0.;  // (Even at the origin, where r = 0.)
         double x = s/r;
         return x < 1. ? x * (1. + 0.57079632679489662 * SQR(x)) : std::max(x, M_PI);
     }
-- 
2.43.0


From c731ecc18720cf01823389e8b0d6314ee8ab61e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:47 +0000
Subject: [PATCH 112/117] fix: count_near and get_near with sep >= pi don't
 lose antipodal objects to rounding errors

---
 treecorr/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/treecorr/util.py b/treecorr/util.py
index 60afece..05b88e7 100644
--- a/treecorr/util.py
+++ b/treecorr/util.py
@@ -565,8 +565,10 @@ def parse_xyzsep(args, kwargs, _coords):
                 raise TypeError("Missing required argument sep_units")
             sep = sep * coord.AngleUnit.from_name(kwargs.pop('sep_units'))
         # We actually want the chord distance for this angle.
-        # No separation is larger than pi.
-        sep = 2. * np.sin(min(sep/coord.radians, np.pi)/2.)
+        # No separation is larger than pi, so sep >= pi includes everything.  Use something a bit
+        # larger than the maximum chord of 2 then, so rounding errors don't exclude any objects.
+        theta = sep/coord.radians
+        sep = 2. * np.sin(theta/2.) if theta < np.pi else 2.1
 
     if radec:
         if not isinstance(ra, coord.Angle):
-- 
2.43.0


From b2fe2f66236324a2a74c23802d4b0648b1441a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:10 +0000
Subject: [PATCH 113/117] fix: mean separations of opposite points on the
 sphere are not NaN because of rounding errors

---
 treecorr/corr2base.py |  6 +++---
 treecorr/corr3base.py | 17 +++++++++--------
 treecorr/util.py      | 10 ++++++++++
 3 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 6f53fec..c62c4e7 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -25,7 +25,7 @@ import collections
 from . import _treecorr
 from .config import merge_config, setup_logger, get, make_minimal_config
 from .util import parse_metric, metric_enum, coord_enum, set_omp_threads, lazy_property
-from .util import make_reader
+from .util import make_reader, chord_to_angle
 from .catalog import Catalog
 
 class Namespace(object):
@@ -1436,8 +1436,8 @@ class Corr2(object):
         if self.coords == 'spherical' and self.metric == 'Euclidean':
             # Then our distances are all angles.  Convert from the chord distance to a real angle.
             # L = 2 sin(theta/2)
-            self.meanr[mask] = 2. * np.arcsin(self.meanr[mask]/2.)
-            self.meanlogr[mask] = np.log( 2. * np.arcsin(np.exp(self.meanlogr[mask])/2.) )
+            self.meanr[mask] = chord_to_angle(self.meanr[mask])
+            self.meanlogr[mask] = np.log( chord_to_angle(np.exp(self.meanlogr[mask])) )
         self.meanr[mask] /= self._sep_units
         self.meanlogr[mask] -= self._log_sep_units
 
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 8bb7318..f602177 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -23,7 +23,7 @@ import coord
 from . import _treecorr
 from .config import merge_config, setup_logger, get, make_minimal_config
 from .util import parse_metric, metric_enum, coord_enum, set_omp_threads, lazy_property
-from .util import make_reader
+from .util import make_reader, chord_to_angle
 from .corr2base import estimate_multi_cov, build_multi_cov_design_matrix, Corr2
 from .catalog import Catalog
 
@@ -2254,7 +2254,8 @@ class Corr3(object):
             if self.bin_type == 'LogSAS':
                 cosphi = np.cos(self.meanphi[mask])
                 cosphi -= 0.25 * self.meand2[mask] * self.meand3[mask]
-                cosphi /= np.sqrt( (1 - self.meand2[mask]**2/4) * (1 - self.meand3[mask]**2/4) )
+                cossq = (1 - self.meand2[mask]**2/4) * (1 - self.meand3[mask]**2/4)
+                cosphi /= np.sqrt(np.maximum(cossq, 1.e-30))  # Can be <= 0 from rounding errors.
                 cosphi[cosphi < -1] = -1  # Just in case...
                 cosphi[cosphi > 1] = 1
                 self.meanphi[mask] = np.arccos(cosphi)
@@ -2262,12 +2263,12 @@ class Corr3(object):
             # Also convert the chord distance to a real angle.
             # L = 2 sin(theta/2)
             if self.bin_type != 'LogMultipole':
-                self.meand1[mask] = 2. * np.arcsin(self.meand1[mask]/2.)
-                self.meanlogd1[mask] = np.log(2.*np.arcsin(np.exp(self.meanlogd1[mask])/2.))
-            self.meand2[mask] = 2. * np.arcsin(self.meand2[mask]/2.)
-            self.meanlogd2[mask] = np.log(2.*np.arcsin(np.exp(self.meanlogd2[mask])/2.))
-            self.meand3[mask] = 2. * np.arcsin(self.meand3[mask]/2.)
-            self.meanlogd3[mask] = np.log(2.*np.arcsin(np.exp(self.meanlogd3[mask])/2.))
+                self.meand1[mask] = chord_to_angle(self.meand1[mask])
+                self.meanlogd1[mask] = np.log(chord_to_angle(np.exp(self.meanlogd1[mask])))
+            self.meand2[mask] = chord_to_angle(self.meand2[mask])
+            self.meanlogd2[mask] = np.log(chord_to_angle(np.exp(self.meanlogd2[mask])))
+            self.meand3[mask] = chord_to_angle(self.meand3[mask])
+            self.meanlogd3[mask] = np.log(chord_to_angle(np.exp(self.meanlogd3[mask])))
 
         if self.bin_type == 'LogSAS':
             self.meanphi[mask] /= self._phi_units
diff --git a/treecorr/util.py b/treecorr/util.py
index 05b88e7..960b0ed 100644
--- a/treecorr/util.py
+++ b/treecorr/util.py
@@ -617,3 +617,13 @@ class lazy_property(object):
         value = self.fget(obj)
         setattr(obj, self.func_name, value)
         return value
+
+def chord_to_angle(d):
+    """Convert chord distances between points on the unit sphere into great circle distances.
+
+    :param d:       The chord distance(s).
+
+    :returns:       The great circle distance(s) in radians.
+    """
+    # Rounding errors can make the (mean) distance of opposite points slightly larger than 2.
+    return 2. * np.arcsin(np.minimum(d/2., 1.))
-- 
2.43.0


From 385b26f992a09d48c285e52b19e308529953beab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:45 +0000
Subject: [PATCH 114/117] fix: brute force calculations with Rlens and an
 object at the origin don't crash

---
 include/Metric.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/Metric.h b/include/Metric.h
index 8341037..b5a7861 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -540,7 +540,9 @@ struct MetricHelper<Rlens, P>
 
         // The effect of s2 needs to be modified here.  Its effect on Rlens is approximately
         //      s2' = r1/r2 s2
-        if (s2 != 0.) s2 *= sqrt(p1.normSq() / r2sq);
+        // (Leave it alone if p1 is at the origin, since s2 may be infinite.)
+        double r1sq = p1.normSq();
+        if (s2 != 0. && r1sq != 0.) s2 *= sqrt(r1sq / r2sq);
 
         return rsq;
     }
-- 
2.43.0


From d507ea15fa8ebfc588b4522ecb2ee063db4fcad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:17 +0000
Subject: [PATCH 115/117] fix: a correlation read from a file can be processed
 again

The arrays taken from the file were non-contiguous views (and big-endian for FITS),
which the C++ layer cannot accumulate into, so a later process() silently gave wrong results.
---
 treecorr/corr2base.py      |  9 +++++----
 treecorr/corr3base.py      |  9 +++++----
 treecorr/nncorrelation.py  |  2 +-
 treecorr/nnncorrelation.py |  2 +-
 treecorr/util.py           | 14 ++++++++++++++
 5 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index c62c4e7..81bfa4d 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -25,7 +25,7 @@ import collections
 from . import _treecorr
 from .config import merge_config, setup_logger, get, make_minimal_config
 from .util import parse_metric, metric_enum, coord_enum, set_omp_threads, lazy_property
-from .util import make_reader, chord_to_angle
+from .util import make_reader, native_columns, chord_to_angle
 from .catalog import Catalog
 
 class Namespace(object):
@@ -1784,7 +1784,7 @@ class Corr2(object):
         num_zero_patch = params.get('num_zero_patch', 0)
         cov_shape = params.get('cov_shape', None)
         name = 'main' if (num_patch_pairs or num_zero_patch) and name is None else name
-        data = reader.read_data(max_rows=num_rows, ext=name)
+        data = native_columns(reader.read_data(max_rows=num_rows, ext=name))
 
         # Forget everything about whatever this object might have held before.
         self.clear()
@@ -1792,6 +1792,7 @@ class Corr2(object):
         # This helper function defines how to set the attributes for each class
         # based on what was read in.
         self._read_from_data(data, params)
+        self._corr = None  # The C++ layer needs to use the new arrays from now on.
 
         self.results = {}
         for i in range(num_zero_patch):
@@ -1802,7 +1803,7 @@ class Corr2(object):
             pp_name = name + '_pp_%d'%i
             corr = self.copy()
             params = reader.read_params(ext=pp_name)
-            data = reader.read_data(max_rows=num_rows, ext=pp_name)
+            data = native_columns(reader.read_data(max_rows=num_rows, ext=pp_name))
             corr._read_from_data(data, params)
             key = eval(params['key'])
             self.results[key] = corr
@@ -1815,7 +1816,7 @@ class Corr2(object):
         s = self.logr.shape
         self.meanr = data['meanr'].reshape(s)
         self.meanlogr = data['meanlogr'].reshape(s)
-        if 'weight' in data.dtype.names:
+        if 'weight' in data:
             # NN calls this DD rather than weight.  Let that class handle it.
             # But here, don't error if weight is missing.
             self.weight = data['weight'].reshape(s)
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index f602177..f55f0a9 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -23,7 +23,7 @@ import coord
 from . import _treecorr
 from .config import merge_config, setup_logger, get, make_minimal_config
 from .util import parse_metric, metric_enum, coord_enum, set_omp_threads, lazy_property
-from .util import make_reader, chord_to_angle
+from .util import make_reader, native_columns, chord_to_angle
 from .corr2base import estimate_multi_cov, build_multi_cov_design_matrix, Corr2
 from .catalog import Catalog
 
@@ -2532,7 +2532,7 @@ class Corr3(object):
         num_zero_patch = params.get('num_zero_patch', 0)
         cov_shape = params.get('cov_shape', None)
         name = 'main' if (num_patch_tri or num_zero_patch) and name is None else name
-        data = reader.read_data(max_rows=num_rows, ext=name)
+        data = native_columns(reader.read_data(max_rows=num_rows, ext=name))
 
         # Forget everything about whatever this object might have held before.
         self.clear()
@@ -2540,6 +2540,7 @@ class Corr3(object):
         # This helper function defines how to set the attributes for each class
         # based on what was read in.
         self._read_from_data(data, params)
+        self._corr = None  # The C++ layer needs to use the new arrays from now on.
 
         self.results = {}
         for i in range(num_zero_patch):
@@ -2550,7 +2551,7 @@ class Corr3(object):
             pp_name = name + '_pp_%d'%i
             corr = self.copy()
             params = reader.read_params(ext=pp_name)
-            data = reader.read_data(max_rows=num_rows, ext=pp_name)
+            data = native_columns(reader.read_data(max_rows=num_rows, ext=pp_name))
             corr._read_from_data(data, params)
             key = eval(params['key'])
             self.results[key] = corr
@@ -2576,7 +2577,7 @@ class Corr3(object):
             self.weightr = data['weight_re'].reshape(s)
             self.weighti = data['weight_im'].reshape(s)
         else:
-            if 'weight' in data.dtype.names:
+            if 'weight' in data:
                 # NNN calls this DDD, rather than weight.  Let that class handle it.
                 # But here, don't error if weight is missing.
                 self.weightr = data['weight'].reshape(s)
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 7d54cf6..09ae664 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -741,7 +741,7 @@ class NNCorrelation(Corr2):
         s = self.logr.shape
         self.weight = data['DD'].reshape(s)
         self.tot = params['tot']
-        if 'xi' in data.dtype.names:
+        if 'xi' in data:
             self.xi = data['xi'].reshape(s)
             self.varxi = data['sigma_xi'].reshape(s)**2
         # Note: "or None" turns False -> None
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index 6cf5af9..f0cbc44 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -975,7 +975,7 @@ class NNNCorrelation(Corr3):
     def _read_from_data(self, data, params):
         super()._read_from_data(data, params)
         s = self.data_shape
-        if 'zeta' in data.dtype.names:
+        if 'zeta' in data:
             self.zeta = data['zeta'].reshape(s)
             self.varzeta = data['sigma_zeta'].reshape(s)**2
         if self.bin_type != 'LogMultipole':
diff --git a/treecorr/util.py b/treecorr/util.py
index 960b0ed..0e5e3e0 100644
--- a/treecorr/util.py
+++ b/treecorr/util.py
@@ -145,6 +145,20 @@ def make_writer(file_name, precision=4, file_type=None, logger=None):
         raise ValueError("Invalid file_type %s"%file_type)
     return writer
 
+def native_columns(data):
+    """Convert data as returned by reader.read_data into a dict of normal numpy arrays.
+
+    The columns of a structured array are not contiguous and (for FITS files) are not in the
+    native byte order.  The C++ layer can only accumulate values into arrays that are both.
+
+    Parameters:
+        data (array):       The structured array with the data in the file.
+
+    Returns:
+        A dict with an independent, contiguous array of floats for each column.
+    """
+    return {name: np.array(data[name], dtype=float, order='C') for name in data.dtype.names}
+
 def make_reader(file_name, file_type=None, logger=None):
     """Factory function to make a writer instance of the correct type.
     """
-- 
2.43.0


From 66063d1f656c43d9843b4b2bb78c9d19ed9b2807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:30 +0000
Subject: [PATCH 116/117] fix: scalar parameters read from HDF files are normal
 Python types

In particular brute=True came back as numpy.bool_, which is not recognized as True, so only
one of the two catalogs of a cross-correlation was done by brute force.
---
 treecorr/reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/treecorr/reader.py b/treecorr/reader.py
index 46a9db4..a7f71c0 100644
--- a/treecorr/reader.py
+++ b/treecorr/reader.py
@@ -734,7 +734,9 @@ class HdfReader(object):
             params
         """
         g = self._group(ext)
-        params = dict(g.attrs)
+        # Convert numpy scalars to the corresponding Python type.
+        # In particular, numpy.bool_(True) is not the same as True for parameters like brute.
+        params = { k : v.item() if isinstance(v, np.generic) else v for k,v in g.attrs.items() }
 
         return params
 
-- 
2.43.0


From 40dc9779d3f977c79d2c61afa64b338bb9670621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:54 +0000
Subject: [PATCH 117/117] fix: LogSAS triangle bins are accurate to bin_slop
 for obtuse angles

The estimate of how much moving the first vertex changes phi had the wrong sign for cosphi, so it
went to zero for phi -> pi, where the effect is largest.
---
 include/BinType.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/BinType.h b/include/BinType.h
index e8e4a3d..c252351 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -1161,12 +1161,12 @@ struct BinTypeHelper<LogSAS>
                 (((s1ps3=s1+s3) > d2 * b) && (d3split=true, s1 >= s3)) ||
 
                 // Check if phi binning needs a split
-                // phi_max when d2 -> d2-s1, d3 -> d3-s1
-                // phi_max - phi ~= (1/sinphi) d(cosphi/ds1) s1
-                // d(cosphi/ds1) = (1+cosphi) (d2+d3)/d2d3
+                // Moving p1 by s1 rotates the d2 direction by up to s1/d2 and the d3 direction
+                // by up to s1/d3.  The gradient of phi is the vector difference of these:
+                // |grad phi|^2 = 1/d2^2 + 1/d3^2 - 2 cosphi/(d2 d3) = (d1/(d2 d3))^2
                 // So the threshold for splitting is
-                // (1+cosphi)/sinphi (d2+d3)/d2d3 s1 > bphi
-                ((1.+cosphi) * (d2+d3)/(sqrt(1-SQR(cosphi))*d2*d3) * s1 > bphi));
+                // d1/(d2 d3) s1 > bphi
+                (d1sq * SQR(s1) > SQR(bphi * d2 * d3)));
         } else {
             split1 = false;
         }
-- 
2.43.0

