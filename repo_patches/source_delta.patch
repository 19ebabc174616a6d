From 497947f887966e2f7fd072f4b02096d700830fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:03 +0000
Subject: [PATCH 01/14] fix: Left1D and Right1D return the stored value exactly
 at grid points

---
 src/one_dim/hold.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/one_dim/hold.rs b/src/one_dim/hold.rs
index cb969d0..5a94d0b 100644
--- a/src/one_dim/hold.rs
+++ b/src/one_dim/hold.rs
@@ -25,13 +25,15 @@ where
         let GridSample {
             x0: _,
             y0,
-            x1: _,
+            x1,
             y1,
             extrap,
         } = self.grid.at(loc)?;
 
         let v = match extrap {
             Extrap::OutsideHigh => y1,
+            // Exactly on the right-hand grid point
+            _ if loc >= x1 => y1,
             _ => y0,
         };
 
@@ -58,7 +60,7 @@ where
     #[inline]
     fn eval_one(&self, loc: T) -> Result<T, &'static str> {
         let GridSample {
-            x0: _,
+            x0,
             y0,
             x1: _,
             y1,
@@ -67,6 +69,8 @@ where
 
         let v = match extrap {
             Extrap::OutsideLow => y0,
+            // Exactly on the left-hand grid point
+            _ if loc <= x0 => y0,
             _ => y1,
         };
 
-- 
2.43.0


From 71f6eaec21c15cde549d8f4bccaf0dc440634506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:03 +0000
Subject: [PATCH 02/14] fix: RegularGrid1D::new rejects fewer than two values
 instead of panicking

---
 src/one_dim/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/one_dim/mod.rs b/src/one_dim/mod.rs
index 9a35f94..c8af6c3 100644
--- a/src/one_dim/mod.rs
+++ b/src/one_dim/mod.rs
@@ -84,6 +84,9 @@ pub struct RegularGrid1D<'a, T: Float> {
 
 impl<'a, T: Float> RegularGrid1D<'a, T> {
     pub fn new(start: T, step: T, vals: &'a [T]) -> Result<Self, &'static str> {
+        if vals.len() < 2 {
+            return Err("Length mismatch");
+        }
         let stop =
             start + step * <T as NumCast>::from(vals.len() - 1).ok_or("Unrepresentable number")?;
         Ok(Self {
-- 
2.43.0


From d380397183106eba22cb544eb477460d2c47501d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:23 +0000
Subject: [PATCH 03/14] fix: multicubic interpn reports mismatched argument
 lengths instead of panicking

---
 src/multicubic/rectilinear.rs | 3 +++
 src/multicubic/regular.rs     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/multicubic/rectilinear.rs b/src/multicubic/rectilinear.rs
index 3350e56..2faeaa7 100644
--- a/src/multicubic/rectilinear.rs
+++ b/src/multicubic/rectilinear.rs
@@ -62,6 +62,9 @@ pub fn interpn<T: Float>(
     // gives a substantial speedup for lower dimensionalities
     // (4-5x speedup for 1-dim compared to using N=8)
     let ndims = grids.len();
+    if obs.len() != ndims {
+        return Err("Dimension mismatch");
+    }
     match ndims {
         1 => MulticubicRectilinear::<'_, T, 1>::new(
             grids.try_into().unwrap(),
diff --git a/src/multicubic/regular.rs b/src/multicubic/regular.rs
index b4807fb..2c9babf 100644
--- a/src/multicubic/regular.rs
+++ b/src/multicubic/regular.rs
@@ -62,6 +62,9 @@ pub fn interpn<T: Float>(
     // gives a substantial speedup for lower dimensionalities
     // (4-5x speedup for 1-dim compared to using N=8)
     let ndims = dims.len();
+    if starts.len() != ndims || steps.len() != ndims || obs.len() != ndims {
+        return Err("Dimension mismatch");
+    }
     match ndims {
         1 => MulticubicRegular::<'_, T, 1>::new(
             dims.try_into().unwrap(),
-- 
2.43.0


From c84376c95833e97a1dd13cedfc68239cc7e8de18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:23 +0000
Subject: [PATCH 04/14] fix: recursive interpolators reject more than MAXDIMS
 dimensions instead of panicking

---
 src/multicubic/rectilinear_recursive.rs  | 5 ++++-
 src/multicubic/regular_recursive.rs      | 7 ++++++-
 src/multilinear/rectilinear_recursive.rs | 5 ++++-
 src/multilinear/regular_recursive.rs     | 7 ++++++-
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/multicubic/rectilinear_recursive.rs b/src/multicubic/rectilinear_recursive.rs
index 79ac128..67c283b 100644
--- a/src/multicubic/rectilinear_recursive.rs
+++ b/src/multicubic/rectilinear_recursive.rs
@@ -173,10 +173,13 @@ impl<'a, T: Float, const MAXDIMS: usize> MulticubicRectilinearRecursive<'a, T, M
     ) -> Result<Self, &'static str> {
         // Check dimensions
         let ndims = grids.len();
+        if ndims > MAXDIMS {
+            return Err("Dimension mismatch");
+        }
         let mut dims = [1_usize; MAXDIMS];
         (0..ndims).for_each(|i| dims[i] = grids[i].len());
         let nvals: usize = dims[..ndims].iter().product();
-        if !(vals.len() == nvals && ndims > 0 && ndims <= MAXDIMS) {
+        if !(vals.len() == nvals && ndims > 0) {
             return Err("Dimension mismatch");
         };
         // Check if any grids are degenerate
diff --git a/src/multicubic/regular_recursive.rs b/src/multicubic/regular_recursive.rs
index 332ffdb..decf9a2 100644
--- a/src/multicubic/regular_recursive.rs
+++ b/src/multicubic/regular_recursive.rs
@@ -243,7 +243,12 @@ impl<'a, T: Float, const MAXDIMS: usize> MulticubicRegularRecursive<'a, T, MAXDI
         // Check dimensions
         let ndims = dims.len();
         let nvals: usize = dims.iter().product();
-        if !(starts.len() == ndims && steps.len() == ndims && vals.len() == nvals && ndims > 0) {
+        if !(starts.len() == ndims
+            && steps.len() == ndims
+            && vals.len() == nvals
+            && ndims > 0
+            && ndims <= MAXDIMS)
+        {
             return Err("Dimension mismatch");
         }
 
diff --git a/src/multilinear/rectilinear_recursive.rs b/src/multilinear/rectilinear_recursive.rs
index a2f7a8e..ba6a67b 100644
--- a/src/multilinear/rectilinear_recursive.rs
+++ b/src/multilinear/rectilinear_recursive.rs
@@ -160,10 +160,13 @@ impl<'a, T: Float, const MAXDIMS: usize> MultilinearRectilinearRecursive<'a, T,
     pub fn new(grids: &'a [&'a [T]], vals: &'a [T]) -> Result<Self, &'static str> {
         // Check dimensions
         let ndims = grids.len();
+        if ndims > MAXDIMS {
+            return Err("Dimension mismatch");
+        }
         let mut dims = [1_usize; MAXDIMS];
         (0..ndims).for_each(|i| dims[i] = grids[i].len());
         let nvals: usize = dims[..ndims].iter().product();
-        if !(vals.len() == nvals && ndims > 0 && ndims <= MAXDIMS) {
+        if !(vals.len() == nvals && ndims > 0) {
             return Err("Dimension mismatch");
         };
         // Check if any grids are degenerate
diff --git a/src/multilinear/regular_recursive.rs b/src/multilinear/regular_recursive.rs
index 05890bf..9b2648f 100644
--- a/src/multilinear/regular_recursive.rs
+++ b/src/multilinear/regular_recursive.rs
@@ -197,7 +197,12 @@ impl<'a, T: Float, const MAXDIMS: usize> MultilinearRegularRecursive<'a, T, MAXD
         // Check dimensions
         let ndims = dims.len();
         let nvals: usize = dims.iter().product();
-        if !(starts.len() == ndims && steps.len() == ndims && vals.len() == nvals && ndims > 0) {
+        if !(starts.len() == ndims
+            && steps.len() == ndims
+            && vals.len() == nvals
+            && ndims > 0
+            && ndims <= MAXDIMS)
+        {
             return Err("Dimension mismatch");
         }
         // Make sure all dimensions have at least four entries
-- 
2.43.0


From eb2287e4d2884b631a885189327d1a686771e92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:23 +0000
Subject: [PATCH 05/14] fix: regular check_bounds reports mismatched lengths
 and empty axes instead of panicking

---
 src/multilinear/regular.rs           | 7 ++++++-
 src/multilinear/regular_recursive.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/multilinear/regular.rs b/src/multilinear/regular.rs
index c83b1af..76e8835 100644
--- a/src/multilinear/regular.rs
+++ b/src/multilinear/regular.rs
@@ -151,7 +151,12 @@ pub fn check_bounds<T: Float>(
     out: &mut [bool],
 ) -> Result<(), &'static str> {
     let n = dims.len();
-    if !(obs.len() == n && out.len() == n) {
+    if !(starts.len() == n
+        && steps.len() == n
+        && obs.len() == n
+        && out.len() == n
+        && dims.iter().all(|&d| d > 0))
+    {
         return Err("Dimension mismatch");
     }
 
diff --git a/src/multilinear/regular_recursive.rs b/src/multilinear/regular_recursive.rs
index 9b2648f..fd45846 100644
--- a/src/multilinear/regular_recursive.rs
+++ b/src/multilinear/regular_recursive.rs
@@ -114,7 +114,12 @@ pub fn check_bounds<T: Float>(
     out: &mut [bool],
 ) -> Result<(), &'static str> {
     let ndims = dims.len();
-    if !(obs.len() == ndims && out.len() == ndims) {
+    if !(starts.len() == ndims
+        && steps.len() == ndims
+        && obs.len() == ndims
+        && out.len() == ndims
+        && dims.iter().all(|&d| d > 0))
+    {
         return Err("Dimension mismatch");
     }
 
-- 
2.43.0


From b6a08eef35c03c3b312b862f0c41b68c9f40eb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:23 +0000
Subject: [PATCH 06/14] fix: multicubic regular index does not overflow for the
 lowest representable location

---
 src/multicubic/regular.rs           | 4 +++-
 src/multicubic/regular_recursive.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/multicubic/regular.rs b/src/multicubic/regular.rs
index 2c9babf..f8a83c3 100644
--- a/src/multicubic/regular.rs
+++ b/src/multicubic/regular.rs
@@ -438,7 +438,9 @@ impl<'a, T: Float, const N: usize> MulticubicRegular<'a, T, N> {
         let floc = ((v - self.starts[dim]) / self.steps[dim]).floor(); // float loc
         // Signed integer loc, with the bottom of the cell aligned to place the normalized
         // coordinate t=0 at cell index 1
-        let iloc = <isize as NumCast>::from(floc).ok_or("Unrepresentable coordinate value")? - 1;
+        let iloc = <isize as NumCast>::from(floc)
+            .ok_or("Unrepresentable coordinate value")?
+            .saturating_sub(1);
 
         let n = self.dims[dim] as isize; // Number of grid points on this dimension
         let dimmax = n.saturating_sub(4).max(0); // maximum index for lower corner
diff --git a/src/multicubic/regular_recursive.rs b/src/multicubic/regular_recursive.rs
index decf9a2..19aa815 100644
--- a/src/multicubic/regular_recursive.rs
+++ b/src/multicubic/regular_recursive.rs
@@ -394,7 +394,9 @@ impl<'a, T: Float, const MAXDIMS: usize> MulticubicRegularRecursive<'a, T, MAXDI
         let floc = ((v - self.starts[dim]) / self.steps[dim]).floor(); // float loc
         // Signed integer loc, with the bottom of the cell aligned to place the normalized
         // coordinate t=0 at cell index 1
-        let iloc = <isize as NumCast>::from(floc).ok_or("Unrepresentable coordinate value")? - 1;
+        let iloc = <isize as NumCast>::from(floc)
+            .ok_or("Unrepresentable coordinate value")?
+            .saturating_sub(1);
 
         let n = self.dims[dim] as isize; // Number of grid points on this dimension
         let dimmax = n.saturating_sub(4).max(0); // maximum index for lower corner
-- 
2.43.0


From bec64fd6b5dda2f816982103ada08d71c1910ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:23 +0000
Subject: [PATCH 07/14] fix: overflowing grid sizes are reported as a dimension
 mismatch instead of panicking or wrapping

---
 src/multicubic/rectilinear.rs            | 5 ++++-
 src/multicubic/rectilinear_recursive.rs  | 5 ++++-
 src/multicubic/regular.rs                | 5 ++++-
 src/multicubic/regular_recursive.rs      | 5 ++++-
 src/multilinear/rectilinear.rs           | 5 ++++-
 src/multilinear/rectilinear_recursive.rs | 5 ++++-
 src/multilinear/regular.rs               | 5 ++++-
 src/multilinear/regular_recursive.rs     | 5 ++++-
 src/nearest/rectilinear.rs               | 5 ++++-
 src/nearest/regular.rs                   | 5 ++++-
 10 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/multicubic/rectilinear.rs b/src/multicubic/rectilinear.rs
index 2faeaa7..38a20c9 100644
--- a/src/multicubic/rectilinear.rs
+++ b/src/multicubic/rectilinear.rs
@@ -207,7 +207,10 @@ impl<'a, T: Float, const N: usize> MulticubicRectilinear<'a, T, N> {
         }
         let mut dims = [1_usize; N];
         (0..N).for_each(|i| dims[i] = grids[i].len());
-        let nvals: usize = dims.iter().product();
+        let nvals = dims
+            .iter()
+            .try_fold(1_usize, |n, &d| n.checked_mul(d))
+            .ok_or("Dimension mismatch")?;
         if vals.len() != nvals {
             return Err("Dimension mismatch");
         };
diff --git a/src/multicubic/rectilinear_recursive.rs b/src/multicubic/rectilinear_recursive.rs
index 67c283b..bd0bee6 100644
--- a/src/multicubic/rectilinear_recursive.rs
+++ b/src/multicubic/rectilinear_recursive.rs
@@ -178,7 +178,10 @@ impl<'a, T: Float, const MAXDIMS: usize> MulticubicRectilinearRecursive<'a, T, M
         }
         let mut dims = [1_usize; MAXDIMS];
         (0..ndims).for_each(|i| dims[i] = grids[i].len());
-        let nvals: usize = dims[..ndims].iter().product();
+        let nvals = dims[..ndims]
+            .iter()
+            .try_fold(1_usize, |n, &d| n.checked_mul(d))
+            .ok_or("Dimension mismatch")?;
         if !(vals.len() == nvals && ndims > 0) {
             return Err("Dimension mismatch");
         };
diff --git a/src/multicubic/regular.rs b/src/multicubic/regular.rs
index f8a83c3..599b5e8 100644
--- a/src/multicubic/regular.rs
+++ b/src/multicubic/regular.rs
@@ -253,7 +253,10 @@ impl<'a, T: Float, const N: usize> MulticubicRegular<'a, T, N> {
                 "Flattened method defined for 1-5 dimensions. For higher dimensions, use recursive method."
             );
         }
-        let nvals: usize = dims.iter().product();
+        let nvals = dims
+            .iter()
+            .try_fold(1_usize, |n, &d| n.checked_mul(d))
+            .ok_or("Dimension mismatch")?;
         if !(starts.len() == N && steps.len() == N && vals.len() == nvals && N > 0) {
             return Err("Dimension mismatch");
         }
diff --git a/src/multicubic/regular_recursive.rs b/src/multicubic/regular_recursive.rs
index 19aa815..a76216a 100644
--- a/src/multicubic/regular_recursive.rs
+++ b/src/multicubic/regular_recursive.rs
@@ -242,7 +242,10 @@ impl<'a, T: Float, const MAXDIMS: usize> MulticubicRegularRecursive<'a, T, MAXDI
     ) -> Result<Self, &'static str> {
         // Check dimensions
         let ndims = dims.len();
-        let nvals: usize = dims.iter().product();
+        let nvals = dims
+            .iter()
+            .try_fold(1_usize, |n, &d| n.checked_mul(d))
+            .ok_or("Dimension mismatch")?;
         if !(starts.len() == ndims
             && steps.len() == ndims
             && vals.len() == nvals
diff --git a/src/multilinear/rectilinear.rs b/src/multilinear/rectilinear.rs
index 00c2a84..283cf9d 100644
--- a/src/multilinear/rectilinear.rs
+++ b/src/multilinear/rectilinear.rs
@@ -182,7 +182,10 @@ impl<'a, T: Float, const N: usize> MultilinearRectilinear<'a, T, N> {
         }
         let mut dims = [1_usize; N];
         (0..N).for_each(|i| dims[i] = grids[i].len());
-        let nvals: usize = dims[..N].iter().product();
+        let nvals = dims[..N]
+            .iter()
+            .try_fold(1_usize, |n, &d| n.checked_mul(d))
+            .ok_or("Dimension mismatch")?;
         if vals.len() != nvals {
             return Err("Dimension mismatch");
         };
diff --git a/src/multilinear/rectilinear_recursive.rs b/src/multilinear/rectilinear_recursive.rs
index ba6a67b..2a84742 100644
--- a/src/multilinear/rectilinear_recursive.rs
+++ b/src/multilinear/rectilinear_recursive.rs
@@ -165,7 +165,10 @@ impl<'a, T: Float, const MAXDIMS: usize> MultilinearRectilinearRecursive<'a, T,
         }
         let mut dims = [1_usize; MAXDIMS];
         (0..ndims).for_each(|i| dims[i] = grids[i].len());
-        let nvals: usize = dims[..ndims].iter().product();
+        let nvals = dims[..ndims]
+            .iter()
+            .try_fold(1_usize, |n, &d| n.checked_mul(d))
+            .ok_or("Dimension mismatch")?;
         if !(vals.len() == nvals && ndims > 0) {
             return Err("Dimension mismatch");
         };
diff --git a/src/multilinear/regular.rs b/src/multilinear/regular.rs
index 76e8835..7dca48f 100644
--- a/src/multilinear/regular.rs
+++ b/src/multilinear/regular.rs
@@ -240,7 +240,10 @@ impl<'a, T: Float, const N: usize> MultilinearRegular<'a, T, N> {
                 "Flattened method defined for 1-6 dimensions. For higher dimensions, use recursive method."
             );
         }
-        let nvals: usize = dims.iter().product();
+        let nvals = dims
+            .iter()
+            .try_fold(1_usize, |n, &d| n.checked_mul(d))
+            .ok_or("Dimension mismatch")?;
         if vals.len() != nvals {
             return Err("Dimension mismatch");
         }
diff --git a/src/multilinear/regular_recursive.rs b/src/multilinear/regular_recursive.rs
index fd45846..12c122b 100644
--- a/src/multilinear/regular_recursive.rs
+++ b/src/multilinear/regular_recursive.rs
@@ -201,7 +201,10 @@ impl<'a, T: Float, const MAXDIMS: usize> MultilinearRegularRecursive<'a, T, MAXD
     ) -> Result<Self, &'static str> {
         // Check dimensions
         let ndims = dims.len();
-        let nvals: usize = dims.iter().product();
+        let nvals = dims
+            .iter()
+            .try_fold(1_usize, |n, &d| n.checked_mul(d))
+            .ok_or("Dimension mismatch")?;
         if !(starts.len() == ndims
             && steps.len() == ndims
             && vals.len() == nvals
diff --git a/src/nearest/rectilinear.rs b/src/nearest/rectilinear.rs
index c3e2fc1..464eec1 100644
--- a/src/nearest/rectilinear.rs
+++ b/src/nearest/rectilinear.rs
@@ -131,7 +131,10 @@ impl<'a, T: Float, const N: usize> NearestRectilinear<'a, T, N> {
         }
         let mut dims = [1_usize; N];
         (0..N).for_each(|i| dims[i] = grids[i].len());
-        let nvals: usize = dims[..N].iter().product();
+        let nvals = dims[..N]
+            .iter()
+            .try_fold(1_usize, |n, &d| n.checked_mul(d))
+            .ok_or("Dimension mismatch")?;
         if vals.len() != nvals {
             return Err("Dimension mismatch");
         };
diff --git a/src/nearest/regular.rs b/src/nearest/regular.rs
index a8fdc21..d1c3239 100644
--- a/src/nearest/regular.rs
+++ b/src/nearest/regular.rs
@@ -173,7 +173,10 @@ impl<'a, T: Float, const N: usize> NearestRegular<'a, T, N> {
                 "Flattened method defined for 1-6 dimensions. For higher dimensions, use recursive method."
             );
         }
-        let nvals: usize = dims.iter().product();
+        let nvals = dims
+            .iter()
+            .try_fold(1_usize, |n, &d| n.checked_mul(d))
+            .ok_or("Dimension mismatch")?;
         if vals.len() != nvals {
             return Err("Dimension mismatch");
         }
-- 
2.43.0


From 176af397f661e47c31ca346c1a84c19ca3e8211b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:23 +0000
Subject: [PATCH 08/14] fix: interpn_alloc reports an empty list of observation
 arrays instead of panicking

---
 src/multicubic/rectilinear.rs            | 2 +-
 src/multicubic/rectilinear_recursive.rs  | 2 +-
 src/multicubic/regular.rs                | 2 +-
 src/multicubic/regular_recursive.rs      | 2 +-
 src/multilinear/rectilinear.rs           | 2 +-
 src/multilinear/rectilinear_recursive.rs | 2 +-
 src/multilinear/regular.rs               | 2 +-
 src/multilinear/regular_recursive.rs     | 2 +-
 src/nearest/rectilinear.rs               | 2 +-
 src/nearest/regular.rs                   | 2 +-
 10 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/multicubic/rectilinear.rs b/src/multicubic/rectilinear.rs
index 38a20c9..e60a6bd 100644
--- a/src/multicubic/rectilinear.rs
+++ b/src/multicubic/rectilinear.rs
@@ -117,7 +117,7 @@ pub fn interpn_alloc<T: Float>(
     linearize_extrapolation: bool,
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().ok_or("Dimension mismatch")?.len()];
     interpn(grids, vals, linearize_extrapolation, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/multicubic/rectilinear_recursive.rs b/src/multicubic/rectilinear_recursive.rs
index bd0bee6..bc6d2f4 100644
--- a/src/multicubic/rectilinear_recursive.rs
+++ b/src/multicubic/rectilinear_recursive.rs
@@ -90,7 +90,7 @@ pub fn interpn_alloc<T: Float>(
     linearize_extrapolation: bool,
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().ok_or("Dimension mismatch")?.len()];
     interpn(grids, vals, linearize_extrapolation, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/multicubic/regular.rs b/src/multicubic/regular.rs
index 599b5e8..955231f 100644
--- a/src/multicubic/regular.rs
+++ b/src/multicubic/regular.rs
@@ -151,7 +151,7 @@ pub fn interpn_alloc<T: Float>(
     linearize_extrapolation: bool,
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().ok_or("Dimension mismatch")?.len()];
     interpn(
         dims,
         starts,
diff --git a/src/multicubic/regular_recursive.rs b/src/multicubic/regular_recursive.rs
index a76216a..40e8877 100644
--- a/src/multicubic/regular_recursive.rs
+++ b/src/multicubic/regular_recursive.rs
@@ -143,7 +143,7 @@ pub fn interpn_alloc<T: Float>(
     linearize_extrapolation: bool,
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().ok_or("Dimension mismatch")?.len()];
     interpn(
         dims,
         starts,
diff --git a/src/multilinear/rectilinear.rs b/src/multilinear/rectilinear.rs
index 283cf9d..e10602d 100644
--- a/src/multilinear/rectilinear.rs
+++ b/src/multilinear/rectilinear.rs
@@ -92,7 +92,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().ok_or("Dimension mismatch")?.len()];
     interpn(grids, vals, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/multilinear/rectilinear_recursive.rs b/src/multilinear/rectilinear_recursive.rs
index 2a84742..f857608 100644
--- a/src/multilinear/rectilinear_recursive.rs
+++ b/src/multilinear/rectilinear_recursive.rs
@@ -77,7 +77,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().ok_or("Dimension mismatch")?.len()];
     interpn(grids, vals, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/multilinear/regular.rs b/src/multilinear/regular.rs
index 7dca48f..b5345e8 100644
--- a/src/multilinear/regular.rs
+++ b/src/multilinear/regular.rs
@@ -128,7 +128,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().ok_or("Dimension mismatch")?.len()];
     interpn(dims, starts, steps, vals, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/multilinear/regular_recursive.rs b/src/multilinear/regular_recursive.rs
index 12c122b..67573a0 100644
--- a/src/multilinear/regular_recursive.rs
+++ b/src/multilinear/regular_recursive.rs
@@ -91,7 +91,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().ok_or("Dimension mismatch")?.len()];
     interpn(dims, starts, steps, vals, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/nearest/rectilinear.rs b/src/nearest/rectilinear.rs
index 464eec1..2d0e5b8 100644
--- a/src/nearest/rectilinear.rs
+++ b/src/nearest/rectilinear.rs
@@ -75,7 +75,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().ok_or("Dimension mismatch")?.len()];
     interpn(grids, vals, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/nearest/regular.rs b/src/nearest/regular.rs
index d1c3239..81f3656 100644
--- a/src/nearest/regular.rs
+++ b/src/nearest/regular.rs
@@ -112,7 +112,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().ok_or("Dimension mismatch")?.len()];
     interpn(dims, starts, steps, vals, obs, &mut out)?;
     Ok(out)
 }
-- 
2.43.0


From 54d05187d6c36296f4f87a16ae407522f43e669b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:23 +0000
Subject: [PATCH 09/14] fix: check_bounds does not flag points exactly on the
 edge of the grid or of the tolerance

---
 src/multilinear/rectilinear.rs           | 4 +---
 src/multilinear/rectilinear_recursive.rs | 4 +---
 src/multilinear/regular.rs               | 4 +---
 src/multilinear/regular_recursive.rs     | 4 +---
 4 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/multilinear/rectilinear.rs b/src/multilinear/rectilinear.rs
index e10602d..76dff9f 100644
--- a/src/multilinear/rectilinear.rs
+++ b/src/multilinear/rectilinear.rs
@@ -121,9 +121,7 @@ pub fn check_bounds<T: Float>(
         let hi = grids[i].last();
         match hi {
             Some(&hi) => {
-                let bad = obs[i]
-                    .iter()
-                    .any(|&x| (x - lo) <= -atol || (x - hi) >= atol);
+                let bad = obs[i].iter().any(|&x| (x - lo) < -atol || (x - hi) > atol);
 
                 out[i] = bad;
             }
diff --git a/src/multilinear/rectilinear_recursive.rs b/src/multilinear/rectilinear_recursive.rs
index f857608..fb45253 100644
--- a/src/multilinear/rectilinear_recursive.rs
+++ b/src/multilinear/rectilinear_recursive.rs
@@ -106,9 +106,7 @@ pub fn check_bounds<T: Float>(
         let hi = grids[i].last();
         match hi {
             Some(&hi) => {
-                let bad = obs[i]
-                    .iter()
-                    .any(|&x| (x - lo) <= -atol || (x - hi) >= atol);
+                let bad = obs[i].iter().any(|&x| (x - lo) < -atol || (x - hi) > atol);
 
                 out[i] = bad;
             }
diff --git a/src/multilinear/regular.rs b/src/multilinear/regular.rs
index b5345e8..9d8acaf 100644
--- a/src/multilinear/regular.rs
+++ b/src/multilinear/regular.rs
@@ -170,9 +170,7 @@ pub fn check_bounds<T: Float>(
                 let lo = first.min(last);
                 let hi = first.max(last);
 
-                let bad = obs[i]
-                    .iter()
-                    .any(|&x| (x - lo) <= -atol || (x - hi) >= atol);
+                let bad = obs[i].iter().any(|&x| (x - lo) < -atol || (x - hi) > atol);
                 out[i] = bad;
             }
             // Passing an unrepresentable number in isn't, strictly speaking, an error
diff --git a/src/multilinear/regular_recursive.rs b/src/multilinear/regular_recursive.rs
index 67573a0..8a26f0e 100644
--- a/src/multilinear/regular_recursive.rs
+++ b/src/multilinear/regular_recursive.rs
@@ -133,9 +133,7 @@ pub fn check_bounds<T: Float>(
                 let lo = first.min(last);
                 let hi = first.max(last);
 
-                let bad = obs[i]
-                    .iter()
-                    .any(|&x| (x - lo) <= -atol || (x - hi) >= atol);
+                let bad = obs[i].iter().any(|&x| (x - lo) < -atol || (x - hi) > atol);
                 out[i] = bad;
             }
             // Passing an unrepresentable number in isn't, strictly speaking, an error
-- 
2.43.0


From 9de014e6dc9cc22938da474a6c5a1701772da9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:54 +0000
Subject: [PATCH 10/14] fix: Python bindings raise instead of panicking when
 given more than 8 arrays

---
 src/python.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python.rs b/src/python.rs
index 165d684..f62acab 100644
--- a/src/python.rs
+++ b/src/python.rs
@@ -45,6 +45,11 @@ macro_rules! unpack_vec_of_arr {
         let dummy = [0.0; 0];
         let mut _arr: [&[$T]; MAXDIMS] = [&dummy[..]; MAXDIMS];
         let n = $inname.len();
+        if n > MAXDIMS {
+            return Err(exceptions::PyAssertionError::new_err(
+                "Dimension exceeds maximum (8).",
+            ));
+        }
         for i in 0..n {
             _arr[i] = $inname[i].as_slice()?;
         }
-- 
2.43.0


From 87566d7216390bbc4e5aa38c2802d22b6267d093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:35 +0000
Subject: [PATCH 11/14] fix: Python bindings raise instead of panicking on a
 read-only or overlapping output array

---
 src/python.rs | 45 ++++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/src/python.rs b/src/python.rs
index f62acab..ad14984 100644
--- a/src/python.rs
+++ b/src/python.rs
@@ -1,4 +1,5 @@
-use numpy::borrow::{PyReadonlyArray1, PyReadwriteArray1};
+use numpy::borrow::PyReadonlyArray1;
+use numpy::{PyArray1, PyArrayMethods};
 use pyo3::exceptions;
 use pyo3::prelude::*;
 
@@ -66,7 +67,7 @@ macro_rules! interpn_linear_regular_impl {
             steps: PyReadonlyArray1<$T>,
             vals: PyReadonlyArray1<$T>,
             obs: Vec<PyReadonlyArray1<$T>>,
-            mut out: PyReadwriteArray1<$T>,
+            out: &Bound<PyArray1<$T>>,
         ) -> PyResult<()> {
             unpack_vec_of_arr!(obs, obs, $T);
 
@@ -77,7 +78,7 @@ macro_rules! interpn_linear_regular_impl {
                 steps.as_slice()?,
                 vals.as_slice()?,
                 obs,
-                out.as_slice_mut()?,
+                out.try_readwrite()?.as_slice_mut()?,
             ) {
                 Ok(()) => Ok(()),
                 Err(msg) => Err(exceptions::PyAssertionError::new_err(msg)),
@@ -98,7 +99,7 @@ macro_rules! check_bounds_regular_impl {
             steps: PyReadonlyArray1<$T>,
             obs: Vec<PyReadonlyArray1<$T>>,
             atol: $T,
-            mut out: PyReadwriteArray1<bool>,
+            out: &Bound<PyArray1<bool>>,
         ) -> PyResult<()> {
             unpack_vec_of_arr!(obs, obs, $T);
 
@@ -109,7 +110,7 @@ macro_rules! check_bounds_regular_impl {
                 steps.as_slice()?,
                 obs,
                 atol,
-                out.as_slice_mut()?,
+                out.try_readwrite()?.as_slice_mut()?,
             ) {
                 Ok(()) => Ok(()),
                 Err(msg) => Err(exceptions::PyAssertionError::new_err(msg)),
@@ -128,7 +129,7 @@ macro_rules! interpn_linear_rectilinear_impl {
             grids: Vec<PyReadonlyArray1<$T>>,
             vals: PyReadonlyArray1<$T>,
             obs: Vec<PyReadonlyArray1<$T>>,
-            mut out: PyReadwriteArray1<$T>,
+            out: &Bound<PyArray1<$T>>,
         ) -> PyResult<()> {
             // Unpack inputs
             unpack_vec_of_arr!(grids, grids, $T);
@@ -139,7 +140,7 @@ macro_rules! interpn_linear_rectilinear_impl {
                 grids,
                 vals.as_slice()?,
                 obs,
-                out.as_slice_mut()?,
+                out.try_readwrite()?.as_slice_mut()?,
             ) {
                 Ok(()) => Ok(()),
                 Err(msg) => Err(exceptions::PyAssertionError::new_err(msg)),
@@ -160,7 +161,7 @@ macro_rules! interpn_nearest_regular_impl {
             steps: PyReadonlyArray1<$T>,
             vals: PyReadonlyArray1<$T>,
             obs: Vec<PyReadonlyArray1<$T>>,
-            mut out: PyReadwriteArray1<$T>,
+            out: &Bound<PyArray1<$T>>,
         ) -> PyResult<()> {
             unpack_vec_of_arr!(obs, obs, $T);
 
@@ -170,7 +171,7 @@ macro_rules! interpn_nearest_regular_impl {
                 steps.as_slice()?,
                 vals.as_slice()?,
                 obs,
-                out.as_slice_mut()?,
+                out.try_readwrite()?.as_slice_mut()?,
             ) {
                 Ok(()) => Ok(()),
                 Err(msg) => Err(exceptions::PyAssertionError::new_err(msg)),
@@ -189,12 +190,17 @@ macro_rules! interpn_nearest_rectilinear_impl {
             grids: Vec<PyReadonlyArray1<$T>>,
             vals: PyReadonlyArray1<$T>,
             obs: Vec<PyReadonlyArray1<$T>>,
-            mut out: PyReadwriteArray1<$T>,
+            out: &Bound<PyArray1<$T>>,
         ) -> PyResult<()> {
             unpack_vec_of_arr!(grids, grids, $T);
             unpack_vec_of_arr!(obs, obs, $T);
 
-            match nearest::rectilinear::interpn(grids, vals.as_slice()?, obs, out.as_slice_mut()?) {
+            match nearest::rectilinear::interpn(
+                grids,
+                vals.as_slice()?,
+                obs,
+                out.try_readwrite()?.as_slice_mut()?,
+            ) {
                 Ok(()) => Ok(()),
                 Err(msg) => Err(exceptions::PyAssertionError::new_err(msg)),
             }
@@ -212,14 +218,19 @@ macro_rules! check_bounds_rectilinear_impl {
             grids: Vec<PyReadonlyArray1<$T>>,
             obs: Vec<PyReadonlyArray1<$T>>,
             atol: $T,
-            mut out: PyReadwriteArray1<bool>,
+            out: &Bound<PyArray1<bool>>,
         ) -> PyResult<()> {
             // Unpack inputs
             unpack_vec_of_arr!(grids, grids, $T);
             unpack_vec_of_arr!(obs, obs, $T);
 
             // Evaluate
-            match multilinear::rectilinear::check_bounds(&grids, obs, atol, out.as_slice_mut()?) {
+            match multilinear::rectilinear::check_bounds(
+                &grids,
+                obs,
+                atol,
+                out.try_readwrite()?.as_slice_mut()?,
+            ) {
                 Ok(()) => Ok(()),
                 Err(msg) => Err(exceptions::PyAssertionError::new_err(msg)),
             }
@@ -240,7 +251,7 @@ macro_rules! interpn_cubic_regular_impl {
             vals: PyReadonlyArray1<$T>,
             linearize_extrapolation: bool,
             obs: Vec<PyReadonlyArray1<$T>>,
-            mut out: PyReadwriteArray1<$T>,
+            out: &Bound<PyArray1<$T>>,
         ) -> PyResult<()> {
             unpack_vec_of_arr!(obs, obs, $T);
 
@@ -252,7 +263,7 @@ macro_rules! interpn_cubic_regular_impl {
                 vals.as_slice()?,
                 linearize_extrapolation,
                 obs,
-                out.as_slice_mut()?,
+                out.try_readwrite()?.as_slice_mut()?,
             ) {
                 Ok(()) => Ok(()),
                 Err(msg) => Err(exceptions::PyAssertionError::new_err(msg)),
@@ -272,7 +283,7 @@ macro_rules! interpn_cubic_rectilinear_impl {
             vals: PyReadonlyArray1<$T>,
             linearize_extrapolation: bool,
             obs: Vec<PyReadonlyArray1<$T>>,
-            mut out: PyReadwriteArray1<$T>,
+            out: &Bound<PyArray1<$T>>,
         ) -> PyResult<()> {
             // Unpack inputs
             unpack_vec_of_arr!(grids, grids, $T);
@@ -284,7 +295,7 @@ macro_rules! interpn_cubic_rectilinear_impl {
                 vals.as_slice()?,
                 linearize_extrapolation,
                 obs,
-                out.as_slice_mut()?,
+                out.try_readwrite()?.as_slice_mut()?,
             ) {
                 Ok(()) => Ok(()),
                 Err(msg) => Err(exceptions::PyAssertionError::new_err(msg)),
-- 
2.43.0


From 3f3cb43e1230b085f91abd158f068a48a0f82a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:10 +0000
Subject: [PATCH 12/14] fix: misaligned arrays are copied or rejected instead
 of viewed as slices

---
 src/interpn/__init__.py |  8 ++---
 src/python.rs           | 71 ++++++++++++++++++++++++++---------------
 2 files changed, 50 insertions(+), 29 deletions(-)

diff --git a/src/interpn/__init__.py b/src/interpn/__init__.py
index cefa6c4..6aa683f 100644
--- a/src/interpn/__init__.py
+++ b/src/interpn/__init__.py
@@ -87,10 +87,10 @@ def interpn(
     outshape = out.shape
     out = out.ravel()  # Flat view without reallocating
 
-    # Ensure contiguous and flat, reallocating only if necessary
-    obs = [np.ascontiguousarray(x.ravel()) for x in obs]
-    grids = [np.ascontiguousarray(x.ravel()) for x in grids]
-    vals = np.ascontiguousarray(vals.ravel())
+    # Ensure contiguous, aligned, and flat, reallocating only if necessary
+    obs = [np.require(x.ravel(), requirements="CA") for x in obs]
+    grids = [np.require(x.ravel(), requirements="CA") for x in grids]
+    vals = np.require(vals.ravel(), requirements="CA")
 
     # Check data type
     dtype = vals.dtype
diff --git a/src/python.rs b/src/python.rs
index ad14984..6beb0dc 100644
--- a/src/python.rs
+++ b/src/python.rs
@@ -1,5 +1,5 @@
-use numpy::borrow::PyReadonlyArray1;
-use numpy::{PyArray1, PyArrayMethods};
+use numpy::borrow::{PyReadonlyArray1, PyReadwriteArray1};
+use numpy::{Element, PyArray1, PyArrayMethods, PyUntypedArrayMethods};
 use pyo3::exceptions;
 use pyo3::prelude::*;
 
@@ -39,6 +39,27 @@ fn interpn<'py>(_py: Python, m: &Bound<'py, PyModule>) -> PyResult<()> {
     Ok(())
 }
 
+/// Arrays at misaligned addresses are legal in numpy, but can't be viewed as a slice
+const MISALIGNED: &str = "Array is not aligned";
+
+/// View a contiguous and aligned array as a slice
+fn slice<'a, T: Element>(arr: &'a PyReadonlyArray1<'_, T>) -> PyResult<&'a [T]> {
+    match (arr.is_empty(), arr.data().is_aligned()) {
+        (true, _) => Ok(&[]),
+        (false, true) => Ok(arr.as_slice()?),
+        (false, false) => Err(exceptions::PyValueError::new_err(MISALIGNED)),
+    }
+}
+
+/// View a contiguous and aligned array as a mutable slice
+fn slice_mut<'a, T: Element>(arr: &'a mut PyReadwriteArray1<'_, T>) -> PyResult<&'a mut [T]> {
+    match (arr.is_empty(), arr.data().is_aligned()) {
+        (true, _) => Ok(&mut []),
+        (false, true) => Ok(arr.as_slice_mut()?),
+        (false, false) => Err(exceptions::PyValueError::new_err(MISALIGNED)),
+    }
+}
+
 macro_rules! unpack_vec_of_arr {
     ($inname:ident, $outname:ident, $T:ty) => {
         // We need a mutable slice-of-slice,
@@ -52,7 +73,7 @@ macro_rules! unpack_vec_of_arr {
             ));
         }
         for i in 0..n {
-            _arr[i] = $inname[i].as_slice()?;
+            _arr[i] = slice(&$inname[i])?;
         }
         let $outname = &_arr[..n];
     };
@@ -74,11 +95,11 @@ macro_rules! interpn_linear_regular_impl {
             // Evaluate
             match multilinear::regular::interpn(
                 &dims,
-                starts.as_slice()?,
-                steps.as_slice()?,
-                vals.as_slice()?,
+                slice(&starts)?,
+                slice(&steps)?,
+                slice(&vals)?,
                 obs,
-                out.try_readwrite()?.as_slice_mut()?,
+                slice_mut(&mut out.try_readwrite()?)?,
             ) {
                 Ok(()) => Ok(()),
                 Err(msg) => Err(exceptions::PyAssertionError::new_err(msg)),
@@ -106,11 +127,11 @@ macro_rules! check_bounds_regular_impl {
             // Evaluate
             match multilinear::regular::check_bounds(
                 &dims,
-                starts.as_slice()?,
-                steps.as_slice()?,
+                slice(&starts)?,
+                slice(&steps)?,
                 obs,
                 atol,
-                out.try_readwrite()?.as_slice_mut()?,
+                slice_mut(&mut out.try_readwrite()?)?,
             ) {
                 Ok(()) => Ok(()),
                 Err(msg) => Err(exceptions::PyAssertionError::new_err(msg)),
@@ -138,9 +159,9 @@ macro_rules! interpn_linear_rectilinear_impl {
             // Evaluate
             match multilinear::rectilinear::interpn(
                 grids,
-                vals.as_slice()?,
+                slice(&vals)?,
                 obs,
-                out.try_readwrite()?.as_slice_mut()?,
+                slice_mut(&mut out.try_readwrite()?)?,
             ) {
                 Ok(()) => Ok(()),
                 Err(msg) => Err(exceptions::PyAssertionError::new_err(msg)),
@@ -167,11 +188,11 @@ macro_rules! interpn_nearest_regular_impl {
 
             match nearest::regular::interpn(
                 &dims,
-                starts.as_slice()?,
-                steps.as_slice()?,
-                vals.as_slice()?,
+                slice(&starts)?,
+                slice(&steps)?,
+                slice(&vals)?,
                 obs,
-                out.try_readwrite()?.as_slice_mut()?,
+                slice_mut(&mut out.try_readwrite()?)?,
             ) {
                 Ok(()) => Ok(()),
                 Err(msg) => Err(exceptions::PyAssertionError::new_err(msg)),
@@ -197,9 +218,9 @@ macro_rules! interpn_nearest_rectilinear_impl {
 
             match nearest::rectilinear::interpn(
                 grids,
-                vals.as_slice()?,
+                slice(&vals)?,
                 obs,
-                out.try_readwrite()?.as_slice_mut()?,
+                slice_mut(&mut out.try_readwrite()?)?,
             ) {
                 Ok(()) => Ok(()),
                 Err(msg) => Err(exceptions::PyAssertionError::new_err(msg)),
@@ -229,7 +250,7 @@ macro_rules! check_bounds_rectilinear_impl {
                 &grids,
                 obs,
                 atol,
-                out.try_readwrite()?.as_slice_mut()?,
+                slice_mut(&mut out.try_readwrite()?)?,
             ) {
                 Ok(()) => Ok(()),
                 Err(msg) => Err(exceptions::PyAssertionError::new_err(msg)),
@@ -258,12 +279,12 @@ macro_rules! interpn_cubic_regular_impl {
             // Evaluate
             match multicubic::regular::interpn(
                 &dims,
-                starts.as_slice()?,
-                steps.as_slice()?,
-                vals.as_slice()?,
+                slice(&starts)?,
+                slice(&steps)?,
+                slice(&vals)?,
                 linearize_extrapolation,
                 obs,
-                out.try_readwrite()?.as_slice_mut()?,
+                slice_mut(&mut out.try_readwrite()?)?,
             ) {
                 Ok(()) => Ok(()),
                 Err(msg) => Err(exceptions::PyAssertionError::new_err(msg)),
@@ -292,10 +313,10 @@ macro_rules! interpn_cubic_rectilinear_impl {
             // Evaluate
             match multicubic::rectilinear::interpn(
                 grids,
-                vals.as_slice()?,
+                slice(&vals)?,
                 linearize_extrapolation,
                 obs,
-                out.try_readwrite()?.as_slice_mut()?,
+                slice_mut(&mut out.try_readwrite()?)?,
             ) {
                 Ok(()) => Ok(()),
                 Err(msg) => Err(exceptions::PyAssertionError::new_err(msg)),
-- 
2.43.0


From 242ebaafcb9f3d12b34dfe059190e42f492eda33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:37 +0000
Subject: [PATCH 13/14] fix: interpn() accepts and fills any supplied output
 array

---
 src/interpn/__init__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/interpn/__init__.py b/src/interpn/__init__.py
index 6aa683f..d3625dc 100644
--- a/src/interpn/__init__.py
+++ b/src/interpn/__init__.py
@@ -83,9 +83,9 @@ def interpn(
         Interpolated values
     """
     # Allocate for the output if it is not supplied
-    out = out or np.zeros_like(obs[0])
-    outshape = out.shape
-    out = out.ravel()  # Flat view without reallocating
+    result = out if out is not None else np.zeros_like(obs[0])
+    out = np.require(result.ravel(), requirements="CA")  # Flat view where possible
+    is_view = np.may_share_memory(out, result)
 
     # Ensure contiguous, aligned, and flat, reallocating only if necessary
     obs = [np.require(x.ravel(), requirements="CA") for x in obs]
@@ -191,7 +191,10 @@ def interpn(
                 f" {dtype}, {is_regular}, {method}"
             )
 
-    return out.reshape(outshape)
+    if not is_view:
+        result[...] = out.reshape(result.shape)
+
+    return result
 
 
 def _check_regular(grids: Sequence[NDArray]) -> bool:
-- 
2.43.0


From 2480d6c0b27ba2e2d4200a8ffb7621ade03b6ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:37 +0000
Subject: [PATCH 14/14] fix: interpn(check_bounds=True) works in more than one
 dimension

---
 src/interpn/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpn/__init__.py b/src/interpn/__init__.py
index d3625dc..299e731 100644
--- a/src/interpn/__init__.py
+++ b/src/interpn/__init__.py
@@ -113,7 +113,7 @@ def interpn(
 
     # Check bounds
     if check_bounds:
-        outb = np.zeros_like(out.shape, dtype=bool)
+        outb = np.zeros(len(grids), dtype=bool)
         match (dtype, is_regular):
             case (np.float32, True):
                 raw.check_bounds_regular_f32(
-- 
2.43.0

