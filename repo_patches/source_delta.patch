From 91651d239b709e78482b5bd19e6c2d00d247f941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:54 +0000
Subject: [PATCH 1/6] fix: savgol_filter_dyn must not allocate by the loose
 upper size hint

A legal iterator may report any upper bound, e.g. (0, Some(usize::MAX)); the
filter then panicked with a capacity overflow or aborted on a huge allocation
instead of filtering the few samples delivered.
---
 sci-rs/src/signal/filter/savgol_filter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sci-rs/src/signal/filter/savgol_filter.rs b/sci-rs/src/signal/filter/savgol_filter.rs
index b237131..5a607d2 100644
--- a/sci-rs/src/signal/filter/savgol_filter.rs
+++ b/sci-rs/src/signal/filter/savgol_filter.rs
@@ -47,8 +47,8 @@ where
     fir.reverse();
 
     // Pad with nearest edge value
-    let size_hint = y.size_hint();
-    let mut data = Vec::with_capacity(size_hint.1.unwrap_or(size_hint.0));
+    // The upper bound of a size hint may be arbitrarily loose, only the lower bound is promised
+    let mut data = Vec::with_capacity(y.size_hint().0);
     let mut y = y;
     let Some(nearest) = y.next() else {
         return vec![];
-- 
2.43.0


From 704233c5b0f4a7111ba332efdb16ef072ca7a81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:54 +0000
Subject: [PATCH 2/6] fix: autocorr_fast32 must keep the products of the
 remainder tile

The sum over the samples that do not fill a tile of four was overwritten, so
every lag h with (N - h) % 4 != 0 lost up to three products.
---
 sci-rs/src/stats.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sci-rs/src/stats.rs b/sci-rs/src/stats.rs
index 06cb0c0..95cc980 100644
--- a/sci-rs/src/stats.rs
+++ b/sci-rs/src/stats.rs
@@ -268,7 +268,7 @@ pub fn autocorr_fast32<const N: usize, const M: usize, const SKIP: usize>(
             .zip(right.remainder().iter())
             .map(|(a, b)| a * b)
             .sum::<f32>();
-        *xi = left
+        *xi += left
             .zip(right)
             .map(|(left, right)| {
                 left.iter()
@@ -276,7 +276,7 @@ pub fn autocorr_fast32<const N: usize, const M: usize, const SKIP: usize>(
                     .map(|(a, b)| a * b)
                     .sum::<f32>()
             })
-            .sum();
+            .sum::<f32>();
     }
 
     var
-- 
2.43.0


From 14cc4de55888533235df88588fc3d9fd6458e25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:54 +0000
Subject: [PATCH 3/6] fix: python_plot must wait for the interpreter when
 writing the script fails

An early return on a failed write left the child process unreaped.
---
 sci-rs/src/plot.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sci-rs/src/plot.rs b/sci-rs/src/plot.rs
index 02ff7e7..246ab0f 100644
--- a/sci-rs/src/plot.rs
+++ b/sci-rs/src/plot.rs
@@ -45,12 +45,10 @@ plt.show()
         Err(_) => return, // Return early if python fails to start
     };
 
+    // Python may exit before it has read the whole script: it must be waited for all the same.
+    // The pipe is closed at the end of this block.
     if let Some(mut stdin) = python.stdin.take() {
-        if stdin.write_all(script).is_err() {
-            return; // Return early if writing fails
-        }
-    } else {
-        return; // Return early if we can't get stdin
+        let _ = stdin.write_all(script);
     }
 
     // Wait for the python process to finish, ignoring any errors
-- 
2.43.0


From 6246eca8ca7350944648d97da9da03b3ca3aa05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:54 +0000
Subject: [PATCH 4/6] fix: python_plot scripts with non-finite samples must run

The debug format of f32 writes NaN and inf, which are not defined in Python, so
a series holding one made the script fail with a NameError.
---
 sci-rs/src/plot.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sci-rs/src/plot.rs b/sci-rs/src/plot.rs
index 246ab0f..d799893 100644
--- a/sci-rs/src/plot.rs
+++ b/sci-rs/src/plot.rs
@@ -14,6 +14,9 @@ import matplotlib.pyplot as plt
 import matplotlib.gridspec as gridspec
 from scipy.signal import correlate
 
+# Names used by the debug format of non-finite floats
+NaN = float("nan")
+inf = float("inf")
 xs = {:?}
 fig = plt.figure(figsize=(12, 12))
 gs = gridspec.GridSpec(len(xs), 2)
-- 
2.43.0


From 29e277e5f34bb44ad5ae02cd322b225bcc0fe439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:54 +0000
Subject: [PATCH 5/6] fix: companion_dyn must not write out of bounds

An iterator longer than the given length, or a length below 2, made the
unchecked accesses write outside the matrix.
---
 sci-rs/src/linalg/companion.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sci-rs/src/linalg/companion.rs b/sci-rs/src/linalg/companion.rs
index 1abbd37..29c3c51 100644
--- a/sci-rs/src/linalg/companion.rs
+++ b/sci-rs/src/linalg/companion.rs
@@ -16,6 +16,7 @@ where
     I: Iterator<Item = B>,
     DefaultAllocator: Allocator<Dyn, Dyn>,
 {
+    assert!(m >= 2, "A companion matrix needs at least 2 coefficients");
     let mut itr = itr;
     let a0: T = *itr.next().expect("Invalid data length").borrow();
     let itr = itr
@@ -29,9 +30,7 @@ where
         <DefaultAllocator as allocator::Allocator<Dyn, Dyn>>::Buffer<T>,
     >::zeros(m - 1, m - 1);
     for (i, t) in itr {
-        unsafe {
-            *m.get_unchecked_mut(i) = t;
-        }
+        m[i] = t;
     }
     m
 }
-- 
2.43.0


From c8315b7e180f5993542259c483c280086f233208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:25 +0000
Subject: [PATCH 6/6] fix: median keeps only the live quickselect partition
 (quadratic heap and stack on e.g. the deviations of a ramp)

---
 sci-rs/src/stats.rs | 58 +++++++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/sci-rs/src/stats.rs b/sci-rs/src/stats.rs
index 95cc980..580a462 100644
--- a/sci-rs/src/stats.rs
+++ b/sci-rs/src/stats.rs
@@ -14,32 +14,38 @@ where
 {
     use num_traits::{Num, NumCast};
 
-    let n = y.len();
-    if n == 1 {
-        return *y[0].borrow();
-    }
-
-    let pivot = y.get(n / 2).unwrap().borrow();
-    let lower = y
-        .iter()
-        .filter(|yi| *(*yi).borrow() < *pivot)
-        .map(|yi| *yi.borrow())
-        .collect::<Vec<_>>();
-    let lowers = lower.len();
-    let upper = y
-        .iter()
-        .filter(|yi| *(*yi).borrow() > *pivot)
-        .map(|yi| *yi.borrow())
-        .collect::<Vec<_>>();
-    let uppers = upper.len();
-    let pivots = n - lowers - uppers;
-
-    if k < lowers {
-        quickselect(&lower, k)
-    } else if k < lowers + pivots {
-        *pivot
-    } else {
-        quickselect(&upper, k - lowers - pivots)
+    // Only the partition that holds the answer is kept, so memory stays linear in `y`
+    let mut y: Vec<T> = y.iter().map(|yi| *yi.borrow()).collect();
+    let mut k = k;
+    loop {
+        let n = y.len();
+        if n == 1 {
+            return y[0];
+        }
+
+        let pivot = *y.get(n / 2).unwrap();
+        let lower = y
+            .iter()
+            .filter(|yi| **yi < pivot)
+            .copied()
+            .collect::<Vec<_>>();
+        let lowers = lower.len();
+        let upper = y
+            .iter()
+            .filter(|yi| **yi > pivot)
+            .copied()
+            .collect::<Vec<_>>();
+        let uppers = upper.len();
+        let pivots = n - lowers - uppers;
+
+        if k < lowers {
+            y = lower;
+        } else if k < lowers + pivots {
+            return pivot;
+        } else {
+            y = upper;
+            k -= lowers + pivots;
+        }
     }
 }
 
-- 
2.43.0

