From 99b57fe04a8a8a384119db25ea1a48849a0206c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:49 +0000
Subject: [PATCH 1/4] fix: compute cellToChildrenSize in 64 bits so 12 or more
 levels do not overflow

---
 src/h3_index.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/h3_index.rs b/src/h3_index.rs
index 8e03200..cb19f69 100644
--- a/src/h3_index.rs
+++ b/src/h3_index.rs
@@ -287,9 +287,9 @@ pub fn cellToChildrenSize(h: H3Index, childRes: i32) -> Result<i64, Error> {
     let n = (childRes - H3_GET_RESOLUTION(h)) as u32;
 
     if isPentagon(h) {
-        return Ok((1 + 5 * ((7i32.pow(n) - 1) / 6)) as i64);
+        return Ok(1 + 5 * ((7i64.pow(n) - 1) / 6));
     } else {
-        return Ok(7i32.pow(n) as i64);
+        return Ok(7i64.pow(n));
     }
 }
 
-- 
2.43.0


From db6fedc069983c60bdf6b8a7da55790082546b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:57 +0000
Subject: [PATCH 2/4] fix: clamp maxGridDiskSize to the number of cells instead
 of overflowing

---
 src/algos.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/algos.rs b/src/algos.rs
index 6dc9efe..f0da441 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -327,6 +327,12 @@ const NEW_ADJUSTMENT_III: [[Direction; 7]; 7] = [
     ],
 ];
 
+/// k value which will encompass all cells at resolution 15.
+const K_ALL_CELLS_AT_RES_15: u32 = 13780510;
+
+/// Number of cells at resolution 15.
+const NUM_CELLS_AT_RES_15: usize = 569707381193162;
+
 /**
  * Maximum number of cells that result from the gridDisk algorithm with the
  * given k. Formula source and proof: https://oeis.org/A003215
@@ -335,6 +341,11 @@ const NEW_ADJUSTMENT_III: [[Direction; 7]; 7] = [
  * @param out   size in indexes
  */
 pub fn maxGridDiskSize(k: u32) -> usize {
+    // from this k on a disk covers every cell at the finest resolution, and
+    // the formula would overestimate and eventually overflow
+    if k >= K_ALL_CELLS_AT_RES_15 {
+        return NUM_CELLS_AT_RES_15;
+    }
     return (3 * k as i64 * (k as i64 + 1) + 1) as usize;
 }
 
-- 
2.43.0


From 11b2e4ea8b89cca4fa40e956e01b38083b13071e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:57 +0000
Subject: [PATCH 3/4] fix: do not overflow when stepping children of an invalid
 index

---
 src/iterators.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iterators.rs b/src/iterators.rs
index 7c3ca42..ea39412 100644
--- a/src/iterators.rs
+++ b/src/iterators.rs
@@ -57,7 +57,8 @@ impl IterCellsChildren {
     pub fn _incrementResDigit(&mut self, res: i32) {
         let mut val: H3Index = 1;
         val <<= H3_PER_DIGIT_OFFSET * (MAX_H3_RES - res);
-        self.h += val;
+        // carries past the top bit of an invalid index are dropped
+        self.h = self.h.wrapping_add(val);
     }
 }
 
-- 
2.43.0


From 9b92aabc618008aca943773ac6a7a1b4ab033b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 4/4] hook: open private coordinates and iterator state under
 cfg(vf_hooks)

---
 src/iterators.rs | 15 +++++++++++++++
 src/lib.rs       |  8 ++++++++
 2 files changed, 23 insertions(+)

diff --git a/src/iterators.rs b/src/iterators.rs
index ea39412..c8850eb 100644
--- a/src/iterators.rs
+++ b/src/iterators.rs
@@ -62,6 +62,21 @@ impl IterCellsChildren {
     }
 }
 
+/// Access to the iterator's state for the verification harnesses.
+#[cfg(vf_hooks)]
+impl IterCellsChildren {
+    pub fn vf_new(h: H3Index, parent_res: i32, skip_digit: i32) -> IterCellsChildren {
+        return IterCellsChildren {
+            h,
+            _parentRes: parent_res,
+            _skipDigit: skip_digit,
+        };
+    }
+    pub fn vf_state(&self) -> (H3Index, i32, i32) {
+        return (self.h, self._parentRes, self._skipDigit);
+    }
+}
+
 impl Iterator for IterCellsChildren {
     type Item = H3Index;
 
diff --git a/src/lib.rs b/src/lib.rs
index abb1bc9..80e3c0e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -19,6 +19,14 @@ extern crate num;
 
 pub const H3_NULL: H3Index = 0;
 
+/// Private modules, opened to the verification harnesses.
+#[cfg(vf_hooks)]
+pub mod vf_hooks {
+    pub use crate::constants::*;
+    pub use crate::coord_ijk::*;
+    pub use crate::face_ijk::*;
+}
+
 #[cfg(test)]
 mod tests {
 
-- 
2.43.0

