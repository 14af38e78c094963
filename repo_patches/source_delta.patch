From 725a67f6e0ee4ed41a419d0727265e3e875eb0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:13 +0000
Subject: [PATCH 01/15] fix: alignment pattern position of version 21

ISO/IEC 18004 annex E puts the last alignment pattern row/column of version
21 at 94 (size - 7), the table had 92. Modules next to the right and bottom
alignment patterns were skipped or read as data, which used up error
correction capacity and returned a wrong raw bit stream.
---
 src/version_db.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/version_db.rs b/src/version_db.rs
index 80bdae8..f8b68da 100644
--- a/src/version_db.rs
+++ b/src/version_db.rs
@@ -551,7 +551,7 @@ pub const VERSION_DATA_BASE: [VersionInfo; 41] = [
     },
     VersionInfo {
         data_bytes: 1156,
-        apat: [6, 28, 50, 72, 92, 0, 0],
+        apat: [6, 28, 50, 72, 94, 0, 0],
         ecc: [
             RSParameters {
                 bs: 68,
-- 
2.43.0


From bf9ff009556788a72bf34c87da1d1417fc7824b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:13 +0000
Subject: [PATCH 02/15] fix: reject grids that are too small before reading
 format cells

Decoding a grid with fewer than 9x9 modules indexed cells outside of the grid
and panicked instead of returning InvalidVersion.
---
 src/decode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decode.rs b/src/decode.rs
index 98866f3..23d57f4 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -678,6 +678,8 @@ fn correct_format(mut word: u16) -> DeQRResult<u16> {
 }
 
 fn read_format(code: &dyn BitGrid) -> DeQRResult<MetaData> {
+    // The format cells only exist if the grid has the size of a QR code
+    let version = Version::from_size(code.size())?;
     let mut format = 0;
 
     // Try first location
@@ -704,7 +706,6 @@ fn read_format(code: &dyn BitGrid) -> DeQRResult<MetaData> {
     let fdata = verified_format >> 10;
     let ecc_level = fdata >> 3;
     let mask = fdata & 7;
-    let version = Version::from_size(code.size())?;
 
     Ok(MetaData {
         version,
-- 
2.43.0


From d394225f704971682dcadcbea1202739387dd7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:13 +0000
Subject: [PATCH 03/15] fix: do not read pixels of images without columns

detect_grids() panicked on images with a width of 0 and a non-zero height.
---
 src/detect.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/detect.rs b/src/detect.rs
index 216f8e0..1e465e0 100644
--- a/src/detect.rs
+++ b/src/detect.rs
@@ -38,6 +38,10 @@ where
 {
     let mut res = Vec::new();
 
+    if img.width() == 0 {
+        return res;
+    }
+
     for y in 0..img.height() {
         let mut finder = LineScanner::new(img.get_pixel_at(0, y));
         for x in 1..img.width() {
-- 
2.43.0


From 923d85324f73b165f5423dc00cbb6775b22bbf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:52 +0000
Subject: [PATCH 04/15] fix: skip capstones that degenerate when rotated

Two corners of a (false) capstone can coincide, e.g. for triangular shapes. The
perspective of such a capstone exists in some rotations only, so detect_grids()
panicked with "rotated perspective can't fail" on such images.
---
 src/identify/grid.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/identify/grid.rs b/src/identify/grid.rs
index 805e261..6a35eb2 100644
--- a/src/identify/grid.rs
+++ b/src/identify/grid.rs
@@ -56,9 +56,9 @@ impl SkewedGridLocation {
         /* Rotate each capstone so that corner 0 is top-left with respect
          * to the grid.
          */
-        rotate_capstone(&mut group.0, &h0, &hd);
-        rotate_capstone(&mut group.1, &h0, &hd);
-        rotate_capstone(&mut group.2, &h0, &hd);
+        rotate_capstone(&mut group.0, &h0, &hd)?;
+        rotate_capstone(&mut group.1, &h0, &hd)?;
+        rotate_capstone(&mut group.2, &h0, &hd)?;
 
         /* Check the timing pattern. This doesn't require a perspective
          * transform.
@@ -164,7 +164,7 @@ where
     Some(jiggle_perspective(img, initial, grid_size))
 }
 
-fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) {
+fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) -> Option<()> {
     let (best_idx, _) = cap
         .corners
         .iter()
@@ -174,8 +174,8 @@ fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) {
 
     /* Rotate the capstone */
     cap.corners.rotate_left(best_idx);
-    cap.c = geometry::Perspective::create(&cap.corners, 7.0, 7.0)
-        .expect("rotated perspective can't fail");
+    cap.c = geometry::Perspective::create(&cap.corners, 7.0, 7.0)?;
+    Some(())
 }
 
 //* Try the measure the timing pattern for a given QR code. This does
-- 
2.43.0


From 700e707503e46ed84784e558bf0e25a253fe5614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:52 +0000
Subject: [PATCH 05/15] fix: line intersection overflows for large codes

The products exceed an i32 as soon as the capstones are about 1000 pixels wide,
so codes filling a picture of a bit more than 3000x3000 pixels were not found
(or detect_grids() panicked, with overflow checks enabled).
---
 src/geometry.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index 94d89ae..a2f1089 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -85,14 +85,14 @@ impl Perspective {
 
 pub fn line_intersect(p0: &Point, p1: &Point, q0: &Point, q1: &Point) -> Option<Point> {
     /* (a, b) is perpendicular to line p */
-    let a = -(p1.y - p0.y);
-    let b = p1.x - p0.x;
+    let a = -i64::from(p1.y - p0.y);
+    let b = i64::from(p1.x - p0.x);
     /* (c, d) is perpendicular to line q */
-    let c = -(q1.y - q0.y);
-    let d = q1.x - q0.x;
+    let c = -i64::from(q1.y - q0.y);
+    let d = i64::from(q1.x - q0.x);
     /* e and f are dot products of the respective vectors with p and q */
-    let e = a * p1.x + b * p1.y;
-    let f = c * q1.x + d * q1.y;
+    let e = a * i64::from(p1.x) + b * i64::from(p1.y);
+    let f = c * i64::from(q1.x) + d * i64::from(q1.y);
     /* Now we need to solve:
      *     [a b] [rx]   [e]
      *     [c d] [ry] = [f]
@@ -106,8 +106,8 @@ pub fn line_intersect(p0: &Point, p1: &Point, q0: &Point, q1: &Point) -> Option<
         None
     } else {
         Some(Point {
-            x: (d * e - b * f) / det,
-            y: (-c * e + a * f) / det,
+            x: ((d * e - b * f) / det).try_into().ok()?,
+            y: ((-c * e + a * f) / det).try_into().ok()?,
         })
     }
 }
-- 
2.43.0


From 12eb131a776b767857e026320e910d2d81ffe4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:52 +0000
Subject: [PATCH 06/15] fix: points without an image under a perspective do not
 panic

Mapping a module next to the vanishing line of a (misdetected) perspective
hit an assertion in Perspective::map, i.e. detect_grids() and decoding a
detected grid could panic depending on the picture.
---
 src/geometry.rs      | 13 ++++---------
 src/identify/grid.rs | 17 ++++++++++++-----
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index a2f1089..968e291 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -49,16 +49,11 @@ impl Perspective {
         let x = (self.0[0] * u + self.0[1] * v + self.0[2]) / den;
         let y = (self.0[3] * u + self.0[4] * v + self.0[5]) / den;
 
-        let x = x.round();
-        let y = y.round();
-
-        assert!(x <= i32::MAX as f64);
-        assert!(x >= i32::MIN as f64);
-        assert!(y <= i32::MAX as f64);
-        assert!(y >= i32::MIN as f64);
+        // Points on or next to the vanishing line have no representable
+        // counterpart, the (saturating) cast moves them far outside of the image
         Point {
-            x: x as i32,
-            y: y as i32,
+            x: x.round() as i32,
+            y: y.round() as i32,
         }
     }
 
diff --git a/src/identify/grid.rs b/src/identify/grid.rs
index 6a35eb2..548c223 100644
--- a/src/identify/grid.rs
+++ b/src/identify/grid.rs
@@ -244,9 +244,16 @@ where
     let a = c0.c.map(u, v + 1.0);
     let (u, v) = c2.c.unmap(&align_seed);
     let c = c2.c.map(u + 1.0, v);
-    let size_estimate = ((a.x - align_seed.x) * -(c.y - align_seed.y)
-        + (a.y - align_seed.y) * (c.x - align_seed.x))
-        .unsigned_abs() as usize;
+    let delta = |p: i32, q: i32| i128::from(p) - i128::from(q);
+    let size_estimate = (delta(a.x, align_seed.x) * -delta(c.y, align_seed.y)
+        + delta(a.y, align_seed.y) * delta(c.x, align_seed.x))
+    .unsigned_abs();
+
+    /* No region of the image can be large enough */
+    if size_estimate / 2 > (img.width() * img.height()) as u128 {
+        return None;
+    }
+    let size_estimate = size_estimate as usize;
 
     /* Spiral outwards from the estimate point until we find something
      * roughly the right size. Don't look too far from the estimate
@@ -276,8 +283,8 @@ where
                 }
             }
 
-            align_seed.x += DX_MAP[dir];
-            align_seed.y += DY_MAP[dir];
+            align_seed.x = align_seed.x.saturating_add(DX_MAP[dir]);
+            align_seed.y = align_seed.y.saturating_add(DY_MAP[dir]);
         }
 
         // Cycle directions
-- 
2.43.0


From e2540d43d8db04a9b8c70c1b254df4f6980b5e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:52 +0000
Subject: [PATCH 07/15] fix: do not report grids smaller than version 1

Three capstones without a timing pattern between them were reported as a grid
of 17x17 modules, which is no QR code and can not be decoded. (The assertion
on the scan length is covered by this check.)
---
 src/identify/grid.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/identify/grid.rs b/src/identify/grid.rs
index 548c223..e71942c 100644
--- a/src/identify/grid.rs
+++ b/src/identify/grid.rs
@@ -64,6 +64,9 @@ impl SkewedGridLocation {
          * transform.
          */
         let grid_size = measure_timing_pattern(img, &group);
+        if version_from_grid_size(grid_size) == 0 {
+            return None;
+        }
 
         /* Make an estimate based for the alignment pattern based on extending
          * lines from capstones A and C.
@@ -203,7 +206,6 @@ where
     let scan = cmp::max(hscan, vscan);
 
     /* Choose the nearest allowable grid size */
-    assert!(scan >= 1);
     let size = scan + 13;
     let ver = (size as f64 - 15.0).floor() as usize / 4;
     ver * 4 + 17
-- 
2.43.0


From 82601dc68b404f872eca86214bd1f6791bad3c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:04 +0000
Subject: [PATCH 08/15] fix: do not guess the format from more than 3 errors

The locator polynomial of an uncorrectable word can have more than 3
roots. Flipping all of them yields some valid format word, so the second,
possibly intact, copy was never read.
---
 src/decode.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/decode.rs b/src/decode.rs
index 23d57f4..c8bc0da 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -665,12 +665,19 @@ fn correct_format(mut word: u16) -> DeQRResult<u16> {
         let sigma = berlekamp_massey(&s, 6);
 
         /* Now, find the roots of the polynomial */
+        let mut flipped = 0;
         for i in 0..15 {
             if poly_eval(&sigma, GF16::GENERATOR.pow(15 - i)) == GF16::ZERO {
                 word ^= 1 << i;
+                flipped += 1;
             }
         }
 
+        // Only up to 3 errors can be corrected, anything else is a guess
+        if flipped > 3 {
+            return Err(DeQRError::FormatEcc);
+        }
+
         // Double CHECK syndromes
         format_syndromes(word).map_err(|_| DeQRError::FormatEcc)?;
     }
-- 
2.43.0


From fbec79235c183350f7f8bf90841ee2582415c1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:04 +0000
Subject: [PATCH 09/15] fix: read the last data codeword of long blocks

Short blocks have no codeword in the last column, so the codewords of the
long blocks follow each other directly. The wrong codeword was read and
silently repaired by the error correction, wasting some of its capacity.
---
 src/decode.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decode.rs b/src/decode.rs
index c8bc0da..6433ff7 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -359,7 +359,9 @@ fn codestream_ecc(meta: &MetaData, ds: RawData) -> DeQRResult<CorrectedDataStrea
         let num_ec = ecc.bs - ecc.dw;
         #[allow(clippy::needless_range_loop)]
         for j in 0..ecc.dw {
-            dst[j] = ds.data[j * bc + i];
+            // Only the long blocks have a codeword in the last column
+            let col = if j < sb_ecc.dw { i } else { i - sb_ecc.ns };
+            dst[j] = ds.data[j * bc + col];
         }
         for j in 0..num_ec {
             dst[ecc.dw + j] = ds.data[ecc_offset + j * bc + i];
-- 
2.43.0


From 24f01919f6fee35cd476eec09d7d14aece3c5a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:40 +0000
Subject: [PATCH 10/15] fix: several codes side by side are not grouped by
 their own capstones

After a group was found for a capstone, the remaining pairs were tried as well
and tied up capstones of the neighbouring codes: none of the codes of a 2x2
sheet but the first was found. Any pair of equal symmetry could also win over
the closest one, and capstones that are no corners came first if they happened
to be higher up in the image.
---
 src/identify/match_capstones.rs | 47 +++++++++++++++++++++++----------
 src/identify/mod.rs             |  2 +-
 src/prepare.rs                  |  9 ++++---
 3 files changed, 40 insertions(+), 18 deletions(-)

diff --git a/src/identify/match_capstones.rs b/src/identify/match_capstones.rs
index fa8ccc8..738f20b 100644
--- a/src/identify/match_capstones.rs
+++ b/src/identify/match_capstones.rs
@@ -9,18 +9,43 @@ struct Neighbor {
     distance: f64,
 }
 
+struct NeighborSet {
+    score: f64,
+    h_index: usize,
+    v_index: usize,
+}
+
+/// Return the index of each Capstone that is likely to be the corner of a QR code
+/// Ordered from most likely to least likely
+pub fn rank_possible_corners(capstones: &[CapStone]) -> Vec<usize> {
+    let mut res: Vec<_> = (0..capstones.len())
+        .filter_map(|idx| {
+            let scores = find_neighbor_sets(capstones, idx);
+            let best = scores.iter().map(|n| n.score).reduce(f64::min)?;
+            Some((best, idx))
+        })
+        .collect();
+    res.sort_by(|a, b| a.0.total_cmp(&b.0));
+    res.into_iter().map(|(_, idx)| idx).collect()
+}
+
 /// Return each pair Capstone indexes that are likely to be from a QR code
-/// Ordered from most symmetric to least symmetric
+/// Ordered from closest and most symmetric to farthest and least symmetric
 pub fn find_and_rank_possible_neighbors(capstones: &[CapStone], idx: usize) -> Vec<(usize, usize)> {
+    let mut res = find_neighbor_sets(capstones, idx);
+    res.sort_unstable_by(|a, b| {
+        (a.score)
+            .partial_cmp(&(b.score))
+            .expect("Neighbor distance should never cause a div by 0")
+    });
+    res.iter().map(|n| (n.h_index, n.v_index)).collect()
+}
+
+fn find_neighbor_sets(capstones: &[CapStone], idx: usize) -> Vec<NeighborSet> {
     const VIABILITY_THRESHOLD: f64 = 0.25;
 
     let (hlist, vlist) = find_possible_neighbors(capstones, idx);
     let mut res = Vec::new();
-    struct NeighborSet {
-        score: f64,
-        h_index: usize,
-        v_index: usize,
-    }
     /* Test each possible grouping */
     for hn in hlist {
         for vn in vlist.iter() {
@@ -33,20 +58,14 @@ pub fn find_and_rank_possible_neighbors(capstones: &[CapStone], idx: usize) -> V
             };
             if score < VIABILITY_THRESHOLD {
                 res.push(NeighborSet {
-                    score,
+                    score: (1.0 + 8.0 * score) * hn.distance.max(vn.distance),
                     h_index: hn.index,
                     v_index: vn.index,
                 });
             }
         }
     }
-
-    res.sort_unstable_by(|a, b| {
-        (a.score)
-            .partial_cmp(&(b.score))
-            .expect("Neighbor distance should never cause a div by 0")
-    });
-    res.iter().map(|n| (n.h_index, n.v_index)).collect()
+    res
 }
 
 fn find_possible_neighbors(capstones: &[CapStone], idx: usize) -> (Vec<Neighbor>, Vec<Neighbor>) {
diff --git a/src/identify/mod.rs b/src/identify/mod.rs
index e06029a..f953218 100644
--- a/src/identify/mod.rs
+++ b/src/identify/mod.rs
@@ -1,5 +1,5 @@
 pub use self::grid::SkewedGridLocation;
-pub use self::match_capstones::find_and_rank_possible_neighbors;
+pub use self::match_capstones::{find_and_rank_possible_neighbors, rank_possible_corners};
 
 pub mod grid;
 pub mod match_capstones;
diff --git a/src/prepare.rs b/src/prepare.rs
index 27b77b4..865d6c6 100644
--- a/src/prepare.rs
+++ b/src/prepare.rs
@@ -271,7 +271,7 @@ where
     {
         let mut used_capstones = Vec::new();
         let mut groups = Vec::new();
-        for idx in 0..capstones.len() {
+        for idx in crate::identify::rank_possible_corners(&capstones) {
             if used_capstones.contains(&idx) {
                 continue;
             }
@@ -295,13 +295,16 @@ where
                     continue;
                 }
                 // This is a viable set, save this grouping
-                groups.push(group_under_test);
+                groups.push((idx, group_under_test));
                 used_capstones.push(pair.0);
                 used_capstones.push(idx);
                 used_capstones.push(pair.1);
+                // The other pairs can only be from different QR codes
+                break;
             }
         }
-        groups
+        groups.sort_by_key(|(idx, _)| *idx);
+        groups.into_iter().map(|(_, group)| group).collect()
     }
 
     pub fn without_preparation(buf: S) -> Self {
-- 
2.43.0


From 5c804a8e11c1f760da5c89157f7b7b71bc0a99bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:05 +0000
Subject: [PATCH 11/15] fix: clones forget which region was used last

The cache iterates from the most to the least recently used region, so a
clone ended up with the reversed order. A search of the clone then recycled
other shades than the same search of the original.
---
 src/prepare.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/prepare.rs b/src/prepare.rs
index 865d6c6..629f641 100644
--- a/src/prepare.rs
+++ b/src/prepare.rs
@@ -20,7 +20,8 @@ where
 {
     fn clone(&self) -> Self {
         let mut cache = LruCache::new(self.cache.cap());
-        for (k, v) in self.cache.iter() {
+        // Most recently used entries come first, they have to be inserted last
+        for (k, v) in self.cache.iter().rev() {
             cache.put(*k, *v);
         }
 
-- 
2.43.0


From 2f8af0160db2bc49dff566753cc6775edf1ab207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:13 +0000
Subject: [PATCH 12/15] fix: corner scores overflow on images wider than 46340
 pixels

Products of two pixel distances do not fit into 32 bits any more for finder
patterns that are that large, or that far from the origin of the image.
---
 src/detect.rs        | 27 ++++++++++++++++-----------
 src/identify/grid.rs | 19 +++++++++++++------
 2 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/src/detect.rs b/src/detect.rs
index 1e465e0..728ef5b 100644
--- a/src/detect.rs
+++ b/src/detect.rs
@@ -278,7 +278,7 @@ where
 struct FirstCornerFinder {
     initial: Point,
     best: Point,
-    score: i32,
+    score: i64,
 }
 
 impl FirstCornerFinder {
@@ -297,9 +297,9 @@ impl FirstCornerFinder {
 
 impl AreaFiller for FirstCornerFinder {
     fn update(&mut self, row: Row) {
-        let dy = (row.y as i32) - self.initial.y;
-        let l_dx = (row.left as i32) - self.initial.x;
-        let r_dx = (row.right as i32) - self.initial.x;
+        let dy = (row.y as i64) - i64::from(self.initial.y);
+        let l_dx = (row.left as i64) - i64::from(self.initial.x);
+        let r_dx = (row.right as i64) - i64::from(self.initial.x);
 
         let l_dist = l_dx * l_dx + dy * dy;
         let r_dist = r_dx * r_dx + dy * dy;
@@ -334,7 +334,7 @@ impl AreaFiller for FirstCornerFinder {
 struct AllCornerFinder {
     baseline: Point,
     best: [Point; 4],
-    scores: [i32; 4],
+    scores: [i64; 4],
 }
 
 impl AllCornerFinder {
@@ -344,8 +344,10 @@ impl AllCornerFinder {
             y: corner.y - initial.y,
         };
 
-        let parallel_score = initial.x * baseline.x + initial.y * baseline.y;
-        let orthogonal_score = -initial.x * baseline.y + initial.y * baseline.x;
+        let (x, y) = (i64::from(initial.x), i64::from(initial.y));
+        let (base_x, base_y) = (i64::from(baseline.x), i64::from(baseline.y));
+        let parallel_score = x * base_x + y * base_y;
+        let orthogonal_score = -x * base_y + y * base_x;
 
         AllCornerFinder {
             baseline,
@@ -366,12 +368,15 @@ impl AllCornerFinder {
 
 impl AreaFiller for AllCornerFinder {
     fn update(&mut self, row: Row) {
-        let l_par_score = (row.left as i32) * self.baseline.x + (row.y as i32) * self.baseline.y;
-        let l_ort_score = -(row.left as i32) * self.baseline.y + (row.y as i32) * self.baseline.x;
+        let base_x = i64::from(self.baseline.x);
+        let base_y = i64::from(self.baseline.y);
+
+        let l_par_score = (row.left as i64) * base_x + (row.y as i64) * base_y;
+        let l_ort_score = -(row.left as i64) * base_y + (row.y as i64) * base_x;
         let l_scores = [l_par_score, l_ort_score, -l_par_score, -l_ort_score];
 
-        let r_par_score = (row.right as i32) * self.baseline.x + (row.y as i32) * self.baseline.y;
-        let r_ort_score = -(row.right as i32) * self.baseline.y + (row.y as i32) * self.baseline.x;
+        let r_par_score = (row.right as i64) * base_x + (row.y as i64) * base_y;
+        let r_ort_score = -(row.right as i64) * base_y + (row.y as i64) * base_x;
         let r_scores = [r_par_score, r_ort_score, -r_par_score, -r_ort_score];
 
         for j in 0..4 {
diff --git a/src/identify/grid.rs b/src/identify/grid.rs
index e71942c..e62f851 100644
--- a/src/identify/grid.rs
+++ b/src/identify/grid.rs
@@ -47,7 +47,7 @@ impl SkewedGridLocation {
         };
 
         /* Make sure A-B-C is clockwise */
-        if (group.1.center.x - h0.x) * -hd.y + (group.1.center.y - h0.y) * hd.x > 0 {
+        if offset(&group.1.center, &h0, &hd) > 0 {
             mem::swap(&mut group.0, &mut group.2);
             hd.x = -hd.x;
             hd.y = -hd.y
@@ -83,7 +83,7 @@ impl SkewedGridLocation {
         if grid_size > 21 {
             /* Try to find the actual location of the alignment pattern. */
             align = find_alignment_pattern(img, align, &group.0, &group.2)?;
-            let score = -hd.y * align.x + hd.x * align.y;
+            let score = offset(&align, &Point::default(), &hd);
             let finder = LeftMostFinder {
                 line_p: hd,
                 best: align,
@@ -167,12 +167,17 @@ where
     Some(jiggle_perspective(img, initial, grid_size))
 }
 
+/// Signed (scaled) distance of a point from the line through `from` along `dir`
+fn offset(p: &Point, from: &Point, dir: &Point) -> i64 {
+    i64::from(p.x - from.x) * -i64::from(dir.y) + i64::from(p.y - from.y) * i64::from(dir.x)
+}
+
 fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) -> Option<()> {
     let (best_idx, _) = cap
         .corners
         .iter()
         .enumerate()
-        .min_by_key(|(_, a)| (a.x - h0.x) * (-hd.y) + (a.y - h0.y) * hd.x)
+        .min_by_key(|(_, a)| offset(a, h0, hd))
         .expect("corners cannot be empty");
 
     /* Rotate the capstone */
@@ -301,13 +306,15 @@ where
 struct LeftMostFinder {
     line_p: Point,
     best: Point,
-    score: i32,
+    score: i64,
 }
 
 impl AreaFiller for LeftMostFinder {
     fn update(&mut self, row: Row) {
-        let left_d = -self.line_p.y * (row.left as i32) + self.line_p.x * row.y as i32;
-        let right_d = -self.line_p.y * (row.right as i32) + self.line_p.x * row.y as i32;
+        let line_x = i64::from(self.line_p.x);
+        let line_y = i64::from(self.line_p.y);
+        let left_d = -line_y * (row.left as i64) + line_x * row.y as i64;
+        let right_d = -line_y * (row.right as i64) + line_x * row.y as i64;
 
         if left_d < self.score {
             self.score = left_d;
-- 
2.43.0


From 17596afff5ad23f767afbd94288f04e679bb6e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:52 +0000
Subject: [PATCH 13/15] fix: capstones of an incomplete code take those of
 complete ones

Rank the possible groups of all capstones together instead of trying every
group of one corner before any group of the next.
---
 src/identify/match_capstones.rs | 29 ++++++-------------
 src/identify/mod.rs             |  2 +-
 src/prepare.rs                  | 51 ++++++++++++++++-----------------
 3 files changed, 34 insertions(+), 48 deletions(-)

diff --git a/src/identify/match_capstones.rs b/src/identify/match_capstones.rs
index 738f20b..4a0bbbb 100644
--- a/src/identify/match_capstones.rs
+++ b/src/identify/match_capstones.rs
@@ -15,30 +15,19 @@ struct NeighborSet {
     v_index: usize,
 }
 
-/// Return the index of each Capstone that is likely to be the corner of a QR code
-/// Ordered from most likely to least likely
-pub fn rank_possible_corners(capstones: &[CapStone]) -> Vec<usize> {
+/// Return each Capstone index that is possibly the corner of a QR code together
+/// with a pair of Capstone indexes that are likely to be from the same QR code
+/// Ordered from closest and most symmetric to farthest and least symmetric
+pub fn rank_possible_groups(capstones: &[CapStone]) -> Vec<(usize, (usize, usize))> {
     let mut res: Vec<_> = (0..capstones.len())
-        .filter_map(|idx| {
-            let scores = find_neighbor_sets(capstones, idx);
-            let best = scores.iter().map(|n| n.score).reduce(f64::min)?;
-            Some((best, idx))
+        .flat_map(|idx| {
+            find_neighbor_sets(capstones, idx)
+                .into_iter()
+                .map(move |n| (n.score, (idx, (n.h_index, n.v_index))))
         })
         .collect();
     res.sort_by(|a, b| a.0.total_cmp(&b.0));
-    res.into_iter().map(|(_, idx)| idx).collect()
-}
-
-/// Return each pair Capstone indexes that are likely to be from a QR code
-/// Ordered from closest and most symmetric to farthest and least symmetric
-pub fn find_and_rank_possible_neighbors(capstones: &[CapStone], idx: usize) -> Vec<(usize, usize)> {
-    let mut res = find_neighbor_sets(capstones, idx);
-    res.sort_unstable_by(|a, b| {
-        (a.score)
-            .partial_cmp(&(b.score))
-            .expect("Neighbor distance should never cause a div by 0")
-    });
-    res.iter().map(|n| (n.h_index, n.v_index)).collect()
+    res.into_iter().map(|(_, group)| group).collect()
 }
 
 fn find_neighbor_sets(capstones: &[CapStone], idx: usize) -> Vec<NeighborSet> {
diff --git a/src/identify/mod.rs b/src/identify/mod.rs
index f953218..aef5070 100644
--- a/src/identify/mod.rs
+++ b/src/identify/mod.rs
@@ -1,5 +1,5 @@
 pub use self::grid::SkewedGridLocation;
-pub use self::match_capstones::{find_and_rank_possible_neighbors, rank_possible_corners};
+pub use self::match_capstones::rank_possible_groups;
 
 pub mod grid;
 pub mod match_capstones;
diff --git a/src/prepare.rs b/src/prepare.rs
index 629f641..2b41eb7 100644
--- a/src/prepare.rs
+++ b/src/prepare.rs
@@ -272,37 +272,34 @@ where
     {
         let mut used_capstones = Vec::new();
         let mut groups = Vec::new();
-        for idx in crate::identify::rank_possible_corners(&capstones) {
+        // Ranked across all corners, so that the capstones of an incomplete code
+        // do not take those of its neighbors
+        for (idx, pair) in crate::identify::rank_possible_groups(&capstones) {
             if used_capstones.contains(&idx) {
                 continue;
             }
-            let pairs = crate::identify::find_and_rank_possible_neighbors(&capstones, idx);
-            for pair in pairs {
-                if used_capstones.contains(&pair.0) || used_capstones.contains(&pair.1) {
-                    continue;
-                }
-                let group_under_test = CapStoneGroup(
-                    capstones[pair.0].clone(),
-                    capstones[idx].clone(),
-                    capstones[pair.1].clone(),
-                );
-                // Confirm that this group has the other requirements of a QR code.
-                // A copy of the input image is used to not contaminate the
-                // original on an incorrect set of CapStones
-                let mut image_copy = self.clone();
-                if crate::SkewedGridLocation::from_group(&mut image_copy, group_under_test.clone())
-                    .is_none()
-                {
-                    continue;
-                }
-                // This is a viable set, save this grouping
-                groups.push((idx, group_under_test));
-                used_capstones.push(pair.0);
-                used_capstones.push(idx);
-                used_capstones.push(pair.1);
-                // The other pairs can only be from different QR codes
-                break;
+            if used_capstones.contains(&pair.0) || used_capstones.contains(&pair.1) {
+                continue;
+            }
+            let group_under_test = CapStoneGroup(
+                capstones[pair.0].clone(),
+                capstones[idx].clone(),
+                capstones[pair.1].clone(),
+            );
+            // Confirm that this group has the other requirements of a QR code.
+            // A copy of the input image is used to not contaminate the
+            // original on an incorrect set of CapStones
+            let mut image_copy = self.clone();
+            if crate::SkewedGridLocation::from_group(&mut image_copy, group_under_test.clone())
+                .is_none()
+            {
+                continue;
             }
+            // This is a viable set, save this grouping
+            groups.push((idx, group_under_test));
+            used_capstones.push(pair.0);
+            used_capstones.push(idx);
+            used_capstones.push(pair.1);
         }
         groups.sort_by_key(|(idx, _)| *idx);
         groups.into_iter().map(|(_, group)| group).collect()
-- 
2.43.0


From f8d1754571a5477303f09b7ad77d3ad078127e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:06 +0000
Subject: [PATCH 14/15] fix: do not hold all possible groups of capstones in
 memory

Ranking the groups of all corners at once took memory in the cube of their
number (1.5 GB for a sheet of 625 symbols). Keep the best group of each corner
only, and look for the next one when it was tried.
---
 src/identify/match_capstones.rs | 92 ++++++++++++++++++++++++++-------
 src/identify/mod.rs             |  2 +-
 src/prepare.rs                  | 17 +++---
 3 files changed, 79 insertions(+), 32 deletions(-)

diff --git a/src/identify/match_capstones.rs b/src/identify/match_capstones.rs
index 4a0bbbb..84bef5c 100644
--- a/src/identify/match_capstones.rs
+++ b/src/identify/match_capstones.rs
@@ -1,4 +1,5 @@
 use crate::CapStone;
+use std::cmp::Ordering;
 
 #[derive(Debug, Clone)]
 pub struct CapStoneGroup(pub CapStone, pub CapStone, pub CapStone);
@@ -9,35 +10,80 @@ struct Neighbor {
     distance: f64,
 }
 
+#[derive(Clone, Copy, Debug)]
 struct NeighborSet {
     score: f64,
     h_index: usize,
     v_index: usize,
 }
 
-/// Return each Capstone index that is possibly the corner of a QR code together
-/// with a pair of Capstone indexes that are likely to be from the same QR code
-/// Ordered from closest and most symmetric to farthest and least symmetric
-pub fn rank_possible_groups(capstones: &[CapStone]) -> Vec<(usize, (usize, usize))> {
-    let mut res: Vec<_> = (0..capstones.len())
-        .flat_map(|idx| {
-            find_neighbor_sets(capstones, idx)
-                .into_iter()
-                .map(move |n| (n.score, (idx, (n.h_index, n.v_index))))
-        })
-        .collect();
-    res.sort_by(|a, b| a.0.total_cmp(&b.0));
-    res.into_iter().map(|(_, group)| group).collect()
+impl NeighborSet {
+    fn rank(&self, other: &NeighborSet) -> Ordering {
+        self.score
+            .total_cmp(&other.score)
+            .then(self.h_index.cmp(&other.h_index))
+            .then(self.v_index.cmp(&other.v_index))
+    }
+}
+
+/// Goes through each Capstone index that is possibly the corner of a QR code
+/// together with each pair of Capstone indexes that are likely to be from the
+/// same QR code, from closest and most symmetric to farthest and least symmetric
+///
+/// Only the best set of neighbors not yet tried is kept for each corner, as
+/// there may be very many of them in all.
+pub struct GroupRanking {
+    best: Vec<Option<NeighborSet>>,
 }
 
-fn find_neighbor_sets(capstones: &[CapStone], idx: usize) -> Vec<NeighborSet> {
+impl GroupRanking {
+    pub fn new(capstones: &[CapStone]) -> Self {
+        let used = vec![false; capstones.len()];
+        let best = (0..capstones.len())
+            .map(|idx| find_best_neighbor_set(capstones, idx, &used, None))
+            .collect();
+        GroupRanking { best }
+    }
+
+    /// The next best group, without those that have a used Capstone
+    pub fn next(
+        &mut self,
+        capstones: &[CapStone],
+        used: &[bool],
+    ) -> Option<(usize, (usize, usize))> {
+        loop {
+            let (idx, set) = self
+                .best
+                .iter()
+                .enumerate()
+                .filter_map(|(idx, set)| set.map(|set| (idx, set)))
+                .min_by(|a, b| a.1.score.total_cmp(&b.1.score))?;
+            self.best[idx] = if used[idx] {
+                None
+            } else {
+                find_best_neighbor_set(capstones, idx, used, Some(&set))
+            };
+            if !used[idx] && !used[set.h_index] && !used[set.v_index] {
+                return Some((idx, (set.h_index, set.v_index)));
+            }
+        }
+    }
+}
+
+/// Find the best set of unused neighbors that ranks behind the given one
+fn find_best_neighbor_set(
+    capstones: &[CapStone],
+    idx: usize,
+    used: &[bool],
+    after: Option<&NeighborSet>,
+) -> Option<NeighborSet> {
     const VIABILITY_THRESHOLD: f64 = 0.25;
 
     let (hlist, vlist) = find_possible_neighbors(capstones, idx);
-    let mut res = Vec::new();
+    let mut best: Option<NeighborSet> = None;
     /* Test each possible grouping */
-    for hn in hlist {
-        for vn in vlist.iter() {
+    for hn in hlist.iter().filter(|n| !used[n.index]) {
+        for vn in vlist.iter().filter(|n| !used[n.index]) {
             let score = {
                 if hn.distance < vn.distance {
                     (1.0f64 - hn.distance / vn.distance).abs()
@@ -46,15 +92,21 @@ fn find_neighbor_sets(capstones: &[CapStone], idx: usize) -> Vec<NeighborSet> {
                 }
             };
             if score < VIABILITY_THRESHOLD {
-                res.push(NeighborSet {
+                let set = NeighborSet {
                     score: (1.0 + 8.0 * score) * hn.distance.max(vn.distance),
                     h_index: hn.index,
                     v_index: vn.index,
-                });
+                };
+                if after.is_some_and(|a| set.rank(a).is_le()) {
+                    continue;
+                }
+                if best.map_or(true, |b| set.rank(&b).is_lt()) {
+                    best = Some(set);
+                }
             }
         }
     }
-    res
+    best
 }
 
 fn find_possible_neighbors(capstones: &[CapStone], idx: usize) -> (Vec<Neighbor>, Vec<Neighbor>) {
diff --git a/src/identify/mod.rs b/src/identify/mod.rs
index aef5070..7fb3ffe 100644
--- a/src/identify/mod.rs
+++ b/src/identify/mod.rs
@@ -1,5 +1,5 @@
 pub use self::grid::SkewedGridLocation;
-pub use self::match_capstones::rank_possible_groups;
+pub use self::match_capstones::GroupRanking;
 
 pub mod grid;
 pub mod match_capstones;
diff --git a/src/prepare.rs b/src/prepare.rs
index 2b41eb7..1f070f8 100644
--- a/src/prepare.rs
+++ b/src/prepare.rs
@@ -270,17 +270,12 @@ where
     where
         S: Clone,
     {
-        let mut used_capstones = Vec::new();
+        let mut used_capstones = vec![false; capstones.len()];
         let mut groups = Vec::new();
         // Ranked across all corners, so that the capstones of an incomplete code
         // do not take those of its neighbors
-        for (idx, pair) in crate::identify::rank_possible_groups(&capstones) {
-            if used_capstones.contains(&idx) {
-                continue;
-            }
-            if used_capstones.contains(&pair.0) || used_capstones.contains(&pair.1) {
-                continue;
-            }
+        let mut ranking = crate::identify::GroupRanking::new(&capstones);
+        while let Some((idx, pair)) = ranking.next(&capstones, &used_capstones) {
             let group_under_test = CapStoneGroup(
                 capstones[pair.0].clone(),
                 capstones[idx].clone(),
@@ -297,9 +292,9 @@ where
             }
             // This is a viable set, save this grouping
             groups.push((idx, group_under_test));
-            used_capstones.push(pair.0);
-            used_capstones.push(idx);
-            used_capstones.push(pair.1);
+            used_capstones[pair.0] = true;
+            used_capstones[idx] = true;
+            used_capstones[pair.1] = true;
         }
         groups.sort_by_key(|(idx, _)| *idx);
         groups.into_iter().map(|(_, group)| group).collect()
-- 
2.43.0


From 6e467995532243e681361d6cbfe923f45bf74cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:31 +0000
Subject: [PATCH 15/15] fix: searches for alignment patterns of impossible size

False groups of finder patterns, as found in noise, led to an estimated module
of up to half of the image, and a search of all of the image and more for it:
minutes for a few megapixels. Bound it by the modules between the capstones.
---
 src/identify/grid.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/identify/grid.rs b/src/identify/grid.rs
index e62f851..d2b32f0 100644
--- a/src/identify/grid.rs
+++ b/src/identify/grid.rs
@@ -82,7 +82,8 @@ impl SkewedGridLocation {
         /* On V2+ grids, we should use the alignment pattern. */
         if grid_size > 21 {
             /* Try to find the actual location of the alignment pattern. */
-            align = find_alignment_pattern(img, align, &group.0, &group.2)?;
+            let max_size = max_module_area(&group, grid_size);
+            align = find_alignment_pattern(img, align, &group.0, &group.2, max_size)?;
             let score = offset(&align, &Point::default(), &hd);
             let finder = LeftMostFinder {
                 line_p: hd,
@@ -235,11 +236,22 @@ where
     count
 }
 
+/// A generous upper bound for the area of a module, given the capstones around
+/// the grid and its size
+fn max_module_area(group: &CapStoneGroup, grid_size: usize) -> u128 {
+    let delta = |p: i32, q: i32| i128::from(p) - i128::from(q);
+    let (p, q, r) = (&group.0.center, &group.1.center, &group.2.center);
+    let area = delta(p.x, q.x) * delta(r.y, q.y) - delta(p.y, q.y) * delta(r.x, q.x);
+    let modules = (grid_size - 7) * (grid_size - 7);
+    16 + 16 * area.unsigned_abs() / modules as u128
+}
+
 fn find_alignment_pattern<S>(
     img: &mut PreparedImage<S>,
     mut align_seed: Point,
     c0: &CapStone,
     c2: &CapStone,
+    max_size: u128,
 ) -> Option<Point>
 where
     S: ImageBuffer,
@@ -256,8 +268,10 @@ where
         + delta(a.y, align_seed.y) * delta(c.x, align_seed.x))
     .unsigned_abs();
 
-    /* No region of the image can be large enough */
-    if size_estimate / 2 > (img.width() * img.height()) as u128 {
+    /* No region of the image can be large enough, or the modules are far larger
+     * than those between the capstones.
+     */
+    if size_estimate / 2 > (img.width() * img.height()) as u128 || size_estimate > max_size {
         return None;
     }
     let size_estimate = size_estimate as usize;
-- 
2.43.0

