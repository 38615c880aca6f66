From 02254c93b572bf6faced79c93e4854ce174cfa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:41 +0000
Subject: [PATCH 01/12] fix: TemperatureCache covers hue 360

A hue in [359.5, 360) rounds to 360, which was out of range of the
360-entry hue table, so analogous() and get_complement() (and with them
the Content and Fidelity schemes) panicked for such colors.
---
 src/temperature/temperature_cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/temperature/temperature_cache.rs b/src/temperature/temperature_cache.rs
index 152a039..9b09ef5 100644
--- a/src/temperature/temperature_cache.rs
+++ b/src/temperature/temperature_cache.rs
@@ -284,7 +284,7 @@ impl TemperatureCache {
             return self._hcts_by_hue.clone();
         }
         let mut hcts: Vec<Hct> = Vec::new();
-        for hue in 0..360 {
+        for hue in 0..=360 {
             let hue = hue as f64;
             let color_at_hue = Hct::from(hue, self.input.get_chroma(), self.input.get_tone());
             hcts.push(color_at_hue);
-- 
2.43.0


From a5f98a2cc18ddf1296ef5f73a317578d04ede945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:41 +0000
Subject: [PATCH 02/12] fix: QuantizerCelebi is deterministic

The starting clusters were taken in HashMap iteration order, which
differs from run to run, so the same image gave different colors.
---
 src/quantize/quantizer_celebi.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/quantize/quantizer_celebi.rs b/src/quantize/quantizer_celebi.rs
index f69a973..5fc769d 100644
--- a/src/quantize/quantizer_celebi.rs
+++ b/src/quantize/quantizer_celebi.rs
@@ -17,10 +17,14 @@ impl Quantizer for QuantizerCelebi {
             return_input_pixel_to_cluster_pixel.unwrap_or(false);
         let mut wu = QuantizerWu::new();
         let wu_result = wu.quantize(pixels, max_colors, None);
+        // HashMap iteration order is random; sort so that the same image always
+        // starts from the same clusters and yields the same colors.
+        let mut starting_clusters: Vec<i64> = wu_result.color_to_count.keys().cloned().collect();
+        starting_clusters.sort_unstable();
         let wsmeans_result = QuantizerWsmeans::quantize(
             pixels,
             max_colors,
-            Some(&wu_result.color_to_count.keys().cloned().collect()),
+            Some(&starting_clusters),
             Some(&PointProviderLab::new()),
             None,
             Some(return_input_pixel_to_cluster_pixel),
-- 
2.43.0


From 902aec157158ba5b6c3f52de0a78f9751c7ec24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:41 +0000
Subject: [PATCH 03/12] fix: TonalPalette::get_hct honours fractional tones

The tone was truncated for the cache lookup, so get_hct(40.7) returned
the color of tone 40 once tone 40 was cached.
---
 src/palettes/tonal_palette.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/palettes/tonal_palette.rs b/src/palettes/tonal_palette.rs
index 714d773..2153662 100644
--- a/src/palettes/tonal_palette.rs
+++ b/src/palettes/tonal_palette.rs
@@ -181,7 +181,12 @@ impl TonalPalette {
     /// If the palette is constructed from a hue and chroma (i.e. using [of] or
     /// [fromHct]), the result is generated from the given [hue] and [chroma].
     pub fn get_hct(&self, tone: f64) -> Hct {
-        let maybe_hct_int = self._cache.get(&(tone as i64));
+        // The cache holds whole tones only.
+        let maybe_hct_int = if tone.fract() == 0.0 {
+            self._cache.get(&(tone as i64))
+        } else {
+            None
+        };
 
         match maybe_hct_int {
             Some(hct_int) => Hct::from_int(*hct_int),
-- 
2.43.0


From 0a17fc00aee46d9a3052d2e568c1502f78552b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:41 +0000
Subject: [PATCH 04/12] fix: TonalPalette::to_string describes the right kind
 of palette

The two descriptions were swapped.
---
 src/palettes/tonal_palette.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/palettes/tonal_palette.rs b/src/palettes/tonal_palette.rs
index 2153662..d9d10bd 100644
--- a/src/palettes/tonal_palette.rs
+++ b/src/palettes/tonal_palette.rs
@@ -198,7 +198,7 @@ impl TonalPalette {
 impl ToString for TonalPalette {
     fn to_string(&self) -> String {
         let mut mutable_clone = self.clone();
-        if self._is_from_cache {
+        if !self._is_from_cache {
             return format!(
                 "TonalPalette.of({}, {})",
                 mutable_clone.hue, mutable_clone.chroma
-- 
2.43.0


From 23ac8be8ddc8c9c0965a8e6c164203685ceb0358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:41 +0000
Subject: [PATCH 05/12] fix: sanitize_degrees_double never returns 360

For tiny negative angles, degrees + 360.0 rounds to 360.0, which is
outside the documented half-open range.
---
 src/utils/math_utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/math_utils.rs b/src/utils/math_utils.rs
index c302bcc..8042b05 100644
--- a/src/utils/math_utils.rs
+++ b/src/utils/math_utils.rs
@@ -69,6 +69,10 @@ impl MathUtils {
         let mut degrees = degrees % 360.0;
         if degrees < 0.0 {
             degrees = degrees + 360.0;
+            // A tiny negative angle rounds up to a full turn.
+            if degrees >= 360.0 {
+                degrees = 0.0;
+            }
         }
         return degrees;
     }
-- 
2.43.0


From 5c17f71e3f11a80e8fa909dc3c983648c1df4e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:41 +0000
Subject: [PATCH 06/12] fix: QuantizerWu reuses the slot of a failed cut

The decrement of the `for` variable was lost, so each box that could
not be cut cost one of the requested colors.
---
 src/quantize/quantizer_wu.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quantize/quantizer_wu.rs b/src/quantize/quantizer_wu.rs
index 4391115..b1873f1 100644
--- a/src/quantize/quantizer_wu.rs
+++ b/src/quantize/quantizer_wu.rs
@@ -149,7 +149,8 @@ impl QuantizerWu {
         let mut volume_variance: Vec<f64> = vec![0.0; max_color_count as usize];
         let mut next: i64 = 0;
         let mut generated_color_count: i64 = max_color_count;
-        for mut i in 1..max_color_count {
+        let mut i: i64 = 1;
+        while i < max_color_count {
             let one = next as usize;
             let two = i as usize;
             if self.cut(one, two) {
@@ -180,6 +181,7 @@ impl QuantizerWu {
                 generated_color_count = i + 1;
                 break;
             }
+            i += 1;
         }
 
         return CreateBoxesResult::new(max_color_count, generated_color_count);
-- 
2.43.0


From 976a40d2103343aae58e04a9bcc0a566a4fda498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:41 +0000
Subject: [PATCH 07/12] fix: QuantizerWu averages without truncating

The moments were divided as integers before rounding, which darkened
the average color of a box and overestimated its variance.
---
 src/quantize/quantizer_wu.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/quantize/quantizer_wu.rs b/src/quantize/quantizer_wu.rs
index b1873f1..b1718ca 100644
--- a/src/quantize/quantizer_wu.rs
+++ b/src/quantize/quantizer_wu.rs
@@ -193,11 +193,14 @@ impl QuantizerWu {
             let cube = &self.cubes[i as usize];
             let weight: i64 = Self::volume(cube.clone(), self.weights.clone());
             if weight > 0 {
-                let r: i64 = ((Self::volume(cube.clone(), self.moments_r.clone()) / weight) as f64)
+                let r: i64 = (Self::volume(cube.clone(), self.moments_r.clone()) as f64
+                    / weight as f64)
                     .round() as i64;
-                let g: i64 = ((Self::volume(cube.clone(), self.moments_g.clone()) / weight) as f64)
+                let g: i64 = (Self::volume(cube.clone(), self.moments_g.clone()) as f64
+                    / weight as f64)
                     .round() as i64;
-                let b: i64 = ((Self::volume(cube.clone(), self.moments_b.clone()) / weight) as f64)
+                let b: i64 = (Self::volume(cube.clone(), self.moments_b.clone()) as f64
+                    / weight as f64)
                     .round() as i64;
                 let color: i64 = ColorUtils::argb_from_rgb(r, g, b);
                 colors.push(color);
@@ -221,7 +224,7 @@ impl QuantizerWu {
 
         let hypotenuse = dr * dr + dg * dg + db * db;
         let volume_ = Self::volume(cube, self.weights.clone());
-        return xx - (hypotenuse / volume_) as f64;
+        return xx - hypotenuse as f64 / volume_ as f64;
     }
 
     pub fn cut(&mut self, one_index: usize, two_index: usize) -> bool {
-- 
2.43.0


From 3f7c009c4d2396b82210077a97a9d918645354d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:48 +0000
Subject: [PATCH 08/12] fix: QuantizerWsmeans counts every pixel when clusters
 share a color

---
 src/quantize/quantizer_wsmeans.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/quantize/quantizer_wsmeans.rs b/src/quantize/quantizer_wsmeans.rs
index 16f8cdc..6462280 100644
--- a/src/quantize/quantizer_wsmeans.rs
+++ b/src/quantize/quantizer_wsmeans.rs
@@ -262,7 +262,12 @@ impl QuantizerWsmeans {
 
             let possible_new_cluster =
                 point_provider.to_int(&clusters[i as usize].iter().map(|it| *it).collect());
-            if cluster_argbs.contains(&possible_new_cluster) {
+            if let Some(existing) = cluster_argbs
+                .iter()
+                .position(|argb| *argb == possible_new_cluster)
+            {
+                // Two clusters round to the same color: count the pixels of both.
+                cluster_populations[existing] += count;
                 continue;
             }
 
-- 
2.43.0


From 9e23b6fa4b22d7e94ac5670861016a473d845ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:45 +0000
Subject: [PATCH 09/12] fix: do not overflow when quantizing images of millions
 of bright pixels

---
 src/quantize/quantizer_wu.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/quantize/quantizer_wu.rs b/src/quantize/quantizer_wu.rs
index b1718ca..60d17d0 100644
--- a/src/quantize/quantizer_wu.rs
+++ b/src/quantize/quantizer_wu.rs
@@ -222,9 +222,9 @@ impl QuantizerWu {
             + self.moments[Self::get_index(cube.r0, cube.g0, cube.b1) as usize]
             - self.moments[Self::get_index(cube.r0, cube.g0, cube.b0) as usize];
 
-        let hypotenuse = dr * dr + dg * dg + db * db;
+        let hypotenuse = Self::squared_length(dr, dg, db);
         let volume_ = Self::volume(cube, self.weights.clone());
-        return xx - hypotenuse as f64 / volume_ as f64;
+        return xx - hypotenuse / volume_ as f64;
     }
 
     pub fn cut(&mut self, one_index: usize, two_index: usize) -> bool {
@@ -346,8 +346,7 @@ impl QuantizerWu {
                 continue;
             }
 
-            let mut temp_numerator: f64 =
-                ((half_r * half_r) + (half_g * half_g) + (half_b * half_b)) as f64;
+            let mut temp_numerator: f64 = Self::squared_length(half_r, half_g, half_b);
             let mut temp_denominator: f64 = half_w as f64;
             let mut temp: f64 = temp_numerator / temp_denominator;
 
@@ -358,7 +357,7 @@ impl QuantizerWu {
             if half_w == 0 {
                 continue;
             }
-            temp_numerator = ((half_r * half_r) + (half_g * half_g) + (half_b * half_b)) as f64;
+            temp_numerator = Self::squared_length(half_r, half_g, half_b);
             temp_denominator = half_w as f64;
             temp += temp_numerator / temp_denominator;
 
@@ -370,6 +369,12 @@ impl QuantizerWu {
         return MaximizeResult::new(cut, max);
     }
 
+    // Squares of the channel sums of a large image do not fit in 64 bits.
+    fn squared_length(r: i64, g: i64, b: i64) -> f64 {
+        let (r, g, b) = (r as i128, g as i128, b as i128);
+        return (r * r + g * g + b * b) as f64;
+    }
+
     pub fn volume(cube: Box, moment: Vec<i64>) -> i64 {
         return moment[Self::get_index(cube.r1, cube.g1, cube.b1) as usize]
             - moment[Self::get_index(cube.r1, cube.g1, cube.b0) as usize]
-- 
2.43.0


From f0be58f5537286a9f8a056f3102baf9af35c2a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:15 +0000
Subject: [PATCH 10/12] fix: CAM16 hues are below 360

A tiny negative angle plus 360 rounds to 360, on which from_xyz_in_viewing_conditions
panicked and which from_ucs returned.
---
 src/hct/cam16.rs | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/hct/cam16.rs b/src/hct/cam16.rs
index 6a48248..86c8fb1 100644
--- a/src/hct/cam16.rs
+++ b/src/hct/cam16.rs
@@ -162,15 +162,7 @@ impl Cam16 {
         // hue
         let atan2 = (b).atan2(a);
         let atan_degrees = atan2 * 180.0 / std::f64::consts::PI;
-        let hue: f64 = {
-            if atan_degrees < 0.0 {
-                atan_degrees + 360.0
-            } else if atan_degrees >= 360.0 {
-                atan_degrees - 360.0
-            } else {
-                atan_degrees
-            }
-        };
+        let hue: f64 = MathUtils::sanitize_degrees_double(atan_degrees);
 
         let hue_radians = hue * std::f64::consts::PI / 180.0;
         assert!(hue >= 0.0 && hue < 360.0, "hue was really $hue");
@@ -265,10 +257,7 @@ impl Cam16 {
         let m = (a * a + b * b).sqrt();
         let m = ((m * 0.0228).exp() - 1.0) / 0.0228;
         let c = m / viewing_conditions.f_lroot;
-        let mut h = (b.atan2(a)) * (180.0 / std::f64::consts::PI);
-        if h < 0.0 {
-            h += 360.0;
-        }
+        let h = MathUtils::sanitize_degrees_double(b.atan2(a) * (180.0 / std::f64::consts::PI));
         let j = jstar / (1.0 - (jstar - 100.0) * 0.007);
 
         return Self::from_jch_in_viewing_conditions(j, c, h, viewing_conditions);
-- 
2.43.0


From 2ce249bc30df7c06c936f21b4a94185567d62fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:15 +0000
Subject: [PATCH 11/12] fix: equal palettes and schemes hash the same

A palette made from a list equals one of a hue and chroma with the same colors, but
was hashed differently; so were -0.0 and 0.0 as hue, chroma or contrast level. Schemes,
the keys of every dynamic color's cache, are hashed without their palettes (equality
still compares them), which would now be slow.
---
 src/dynamiccolor/dynamic_scheme.rs | 11 ++++-------
 src/palettes/tonal_palette.rs      | 16 +++-------------
 2 files changed, 7 insertions(+), 20 deletions(-)

diff --git a/src/dynamiccolor/dynamic_scheme.rs b/src/dynamiccolor/dynamic_scheme.rs
index 621e006..b568e9f 100644
--- a/src/dynamiccolor/dynamic_scheme.rs
+++ b/src/dynamiccolor/dynamic_scheme.rs
@@ -76,13 +76,10 @@ impl Hash for DynamicScheme {
         self.source_color_hct.hash(state);
         self.variant.hash(state);
         self.is_dark.hash(state);
-        self.contrast_level.to_ne_bytes().hash(state);
-        self.primary_palette.hash(state);
-        self.secondary_palette.hash(state);
-        self.tertiary_palette.hash(state);
-        self.neutral_palette.hash(state);
-        self.neutral_variant_palette.hash(state);
-        self.error_palette.hash(state);
+        // Adding zero makes -0.0 hash like 0.0, which it equals.
+        (self.contrast_level + 0.0).to_ne_bytes().hash(state);
+        // Equality compares the palettes too; hashing them would cost more than
+        // the color a cache keyed by schemes saves.
     }
 }
 
diff --git a/src/palettes/tonal_palette.rs b/src/palettes/tonal_palette.rs
index d9d10bd..53fef45 100644
--- a/src/palettes/tonal_palette.rs
+++ b/src/palettes/tonal_palette.rs
@@ -226,13 +226,9 @@ impl PartialEq for TonalPalette {
 }
 impl Hash for TonalPalette {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        if !self._is_from_cache {
-            self.hue.to_ne_bytes().hash(state);
-            self.chroma.to_ne_bytes().hash(state);
-        } else {
-            let list = self.clone().get_as_list();
-            hash_vec_i64(&list, state);
-        }
+        // A palette made from a list equals any palette with the same colors, so
+        // that only what the colors determine may be hashed.
+        self.clone().get(50).hash(state);
     }
 }
 
@@ -251,9 +247,3 @@ impl ListEquality {
         }
     }
 }
-
-fn hash_vec_i64<H: Hasher>(vec: &Vec<i64>, state: &mut H) {
-    for element in vec {
-        element.hash(state);
-    }
-}
-- 
2.43.0


From fe33059415eb924c59893a5fa4f86dc63ce819f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:23 +0000
Subject: [PATCH 12/12] fix: keep the requested hue where it meets a corner of
 the gamut

---
 src/hct/src/hct_solver.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/hct/src/hct_solver.rs b/src/hct/src/hct_solver.rs
index f1be8d3..e74c7f0 100644
--- a/src/hct/src/hct_solver.rs
+++ b/src/hct/src/hct_solver.rs
@@ -348,10 +348,19 @@ impl HctSolver {
         return (b).atan2(a);
     }
 
+    /// Whether [b] lies on the arc that leads from [a] up to, but not
+    /// including, [c].
+    ///
+    /// The angles are compared, not their differences: differences are
+    /// rounded, and would put an angle next to [a] on both sides of it.
     fn _are_in_cyclic_order(a: f64, b: f64, c: f64) -> bool {
-        let delta_ab = Self::_sanitize_radians(b - a);
-        let delta_ac = Self::_sanitize_radians(c - a);
-        return delta_ab < delta_ac;
+        let a = Self::_sanitize_radians(a);
+        let b = Self::_sanitize_radians(b);
+        let c = Self::_sanitize_radians(c);
+        if a <= c {
+            return a <= b && b < c;
+        }
+        return a <= b || b < c;
     }
 
     /// Solves the lerp equation.
@@ -476,7 +485,9 @@ impl HctSolver {
                 initialized = true;
                 continue;
             }
-            if uncut || Self::_are_in_cyclic_order(left_hue, mid_hue, right_hue) {
+            // A vertex of the same hue as the first does not cut the circle.
+            let cuts = Self::_sanitize_radians(mid_hue) != Self::_sanitize_radians(left_hue);
+            if (uncut && cuts) || Self::_are_in_cyclic_order(left_hue, mid_hue, right_hue) {
                 uncut = false;
                 if Self::_are_in_cyclic_order(left_hue, target_hue, mid_hue) {
                     right = mid;
-- 
2.43.0

