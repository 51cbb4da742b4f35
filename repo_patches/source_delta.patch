From a678b9eaf76ee73e6beec05b4f6026413bc9e510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 01/22] fix: invert the translation of AxisTransform2d under
 its scale

inverse() negated the translation without dividing it by the scale, so
t.inverse().apply(p) differed from t.unapply(p) whenever scale != 1.
---
 src/col2d/transformation2d/axis_transform2d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/col2d/transformation2d/axis_transform2d.rs b/src/col2d/transformation2d/axis_transform2d.rs
index e5dd49e..2012b0f 100644
--- a/src/col2d/transformation2d/axis_transform2d.rs
+++ b/src/col2d/transformation2d/axis_transform2d.rs
@@ -41,7 +41,7 @@ impl Transformation2d for AxisTransform2d {
 impl Invertible for AxisTransform2d {
     fn inverse(&self) -> Self {
         Self {
-            pos: -self.pos,
+            pos: -self.pos / self.scale,
             scale: 1.0 / self.scale,
         }
     }
-- 
2.43.0


From cdad1e9047f7cb574c45346496257d4fb7c7c3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 02/22] fix: pad Rect2i32 on all four sides

pad() moved the maximum corner inwards instead of outwards.
---
 src/utils/rect2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/rect2.rs b/src/utils/rect2.rs
index 9037e88..77455f5 100644
--- a/src/utils/rect2.rs
+++ b/src/utils/rect2.rs
@@ -14,7 +14,7 @@ impl Rect2i32 {
     pub fn pad(self, padding: V2i32) -> Self {
         Self {
             min: self.min - padding,
-            max: self.max - padding,
+            max: self.max + padding,
         }
     }
 
-- 
2.43.0


From bf1279d9e35e4db30cc7c484c091934869718e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 03/22] fix: shortest way out for a ball centred exactly on a
 box side

A centre exactly on the x side of the box was treated as outside of the
core box and got the (longer) y-axis penetration.
---
 src/col2d/shape/rounded_box2d/v_point.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/col2d/shape/rounded_box2d/v_point.rs b/src/col2d/shape/rounded_box2d/v_point.rs
index 027af39..6f2b7a8 100644
--- a/src/col2d/shape/rounded_box2d/v_point.rs
+++ b/src/col2d/shape/rounded_box2d/v_point.rs
@@ -8,7 +8,7 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
         let delta_x = delta.x.abs() - self.halfsize.x;
         let delta_y = delta.y.abs() - self.halfsize.y;
 
-        if self.box_part().collides_rel(&Point, rel) {
+        if delta_x <= 0.0 && delta_y <= 0.0 {
             if delta_x > delta_y {
                 (
                     true,
-- 
2.43.0


From 8a9977ef1fa826e9a251442b2f62cbf7f7ea062c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 04/22] fix: scalar signed distance between a box and a ball

The distance was measured from the point of the ball nearest to the box
centre, which is not the point nearest to the box, and the overlap depth
took the smaller of two negative face distances. Use the rounded box, as the
vector form does.
---
 src/col2d/shape/box2d/v_ball.rs | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/src/col2d/shape/box2d/v_ball.rs b/src/col2d/shape/box2d/v_ball.rs
index 575c54d..ddb8ce7 100644
--- a/src/col2d/shape/box2d/v_ball.rs
+++ b/src/col2d/shape/box2d/v_ball.rs
@@ -17,23 +17,7 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
 
 impl SdfRel2d<Ball> for Box2d {
     fn sdf_rel(&self, b: &Ball, rel: &impl Transformation2d) -> f32 {
-        let b_center = rel.apply_origin();
-        let towards_self = -b_center;
-        // TODO: Exploit ball symmetry
-        let p = b.extreme_point_t(rel, towards_self);
-        let px = p.x.abs() - self.halfsize.x;
-        let py = p.y.abs() - self.halfsize.y;
-
-        if self.collides_rel(b, rel) {
-            px.min(py)
-        } else {
-            if px.is_sign_negative() {
-                py
-            } else if py.is_sign_negative() {
-                px
-            } else {
-                Vec2::new(px, py).length()
-            }
-        }
+        let rounded_box = RoundedBox2d::new(self.halfsize, b.radius);
+        SdfRel2d::sdf_rel(&rounded_box, &Point, rel)
     }
 }
-- 
2.43.0


From 662f8859e536677fc7cbcaad038f5eb987519c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 05/22] fix: report the best penetration estimate when EPA runs
 out of iterations

It returned a zero vector for overlapping curved shapes (for example two
concentric balls in Shape2d), leaving them overlapped.
---
 src/col2d/shape/local_minkowski_diff/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/col2d/shape/local_minkowski_diff/mod.rs b/src/col2d/shape/local_minkowski_diff/mod.rs
index 1b3f4a7..d92d8e2 100644
--- a/src/col2d/shape/local_minkowski_diff/mod.rs
+++ b/src/col2d/shape/local_minkowski_diff/mod.rs
@@ -110,7 +110,10 @@ impl EpaPoly2d {
 
         warn!("EPA did not converge in {} iterations", iteration_limit);
 
-        Vec2::ZERO
+        // Use the closest edge found so far as the best estimate.
+        let (_, a, b) = self.find_closest_edge();
+        let normal = (b - a).perp_right();
+        normal * (-a.dot(normal) / normal.dot(normal))
     }
 
     fn find_closest_edge(&self) -> (usize, Vec2, Vec2) {
-- 
2.43.0


From 290d1eeb3333550373ed6ef4d1121397d598319d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 06/22] fix: keep the tile map event ledger truthful on removal

Removing a tile from an absent chunk announced the removal of a chunk that
was never created, and clearing a tile of a surviving chunk announced
nothing.
---
 src/col2d/shape/tilemap.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/col2d/shape/tilemap.rs b/src/col2d/shape/tilemap.rs
index 12e5cd4..27119b9 100644
--- a/src/col2d/shape/tilemap.rs
+++ b/src/col2d/shape/tilemap.rs
@@ -108,11 +108,16 @@ impl Tilemap {
 
     pub fn remove_tile(&mut self, pos: V2i32) {
         let (chunk_pos, local) = pos.modular_decompose(CHUNK_SIZE);
-        let chunk = self.chunks.entry(chunk_pos).or_default();
+        let Some(chunk) = self.chunks.get_mut(&chunk_pos) else {
+            return;
+        };
+        let changed = chunk.array2d.get(local).is_some_and(|tile| *tile != 0);
         chunk.array2d.set(local, 0);
         if chunk.array2d.data.iter().all(|x| x == &0) {
             self.events.notify(TilemapEvent::ChunkRemoved(chunk_pos));
             self.chunks.remove(&chunk_pos);
+        } else if changed {
+            self.events.notify(TilemapEvent::ChunkChanged(chunk_pos));
         }
     }
 
-- 
2.43.0


From 6fba664deac29c52ac92bfef34c72dce026a7b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 07/22] fix: do not panic on exactly touching shapes

In exact contact the simplex may enclose the origin on its boundary after a
support point has ruled a collision out. Report the (vanishing) distance
instead of panicking.
---
 src/col2d/shape/local_minkowski_diff/v.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/col2d/shape/local_minkowski_diff/v.rs b/src/col2d/shape/local_minkowski_diff/v.rs
index 4be036a..90eea0b 100644
--- a/src/col2d/shape/local_minkowski_diff/v.rs
+++ b/src/col2d/shape/local_minkowski_diff/v.rs
@@ -210,10 +210,11 @@ where
             }
             last_a = a;
 
+            let distance = simplex.distance_to_origin();
             let (collides, new_direction) = simplex.add_point(a);
             if collides && !collision_possible {
-                error!("Simplex collided after collision was no longer possible");
-                panic!("Simplex collided after collision was no longer possible");
+                trace!("Origin lies on the boundary (touching contact)");
+                return (false, distance);
             }
             trace!("new direction: {}", new_direction);
             // very close to zero. This is a sign that the origin lies on the boundary of the
-- 
2.43.0


From ab620bb3b1e683e08bfb15a40ee40ebc4d2dd261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 08/22] fix: distance query terminates like the combined query

The distance-only search stopped when a support point did not beat the last
one at all and reported an overlap when the simplex closed after a collision
had been ruled out, so separated rotated boxes and polygons got no distance
or a too long one. Use the termination rule of the combined search.
---
 src/col2d/shape/local_minkowski_diff/mod.rs |  2 +-
 src/col2d/shape/local_minkowski_diff/v.rs   | 14 +++++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/col2d/shape/local_minkowski_diff/mod.rs b/src/col2d/shape/local_minkowski_diff/mod.rs
index d92d8e2..2230ebf 100644
--- a/src/col2d/shape/local_minkowski_diff/mod.rs
+++ b/src/col2d/shape/local_minkowski_diff/mod.rs
@@ -1,6 +1,6 @@
 mod v;
 
-use crate::{error, info, trace, warn};
+use crate::{info, trace, warn};
 
 use super::*;
 
diff --git a/src/col2d/shape/local_minkowski_diff/v.rs b/src/col2d/shape/local_minkowski_diff/v.rs
index 90eea0b..2b653c4 100644
--- a/src/col2d/shape/local_minkowski_diff/v.rs
+++ b/src/col2d/shape/local_minkowski_diff/v.rs
@@ -68,19 +68,31 @@ where
         let mut last_a = self.extreme_point(direction);
         direction = simplex.add_point(last_a).1;
 
+        let mut collision_possible = true;
+
         for _ in 0..iteration_limit {
             let a = self.extreme_point(direction);
             let fitness = a.dot(direction);
 
             if fitness <= 0.0 {
+                collision_possible = false;
                 let last_fitness = last_a.dot(direction);
-                if fitness <= last_fitness {
+                if !is_a_sufficiently_better_than_b(
+                    fitness,
+                    last_fitness,
+                    DISTANCE_ITERATION_FITNESS_RELATIVE_IMPROVEMENT_REQUIRED,
+                ) {
                     return (false, simplex.distance_to_origin());
                 }
             }
             last_a = a;
 
+            let distance = simplex.distance_to_origin();
             let (collides, new_direction) = simplex.add_point(a);
+            if collides && !collision_possible {
+                trace!("Origin lies on the boundary (touching contact)");
+                return (false, distance);
+            }
             let new_direction_too_small = direction_is_too_small(new_direction);
             let new_direction = if new_direction_too_small {
                 // panic!("new direction too small: {new_direction:?}");
-- 
2.43.0


From 489c498b78094bebe280462838699a78c5a8b79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 09/22] fix: a NaN vector is not approximately zero

f32::max drops NaN, so a vector with a NaN component had magnitude zero next
to a zero vector and compared equal to it before the NaN check was reached.
---
 src/utils/approx.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/utils/approx.rs b/src/utils/approx.rs
index f35f834..9408596 100644
--- a/src/utils/approx.rs
+++ b/src/utils/approx.rs
@@ -37,15 +37,16 @@ impl Approx for f32 {
 
 impl Approx for Vec2 {
     fn approx_eq_tolerance(&self, other: &Self, tolerance: f32) -> bool {
+        let error = *self - *other;
+        if error.x.is_nan() || error.y.is_nan() {
+            return false;
+        }
+
         let magn_sq = self.length_squared().max(other.length_squared());
         if magn_sq == 0.0 {
             return true;
         }
 
-        let error = *self - *other;
-        if error.x.is_nan() || error.y.is_nan() {
-            return false;
-        }
         if error.x.is_infinite() || error.y.is_infinite() {
             // @note(lubo): we can be more lenient here when the need arises
             return self == other;
@@ -73,15 +74,16 @@ impl Approx for Vec2 {
 
 impl Approx for Vec3 {
     fn approx_eq_tolerance(&self, other: &Self, tolerance: f32) -> bool {
+        let error = *self - *other;
+        if error.x.is_nan() || error.y.is_nan() || error.z.is_nan() {
+            return false;
+        }
+
         let magn_sq = self.length_squared().max(other.length_squared());
         if magn_sq == 0.0 {
             return true;
         }
 
-        let error = *self - *other;
-        if error.x.is_nan() || error.y.is_nan() || error.z.is_nan() {
-            return false;
-        }
         if error.x.is_infinite() || error.y.is_infinite() || error.z.is_infinite() {
             // @note(lubo): we can be more lenient here when the need arises
             return self == other;
-- 
2.43.0


From 36a1f124423b1c216dd1e869eda8382fd7da2865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:22 +0000
Subject: [PATCH 10/22] fix: look for extreme points along the right local
 direction when axes are scaled differently

---
 src/col2d/detection/extreme_point.rs         | 2 +-
 src/col2d/shape/local_minkowski_diff/mod.rs  | 2 +-
 src/col2d/transformation2d/bevy_transform.rs | 4 ++++
 src/col2d/transformation2d/mod.rs            | 7 +++++++
 src/col2d/transformation2d/transform2d.rs    | 4 ++++
 5 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/col2d/detection/extreme_point.rs b/src/col2d/detection/extreme_point.rs
index 29adc98..216ef01 100644
--- a/src/col2d/detection/extreme_point.rs
+++ b/src/col2d/detection/extreme_point.rs
@@ -30,7 +30,7 @@ pub trait ExtremePointT2d<T: Transformation2d>: ExtremePoint2d {
     /// ```
     fn extreme_point_t(&self, t: &T, direction: Vec2) -> Vec2 {
         debug!("DefaultCol2dImpls::extreme_point_t");
-        let local_direction = t.unapply_normal(direction);
+        let local_direction = t.unapply_extreme_direction(direction);
         trace!("local_direction: {:?}", local_direction);
         let local_extreme_point = self.extreme_point(local_direction);
         trace!("local_extreme_point: {:?}", local_extreme_point);
diff --git a/src/col2d/shape/local_minkowski_diff/mod.rs b/src/col2d/shape/local_minkowski_diff/mod.rs
index 2230ebf..f80141c 100644
--- a/src/col2d/shape/local_minkowski_diff/mod.rs
+++ b/src/col2d/shape/local_minkowski_diff/mod.rs
@@ -49,7 +49,7 @@ where
         trace!("direction: {}", direction);
         let a_point = self.a.extreme_point(direction);
         trace!("a_point: {}", a_point);
-        let b_direction = self.rel.unapply_normal(-direction);
+        let b_direction = self.rel.unapply_extreme_direction(-direction);
         trace!("b_direction: {}", b_direction);
         let b_point = self.rel.apply(self.b.extreme_point(b_direction));
         trace!("b_point: {}", b_point);
diff --git a/src/col2d/transformation2d/bevy_transform.rs b/src/col2d/transformation2d/bevy_transform.rs
index 90590ea..f7d3648 100644
--- a/src/col2d/transformation2d/bevy_transform.rs
+++ b/src/col2d/transformation2d/bevy_transform.rs
@@ -35,6 +35,10 @@ impl Transformation2d for bevy::prelude::Transform {
         Into::<Transform2d>::into(*self).unapply_normal(normal)
     }
 
+    fn unapply_extreme_direction(&self, direction: Vec2) -> Vec2 {
+        Into::<Transform2d>::into(*self).unapply_extreme_direction(direction)
+    }
+
     fn scaling_factor(&self) -> f32 {
         Into::<Transform2d>::into(*self).scaling_factor()
     }
diff --git a/src/col2d/transformation2d/mod.rs b/src/col2d/transformation2d/mod.rs
index 47b5fde..82281cc 100644
--- a/src/col2d/transformation2d/mod.rs
+++ b/src/col2d/transformation2d/mod.rs
@@ -36,6 +36,13 @@ pub trait Transformation2d {
     /// Inverse transform direction.
     fn unapply_normal(&self, normal: Vec2) -> Vec2;
 
+    /// Local direction in which a transformed shape's extreme point along
+    /// `direction` is to be looked for. Differs from [Self::unapply_normal]
+    /// when the transformation scales its axes differently.
+    fn unapply_extreme_direction(&self, direction: Vec2) -> Vec2 {
+        self.unapply_normal(direction)
+    }
+
     /// Get the scaling factor of the transformation.
     fn scaling_factor(&self) -> f32;
 }
diff --git a/src/col2d/transformation2d/transform2d.rs b/src/col2d/transformation2d/transform2d.rs
index 18f7b10..b0652e1 100644
--- a/src/col2d/transformation2d/transform2d.rs
+++ b/src/col2d/transformation2d/transform2d.rs
@@ -42,6 +42,10 @@ impl Transformation2d for Transform2d {
         self.rot.inverse() * normal
     }
 
+    fn unapply_extreme_direction(&self, direction: Vec2) -> Vec2 {
+        self.scale * (self.rot.inverse() * direction)
+    }
+
     fn scaling_factor(&self) -> f32 {
         self.scale.x.max(self.scale.y)
     }
-- 
2.43.0


From c53be59ab3b8ae75b5014774811b470fa33a8217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:32 +0000
Subject: [PATCH 11/22] fix: compare vectors far from unit scale in double
 precision in approx_eq

---
 src/utils/approx.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/utils/approx.rs b/src/utils/approx.rs
index 9408596..9cd6b5d 100644
--- a/src/utils/approx.rs
+++ b/src/utils/approx.rs
@@ -42,7 +42,11 @@ impl Approx for Vec2 {
             return false;
         }
 
-        let magn_sq = self.length_squared().max(other.length_squared());
+        // squares of components far from unit scale only fit in double precision
+        let magn_sq = self
+            .as_dvec2()
+            .length_squared()
+            .max(other.as_dvec2().length_squared());
         if magn_sq == 0.0 {
             return true;
         }
@@ -52,6 +56,8 @@ impl Approx for Vec2 {
             return self == other;
         }
 
+        let error = error.as_dvec2();
+        let tolerance = tolerance as f64;
         let error_sq = error.length_squared();
         let relative_error_sq = error_sq / magn_sq;
 
@@ -79,7 +85,11 @@ impl Approx for Vec3 {
             return false;
         }
 
-        let magn_sq = self.length_squared().max(other.length_squared());
+        // squares of components far from unit scale only fit in double precision
+        let magn_sq = self
+            .as_dvec3()
+            .length_squared()
+            .max(other.as_dvec3().length_squared());
         if magn_sq == 0.0 {
             return true;
         }
@@ -89,6 +99,8 @@ impl Approx for Vec3 {
             return self == other;
         }
 
+        let error = error.as_dvec3();
+        let tolerance = tolerance as f64;
         let error_sq = error.length_squared();
         let relative_error_sq = error_sq / magn_sq;
 
-- 
2.43.0


From 4c688bd91fb746d8d9f30959d32ce8517ed28d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:05 +0000
Subject: [PATCH 12/22] fix: mirroring placements (negative scale) look up
 extreme points on the right side and report a positive scaling factor

---
 src/col2d/transformation2d/axis_transform2d.rs | 6 +++++-
 src/col2d/transformation2d/transform2d.rs      | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/col2d/transformation2d/axis_transform2d.rs b/src/col2d/transformation2d/axis_transform2d.rs
index 2012b0f..75a2ec6 100644
--- a/src/col2d/transformation2d/axis_transform2d.rs
+++ b/src/col2d/transformation2d/axis_transform2d.rs
@@ -33,8 +33,12 @@ impl Transformation2d for AxisTransform2d {
         normal
     }
 
+    fn unapply_extreme_direction(&self, direction: Vec2) -> Vec2 {
+        self.scale * direction
+    }
+
     fn scaling_factor(&self) -> f32  {
-        self.scale
+        self.scale.abs()
     }
 }
 
diff --git a/src/col2d/transformation2d/transform2d.rs b/src/col2d/transformation2d/transform2d.rs
index b0652e1..2ed876f 100644
--- a/src/col2d/transformation2d/transform2d.rs
+++ b/src/col2d/transformation2d/transform2d.rs
@@ -47,7 +47,7 @@ impl Transformation2d for Transform2d {
     }
 
     fn scaling_factor(&self) -> f32 {
-        self.scale.x.max(self.scale.y)
+        self.scale.x.abs().max(self.scale.y.abs())
     }
 }
 
-- 
2.43.0


From b615b3bade23d09710c1748b6445a81042b154ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:26 +0000
Subject: [PATCH 13/22] fix: the penetration estimate of an unfinished
 expansion separates the shapes

When the expansion ran out of iterations the distance to the closest edge was
reported although the difference reaches beyond that edge, so the shapes stayed
overlapped (a regular octagon inside a concentric 16-gon kept a tenth of a unit).
---
 src/col2d/shape/local_minkowski_diff/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/col2d/shape/local_minkowski_diff/mod.rs b/src/col2d/shape/local_minkowski_diff/mod.rs
index f80141c..238e1fa 100644
--- a/src/col2d/shape/local_minkowski_diff/mod.rs
+++ b/src/col2d/shape/local_minkowski_diff/mod.rs
@@ -110,10 +110,12 @@ impl EpaPoly2d {
 
         warn!("EPA did not converge in {} iterations", iteration_limit);
 
-        // Use the closest edge found so far as the best estimate.
+        // Use the closest edge found so far as the best estimate. Going by the farthest point
+        // along its normal makes sure that the shapes get separated.
         let (_, a, b) = self.find_closest_edge();
         let normal = (b - a).perp_right();
-        normal * (-a.dot(normal) / normal.dot(normal))
+        let fitness = diff.extreme_point(normal).dot(normal);
+        normal * (-fitness / normal.dot(normal))
     }
 
     fn find_closest_edge(&self) -> (usize, Vec2, Vec2) {
-- 
2.43.0


From 3a29d45696b6a44c66e2d9cb43b6ef880999fe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:18 +0000
Subject: [PATCH 14/22] fix: strict_check rejects polygons that do not strictly
 contain the origin

---
 src/col2d/shape/poly2d/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/col2d/shape/poly2d/mod.rs b/src/col2d/shape/poly2d/mod.rs
index 81f313b..8d70c16 100644
--- a/src/col2d/shape/poly2d/mod.rs
+++ b/src/col2d/shape/poly2d/mod.rs
@@ -50,7 +50,18 @@ impl Poly2d {
     /// This is a strict check, meaning that the origin must be strictly contained within the
     /// polygon to pass.
     pub fn strict_check(&self) -> bool {
-        self.points.iter().all(|&p| self.extreme_point(p) == p)
+        !self.points.is_empty()
+            && self
+                .points
+                .iter()
+                .all(|&p| self.extreme_point(p) == p && self.has_points_on_both_sides_of(p))
+    }
+
+    /// Whether there are points strictly to the left and strictly to the right of `direction`.
+    /// The polygon strictly contains the origin when this holds in the direction of each point.
+    fn has_points_on_both_sides_of(&self, direction: Vec2) -> bool {
+        let mut sides = self.points.iter().map(|&p| direction.perp_dot(p));
+        sides.clone().any(|side| side > 0.0) && sides.any(|side| side < 0.0)
     }
 }
 
-- 
2.43.0


From 4b8123ef539186e00ed1047abf90a716683b5cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:45 +0000
Subject: [PATCH 15/22] fix: search directions of small shapes count as long as
 they do not vanish

---
 src/col2d/shape/local_minkowski_diff/v.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/col2d/shape/local_minkowski_diff/v.rs b/src/col2d/shape/local_minkowski_diff/v.rs
index 2b653c4..3e8ed98 100644
--- a/src/col2d/shape/local_minkowski_diff/v.rs
+++ b/src/col2d/shape/local_minkowski_diff/v.rs
@@ -262,5 +262,6 @@ where
 }
 
 fn direction_is_too_small(direction: Vec2) -> bool {
-    direction.length_squared() < f32::EPSILON * f32::EPSILON
+    // Directions shrink with the cube of the size of the shapes, so only those that vanish count.
+    direction.length_squared() < f32::MIN_POSITIVE
 }
-- 
2.43.0


From 61b0c198262f61b88cfcf2ea202a7f282ad4933f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:11 +0000
Subject: [PATCH 16/22] fix: the 3d feature compiles

Two leftover Minkowski impls are guarded like the others, and the module file
that does not exist (the impls live in col/bevy_transform.rs) is not named.
---
 src/col3d/shape/box3d.rs          | 2 ++
 src/col3d/transformation3d/mod.rs | 5 -----
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/col3d/shape/box3d.rs b/src/col3d/shape/box3d.rs
index 5c6ed54..8c6f221 100644
--- a/src/col3d/shape/box3d.rs
+++ b/src/col3d/shape/box3d.rs
@@ -50,8 +50,10 @@ impl ExtremePoint3d for Box3d {
     }
 }
 
+#[cfg(minkowski)]
 impl MinkowskiNegationIsIdentity for Box3d {}
 
+#[cfg(minkowski)]
 impl MinkowskiSum<Box3d> for Box3d {
     type Output = Self;
 
diff --git a/src/col3d/transformation3d/mod.rs b/src/col3d/transformation3d/mod.rs
index 24e4187..58af66c 100644
--- a/src/col3d/transformation3d/mod.rs
+++ b/src/col3d/transformation3d/mod.rs
@@ -10,8 +10,3 @@ pub use isotropic3d::*;
 pub use transform3d::*;
 pub use translate3d::*;
 
-#[cfg(feature = "bevy")]
-mod bevy_transform;
-#[cfg(feature = "bevy")]
-pub use bevy_transform::*;
-
-- 
2.43.0


From addd65935248b308636e3a44f0dd0c7d93b34be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:11 +0000
Subject: [PATCH 17/22] fix: covering a point grows a 3D box along the third
 axis, too

---
 src/col3d/shape/box3d.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/col3d/shape/box3d.rs b/src/col3d/shape/box3d.rs
index 8c6f221..f0469a4 100644
--- a/src/col3d/shape/box3d.rs
+++ b/src/col3d/shape/box3d.rs
@@ -17,8 +17,10 @@ impl Box3d {
     pub fn cover(&mut self, point: &Vec3) {
         let x = point.x.abs();
         let y = point.y.abs();
+        let z = point.z.abs();
         self.halfsize.x = self.halfsize.x.max(x);
         self.halfsize.y = self.halfsize.y.max(y);
+        self.halfsize.z = self.halfsize.z.max(z);
     }
 }
 
-- 
2.43.0


From 37be5e89efbb2cee6c5dfc547e00ef5033e31f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:11 +0000
Subject: [PATCH 18/22] fix: scalar signed distance of a point above or below a
 3D box

---
 src/col3d/shape/box3d.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/col3d/shape/box3d.rs b/src/col3d/shape/box3d.rs
index f0469a4..5672889 100644
--- a/src/col3d/shape/box3d.rs
+++ b/src/col3d/shape/box3d.rs
@@ -128,7 +128,9 @@ impl SdfRel3d<Point> for Box3d {
                     Vec2::new(delta_x, delta_y).length()
                 }
             } else {
-                if delta_x < 0.0 {
+                if delta_x < 0.0 && delta_y < 0.0 {
+                    delta_z
+                } else if delta_x < 0.0 {
                     Vec2::new(delta_z, delta_y).length()
                 } else if delta_y < 0.0 {
                     Vec2::new(delta_z, delta_x).length()
-- 
2.43.0


From a90f465c45744cbfa5c6abc3ca5667092ea14036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:11 +0000
Subject: [PATCH 19/22] fix: the inverse of a 3D axis transform scales its
 translation

---
 src/col3d/transformation3d/axis_transform3d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/col3d/transformation3d/axis_transform3d.rs b/src/col3d/transformation3d/axis_transform3d.rs
index 7b4a560..22f23fa 100644
--- a/src/col3d/transformation3d/axis_transform3d.rs
+++ b/src/col3d/transformation3d/axis_transform3d.rs
@@ -29,7 +29,7 @@ impl Transformation3d for AxisTransform3d {
 impl Invertible for AxisTransform3d {
     fn inverse(&self) -> Self {
         Self {
-            pos: -self.pos,
+            pos: self.unapply(Vec3::ZERO),
             scale: 1.0 / self.scale,
         }
     }
-- 
2.43.0


From 9a2580f067d71c31da016929bc52ce16417ffaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:59 +0000
Subject: [PATCH 20/22] fix: a point against a turned 3D shape is asked in the
 shape's own axes

---
 src/col3d/default_impls.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/col3d/default_impls.rs b/src/col3d/default_impls.rs
index 234d8cb..3daa468 100644
--- a/src/col3d/default_impls.rs
+++ b/src/col3d/default_impls.rs
@@ -10,7 +10,7 @@ where
     A: CollidesRel3d<Point>,
 {
     fn collides_rel(&self, other: &A, rel: &impl Transformation3d) -> bool {
-        other.collides_rel(&Point, rel)
+        other.collides_rel(&Point, &rel.unapply_origin())
     }
 }
 
@@ -32,7 +32,9 @@ where
     A: PenetratesRel3d<Point>,
 {
     fn penetrates_rel(&self, other: &A, rel: &impl Transformation3d) -> Option<Vec3> {
-        other.penetrates_rel(&Point, rel) // .map(|v| -v)
+        other
+            .penetrates_rel(&Point, &rel.unapply_origin())
+            .map(|v| rel.apply_origin() - rel.apply(v))
     }
 }
 
@@ -66,7 +68,7 @@ where
     A: SdfRel3d<Point>,
 {
     fn sdf_rel(&self, t: &A, rel: &impl Transformation3d) -> f32 {
-        t.sdf_rel(&Point, rel)
+        t.sdf_rel(&Point, &rel.unapply_origin())
     }
 }
 
@@ -88,6 +90,6 @@ where
     A: SdfvRel3d<Point>,
 {
     fn sdfv_rel(&self, t: &A, rel: &impl Transformation3d) -> Vec3 {
-        t.sdfv_rel(&Point, rel)
+        rel.apply_origin() - rel.apply(t.sdfv_rel(&Point, &rel.unapply_origin()))
     }
 }
-- 
2.43.0


From 893d4b08d9ecb85508c010c4270fe47760d2dcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:31 +0000
Subject: [PATCH 21/22] fix: the search between small shapes starts towards the
 other one, too

The starting direction was replaced by the X axis below a fixed length, so
scenes of small shapes found other, longer, separations than the same scene
at another size. Only a direction that vanishes needs replacing.
---
 src/col2d/shape/local_minkowski_diff/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/col2d/shape/local_minkowski_diff/mod.rs b/src/col2d/shape/local_minkowski_diff/mod.rs
index 238e1fa..69d2fb5 100644
--- a/src/col2d/shape/local_minkowski_diff/mod.rs
+++ b/src/col2d/shape/local_minkowski_diff/mod.rs
@@ -27,7 +27,7 @@ where
 
     pub fn initial_direction(&self) -> Vec2 {
         let direction = self.rel.apply_origin();
-        if direction.length_squared() < f32::EPSILON {
+        if direction.length_squared() < f32::MIN_POSITIVE {
             Vec2::new(1.0, 0.0)
         } else {
             direction
-- 
2.43.0


From 4eb90fcc8904f4ba127265b1c12a9178106d6f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:04 +0000
Subject: [PATCH 22/22] fix: penetration of a point near the centre of a 3D
 ball

Below a fixed distance from the centre the vector went along the X axis with
the length of the radius, which is wrong for small balls. Only the centre
itself has no direction.
---
 src/col3d/shape/ball3d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/col3d/shape/ball3d.rs b/src/col3d/shape/ball3d.rs
index 46f4881..4b14326 100644
--- a/src/col3d/shape/ball3d.rs
+++ b/src/col3d/shape/ball3d.rs
@@ -31,7 +31,7 @@ impl PenetratesRel3d<Point> for Ball {
         if self.collides_rel(t, rel) {
             let delta = rel.apply_origin();
             let distance_to_center = delta.length();
-            if distance_to_center < f32::EPSILON {
+            if distance_to_center == 0.0 {
                 Some(Vec3::new(self.radius, 0.0, 0.0))
             } else {
                 let old_magn = distance_to_center;
-- 
2.43.0

