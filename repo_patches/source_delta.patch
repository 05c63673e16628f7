From 7643bc462ee6dcc96cb451b8517692a3b299e6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:36 +0000
Subject: [PATCH 01/13] fix: collect all hazards of a quadtree node, not only
 the strongest one

---
 .../collision_detection/quadtree/qt_node.rs   | 48 ++++++++-----------
 1 file changed, 21 insertions(+), 27 deletions(-)

diff --git a/jagua-rs/src/collision_detection/quadtree/qt_node.rs b/jagua-rs/src/collision_detection/quadtree/qt_node.rs
index 5a15332..d296aee 100644
--- a/jagua-rs/src/collision_detection/quadtree/qt_node.rs
+++ b/jagua-rs/src/collision_detection/quadtree/qt_node.rs
@@ -182,37 +182,31 @@ impl QTNode {
     {
         match self.hazards.strongest(detected) {
             None => (),
-            Some(strongest_hazard) => match entity.collides_with(&self.bbox) {
+            Some(_) => match entity.collides_with(&self.bbox) {
                 false => (),
-                true => match strongest_hazard.presence {
-                    QTHazPresence::None => (),
-                    QTHazPresence::Entire => detected.push(strongest_hazard.entity),
-                    QTHazPresence::Partial(_) => match &self.children {
-                        Some(children) => {
-                            //Check if any of the children intersect with the entity
-                            children
-                                .iter()
-                                .for_each(|child| child.collect_collisions(entity, detected))
-                        }
-                        None => {
-                            //Check if any of the partially present (and active) hazards collide with the entity
-                            self.hazards.active_hazards().iter().for_each(|hz| {
-                                if !detected.contains(&hz.entity) {
-                                    match &hz.presence {
-                                        QTHazPresence::None => (),
-                                        QTHazPresence::Entire => {
-                                            unreachable!("should have been handled above")
-                                        }
-                                        QTHazPresence::Partial(p_haz) => {
-                                            if p_haz.collides_with(entity) {
-                                                detected.push(hz.entity);
-                                            }
+                true => match &self.children {
+                    Some(children) => {
+                        //Check if any of the children intersect with the entity
+                        children
+                            .iter()
+                            .for_each(|child| child.collect_collisions(entity, detected))
+                    }
+                    None => {
+                        //Check all of the (active) hazards present in this node
+                        self.hazards.active_hazards().iter().for_each(|hz| {
+                            if !detected.contains(&hz.entity) {
+                                match &hz.presence {
+                                    QTHazPresence::None => (),
+                                    QTHazPresence::Entire => detected.push(hz.entity),
+                                    QTHazPresence::Partial(p_haz) => {
+                                        if p_haz.collides_with(entity) {
+                                            detected.push(hz.entity);
                                         }
                                     }
                                 }
-                            })
-                        }
-                    },
+                            }
+                        })
+                    }
                 },
             },
         }
-- 
2.43.0


From 9e1623c5f0a7cbef875fc949bf8eb62743e55253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:33 +0000
Subject: [PATCH 02/13] fix: square the interior distance in
 AARectangle::sq_distance_from_border

---
 jagua-rs/src/geometry/primitives/aa_rectangle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jagua-rs/src/geometry/primitives/aa_rectangle.rs b/jagua-rs/src/geometry/primitives/aa_rectangle.rs
index f0da1ee..105e423 100644
--- a/jagua-rs/src/geometry/primitives/aa_rectangle.rs
+++ b/jagua-rs/src/geometry/primitives/aa_rectangle.rs
@@ -323,7 +323,7 @@ impl DistanceFrom<Point> for AARectangle {
                 .into_iter()
                 .min_by_key(|&d| OrderedFloat(d))
                 .unwrap();
-                (GeoPosition::Interior, min_distance)
+                (GeoPosition::Interior, min_distance.powi(2))
             }
         }
     }
-- 
2.43.0


From e2271f310109046c8c1866048fbe274a90109666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:49 +0000
Subject: [PATCH 03/13] fix: break ties by y when sorting points for the convex
 hull

---
 jagua-rs/src/geometry/convex_hull.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/jagua-rs/src/geometry/convex_hull.rs b/jagua-rs/src/geometry/convex_hull.rs
index 86f8bab..98be5be 100644
--- a/jagua-rs/src/geometry/convex_hull.rs
+++ b/jagua-rs/src/geometry/convex_hull.rs
@@ -31,11 +31,8 @@ pub fn convex_hull_from_shapes<'a>(
 pub fn convex_hull_from_points(mut points: Vec<Point>) -> Vec<Point> {
     //https://en.wikibooks.org/wiki/Algorithm_Implementation/Geometry/Convex_hull/Monotone_chain
 
-    //sort the points by x coordinate
-    points.sort_by(|a, b| {
-        let (a_x, b_x) = (a.0, b.0);
-        a_x.partial_cmp(&b_x).unwrap()
-    });
+    //sort the points by x coordinate, ties are broken by the y coordinate
+    points.sort_by(|a, b| (a.0, a.1).partial_cmp(&(b.0, b.1)).unwrap());
 
     let mut lower_hull = points
         .iter()
-- 
2.43.0


From e542afd99082894295f2c13431d6bc6b4946651c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:49 +0000
Subject: [PATCH 04/13] fix: handle circles that contain the current bounding
 circle in Circle::bounding_circle

---
 jagua-rs/src/geometry/primitives/circle.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jagua-rs/src/geometry/primitives/circle.rs b/jagua-rs/src/geometry/primitives/circle.rs
index 3c79578..79b6f01 100644
--- a/jagua-rs/src/geometry/primitives/circle.rs
+++ b/jagua-rs/src/geometry/primitives/circle.rs
@@ -40,7 +40,10 @@ impl Circle {
 
         for circle in circles {
             let distance_between_centers = bounding_circle.center.distance(circle.center);
-            if bounding_circle.radius < distance_between_centers + circle.radius {
+            if circle.radius >= distance_between_centers + bounding_circle.radius {
+                // bounding circle is contained in the circle, replace it
+                bounding_circle = circle.clone();
+            } else if bounding_circle.radius < distance_between_centers + circle.radius {
                 // circle not contained in bounding circle, expand
                 let diameter = Edge::new(bounding_circle.center, circle.center)
                     .extend_at_front(bounding_circle.radius)
-- 
2.43.0


From 7a7113f89cf77671ce054db1512ac1bbb6682b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:17 +0000
Subject: [PATCH 05/13] fix: return a template placing option when removing the
 last item of a layout

The layout itself is removed together with its last item, so an option that
refers to its former index would put the item back in a different layout (or
in none at all).
---
 jagua-rs/src/entities/problems/bin_packing.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/jagua-rs/src/entities/problems/bin_packing.rs b/jagua-rs/src/entities/problems/bin_packing.rs
index 2b26a5c..7ebb724 100644
--- a/jagua-rs/src/entities/problems/bin_packing.rs
+++ b/jagua-rs/src/entities/problems/bin_packing.rs
@@ -148,12 +148,17 @@ impl ProblemGeneric for BPProblem {
                 self.layout_has_changed(self.layouts[i].id());
                 let layout = &mut self.layouts[i];
                 let pi = layout.remove_item(pik, commit_instantly);
-                if layout.is_empty() {
-                    //if layout is empty, remove it
-                    self.deregister_layout(layout_index);
-                }
+                let reinsert_index = match layout.is_empty() {
+                    true => {
+                        //if layout is empty, remove it
+                        let template_index = LayoutIndex::Template(layout.bin.id);
+                        self.deregister_layout(layout_index);
+                        template_index
+                    }
+                    false => layout_index,
+                };
                 self.deregister_included_item(pi.item_id);
-                PlacingOption::from_placed_item(layout_index, &pi)
+                PlacingOption::from_placed_item(reinsert_index, &pi)
             }
             LayoutIndex::Template(_) => panic!("cannot remove item from template layout"),
         }
-- 
2.43.0


From a03ceb32ce57f23f55af27291aa94fc748ea52f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:58 +0000
Subject: [PATCH 06/13] fix: report a usage of zero instead of NaN for a
 problem without layouts

---
 jagua-rs/src/entities/problems/problem_generic.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jagua-rs/src/entities/problems/problem_generic.rs b/jagua-rs/src/entities/problems/problem_generic.rs
index 68f7d92..ed25f2a 100644
--- a/jagua-rs/src/entities/problems/problem_generic.rs
+++ b/jagua-rs/src/entities/problems/problem_generic.rs
@@ -57,7 +57,10 @@ pub trait ProblemGeneric: ProblemGenericPrivate {
                 let used_area = bin_area * l.usage();
                 (acc.0 + bin_area, acc.1 + used_area)
             });
-        total_used_area / total_bin_area
+        match total_bin_area > 0.0 {
+            true => total_used_area / total_bin_area,
+            false => 0.0, //no layouts, nothing is used
+        }
     }
 
     fn used_bin_cost(&self) -> u64 {
-- 
2.43.0


From 335fc4ae6d52b85afffd37f63162d859e81c8797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:58 +0000
Subject: [PATCH 07/13] fix: restore negative missing item quantities without
 underflow

More items than demanded can be placed, the missing quantity is signed for
that reason. Restoring such a solution subtracted unsigned quantities.
---
 jagua-rs/src/entities/problems/bin_packing.rs   | 3 ++-
 jagua-rs/src/entities/problems/strip_packing.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/jagua-rs/src/entities/problems/bin_packing.rs b/jagua-rs/src/entities/problems/bin_packing.rs
index 7ebb724..5688b2b 100644
--- a/jagua-rs/src/entities/problems/bin_packing.rs
+++ b/jagua-rs/src/entities/problems/bin_packing.rs
@@ -292,7 +292,8 @@ impl ProblemGeneric for BPProblem {
             .iter_mut()
             .enumerate()
             .for_each(|(i, missing_qty)| {
-                *missing_qty = (self.instance.item_qty(i) - solution.placed_item_qtys[i]) as isize
+                *missing_qty = self.instance.item_qty(i) as isize
+                    - solution.placed_item_qtys[i] as isize
             });
 
         self.bin_qtys.clone_from_slice(&solution.bin_qtys);
diff --git a/jagua-rs/src/entities/problems/strip_packing.rs b/jagua-rs/src/entities/problems/strip_packing.rs
index f941a91..5a07574 100644
--- a/jagua-rs/src/entities/problems/strip_packing.rs
+++ b/jagua-rs/src/entities/problems/strip_packing.rs
@@ -247,7 +247,8 @@ impl ProblemGeneric for SPProblem {
             .iter_mut()
             .enumerate()
             .for_each(|(i, qty)| {
-                *qty = (self.instance.item_qty(i) - solution.placed_item_qtys[i]) as isize
+                *qty = self.instance.item_qty(i) as isize
+                    - solution.placed_item_qtys[i] as isize
             });
 
         debug_assert!(assertions::problem_matches_solution(self, solution));
-- 
2.43.0


From 0d6cc1cb4d14d91b285a6bc6eb557de8447480ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:58 +0000
Subject: [PATCH 08/13] fix: leave an empty strip as it is when fitting it

The fitted strip would have a width of zero, which panics.
---
 jagua-rs/src/entities/problems/strip_packing.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jagua-rs/src/entities/problems/strip_packing.rs b/jagua-rs/src/entities/problems/strip_packing.rs
index 5a07574..e5f05b9 100644
--- a/jagua-rs/src/entities/problems/strip_packing.rs
+++ b/jagua-rs/src/entities/problems/strip_packing.rs
@@ -146,6 +146,9 @@ impl SPProblem {
     /// Shrinks the strip to the minimum width that fits all items.
     pub fn fit_strip(&mut self) {
         let n_items_in_old_strip = self.layout.placed_items().len();
+        if n_items_in_old_strip == 0 {
+            return; //nothing to fit the strip to
+        }
 
         let fitted_width = self.occupied_width() * (1.0 + FPA::tolerance()); //add some tolerance to avoid rounding errors or false collision positives
         self.modify_strip_centered(fitted_width);
-- 
2.43.0


From 0fbbb3da02e984b4ff456bebb09e3aff9947f3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:16 +0000
Subject: [PATCH 09/13] fix: restore the bin of a layout snapshot after the bin
 was changed

---
 jagua-rs/src/entities/layout.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jagua-rs/src/entities/layout.rs b/jagua-rs/src/entities/layout.rs
index 22dbfd3..3b951f1 100644
--- a/jagua-rs/src/entities/layout.rs
+++ b/jagua-rs/src/entities/layout.rs
@@ -8,6 +8,7 @@ use crate::geometry::d_transformation::DTransformation;
 use crate::geometry::geo_traits::Shape;
 use crate::util::assertions;
 use slotmap::SlotMap;
+use std::sync::Arc;
 
 ///A Layout is made out of a [Bin] with a set of [Item]s positioned inside of it in a specific way.
 ///It is a mutable representation, and can be modified by placing or removing items.
@@ -67,6 +68,11 @@ impl Layout {
     pub fn restore(&mut self, layout_snapshot: &LayoutSnapshot) {
         assert_eq!(self.id, layout_snapshot.id);
 
+        if !Arc::ptr_eq(&self.bin.base_cde, &layout_snapshot.bin.base_cde) {
+            //the bin was changed since the snapshot was taken
+            self.bin = layout_snapshot.bin.clone();
+            self.cde = self.bin.base_cde.as_ref().clone();
+        }
         self.placed_items = layout_snapshot.placed_items.clone();
         self.cde.restore(&layout_snapshot.cde_snapshot);
 
-- 
2.43.0


From f9f7149837624541db73ce1c5d15fdb23a567ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:18 +0000
Subject: [PATCH 10/13] fix: take the cost of a bin from the instance instead
 of its area

---
 jagua-rs/src/io/parser.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/jagua-rs/src/io/parser.rs b/jagua-rs/src/io/parser.rs
index 71b15c1..3c99782 100644
--- a/jagua-rs/src/io/parser.rs
+++ b/jagua-rs/src/io/parser.rs
@@ -14,7 +14,6 @@ use crate::entities::problems::strip_packing::SPProblem;
 use crate::entities::quality_zone::InferiorQualityZone;
 use crate::entities::quality_zone::N_QUALITIES;
 use crate::entities::solution::Solution;
-use crate::fsize;
 use crate::geometry::d_transformation::DTransformation;
 use crate::geometry::geo_enums::AllowedRotation;
 use crate::geometry::geo_traits::{Shape, Transformable};
@@ -201,9 +200,6 @@ impl Parser {
             }
         };
 
-        let material_value =
-            (bin_outer.area() - bin_holes.iter().map(|hole| hole.area()).sum::<fsize>()) as u64;
-
         assert!(
             json_bin.zones.iter().all(|zone| zone.quality < N_QUALITIES),
             "Quality must be less than N_QUALITIES"
@@ -239,7 +235,7 @@ impl Parser {
         let base_bin = Bin::new(
             bin_id,
             bin_outer,
-            material_value,
+            json_bin.cost,
             Transformation::empty(),
             bin_holes,
             quality_zones,
-- 
2.43.0


From 55a6b0c97eb501cced18bb60abdf5b02e53bf113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:04 +0000
Subject: [PATCH 11/13] fix: generate the piers of a shape around its centroid

The rays were spread over the bounding box in absolute coordinates and rotated
around the origin, on top of an offset by the centroid. For a shape that is not
centered at the origin they miss it (panic "No ray found") or start inside of it
(failed assertion in clip).
---
 jagua-rs/src/geometry/fail_fast/piers.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/jagua-rs/src/geometry/fail_fast/piers.rs b/jagua-rs/src/geometry/fail_fast/piers.rs
index d2669ad..f51be08 100644
--- a/jagua-rs/src/geometry/fail_fast/piers.rs
+++ b/jagua-rs/src/geometry/fail_fast/piers.rs
@@ -27,13 +27,14 @@ pub fn generate(shape: &SimplePolygon, n: usize, poles: &[Circle]) -> Vec<Edge>
     let bbox = shape.bbox();
     let expanded_bbox = bbox.clone().inflate_to_square();
     let centroid = shape.centroid();
-    //vertical ray from the centroid
+    //vertical ray through the origin
     let base_ray = Edge::new(
-        Point(centroid.0, centroid.1 - 2.0 * expanded_bbox.height()),
-        Point(centroid.0, centroid.1 + 2.0 * expanded_bbox.height()),
+        Point(0.0, -2.0 * expanded_bbox.height()),
+        Point(0.0, 2.0 * expanded_bbox.height()),
     );
 
-    let transformations = generate_ray_transformations(&expanded_bbox, RAYS_PER_ANGLE, N_ANGLES);
+    let transformations =
+        generate_ray_transformations(&expanded_bbox, centroid, RAYS_PER_ANGLE, N_ANGLES);
 
     //transform the base edge by each transformation
     let rays = transformations
@@ -90,27 +91,28 @@ pub fn generate(shape: &SimplePolygon, n: usize, poles: &[Circle]) -> Vec<Edge>
 
 fn generate_ray_transformations(
     bbox: &AARectangle,
+    centroid: Point,
     rays_per_angle: usize,
     n_angles: usize,
 ) -> Vec<Transformation> {
-    //translations
+    //translations, relative to the centroid
     let dx = bbox.width() / rays_per_angle as fsize;
     let translations = (0..rays_per_angle)
-        .map(|i| bbox.x_min + dx * i as fsize)
+        .map(|i| bbox.x_min - centroid.0 + dx * i as fsize)
         .map(|x| Transformation::from_translation((x, 0.0)))
         .collect_vec();
 
     let angles = Array::linspace(0.0, fsize::PI(), n_angles + 1).to_vec();
     let angles_slice = &angles[0..n_angles]; //skip the last angle, which is the same as the first
 
-    //rotate the translations by each angle
+    //rotate the translations by each angle (around the centroid)
     angles_slice
         .iter()
         .flat_map(|angle| {
             translations
                 .iter()
                 .cloned()
-                .map(move |translation| translation.rotate(*angle))
+                .map(move |translation| translation.rotate(*angle).translate(centroid.into()))
         })
         .collect_vec()
 }
-- 
2.43.0


From 94b1a0042839716eab72b91caf9aefeae52b234b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:23 +0000
Subject: [PATCH 12/13] fix: keep only clipped rays inside the shape as piers

Every second pair of intersections was taken to lie inside the shape. A ray through
a vertex can intersect both edges there, so that from then on the pairs lie in the
gaps of a concave shape: the pier is outside of the shape and rejects feasible
placements.
---
 jagua-rs/src/geometry/fail_fast/piers.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/jagua-rs/src/geometry/fail_fast/piers.rs b/jagua-rs/src/geometry/fail_fast/piers.rs
index f51be08..c270053 100644
--- a/jagua-rs/src/geometry/fail_fast/piers.rs
+++ b/jagua-rs/src/geometry/fail_fast/piers.rs
@@ -129,21 +129,14 @@ fn clip(shape: &SimplePolygon, ray: &Edge) -> Vec<Edge> {
         .sorted_by_key(|p| NotNan::new(ray.start.distance(*p)).unwrap())
         .collect_vec();
 
-    //every pair of (sorted) intersections defines a clipped line
+    //every two consecutive intersections define a clipped line, if it lies inside the shape
+    //(a ray through a vertex can hit the shape twice, or not at all, there: their parity tells nothing)
     let clipped_lines = intersections
-        .chunks(2)
-        .flat_map(|pair| {
-            if pair.len() == 1 {
-                return None;
-            }
-            let start = pair[0];
-            let end = pair[1];
-            if start != end {
-                Some(Edge::new(start, end).scale(CLIPPING_TRIM))
-            } else {
-                None
-            }
-        })
+        .iter()
+        .tuple_windows()
+        .filter(|(start, end)| start != end)
+        .map(|(start, end)| Edge::new(*start, *end).scale(CLIPPING_TRIM))
+        .filter(|line| shape.collides_with(&line.centroid()))
         .collect_vec();
 
     clipped_lines
-- 
2.43.0


From a679fc02cd9503e7a962d6f16232814232c14fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:34 +0000
Subject: [PATCH 13/13] fix: report the bin exterior for entities outside the
 quadtree when the buffer is not empty

---
 jagua-rs/src/collision_detection/cd_engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jagua-rs/src/collision_detection/cd_engine.rs b/jagua-rs/src/collision_detection/cd_engine.rs
index 0387665..394d88e 100644
--- a/jagua-rs/src/collision_detection/cd_engine.rs
+++ b/jagua-rs/src/collision_detection/cd_engine.rs
@@ -473,7 +473,7 @@ impl CDEngine {
 
         //Check if the shape is outside the quadtree
         let centroid_in_qt = self.bbox.collides_with(&entity.centroid());
-        if !centroid_in_qt && detected.is_empty() {
+        if !centroid_in_qt && !detected.contains(&HazardEntity::BinExterior) {
             // The shape centroid is outside the quadtree
             if !irrelevant_hazards.contains(&HazardEntity::BinExterior) {
                 //Add the bin as a hazard, unless it is ignored
-- 
2.43.0

