From fb6c649960a591f9d7f3e3123d8ccdf6c21ec6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 01/18] fix: a plain axis move on a big cube turns only the
 outer layer

It was widened to the maximum depth of the cube instead of to depth 0.
---
 barbarosa/src/cube_n/moves/wide.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/barbarosa/src/cube_n/moves/wide.rs b/barbarosa/src/cube_n/moves/wide.rs
index 45ca0bf..aae577e 100644
--- a/barbarosa/src/cube_n/moves/wide.rs
+++ b/barbarosa/src/cube_n/moves/wide.rs
@@ -135,7 +135,7 @@ macro_rules! impl_movable_wide_move_inductively {
     ($cube:ty, $max_width:literal, 0) => {
         impl crate::generic::Movable<crate::cube_n::AxisMove> for $cube {
             fn apply(&mut self, m: &crate::cube_n::AxisMove) {
-                <$cube as crate::generic::Movable<WideAxisMove<$max_width>>>::apply(self, &m.clone().widen($max_width).unwrap());
+                <$cube as crate::generic::Movable<WideAxisMove<$max_width>>>::apply(self, &m.clone().widen(0).unwrap());
             }
         }
     };
-- 
2.43.0


From e40567f2fbda612a5120f55396eae7db4ebf7702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 02/18] fix: center edges follow the depth of a wide move, not
 its maximum depth

---
 barbarosa/src/cube_n/pieces/center/edge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/barbarosa/src/cube_n/pieces/center/edge.rs b/barbarosa/src/cube_n/pieces/center/edge.rs
index ea2e315..25985c9 100644
--- a/barbarosa/src/cube_n/pieces/center/edge.rs
+++ b/barbarosa/src/cube_n/pieces/center/edge.rs
@@ -133,7 +133,7 @@ impl DepthPiece for CenterEdge {
             return true;
         }
 
-        if m.face() == &self.side_face() && normal_depth <= M {
+        if m.face() == &self.side_face() && normal_depth <= m.depth() {
             return true;
         }
 
-- 
2.43.0


From 0c8bf21a60f094c8ba58d99105b6e120587dbd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 03/18] fix: a center corner is only solved on its own face

Only the direction along the axis was compared, so that e.g. a piece of the
R face counted as solved on the U face.
---
 barbarosa/src/cube_n/pieces/center/corner.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/barbarosa/src/cube_n/pieces/center/corner.rs b/barbarosa/src/cube_n/pieces/center/corner.rs
index 836a345..4380183 100644
--- a/barbarosa/src/cube_n/pieces/center/corner.rs
+++ b/barbarosa/src/cube_n/pieces/center/corner.rs
@@ -30,7 +30,7 @@ impl generic::Piece for CenterCorner {
     }
 
     fn is_solved(&self, original_pos: &Self::Position) -> bool {
-        self.position[self.axis] == original_pos.position[original_pos.axis]
+        CenterCorner::is_solved(self, original_pos)
     }
 }
 
@@ -95,7 +95,8 @@ impl CenterCorner {
 
     /// Determines whether the [`CenterCorner`] is solved.
     pub fn is_solved(&self, original: &CenterCorner) -> bool {
-        self.position[self.axis] == original.position[original.axis]
+        self.axis == original.axis
+            && self.position[self.axis] == original.position[original.axis]
     }
 }
 
-- 
2.43.0


From 510ea94a137e4abd42a397fbe91ae4e513679c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 04/18] fix: a 5x5x5 is solved when every face shows one color

Like on the other big cubes, centers of the same color are interchangeable.
---
 barbarosa/src/cube_n/cube5/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/barbarosa/src/cube_n/cube5/mod.rs b/barbarosa/src/cube_n/cube5/mod.rs
index e765cd0..71d3d64 100644
--- a/barbarosa/src/cube_n/cube5/mod.rs
+++ b/barbarosa/src/cube_n/cube5/mod.rs
@@ -34,6 +34,16 @@ impl generic::Cube for Cube5 {
         corner_centers: CenterCornerSet::SOLVED,
         corner_edges: CenterEdgeSet::SOLVED,
     };
+
+    fn is_solved(&self) -> bool
+    where
+        Self: 'static,
+    {
+        self.corners.is_solved()
+            && self.edges.is_solved()
+            && self.corner_centers.is_solved()
+            && self.corner_edges.is_solved()
+    }
 }
 
 impl generic::Movable<WideAxisMove<1>> for Cube5 {
-- 
2.43.0


From c2c0b8e67f955a2c87c5db2c813172a96278e597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 05/18] fix: the 5x5x5 has wings

They were missing, so states that differ in their wings compared equal.
---
 barbarosa/src/cube_n/cube5/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/barbarosa/src/cube_n/cube5/mod.rs b/barbarosa/src/cube_n/cube5/mod.rs
index 71d3d64..cedcbc2 100644
--- a/barbarosa/src/cube_n/cube5/mod.rs
+++ b/barbarosa/src/cube_n/cube5/mod.rs
@@ -8,6 +8,7 @@ use super::{
         center::{corner::CenterCornerSet, edge::CenterEdgeSet},
         corner::CornerSet,
         edge::EdgeSet,
+        wing::WingSet,
     },
     CubeN, WideAxisMove,
 };
@@ -19,6 +20,7 @@ use super::{
 pub struct Cube5 {
     corners: CornerSet,
     edges: EdgeSet,
+    wings: WingSet<1>,
     corner_centers: CenterCornerSet<1>,
     corner_edges: CenterEdgeSet<1>,
 }
@@ -31,6 +33,7 @@ impl generic::Cube for Cube5 {
     const SOLVED: Self = Self {
         corners: CornerSet::SOLVED,
         edges: EdgeSet::SOLVED,
+        wings: WingSet::SOLVED,
         corner_centers: CenterCornerSet::SOLVED,
         corner_edges: CenterEdgeSet::SOLVED,
     };
@@ -41,6 +44,7 @@ impl generic::Cube for Cube5 {
     {
         self.corners.is_solved()
             && self.edges.is_solved()
+            && self.wings.is_solved()
             && self.corner_centers.is_solved()
             && self.corner_edges.is_solved()
     }
@@ -50,6 +54,7 @@ impl generic::Movable<WideAxisMove<1>> for Cube5 {
     fn apply(&mut self, m: &WideAxisMove<1>) {
         self.corners.apply(&m.axis_move);
         self.edges.apply(&m.axis_move);
+        self.wings.apply(m);
         self.corner_centers.apply(m);
         self.corner_edges.apply(m);
     }
-- 
2.43.0


From 39e914267984626d5a9a7d513beaff25772d03d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:02 +0000
Subject: [PATCH 06/18] fix: the rotations of an orientation lead to that
 orientation

For six of the 24 orientations the rotation of the U face was around the wrong
axis or in the wrong direction.
---
 .../src/cube_n/orientable/orientation.rs      | 20 +++++--------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/barbarosa/src/cube_n/orientable/orientation.rs b/barbarosa/src/cube_n/orientable/orientation.rs
index a0d39e0..3e61a81 100644
--- a/barbarosa/src/cube_n/orientable/orientation.rs
+++ b/barbarosa/src/cube_n/orientable/orientation.rs
@@ -43,17 +43,12 @@ fn connecting_rotation_with_face(from: &Face, to: &Face, face: &Face) -> Option<
     debug_assert_ne!(from.axis, face.axis);
     debug_assert_ne!(to.axis, face.axis);
 
-    if from == to {
-        return None;
+    // The rotation between opposite faces could be around two different axes, so `face` has to decide
+    if *to == from.opposite() {
+        return Some(AxisRotation::new(face.axis, Amount::Double));
     }
 
-    let amount = match from.axis.get_handedness(&to.axis) {
-        Ok(Direction::Positive) => Amount::Single,
-        Ok(Direction::Negative) => Amount::Inverse,
-        Err(ParallelAxesError::SameAxis(_)) => Amount::Double,
-    };
-
-    Some(AxisRotation::new(face.axis, amount))
+    connecting_rotation(from, to)
 }
 
 impl Orientation {
@@ -76,12 +71,7 @@ impl Orientation {
             .map(|rot| Face::U.rotated(rot))
             .unwrap_or(Face::U);
 
-        let r_face = r_rot.as_ref().map(|rot| Face::R.rotated(rot));
-
-        let u_rot = match r_face {
-            Some(r_face) => connecting_rotation_with_face(&new_u, &self.u_face(), &r_face),
-            None => connecting_rotation(&new_u, &self.u_face()),
-        };
+        let u_rot = connecting_rotation_with_face(&new_u, &self.u_face(), &self.r_face);
 
         use std::iter::{empty, once};
         use Either::*;
-- 
2.43.0


From f70291633eae3e120697c83d78b4b1b276fffb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 07/18] fix: a move on a rotated cube turns the face that is
 now there

The move was rotated from the default orientation to the current one, instead
of from the current one to the default one. The two only agree for rotations
that are their own inverse.
---
 barbarosa/src/cube_n/orientable/mod.rs         |  6 +-----
 barbarosa/src/cube_n/orientable/orientation.rs | 11 ++++++++++-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/barbarosa/src/cube_n/orientable/mod.rs b/barbarosa/src/cube_n/orientable/mod.rs
index 70fe38a..3f5ba43 100644
--- a/barbarosa/src/cube_n/orientable/mod.rs
+++ b/barbarosa/src/cube_n/orientable/mod.rs
@@ -55,11 +55,7 @@ where
     Orientable<C>: Movable<ExtendedAxisMove>,
 {
     fn apply(&mut self, m: &M) {
-        let mut m = m.clone();
-
-        for rotation in self.orientation.rotations() {
-            m.rotate(&rotation);
-        }
+        let m = self.orientation.to_default(m.clone());
 
         self.base_cube.apply(&m);
     }
diff --git a/barbarosa/src/cube_n/orientable/orientation.rs b/barbarosa/src/cube_n/orientable/orientation.rs
index 3e61a81..c363df5 100644
--- a/barbarosa/src/cube_n/orientable/orientation.rs
+++ b/barbarosa/src/cube_n/orientable/orientation.rs
@@ -64,7 +64,7 @@ impl Orientation {
     }
 
     /// Iterator of rotations that get you from the default orientation to the current one
-    pub fn rotations(&self) -> impl Iterator<Item = AxisRotation> {
+    pub fn rotations(&self) -> impl DoubleEndedIterator<Item = AxisRotation> {
         let r_rot = connecting_rotation(&Face::R, &self.r_face);
         let new_u = r_rot
             .as_ref()
@@ -83,6 +83,15 @@ impl Orientation {
         }
     }
 
+    /// Takes something specified in the current orientation and expresses it in the default one.
+    ///
+    /// For example, after an `x` rotation the U face is the F face of the unrotated cube.
+    pub fn to_default<T: Rotatable>(&self, value: T) -> T {
+        self.rotations()
+            .rev()
+            .fold(value, |value, rotation| value.rotated(&rotation.inverse()))
+    }
+
     pub(super) const fn const_default() -> Self {
         Self {
             r_face: Face::R,
-- 
2.43.0


From 1a4d86db9c08260bab9a525766d826e92053d54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 08/18] fix: slice moves turn both outer layers back, whatever
 the orientation

The layer on the negative side was turned in the wrong direction, and the
orientation of the cube was ignored.
---
 barbarosa/src/cube_n/moves/extended.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/barbarosa/src/cube_n/moves/extended.rs b/barbarosa/src/cube_n/moves/extended.rs
index c8e1758..142c916 100644
--- a/barbarosa/src/cube_n/moves/extended.rs
+++ b/barbarosa/src/cube_n/moves/extended.rs
@@ -96,7 +96,10 @@ macro_rules! impl_movable_extended {
                                 true => <$cube>::N / 2 - 1,
                             };
 
-                            let m = WideAxisMove::<{ <$cube>::N / 2 - 1 }>::new(Face::new(rot.axis, dir), rot.amount * Direction::Negative, depth).unwrap();
+                            // The outer layers turn in the direction opposite to `rot`, which is clockwise on the negative face
+                            let face = self.orientation.to_default(Face::new(rot.axis, dir));
+                            let amount = rot.amount * Direction::Negative * dir;
+                            let m = WideAxisMove::<{ <$cube>::N / 2 - 1 }>::new(face, amount, depth).unwrap();
 
                             self.base_cube.apply(&m);
                         }
-- 
2.43.0


From f4a6214fc3929f2dde90ae56852cf8a5f62a2f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 09/18] fix: wide moves on an orientable cube turn the right
 layers

The depth of the layers on the other side was off by two, which panicked e.g.
for "Rw" on a 3x3x3, and the orientation of the cube was ignored.
---
 barbarosa/src/cube_n/moves/extended.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/barbarosa/src/cube_n/moves/extended.rs b/barbarosa/src/cube_n/moves/extended.rs
index 142c916..3d75087 100644
--- a/barbarosa/src/cube_n/moves/extended.rs
+++ b/barbarosa/src/cube_n/moves/extended.rs
@@ -72,19 +72,22 @@ macro_rules! impl_movable_extended {
                     ExtendedAxisMove::Regular(m) => self.apply(m),
                     ExtendedAxisMove::Rotation(rot) => self.orientation.rotate(rot),
                     ExtendedAxisMove::Wide(m) => {
-                        let Some(depth_oppossite) = <$cube>::N.checked_sub(m.depth()) else {
-                            // If depth is more than N, then it is equivalent to a rotation
+                        // A move of depth `d` turns `d + 1` layers, so this is the depth of the layers that are left
+                        let Some(depth_oppossite) = (<$cube>::N - 1).checked_sub(m.depth()).and_then(|left| left.checked_sub(1)) else {
+                            // If there are none left, then it is equivalent to a rotation
                             self.orientation.rotate(&AxisRotation::from(&m.axis_move));
                             return;
                         };
 
-                        let m = if m.depth() < depth_oppossite {
+                        let mut m = if m.depth() < <$cube>::N / 2 {
                             m.clone()
                         } else {
                             self.orientation.rotate(&AxisRotation::from(&m.axis_move));
                             opposite(&m, depth_oppossite)
                         };
 
+                        m.axis_move.face = self.orientation.to_default(m.axis_move.face);
+
                         let m = m.set_max_depth::<{ <$cube>::N / 2 - 1 }>()
                             .expect("the depth from both sides can't be larger than N/2");
                         self.base_cube.apply(&m);
-- 
2.43.0


From de005a9c01a474adabb75e8c75d68cdb73a2e64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 10/18] fix: printing the widest possible wide move does not
 overflow

---
 barbarosa/src/cube_n/moves/wide.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/barbarosa/src/cube_n/moves/wide.rs b/barbarosa/src/cube_n/moves/wide.rs
index aae577e..9ef2258 100644
--- a/barbarosa/src/cube_n/moves/wide.rs
+++ b/barbarosa/src/cube_n/moves/wide.rs
@@ -111,7 +111,7 @@ impl<const N: u32> std::fmt::Display for WideAxisMove<N> {
             i => write!(
                 f,
                 "{}{}w{}",
-                i + 1,
+                u64::from(i) + 1,
                 self.axis_move.face,
                 self.axis_move.amount
             ),
-- 
2.43.0


From 18193dc1cc7fe2754cb564605651ba58d0bb5f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 11/18] fix: a normalized alg has at most one move of each face
 in a row

When moves cancelled out, only one of two previous moves on the same axis was
reconsidered, so "R' F F' R L" turned into "L R' R".
---
 barbarosa/src/cube_n/moves/non_redundant.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/barbarosa/src/cube_n/moves/non_redundant.rs b/barbarosa/src/cube_n/moves/non_redundant.rs
index 70036ff..cea54cc 100644
--- a/barbarosa/src/cube_n/moves/non_redundant.rs
+++ b/barbarosa/src/cube_n/moves/non_redundant.rs
@@ -322,11 +322,17 @@ impl Alg<AxisMove> {
                     absorve(&mut nr_move, mov);
                 }
 
-                // If we collapsed something, we need to go back one move to see if we can join it with something else
+                // If we collapsed something, we need to go back one move to see if we can join it with something else.
+                // If that move was offloaded along with another one on its axis, both need to go back.
                 AbsorveResult::Collapsed => {
                     offload(&mut nr_move, &mut moves);
                     if let Some(mov) = moves.pop() {
+                        let axis = mov.face.axis;
                         self.moves.push(mov);
+
+                        if moves.last().map(|mov: &AxisMove| mov.face.axis) == Some(axis) {
+                            self.moves.extend(moves.pop());
+                        }
                     }
                 }
 
-- 
2.43.0


From a1e5acd4d814a911b7111280279e8d96f8d852e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 12/18] verification hooks: access to private parts of the big
 cubes, center corners and the cache

---
 barbarosa/src/cube_n/cube3/mus/cache/mod.rs  |  8 ++++++
 barbarosa/src/cube_n/cube4/mod.rs            |  8 ++++++
 barbarosa/src/cube_n/cube5/mod.rs            | 22 ++++++++++++++
 barbarosa/src/cube_n/cube6/mod.rs            | 24 ++++++++++++++++
 barbarosa/src/cube_n/cube7/mod.rs            | 30 ++++++++++++++++++++
 barbarosa/src/cube_n/pieces/center/corner.rs |  8 ++++++
 6 files changed, 100 insertions(+)

diff --git a/barbarosa/src/cube_n/cube3/mus/cache/mod.rs b/barbarosa/src/cube_n/cube3/mus/cache/mod.rs
index f9ae997..759de4f 100644
--- a/barbarosa/src/cube_n/cube3/mus/cache/mod.rs
+++ b/barbarosa/src/cube_n/cube3/mus/cache/mod.rs
@@ -70,3 +70,11 @@ impl Cache {
         disk_storage::load()
     }
 }
+
+#[cfg(any(kani, barbarosa_verif))]
+impl Cache {
+    /// Verification hook: a cache made of the given tables.
+    pub fn verif_from_tables(edges: Vec<u8>, corners: Vec<u8>) -> Self {
+        Self { edges, corners }
+    }
+}
diff --git a/barbarosa/src/cube_n/cube4/mod.rs b/barbarosa/src/cube_n/cube4/mod.rs
index 327c4b2..03d82a4 100644
--- a/barbarosa/src/cube_n/cube4/mod.rs
+++ b/barbarosa/src/cube_n/cube4/mod.rs
@@ -51,3 +51,11 @@ impl CubeN for Cube4 {
 }
 
 impl_movable_wide_move_inductively!(Cube4, 1, [0]);
+
+#[cfg(any(kani, barbarosa_verif))]
+impl Cube4 {
+    /// Verification hook: the piece sets of the cube.
+    pub fn verif_parts(&mut self) -> (&mut CornerSet, &mut WingSet<1>, &mut CenterCornerSet<1>) {
+        (&mut self.corners, &mut self.wings, &mut self.centers)
+    }
+}
diff --git a/barbarosa/src/cube_n/cube5/mod.rs b/barbarosa/src/cube_n/cube5/mod.rs
index cedcbc2..67969cf 100644
--- a/barbarosa/src/cube_n/cube5/mod.rs
+++ b/barbarosa/src/cube_n/cube5/mod.rs
@@ -65,3 +65,25 @@ impl CubeN for Cube5 {
 }
 
 impl_movable_wide_move_inductively!(Cube5, 1, [0]);
+
+#[cfg(any(kani, barbarosa_verif))]
+impl Cube5 {
+    /// Verification hook: the piece sets of the cube.
+    pub fn verif_parts(
+        &mut self,
+    ) -> (
+        &mut CornerSet,
+        &mut EdgeSet,
+        &mut WingSet<1>,
+        &mut CenterCornerSet<1>,
+        &mut CenterEdgeSet<1>,
+    ) {
+        (
+            &mut self.corners,
+            &mut self.edges,
+            &mut self.wings,
+            &mut self.corner_centers,
+            &mut self.corner_edges,
+        )
+    }
+}
diff --git a/barbarosa/src/cube_n/cube6/mod.rs b/barbarosa/src/cube_n/cube6/mod.rs
index 38ddfd2..bbfc21a 100644
--- a/barbarosa/src/cube_n/cube6/mod.rs
+++ b/barbarosa/src/cube_n/cube6/mod.rs
@@ -69,3 +69,27 @@ impl CubeN for Cube6 {
 }
 
 impl_movable_wide_move_inductively!(Cube6, 2, [0, 1]);
+
+#[cfg(any(kani, barbarosa_verif))]
+impl Cube6 {
+    /// Verification hook: the piece sets of the cube.
+    pub fn verif_parts(
+        &mut self,
+    ) -> (
+        &mut CornerSet,
+        &mut WingSet<1>,
+        &mut WingSet<2>,
+        &mut CenterCornerSet<1>,
+        &mut CenterCornerSet<2>,
+        &mut CenterWingSet<1, 2>,
+    ) {
+        (
+            &mut self.corners,
+            &mut self.wings_1,
+            &mut self.wings_2,
+            &mut self.center_corners_1,
+            &mut self.center_corners_2,
+            &mut self.center_wings,
+        )
+    }
+}
diff --git a/barbarosa/src/cube_n/cube7/mod.rs b/barbarosa/src/cube_n/cube7/mod.rs
index c050793..4b7c331 100644
--- a/barbarosa/src/cube_n/cube7/mod.rs
+++ b/barbarosa/src/cube_n/cube7/mod.rs
@@ -83,3 +83,33 @@ impl CubeN for Cube7 {
 }
 
 impl_movable_wide_move_inductively!(Cube7, 2, [0, 1]);
+
+#[cfg(any(kani, barbarosa_verif))]
+impl Cube7 {
+    /// Verification hook: the piece sets of the cube.
+    pub fn verif_parts(
+        &mut self,
+    ) -> (
+        &mut CornerSet,
+        &mut EdgeSet,
+        &mut WingSet<1>,
+        &mut WingSet<2>,
+        &mut CenterCornerSet<1>,
+        &mut CenterCornerSet<2>,
+        &mut CenterWingSet<1, 2>,
+        &mut CenterEdgeSet<1>,
+        &mut CenterEdgeSet<2>,
+    ) {
+        (
+            &mut self.corners,
+            &mut self.edges,
+            &mut self.wings_1,
+            &mut self.wings_2,
+            &mut self.center_corners_1,
+            &mut self.center_corners_2,
+            &mut self.center_wings,
+            &mut self.center_edges_1,
+            &mut self.center_edges_2,
+        )
+    }
+}
diff --git a/barbarosa/src/cube_n/pieces/center/corner.rs b/barbarosa/src/cube_n/pieces/center/corner.rs
index 4380183..d04ad6e 100644
--- a/barbarosa/src/cube_n/pieces/center/corner.rs
+++ b/barbarosa/src/cube_n/pieces/center/corner.rs
@@ -102,3 +102,11 @@ impl CenterCorner {
 
 /// A set of [`CenterCorner`]s with depth `ND`
 pub type CenterCornerSet<const ND: u32> = DepthPieceSet<CenterCorner, 24, ND>;
+
+#[cfg(any(kani, barbarosa_verif))]
+impl CenterCorner {
+    /// Verification hook: the corner of the cube that the piece is next to, and the axis of its face.
+    pub fn verif_parts(&self) -> (Vec3, Axis) {
+        (self.position, self.axis)
+    }
+}
-- 
2.43.0


From 6a8c3d27262c554d3ad5fc975b11699309aac6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:57 +0000
Subject: [PATCH 13/18] verification hooks: cubes that record moves made by way
 of narrower ones

---
 barbarosa/src/cube_n/moves/wide.rs | 38 ++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/barbarosa/src/cube_n/moves/wide.rs b/barbarosa/src/cube_n/moves/wide.rs
index 9ef2258..a2de00c 100644
--- a/barbarosa/src/cube_n/moves/wide.rs
+++ b/barbarosa/src/cube_n/moves/wide.rs
@@ -242,3 +242,41 @@ impl<P: DepthPiece + PieceSetDescriptor<N>, const N: usize, const ND: u32, const
         &self.set
     }
 }
+
+#[cfg(any(kani, barbarosa_verif))]
+pub mod verif {
+    //! Verification hook: cubes that record the wide moves that get to them by way of narrower moves.
+
+    use super::{impl_movable_wide_move_inductively, WideAxisMove};
+    use crate::generic::{moves::AsMove, Cube, Movable};
+
+    macro_rules! recorder {
+        ($name:ident, $max:literal, $narrower:tt) => {
+            #[allow(missing_docs)]
+            #[derive(Debug, Clone, PartialEq, Eq)]
+            pub struct $name {
+                pub times: u32,
+                pub last: Option<WideAxisMove<$max>>,
+            }
+            impl AsMove for $name {
+                type Move = WideAxisMove<$max>;
+            }
+            impl Cube for $name {
+                const SOLVED: Self = Self {
+                    times: 0,
+                    last: None,
+                };
+            }
+            impl Movable<WideAxisMove<$max>> for $name {
+                fn apply(&mut self, m: &WideAxisMove<$max>) {
+                    self.times += 1;
+                    self.last = Some(m.clone());
+                }
+            }
+            impl_movable_wide_move_inductively!($name, $max, $narrower);
+        };
+    }
+
+    recorder!(Recorder1, 1, [0]);
+    recorder!(Recorder2, 2, [0, 1]);
+}
-- 
2.43.0


From 0e19b7d89b5d3c5577c02b8def4f75cf89a802e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:40 +0000
Subject: [PATCH 14/18] verification hooks: cubes of every size that record
 extended moves

---
 barbarosa/src/cube_n/moves/extended.rs | 65 ++++++++++++++++++++++++++
 barbarosa/src/cube_n/moves/mod.rs      |  3 ++
 2 files changed, 68 insertions(+)

diff --git a/barbarosa/src/cube_n/moves/extended.rs b/barbarosa/src/cube_n/moves/extended.rs
index 3d75087..49c2027 100644
--- a/barbarosa/src/cube_n/moves/extended.rs
+++ b/barbarosa/src/cube_n/moves/extended.rs
@@ -143,3 +143,68 @@ impl From<(AxisRotation, bool)> for ExtendedAxisMove {
         Self::Slice { rot, wide }
     }
 }
+
+#[cfg(any(kani, barbarosa_verif))]
+pub mod verif {
+    //! Verification hook: cubes of every size that record the moves made on them.
+
+    use super::*;
+    use crate::{
+        cube_n::moves::wide::impl_movable_wide_move_inductively,
+        generic::{moves::AsMove, Cube},
+    };
+
+    /// The moves made on a recorder, in order. No extended move makes more than two.
+    pub type Log = [Option<(AxisMove, u32)>; 3];
+
+    fn record(log: &mut Log, m: &AxisMove, depth: u32) {
+        let free = log.iter_mut().find(|entry| entry.is_none());
+        *free.expect("there should be room for the move") = Some((m.clone(), depth));
+    }
+
+    macro_rules! recorder {
+        ($name:ident, $n:literal) => {
+            #[allow(missing_docs)]
+            #[derive(Debug, Clone, PartialEq, Eq)]
+            pub struct $name {
+                pub log: Log,
+            }
+            impl AsMove for $name {
+                type Move = AxisMove;
+            }
+            impl Cube for $name {
+                const SOLVED: Self = Self {
+                    log: [None, None, None],
+                };
+            }
+            impl CubeN for $name {
+                const N: u32 = $n;
+            }
+            impl_movable_extended!($name);
+        };
+        ($name:ident, $n:literal, 0) => {
+            recorder!($name, $n);
+            impl Movable<AxisMove> for $name {
+                fn apply(&mut self, m: &AxisMove) {
+                    record(&mut self.log, m, 0);
+                }
+            }
+        };
+        ($name:ident, $n:literal, $depth:literal, $narrower:tt) => {
+            recorder!($name, $n);
+            impl Movable<WideAxisMove<$depth>> for $name {
+                fn apply(&mut self, m: &WideAxisMove<$depth>) {
+                    record(&mut self.log, &m.axis_move, m.depth());
+                }
+            }
+            impl_movable_wide_move_inductively!($name, $depth, $narrower);
+        };
+    }
+
+    recorder!(Recorder2, 2, 0);
+    recorder!(Recorder3, 3, 0);
+    recorder!(Recorder4, 4, 1, [0]);
+    recorder!(Recorder5, 5, 1, [0]);
+    recorder!(Recorder6, 6, 2, [0, 1]);
+    recorder!(Recorder7, 7, 2, [0, 1]);
+}
diff --git a/barbarosa/src/cube_n/moves/mod.rs b/barbarosa/src/cube_n/moves/mod.rs
index b2ba8e0..052fc0b 100644
--- a/barbarosa/src/cube_n/moves/mod.rs
+++ b/barbarosa/src/cube_n/moves/mod.rs
@@ -27,6 +27,9 @@ pub use non_redundant::NonRedundantAxisMove;
 pub use quarter::QuarterAxisMove;
 pub use wide::WideAxisMove;
 
+#[cfg(any(kani, barbarosa_verif))]
+pub use extended::verif;
+
 /// A clockwise [move](generic::Move) on an axis. Main type of move for cuboids.
 ///
 /// It can be either single, double or inverse.
-- 
2.43.0


From d60664f3a63d41ad8888f26143ba3a5c2a8442b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 15/18] verification hooks: the two halves of deindexing

---
 barbarosa/src/cube_n/cube3/mus/deindex/mod.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/barbarosa/src/cube_n/cube3/mus/deindex/mod.rs b/barbarosa/src/cube_n/cube3/mus/deindex/mod.rs
index 4064f45..3f09b99 100644
--- a/barbarosa/src/cube_n/cube3/mus/deindex/mod.rs
+++ b/barbarosa/src/cube_n/cube3/mus/deindex/mod.rs
@@ -115,3 +115,22 @@ fn adjust_second_edges_for_deindexing(edges: &mut HalfEdgesMUS) {
         edge.rotate(&AxisRotation::new(Axis::X, Amount::Double))
     }
 }
+
+#[cfg(any(kani, barbarosa_verif))]
+pub mod verif {
+    //! Verification hook: the two halves of deindexing.
+
+    use super::*;
+
+    /// The indices of the orientations
+    pub fn orientations<T: OrientationIndexable, const N: usize>(index: usize) -> [usize; N] {
+        deindex_orientations::<T, N>(index)
+    }
+
+    /// The indices of the positions
+    pub fn positions<T: PositionIndexable, const N: usize, const SIZE: usize>(
+        index: usize,
+    ) -> [usize; N] {
+        deindex_positions::<T, N, SIZE>(index)
+    }
+}
-- 
2.43.0


From c5c8eff3671097529499a193abb6a06ccdfeb653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 16/18] verification hooks: guarded by one flag

---
 barbarosa/src/cube_n/cube3/mus/cache/mod.rs   | 2 +-
 barbarosa/src/cube_n/cube3/mus/deindex/mod.rs | 2 +-
 barbarosa/src/cube_n/cube4/mod.rs             | 2 +-
 barbarosa/src/cube_n/cube5/mod.rs             | 2 +-
 barbarosa/src/cube_n/cube6/mod.rs             | 2 +-
 barbarosa/src/cube_n/cube7/mod.rs             | 2 +-
 barbarosa/src/cube_n/moves/extended.rs        | 2 +-
 barbarosa/src/cube_n/moves/mod.rs             | 2 +-
 barbarosa/src/cube_n/moves/wide.rs            | 2 +-
 barbarosa/src/cube_n/pieces/center/corner.rs  | 2 +-
 10 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/barbarosa/src/cube_n/cube3/mus/cache/mod.rs b/barbarosa/src/cube_n/cube3/mus/cache/mod.rs
index 759de4f..1f1d4b3 100644
--- a/barbarosa/src/cube_n/cube3/mus/cache/mod.rs
+++ b/barbarosa/src/cube_n/cube3/mus/cache/mod.rs
@@ -71,7 +71,7 @@ impl Cache {
     }
 }
 
-#[cfg(any(kani, barbarosa_verif))]
+#[cfg(barbarosa_verif)]
 impl Cache {
     /// Verification hook: a cache made of the given tables.
     pub fn verif_from_tables(edges: Vec<u8>, corners: Vec<u8>) -> Self {
diff --git a/barbarosa/src/cube_n/cube3/mus/deindex/mod.rs b/barbarosa/src/cube_n/cube3/mus/deindex/mod.rs
index 3f09b99..6fda06d 100644
--- a/barbarosa/src/cube_n/cube3/mus/deindex/mod.rs
+++ b/barbarosa/src/cube_n/cube3/mus/deindex/mod.rs
@@ -116,7 +116,7 @@ fn adjust_second_edges_for_deindexing(edges: &mut HalfEdgesMUS) {
     }
 }
 
-#[cfg(any(kani, barbarosa_verif))]
+#[cfg(barbarosa_verif)]
 pub mod verif {
     //! Verification hook: the two halves of deindexing.
 
diff --git a/barbarosa/src/cube_n/cube4/mod.rs b/barbarosa/src/cube_n/cube4/mod.rs
index 03d82a4..357ff7d 100644
--- a/barbarosa/src/cube_n/cube4/mod.rs
+++ b/barbarosa/src/cube_n/cube4/mod.rs
@@ -52,7 +52,7 @@ impl CubeN for Cube4 {
 
 impl_movable_wide_move_inductively!(Cube4, 1, [0]);
 
-#[cfg(any(kani, barbarosa_verif))]
+#[cfg(barbarosa_verif)]
 impl Cube4 {
     /// Verification hook: the piece sets of the cube.
     pub fn verif_parts(&mut self) -> (&mut CornerSet, &mut WingSet<1>, &mut CenterCornerSet<1>) {
diff --git a/barbarosa/src/cube_n/cube5/mod.rs b/barbarosa/src/cube_n/cube5/mod.rs
index 67969cf..fda4bfd 100644
--- a/barbarosa/src/cube_n/cube5/mod.rs
+++ b/barbarosa/src/cube_n/cube5/mod.rs
@@ -66,7 +66,7 @@ impl CubeN for Cube5 {
 
 impl_movable_wide_move_inductively!(Cube5, 1, [0]);
 
-#[cfg(any(kani, barbarosa_verif))]
+#[cfg(barbarosa_verif)]
 impl Cube5 {
     /// Verification hook: the piece sets of the cube.
     pub fn verif_parts(
diff --git a/barbarosa/src/cube_n/cube6/mod.rs b/barbarosa/src/cube_n/cube6/mod.rs
index bbfc21a..69ef148 100644
--- a/barbarosa/src/cube_n/cube6/mod.rs
+++ b/barbarosa/src/cube_n/cube6/mod.rs
@@ -70,7 +70,7 @@ impl CubeN for Cube6 {
 
 impl_movable_wide_move_inductively!(Cube6, 2, [0, 1]);
 
-#[cfg(any(kani, barbarosa_verif))]
+#[cfg(barbarosa_verif)]
 impl Cube6 {
     /// Verification hook: the piece sets of the cube.
     pub fn verif_parts(
diff --git a/barbarosa/src/cube_n/cube7/mod.rs b/barbarosa/src/cube_n/cube7/mod.rs
index 4b7c331..23c6b57 100644
--- a/barbarosa/src/cube_n/cube7/mod.rs
+++ b/barbarosa/src/cube_n/cube7/mod.rs
@@ -84,7 +84,7 @@ impl CubeN for Cube7 {
 
 impl_movable_wide_move_inductively!(Cube7, 2, [0, 1]);
 
-#[cfg(any(kani, barbarosa_verif))]
+#[cfg(barbarosa_verif)]
 impl Cube7 {
     /// Verification hook: the piece sets of the cube.
     pub fn verif_parts(
diff --git a/barbarosa/src/cube_n/moves/extended.rs b/barbarosa/src/cube_n/moves/extended.rs
index 49c2027..dd2049e 100644
--- a/barbarosa/src/cube_n/moves/extended.rs
+++ b/barbarosa/src/cube_n/moves/extended.rs
@@ -144,7 +144,7 @@ impl From<(AxisRotation, bool)> for ExtendedAxisMove {
     }
 }
 
-#[cfg(any(kani, barbarosa_verif))]
+#[cfg(barbarosa_verif)]
 pub mod verif {
     //! Verification hook: cubes of every size that record the moves made on them.
 
diff --git a/barbarosa/src/cube_n/moves/mod.rs b/barbarosa/src/cube_n/moves/mod.rs
index 052fc0b..43f5113 100644
--- a/barbarosa/src/cube_n/moves/mod.rs
+++ b/barbarosa/src/cube_n/moves/mod.rs
@@ -27,7 +27,7 @@ pub use non_redundant::NonRedundantAxisMove;
 pub use quarter::QuarterAxisMove;
 pub use wide::WideAxisMove;
 
-#[cfg(any(kani, barbarosa_verif))]
+#[cfg(barbarosa_verif)]
 pub use extended::verif;
 
 /// A clockwise [move](generic::Move) on an axis. Main type of move for cuboids.
diff --git a/barbarosa/src/cube_n/moves/wide.rs b/barbarosa/src/cube_n/moves/wide.rs
index a2de00c..58d4028 100644
--- a/barbarosa/src/cube_n/moves/wide.rs
+++ b/barbarosa/src/cube_n/moves/wide.rs
@@ -243,7 +243,7 @@ impl<P: DepthPiece + PieceSetDescriptor<N>, const N: usize, const ND: u32, const
     }
 }
 
-#[cfg(any(kani, barbarosa_verif))]
+#[cfg(barbarosa_verif)]
 pub mod verif {
     //! Verification hook: cubes that record the wide moves that get to them by way of narrower moves.
 
diff --git a/barbarosa/src/cube_n/pieces/center/corner.rs b/barbarosa/src/cube_n/pieces/center/corner.rs
index d04ad6e..78b1de1 100644
--- a/barbarosa/src/cube_n/pieces/center/corner.rs
+++ b/barbarosa/src/cube_n/pieces/center/corner.rs
@@ -103,7 +103,7 @@ impl CenterCorner {
 /// A set of [`CenterCorner`]s with depth `ND`
 pub type CenterCornerSet<const ND: u32> = DepthPieceSet<CenterCorner, 24, ND>;
 
-#[cfg(any(kani, barbarosa_verif))]
+#[cfg(barbarosa_verif)]
 impl CenterCorner {
     /// Verification hook: the corner of the cube that the piece is next to, and the axis of its face.
     pub fn verif_parts(&self) -> (Vec3, Axis) {
-- 
2.43.0


From 5e955d864924e41d41ea6b62cef8cf5ce896e239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:54 +0000
Subject: [PATCH 17/18] verification hooks: the building of tables

---
 barbarosa/src/cube_n/cube3/mus/cache/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/barbarosa/src/cube_n/cube3/mus/cache/mod.rs b/barbarosa/src/cube_n/cube3/mus/cache/mod.rs
index 1f1d4b3..865190c 100644
--- a/barbarosa/src/cube_n/cube3/mus/cache/mod.rs
+++ b/barbarosa/src/cube_n/cube3/mus/cache/mod.rs
@@ -78,3 +78,9 @@ impl Cache {
         Self { edges, corners }
     }
 }
+
+#[cfg(barbarosa_verif)]
+pub mod verif {
+    //! Verification hooks: the building of tables, for any kind of pattern
+    pub use super::{disk_storage::DiskCacheable, generation::build_partial};
+}
-- 
2.43.0


From 2f23ae5c3371e81edf43ecf098b9b2e337fb773b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:33 +0000
Subject: [PATCH 18/18] verification hooks: the loading of tables

---
 barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs | 7 +++++++
 barbarosa/src/cube_n/cube3/mus/cache/mod.rs          | 7 +++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs b/barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs
index 7f21d6a..acea744 100644
--- a/barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs
+++ b/barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs
@@ -104,3 +104,10 @@ fn assert_correct_cache_size<T: DiskCacheable>(given: usize) {
         panic!("Cache file seems to be corrupted. It should be {} bytes long, but it's {} bytes long (help: might be wise to delete `mus-cache/`)", T::TOTAL_SET_SIZE, given);
     }
 }
+
+#[cfg(barbarosa_verif)]
+/// Verification hook: a table from disk, for any kind of pattern
+pub fn verif_load_or_build_partial<T: DiskCacheable + Deindexable + Movable<AxisMove> + Clone>(
+) -> io::Result<Vec<u8>> {
+    load_or_build_partial::<T>()
+}
diff --git a/barbarosa/src/cube_n/cube3/mus/cache/mod.rs b/barbarosa/src/cube_n/cube3/mus/cache/mod.rs
index 865190c..ff3dcfb 100644
--- a/barbarosa/src/cube_n/cube3/mus/cache/mod.rs
+++ b/barbarosa/src/cube_n/cube3/mus/cache/mod.rs
@@ -81,6 +81,9 @@ impl Cache {
 
 #[cfg(barbarosa_verif)]
 pub mod verif {
-    //! Verification hooks: the building of tables, for any kind of pattern
-    pub use super::{disk_storage::DiskCacheable, generation::build_partial};
+    //! Verification hooks: the building and loading of tables, for any kind of pattern
+    pub use super::{
+        disk_storage::{verif_load_or_build_partial as load_or_build_partial, DiskCacheable},
+        generation::build_partial,
+    };
 }
-- 
2.43.0

