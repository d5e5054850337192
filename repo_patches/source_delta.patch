From 835996b31c0fc27e7699fe05e93f1170ecabbd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:55 +0000
Subject: [PATCH 01/14] fix: basis-blade counts for k = 0 and k > n no longer
 panic

---
 src/math/blade.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/math/blade.rs b/src/math/blade.rs
index 44a73b0..1c30a51 100644
--- a/src/math/blade.rs
+++ b/src/math/blade.rs
@@ -51,6 +51,9 @@ pub fn total_number_of_basis_blades(dim: usize) -> usize {
 
 /// Compute `n` factorial.
 fn factorial(n: usize) -> usize {
+    if n == 0 {
+        return 1;
+    }
     let mut fact = n;
     for i in 2..n {
         fact *= i;
@@ -61,6 +64,12 @@ fn factorial(n: usize) -> usize {
 /// Compute `n` choose `k`, i.e. the binomial coefficient corresponding to
 /// the parameters `n` and `k`.
 fn binomial_coefficient(n: usize, k: usize) -> usize {
+    if k == 0 {
+        return 1;
+    }
+    if k > n {
+        return 0;
+    }
     let mut num = n;
     for i in 1..k {
         num *= n - i;
-- 
2.43.0


From 26d74c2e8086a4b1f00dd92c91253b0ad65bd1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:55 +0000
Subject: [PATCH 02/14] fix: angle between (nearly) parallel vectors is never
 NaN

---
 src/math/vector.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/math/vector.rs b/src/math/vector.rs
index de31a5f..3904564 100644
--- a/src/math/vector.rs
+++ b/src/math/vector.rs
@@ -137,7 +137,9 @@ where
     pub fn angle(self, rhs: Self) -> T {
         let u_norm = self.normalize();
         let v_norm = rhs.normalize();
-        u_norm.dot(v_norm).acos()
+
+        // Rounding can push the cosine slightly outside of `[-1, 1]`, where `acos` is undefined
+        u_norm.dot(v_norm).max(-T::one()).min(T::one()).acos()
     }
 }
 
-- 
2.43.0


From 4381781388bd044cf080533378017b42d006119c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:55 +0000
Subject: [PATCH 03/14] fix: intersection of infinite lines is found outside of
 the defining segments, too

---
 src/geometry/utils.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index 85d57ad..cd12f53 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -201,12 +201,6 @@ pub fn calculate_line_intersection(a: &Vec2, b: &Vec2, c: &Vec2, d: &Vec2) -> Op
 
     if determinant.abs() > nalgebra_glm::epsilon() {
         let u_a = ((d.x - c.x) * (a.y - c.y) - (d.y - c.y) * (a.x - c.x)) / determinant;
-        let u_b = ((b.x - a.x) * (a.y - c.y) - (b.y - a.y) * (a.x - c.x)) / determinant;
-
-        if !((0.0 <= u_a && u_a <= 1.0) && (0.0 <= u_b && u_b <= 1.0)) {
-            return None;
-        }
-
         let x = a.x + u_a * (b.x - a.x);
         let y = a.y + u_a * (b.y - a.y);
 
-- 
2.43.0


From a340b183665b09970b2e41932d28dcde209dcf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:55 +0000
Subject: [PATCH 04/14] fix: perpendicular bisector of horizontal segments, and
 distance of its second point

---
 src/geometry/utils.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index cd12f53..635717c 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -102,17 +102,10 @@ pub fn calculate_perpendicular_bisector(a: &Vec2, b: &Vec2, offset: f32) -> (Vec
     // First, calculate the midpoint of the line segment from `a` to `b`
     let midpoint = calculate_midpoint(a, b);
 
-    // Then, calculate the slope of the line segment and the slope of the perpendicular
-    let slope = (b.y - a.y) / (b.x - a.x);
-    let slope_perpendicular = -1.0 / slope;
-    let intercept = midpoint.y - slope_perpendicular * midpoint.x;
-
-    // Add a small offset in the x-direction (this is arbitrary)
-    let offset_point = midpoint + Vec2::new(offset, 0.0);
-    let second = Vec2::new(
-        offset_point.x,
-        offset_point.x * slope_perpendicular + intercept,
-    );
+    // Then, move away from it along the unit vector that is perpendicular to the line segment
+    // (this works for segments of any slope, including horizontal and vertical ones)
+    let perpendicular = Vec2::new(b.y - a.y, a.x - b.x);
+    let second = midpoint + perpendicular * (offset / nalgebra_glm::distance(a, b));
 
     (midpoint, second)
 }
-- 
2.43.0


From 0e4b9c16cd1581db5e1471d24bf66d90f4253884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:55 +0000
Subject: [PATCH 05/14] fix: is_on_line_segment honours include_endpoints

---
 src/geometry/utils.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index 635717c..999e85b 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -119,10 +119,11 @@ pub fn is_on_line_segment(a: &Vec2, b: &Vec2, p: &Vec2, include_endpoints: bool)
     let ap = nalgebra_glm::distance(a, p);
     let pb = nalgebra_glm::distance(p, b);
 
-    // Return `false` if the specified point is one of the endpoints of the line segment
+    // Unless asked to include them, return `false` if the specified point is one of the endpoints
+    // of the line segment
     ((ap + pb) - ab).abs() < nalgebra_glm::epsilon()
-        && ap.abs() > nalgebra_glm::epsilon()
-        && pb.abs() > nalgebra_glm::epsilon()
+        && (include_endpoints
+            || (ap.abs() > nalgebra_glm::epsilon() && pb.abs() > nalgebra_glm::epsilon()))
 }
 
 /// Finds the index of the vertex that is closest to the specified target vertex `t` among a set of
-- 
2.43.0


From 377dce9ad33bc6d63d3e766184699f068e75a685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:55 +0000
Subject: [PATCH 06/14] fix: unique_points_among keeps one of several duplicate
 points

---
 src/geometry/utils.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index 999e85b..25624c0 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -164,16 +164,16 @@ pub fn close_to(a: &Vec2, b: &Vec2) -> bool {
 
 /// Calculates the (sub)set of "unique" points from an input set, within epsilon.
 pub fn unique_points_among(ps: &Vec<Vec2>) -> Vec<Vec2> {
-    let mut unique = vec![];
+    let mut unique: Vec<Vec2> = vec![];
 
-    for (i, a) in ps.iter().enumerate() {
+    for a in ps.iter() {
         // Assume that this point `a` is unique
         let mut is_unique = true;
 
-        // Iterate through all other points and check if `a` ~= `b` (taking care not
-        // to compare `a` with itself in the inner for-loop)
-        for (j, b) in ps.iter().enumerate() {
-            if i != j && close_to(a, b) {
+        // Iterate through all of the points kept so far and check if `a` ~= `b` (one point
+        // among several duplicates must be kept)
+        for b in unique.iter() {
+            if close_to(a, b) {
                 is_unique = false;
                 break;
             }
-- 
2.43.0


From b0bd27d49fc013406eaa8e2f862850e893dabb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:55 +0000
Subject: [PATCH 07/14] fix: has_node_at_index and has_edge_at_index include
 index 0

---
 src/graph/planar_graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index de363e8..9e84978 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -137,11 +137,11 @@ where
     }
 
     pub fn has_node_at_index(&self, id: NodeIndex) -> bool {
-        id > 0 && id < self.nodes.len()
+        id < self.nodes.len()
     }
 
     pub fn has_edge_at_index(&self, id: EdgeIndex) -> bool {
-        id > 0 && id < self.edges.len()
+        id < self.edges.len()
     }
 
     /// Returns `true` if an edge exists between 2 nodes with indices `a` and `b` and `false` otherwise.
-- 
2.43.0


From f783630e156a78ed5991edac913fb583080301b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:55 +0000
Subject: [PATCH 08/14] fix: removing an isolated node no longer panics

---
 src/graph/planar_graph.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index 9e84978..381466d 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -438,7 +438,11 @@ where
 
             // Keep track of the index of the "leftmost" node / edge to-be-deleted
             let min_node_index = marked_nodes.iter().cloned().min().unwrap();
-            let min_edge_index = marked_edges.iter().cloned().min().unwrap();
+            let min_edge_index = marked_edges
+                .iter()
+                .cloned()
+                .min()
+                .unwrap_or(self.edge_count());
 
             // All nodes / edges that are to the "right" of the indices calculated above will change
             let changed_nodes = (min_node_index..self.node_count()).collect::<Vec<_>>();
-- 
2.43.0


From 0a1ac829a2f651bf9e02a81c92cdd68cfeb3c901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:55 +0000
Subject: [PATCH 09/14] fix: removing the last edge no longer panics

---
 src/graph/planar_graph.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index 381466d..ab08c04 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -393,11 +393,11 @@ where
             // TODO: this could be simplified - do we even need this if-statement here? aren't we guaranteed
             //  to have more than 1 edge at this point?
             if self.edge_count() > 1 {
-                // Make sure to do this BEFORE the call to `pop()`, which changes the array length
+                // Make sure to do this BEFORE the call to `swap_remove()`, which changes the array length
                 changed_edges.push(self.edge_count() - 1);
 
-                let last = self.edges.pop().expect("This should never happen");
-                self.edges[id] = last;
+                // This also works if the edge to-be-deleted *is* the last edge
+                self.edges.swap_remove(id);
             }
 
             // No nodes should ever be affected by this procedure if we've reached this point
-- 
2.43.0


From 628a2f2dc5a551f5d07f7cf5fe5ea70d23ef07e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:55 +0000
Subject: [PATCH 10/14] fix: removing a node with a self-loop marks it for
 deletion only once

---
 src/graph/planar_graph.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index ab08c04..770877e 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -509,8 +509,11 @@ where
 
                 // Is there another edge (other than this one) that includes the specified node? If not, it
                 // is a "stray" node
-                if let Some(1) = self.number_of_edges_incident_to(neighbor) {
-                    marked_nodes.push(neighbor);
+                // (in a self-loop, the neighbor is the node itself, which is marked already)
+                if neighbor != id {
+                    if let Some(1) = self.number_of_edges_incident_to(neighbor) {
+                        marked_nodes.push(neighbor);
+                    }
                 }
             }
         }
-- 
2.43.0


From cf33a05072b1ef5123ca5dec97b3a581fccddccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:55 +0000
Subject: [PATCH 11/14] fix: FOLD data is written under the keys it is read
 from

---
 src/fold/fold.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fold/fold.rs b/src/fold/fold.rs
index ca9caa1..2f5aa51 100644
--- a/src/fold/fold.rs
+++ b/src/fold/fold.rs
@@ -91,7 +91,7 @@ pub struct Fold {
     pub edges_assignment: Vec<String>,
 
     /// For each edge, the fold angle (deviation from flatness) along each edge of the pattern
-    #[serde(default, rename(deserialize = "edges_foldAngles"))]
+    #[serde(default, rename = "edges_foldAngles")]
     pub edges_foldangles: Vec<f32>,
 
     /// For each edge, the length of the edge (a number)
@@ -111,11 +111,11 @@ pub struct Fold {
     /// Layer information
 
     /// An array of triples [f, g, s] where f and g are face IDs and s is an integer between −1 and 1
-    #[serde(default, rename(deserialize = "faceOrders"))]
+    #[serde(default, rename = "faceOrders")]
     pub faceorders: Vec<[i32; 3]>,
 
     /// An array of triples [e, f, s] where e and f are edge IDs and s is an integer between −1 and 1
-    #[serde(default, rename(deserialize = "edgeOrders"))]
+    #[serde(default, rename = "edgeOrders")]
     pub edgeorders: Vec<[i32; 3]>,
 }
 
-- 
2.43.0


From 4e6eaef5618f6fd6cfafca56961b86c35e60823e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:55 +0000
Subject: [PATCH 12/14] fix: malformed FOLD files are reported as an error
 instead of a panic

---
 src/fold/fold.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fold/fold.rs b/src/fold/fold.rs
index 2f5aa51..3b2a1fe 100644
--- a/src/fold/fold.rs
+++ b/src/fold/fold.rs
@@ -127,7 +127,7 @@ impl Fold {
         let mut contents = String::new();
         file.read_to_string(&mut contents)?;
 
-        let mut fold: Fold = serde_json::from_str(&contents).expect("Failed to load JSON");
+        let mut fold: Fold = serde_json::from_str(&contents)?;
         fold.resolve();
         fold.validate();
 
-- 
2.43.0


From 9285d48186100dd1a7c84a52bf498c584c6d9d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:31 +0000
Subject: [PATCH 13/14] fix: removing a node also removes neighbors joined to
 it by several edges

---
 src/graph/planar_graph.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index 770877e..9cafd9b 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -510,8 +510,14 @@ where
                 // Is there another edge (other than this one) that includes the specified node? If not, it
                 // is a "stray" node
                 // (in a self-loop, the neighbor is the node itself, which is marked already)
-                if neighbor != id {
-                    if let Some(1) = self.number_of_edges_incident_to(neighbor) {
+                if neighbor != id && !marked_nodes.contains(&neighbor) {
+                    // There may be several edges between the same 2 nodes, all of which are removed here
+                    let is_stray = self
+                        .edges
+                        .iter()
+                        .all(|other| !other.includes(neighbor) || other.includes(id));
+
+                    if is_stray {
                         marked_nodes.push(neighbor);
                     }
                 }
-- 
2.43.0


From c68b5bf3d3f48f1fb117292430de86931949538b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 14/14] fix: report the new edge when only edges it meets are
 split

---
 src/graph/planar_graph.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index 9cafd9b..dfcfa04 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -217,14 +217,13 @@ where
                 // TODO: if the edge we just added gets split, do we copy its data over to the child edges?
 
                 // Perform line-segment/line-segment intersection tests
-                let (changed_nodes, mut changed_edges) =
-                    self.split_edges_along_edge(self.edge_count() - 1);
-
-                // If the array of changed edges is empty, this means that no edge splitting was necessary,
-                // but we still want to make sure we return at least one edge index (in this case, the edge
-                // was simply added to the end of the graph's edge array, so just return that index)
-                if changed_edges.is_empty() {
-                    changed_edges.push(self.edge_count() - 1);
+                let id = self.edge_count() - 1;
+                let (changed_nodes, mut changed_edges) = self.split_edges_along_edge(id);
+
+                // If the new edge itself was not split (possibly, no edge splitting was necessary at all),
+                // it is not in the array of changed edges yet, but it is always one of them
+                if !changed_edges.contains(&id) {
+                    changed_edges.push(id);
                 }
 
                 return Ok((changed_nodes, changed_edges));
-- 
2.43.0

