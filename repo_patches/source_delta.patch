From b137a628bd7c9f4d92b87dd956f96a595ff7ee41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:51 +0000
Subject: [PATCH 01/14] fix: do not panic when stepping a traffic light that
 has no phases

---
 src/light.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/light.rs b/src/light.rs
index a79a064..a8f0333 100644
--- a/src/light.rs
+++ b/src/light.rs
@@ -142,7 +142,7 @@ impl TrafficLight {
 
     /// Applies the current traffic light phase to each movement.
     fn apply_phase(&mut self) {
-        let Phase { mask, .. } = self.phases[self.phase];
+        let mask = self.phases.get(self.phase).map_or(0, |phase| phase.mask);
         for (idx, movement) in self.movements.iter_mut().enumerate() {
             movement.active = (mask >> idx) & 1 != 0;
         }
-- 
2.43.0


From ee0be88a72076d04e390531fa25a78759b81273e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:51 +0000
Subject: [PATCH 02/14] fix: let a vehicle exit when its planned path equals
 its current route

---
 src/vehicle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vehicle.rs b/src/vehicle.rs
index c45277c..d0be0b0 100644
--- a/src/vehicle.rs
+++ b/src/vehicle.rs
@@ -413,7 +413,7 @@ impl Vehicle {
             .paths()
             .iter()
             .min_by_key(|path| self.evaluate_path(path, links))
-            .filter(|path| !path.links.iter().eq(&self.route))
+            .filter(|path| path.can_exit != self.can_exit || !path.links.iter().eq(&self.route))
     }
 
     /// Evaluates the desirability of being on a given path,
-- 
2.43.0


From e2b552725a6e69dd3f457671099563bab0b3ba9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:32 +0000
Subject: [PATCH 03/14] fix: plan only paths that lead towards the destination,
 so vehicles do not circle

---
 src/vehicle/pathfinding.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/vehicle/pathfinding.rs b/src/vehicle/pathfinding.rs
index cd18bbb..3d2aeaa 100644
--- a/src/vehicle/pathfinding.rs
+++ b/src/vehicle/pathfinding.rs
@@ -14,6 +14,8 @@ pub(crate) struct PathfindingModel {
     dst: LinkId,
     /// A matrix used to determine the desirability of each link.
     matrix: SparseSecondaryMap<LinkId, LaneDists>,
+    /// The number of links left to traverse on the route from each link.
+    order: SparseSecondaryMap<LinkId, usize>,
     /// The current set of available paths.
     paths: Vec<Path>,
 }
@@ -76,8 +78,9 @@ impl PathfindingModel {
     fn calc_lane_matrix(&mut self, route: &[LinkId], links: &LinkSet) {
         let mut matrix = SparseSecondaryMap::new();
         matrix.insert(self.dst, LaneDists::exit());
+        let mut order = SparseSecondaryMap::new();
 
-        for link_id in route.iter().rev() {
+        for (idx, link_id) in route.iter().rev().enumerate() {
             let group = links[*link_id].group();
             let group_links = group
                 .map(|g| g.link_ids())
@@ -86,6 +89,7 @@ impl PathfindingModel {
             // Propagate backwards
             for link_id in group_links {
                 let link = &links[*link_id];
+                order.entry(*link_id).unwrap().or_insert(idx);
                 let dists = link
                     .links_out()
                     .iter()
@@ -114,6 +118,7 @@ impl PathfindingModel {
         }
 
         self.matrix = matrix;
+        self.order = order;
     }
 
     fn make_paths(&mut self, links: &LinkSet) {
@@ -151,8 +156,11 @@ impl PathfindingModel {
             let last_idx = path.len();
             path.push(LinkId::null());
             for succ in links[link_id].links_out() {
-                path[last_idx] = *succ;
-                found |= self.make_paths_inner(links, path, dist);
+                // Only follow links which bring the vehicle closer to its destination
+                if self.order.get(*succ) < self.order.get(link_id) {
+                    path[last_idx] = *succ;
+                    found |= self.make_paths_inner(links, path, dist);
+                }
             }
             path.pop();
         }
-- 
2.43.0


From 659674958fcc6c40c363d5434ca6f7959df0bc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:56 +0000
Subject: [PATCH 04/14] fix: advance a vehicle past every link it travels
 beyond in one step

---
 src/vehicle.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/vehicle.rs b/src/vehicle.rs
index d0be0b0..d9b3c22 100644
--- a/src/vehicle.rs
+++ b/src/vehicle.rs
@@ -354,23 +354,25 @@ impl Vehicle {
     /// * `links` - The links in the network
     /// * `now` - The current frame of simulation
     pub(crate) fn advance(&mut self, links: &LinkSet) -> bool {
-        if let Some(link_id) = self.route.get(0) {
+        let mut advanced = false;
+        while let Some(link_id) = self.route.get(0) {
             let length = links[*link_id].length();
-            if length < self.pos {
-                self.route.remove(0);
-                if let Some(link_id) = self.route.first() {
-                    self.pathfind.set_origin(*link_id, links);
-                }
-                self.entered = usize::max(self.entered - 1, 1);
-                self.pos -= length;
-                if let Some(lc) = self.lane_change.as_mut() {
-                    lc.offset = lc.offset.translate_x(length);
-                    lc.end_pos -= length;
-                }
-                return true;
+            if length >= self.pos {
+                break;
+            }
+            self.route.remove(0);
+            if let Some(link_id) = self.route.first() {
+                self.pathfind.set_origin(*link_id, links);
+            }
+            self.entered = usize::max(self.entered - 1, 1);
+            self.pos -= length;
+            if let Some(lc) = self.lane_change.as_mut() {
+                lc.offset = lc.offset.translate_x(length);
+                lc.end_pos -= length;
             }
+            advanced = true;
         }
-        false
+        advanced
     }
 
     /// Moves the vehicle to a new position in the road network,
-- 
2.43.0


From 023ad3be63f878acdd0d8706f0a89f50fb450c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:56 +0000
Subject: [PATCH 05/14] fix: hold a traffic light phase for its duration even
 if its movements were already green

---
 src/light.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/light.rs b/src/light.rs
index a8f0333..b93e032 100644
--- a/src/light.rs
+++ b/src/light.rs
@@ -12,6 +12,8 @@ pub struct TrafficLight {
     phases: Vec<Phase>,
     /// The current traffic light phase.
     phase: usize,
+    /// The time since the current phase was entered.
+    since: f64,
 }
 
 /// A single traffic light movement.
@@ -119,6 +121,7 @@ impl TrafficLight {
         for movement in &mut self.movements {
             movement.step(dt);
         }
+        self.since += dt;
     }
 
     /// Advances to the next traffic light phase if appropriate.
@@ -135,8 +138,9 @@ impl TrafficLight {
             .filter(|(index, _)| mask & (1 << index) != 0)
             .all(|(_, m)| m.state == LightState::Green && m.since >= duration);
 
-        if phase_complete {
+        if phase_complete && self.since >= duration {
             self.phase = (self.phase + 1) % self.phases.len();
+            self.since = 0.0;
         }
     }
 
-- 
2.43.0


From 9f908b7ab28df1a9c8c04f5058f3599ce53e8364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:56 +0000
Subject: [PATCH 06/14] fix: return each route exactly once from all_routes,
 including those ending with a lane change

---
 src/simulation.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/simulation.rs b/src/simulation.rs
index c46a55f..6eeda7d 100644
--- a/src/simulation.rs
+++ b/src/simulation.rs
@@ -98,17 +98,13 @@ impl Simulation {
             .values()
             .filter(|link| link.links_in().is_empty());
         srcs.map(|link| link.id()).flat_map(move |src| {
-            let f = self.links[src].reachable_lanes().iter().copied();
-            let s = pathfinding::directed::dfs::dfs_reach(src, move |id| {
-                let lanes = self.links[*id].reachable_lanes();
-                lanes.iter().flat_map(move |link_id| {
-                    let link = &self.links[*link_id];
-                    link.links_out().iter().copied()
-                })
-            });
-            f.chain(s)
-                .filter(|id| self.links[*id].links_out().is_empty())
-                .map(move |dst| (src, dst))
+            pathfinding::directed::dfs::dfs_reach(src, move |id| {
+                let link = &self.links[*id];
+                let lanes = link.reachable_lanes().iter().copied();
+                lanes.chain(link.links_out().iter().copied())
+            })
+            .filter(|id| self.links[*id].links_out().is_empty())
+            .map(move |dst| (src, dst))
         })
     }
 
-- 
2.43.0


From d93b864ee843ce562273fc21f41d060bcfc8237b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:56:42 +0000
Subject: [PATCH 07/14] fix: do not give way to vehicles standing at an earlier
 stop line, so roundabouts cannot lock up

---
 src/link.rs    | 7 +++++++
 src/vehicle.rs | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/src/link.rs b/src/link.rs
index 6198207..eae28c2 100644
--- a/src/link.rs
+++ b/src/link.rs
@@ -227,6 +227,11 @@ impl Link {
         }
     }
 
+    /// Whether vehicles can enter the link freely.
+    pub(crate) fn is_open(&self) -> bool {
+        matches!(self.control, TrafficControl::Open)
+    }
+
     /// Sets the traffic control at the start of the link.
     pub(crate) fn set_control(&mut self, control: TrafficControl) {
         self.control = control;
@@ -370,6 +375,8 @@ impl Link {
                 // On another route
                 (None, _) => continue,
                 (Some((link_id, _)), _) if link_id != route.1 => continue,
+                // Vehicle is standing at an earlier stop line, so isn't approaching yet
+                (Some(_), _) if vehicle.is_held_before(route.0, links) => return true,
                 // Vehicle has lower priority and hasn't entered the intersection yet
                 (Some((_, RouteState::NotEntered)), Some(_)) => return true,
                 (Some((_, RouteState::QueuedAt(a))), Some(b)) if a > b => return true,
diff --git a/src/vehicle.rs b/src/vehicle.rs
index d9b3c22..65047f6 100644
--- a/src/vehicle.rs
+++ b/src/vehicle.rs
@@ -216,6 +216,12 @@ impl Vehicle {
         })
     }
 
+    /// Whether the vehicle has stopped to wait for a link that precedes the one
+    /// at index `idx` of its route.
+    pub(crate) fn is_held_before(&self, idx: usize, links: &LinkSet) -> bool {
+        self.entered < idx && self.has_stopped() && !links[self.route[self.entered]].is_open()
+    }
+
     /// Whether the vehicle can exit the simulation at the end of its current path.
     pub(crate) fn can_exit(&self) -> bool {
         self.can_exit
-- 
2.43.0


From 242ffe64352b5eb0087dd89cc4a3762fe2923723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:10:35 +0000
Subject: [PATCH 08/14] fix: keep planning the path during a lane change, so
 that it can continue on the next link

---
 src/vehicle.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/vehicle.rs b/src/vehicle.rs
index 65047f6..ef8872c 100644
--- a/src/vehicle.rs
+++ b/src/vehicle.rs
@@ -412,14 +412,11 @@ impl Vehicle {
     /// Evaluates the available paths and chooses the best, which may involve a lane change.
     /// If the path the vehicle is currently on is the best, then `None` is returned.
     pub(crate) fn choose_path(&self, links: &LinkSet) -> Option<&Path> {
-        if self.lane_change.is_some() {
-            // Don't lane change while already lane changing
-            return None;
-        }
-
         self.pathfind
             .paths()
             .iter()
+            // Don't lane change while already lane changing
+            .filter(|path| self.lane_change.is_none() || path.links[0] == self.route[0])
             .min_by_key(|path| self.evaluate_path(path, links))
             .filter(|path| path.can_exit != self.can_exit || !path.links.iter().eq(&self.route))
     }
-- 
2.43.0


From db29c68d1a6bb296d57238692d4044721e224ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:35:32 +0000
Subject: [PATCH 09/14] fix: scale the steps of the projection onto a curve by
 the curve's speed, so that it works for any parameterisation

---
 src/math/curve/algorithms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/curve/algorithms.rs b/src/math/curve/algorithms.rs
index d8d8d46..dc03863 100644
--- a/src/math/curve/algorithms.rs
+++ b/src/math/curve/algorithms.rs
@@ -25,7 +25,7 @@ pub fn project_point_onto_curve(
     // Refine `t` with Newton's method
     for _ in 0..64 {
         let error = p_dt.dot(point - p) / p_dt.magnitude();
-        t += error;
+        t += error / p_dt.magnitude();
         if error.abs() < max_error || !bounds.contains(t) {
             return Some(t);
         }
-- 
2.43.0


From a4546794b555e3eeb2670e3032144153258cb585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:35:32 +0000
Subject: [PATCH 10/14] fix: do not report intersections beyond the ends of the
 second curve

---
 src/math/curve/algorithms.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math/curve/algorithms.rs b/src/math/curve/algorithms.rs
index dc03863..c8a5e76 100644
--- a/src/math/curve/algorithms.rs
+++ b/src/math/curve/algorithms.rs
@@ -46,6 +46,7 @@ pub fn intersect_curves(
         let point1 = curve1.sample(pos1);
         pos2 = project_point_onto_curve(curve2, point1, 0.1, pos2);
         if let Some(pos2) = pos2 {
+            let pos2 = pos2.clamp(curve2.bounds().min, curve2.bounds().max);
             let point2 = curve2.sample(pos2);
             let distance = point1.distance(point2);
             if distance < 0.01 {
-- 
2.43.0


From 5e89b90424dd6f0722e0062ad847edad04491356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:05:09 +0000
Subject: [PATCH 11/14] fix: plan the route beyond the end of a long link

The planning distance was measured from the start of the current link.
On a link longer than that, the plan ended with the next link, so a
vehicle braked for the end of the next link and, if that link was
shorter than the stopping gap, never entered it.
---
 src/vehicle/pathfinding.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vehicle/pathfinding.rs b/src/vehicle/pathfinding.rs
index 3d2aeaa..6a6af99 100644
--- a/src/vehicle/pathfinding.rs
+++ b/src/vehicle/pathfinding.rs
@@ -150,7 +150,8 @@ impl PathfindingModel {
 
         let mut found = false;
 
-        if !path.is_full() && dist < PLAN_DIST {
+        // The plan must reach beyond the current link, however long that is
+        if !path.is_full() && dist < PLAN_DIST + links[path[0]].length() {
             let link = &links[link_id];
             let dist = dist + link.length();
             let last_idx = path.len();
-- 
2.43.0


From 19c75365a96d9dba5f5d9b26f1f64af05756bdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:24:13 +0000
Subject: [PATCH 12/14] fix: look up the projection between the two given lanes

The list of projections has no entry from a lane to itself. The lookup did not
account for this, so a change to a lane further right used the projection
between two other lanes. In bends the lane was therefore chosen too late.
---
 src/group.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/group.rs b/src/group.rs
index 642a2ad..512a601 100644
--- a/src/group.rs
+++ b/src/group.rs
@@ -92,7 +92,13 @@ impl LinkGroup {
         let src_idx = self.find_link(src).expect("Link is not in group.");
         let dst_idx = self.find_link(dst).expect("Link is not in group.");
         let n = self.links.len() - 1;
-        &self.projections[(n * src_idx) + dst_idx]
+        // There is no projection from a link to itself
+        let idx = if dst_idx > src_idx {
+            dst_idx - 1
+        } else {
+            dst_idx
+        };
+        &self.projections[(n * src_idx) + idx]
     }
 
     /// Gets the index of the `link` in this link group.
-- 
2.43.0


From 9ece7fd7cbf932f4d2e8db7d13d1e4794a54263e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:58:12 +0000
Subject: [PATCH 13/14] fix: forget the place in the queue for a link that the
 new path does not enter

---
 src/vehicle.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vehicle.rs b/src/vehicle.rs
index ef8872c..ccfbbed 100644
--- a/src/vehicle.rs
+++ b/src/vehicle.rs
@@ -446,6 +446,10 @@ impl Vehicle {
             .zip(&path.links)
             .take_while(|(a, b)| a == b)
             .count();
+        if matched <= self.entered {
+            // The vehicle has queued for a link that it won't enter
+            self.queued = None;
+        }
 
         self.route.clear();
         self.route.extend_from_slice(&path.links);
-- 
2.43.0


From 43cad17e4ec43057b0a5c3a33de734b86d9606db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:50:02 +0000
Subject: [PATCH 14/14] fix: judge obstacles on following links at their place
 in a lane change

A vehicle decides whether it can pass an obstacle from its lateral offset
at the obstacle. The position was that on the obstacle's link, while the
offset is a function of the position on the vehicle's own link. During a
lane change near the end of a link, a vehicle on the next link counted as
passable and was run into.
---
 src/link.rs    |  3 ++-
 src/vehicle.rs | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/link.rs b/src/link.rs
index eae28c2..bb3049e 100644
--- a/src/link.rs
+++ b/src/link.rs
@@ -652,6 +652,7 @@ impl<'a> RelativeVehicle<'a> {
 
     /// Determines whether the vehicle can pass the given obstacle.
     pub fn can_pass(&self, obstacle: Obstacle, link: &Link) -> ObstaclePassResult {
-        self.vehicle.can_pass(obstacle, link)
+        self.vehicle
+            .can_pass(obstacle, link, self.pos - obstacle.pos)
     }
 }
diff --git a/src/vehicle.rs b/src/vehicle.rs
index ccfbbed..fe0c2d6 100644
--- a/src/vehicle.rs
+++ b/src/vehicle.rs
@@ -508,8 +508,19 @@ impl Vehicle {
     }
 
     /// Determines whether the vehicle can pass the given obstacle.
-    pub(crate) fn can_pass(&self, mut obstacle: Obstacle, link: &Link) -> ObstaclePassResult {
-        let is_clear = |obstacle: Obstacle| {
+    ///
+    /// # Parameters
+    /// * `obstacle` - The obstacle, whose position is relative to the start of `link`
+    /// * `link` - The link the obstacle is on
+    /// * `start` - The position of the start of `link` relative to the vehicle's current link
+    pub(crate) fn can_pass(
+        &self,
+        mut obstacle: Obstacle,
+        link: &Link,
+        start: f64,
+    ) -> ObstaclePassResult {
+        let is_clear = |mut obstacle: Obstacle| {
+            obstacle.pos += start;
             let offset = self.offset_at(obstacle.pos - self.half_len);
             let distance = obstacle.lat.distance(offset);
             distance > self.half_wid + LATERAL_CLEARANCE
-- 
2.43.0

