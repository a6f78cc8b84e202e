From d4fc860219f312306c932ca0365df9d762d37978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 01/36] fix: interpolate orientations along the rotation
 between them

---
 src/orientation.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/orientation.rs b/src/orientation.rs
index e9c9fde..6042fc2 100644
--- a/src/orientation.rs
+++ b/src/orientation.rs
@@ -75,10 +75,11 @@ impl Orientation {
 	/// Linearly interpolates between a starting and ending orientation.
 	pub fn lerp(time : f32, start : &Orientation, end : &Orientation) -> Orientation {
 		let opposite = 1.0 - time;
-		let rotation_vec = start.rotation_vec() * opposite + end.rotation_vec() * time;
+		// Scale the rotation BETWEEN the two orientations (interpolating the two rotation vectors isn't a rotation between them).
+		let rotation_between = end.rotation * start.rotation.inverse();
 		Orientation {
 			position: start.position * opposite + end.position * time,
-			rotation: Quat::from_scaled_axis(rotation_vec),
+			rotation: Quat::from_scaled_axis(rotation_between.scaled_axis() * time) * start.rotation,
 			internal_origin_offset: start.internal_origin_offset.clone(),
 		}
 	}
-- 
2.43.0


From d6978df695329decf4959d09051584b021b87305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:26 +0000
Subject: [PATCH 02/36] fix: take sphere contact normals from the sphere's
 centre at the moment of impact

---
 src/collision.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index af34fdf..3630aee 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -305,11 +305,11 @@ pub fn collide_sphere_with_sphere(radius1 : f32, center1 : &Vec3, movement1 : &V
 		dc.dot(&dc) - radius * radius,
 	).intersect(&Range::range(0.0, 1.0));
 	if !times.is_empty() {
-		let position = (
-			(center1 + movement1.scale(times.min())) * radius2 +
-			(center2 + movement2.scale(times.min())) * radius1
-		).scale(1.0 / radius);
-		let normal = (position - center1).normalize();
+		// Both the position and the normal must be for the instant of the collision (not for the start of the movement).
+		let hit_center1 = center1 + movement1.scale(times.min());
+		let hit_center2 = center2 + movement2.scale(times.min());
+		let position = (hit_center1 * radius2 + hit_center2 * radius1).scale(1.0 / radius);
+		let normal = (hit_center2 - hit_center1).normalize();
 		Some(Collision {
 			times,
 			position,
@@ -334,7 +334,7 @@ pub fn collide_sphere_with_line(radius1 : f32, center1: &Vec3, movement1 : &Vec3
 		let center_position = center1 + movement1.scale(times.min());
 		let along_length = (center_position - line_position).dot(&direction);
 		let position = line_position + direction.scale(along_length);
-		let normal = (position - center1).normalize();
+		let normal = (position - center_position).normalize(); // From where the sphere is at the instant of the collision.
 		Some(Collision {
 			times,
 			position,
-- 
2.43.0


From 54b5e1dc18e780a17a4a29684c17acba511dabcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 03/36] fix: judge degenerate quadratics relative to the size
 of their coefficients

---
 src/range.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/range.rs b/src/range.rs
index 51d4d8c..fb9d8b5 100644
--- a/src/range.rs
+++ b/src/range.rs
@@ -86,6 +86,9 @@ impl Range {
 	/// Creates a range that's got end points at the zeros of a quadratic.
 	/// Can also have no end points if the quadratic has no zeros.
 	pub fn quadratic_zeros(a : f32, b : f32, c : f32) -> Range {
+		// Scale everything so the largest coefficient is one. This doesn't move the zeros, but it does mean that the epsilons below are relative to the size of the numbers involved (so slow or small things aren't mistaken for ones that don't move at all).
+		let scale = a.abs().max(b.abs()).max(c.abs());
+		let (a, b, c) = if 0.0 < scale { (a / scale, b / scale, c / scale) } else { (a, b, c) };
 		if a.abs() < EPSILON {
 			// Degenerates to a linear equation.
 			if b.abs() < EPSILON {
@@ -96,14 +99,15 @@ impl Range {
 			}
 		} else {
 			let mut det = b * b - 4.0 * a * c;
-			if det < -EPSILON { // TODO: Could use a relative epsilon to keep things stable even in tiny cases.
+			if det < -EPSILON {
 				Range::empty()
 			} else if det < EPSILON {
 				Range::single(-0.5 * b / a)
 			} else {
 				det = det.sqrt();
-				let denom = 2.0 * a;
-				Range::range((-b + det) / denom, (-b - det) / denom)
+				// Only ever add values of the same sign here, as otherwise most of the precision is lost when a is small.
+				let sum = if 0.0 > b { -b + det } else { -b - det };
+				Range::range(sum / (2.0 * a), 2.0 * c / sum)
 			}
 		}
 	}
-- 
2.43.0


From a32ea215820e7387489acc3fd30d8db5f368d38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:26 +0000
Subject: [PATCH 04/36] fix: detect slow spheres that already overlap

---
 src/collision.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 3630aee..8d121eb 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -299,11 +299,14 @@ pub fn collide_sphere_with_sphere(radius1 : f32, center1 : &Vec3, movement1 : &V
 	let dv = movement1 - movement2;
 	let dc = center1 - center2;
 	let radius = radius1 + radius2;
-	let times = Range::quadratic_zeros(
+	let start_separation = dc.dot(&dc) - radius * radius;
+	let mut times = Range::quadratic_zeros(
 		dv.dot(&dv),
 		2.0 * dv.dot(&dc),
-		dc.dot(&dc) - radius * radius,
-	).intersect(&Range::range(0.0, 1.0));
+		start_separation,
+	);
+	if 0.0 > start_separation { times = times.contain(&Range::single(0.0)); } // Already overlapping, no matter how slow the movement is.
+	let times = times.intersect(&Range::range(0.0, 1.0));
 	if !times.is_empty() {
 		// Both the position and the normal must be for the instant of the collision (not for the start of the movement).
 		let hit_center1 = center1 + movement1.scale(times.min());
@@ -324,11 +327,14 @@ pub fn collide_sphere_with_line(radius1 : f32, center1: &Vec3, movement1 : &Vec3
 	let movement = movement1 - movement2;
 	let a = (center1 - start2).cross(&direction);
 	let b = movement.cross(&direction);
-	let times = Range::quadratic_zeros(
+	let start_separation = a.dot(&a) - radius1 * radius1;
+	let mut times = Range::quadratic_zeros(
 		b.dot(&b),
 		2.0 * a.dot(&b),
-		a.dot(&a) - radius1 * radius1,
-	).intersect(&Range::range(0.0, 1.0));
+		start_separation,
+	);
+	if 0.0 > start_separation { times = times.contain(&Range::single(0.0)); } // Already overlapping, no matter how slow the movement is.
+	let times = times.intersect(&Range::range(0.0, 1.0));
 	if !times.is_empty() {
 		let line_position = start2 + movement2.scale(times.min());
 		let center_position = center1 + movement1.scale(times.min());
-- 
2.43.0


From cb36e15248cd8963a16eb0a06f0791e05f110a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:04 +0000
Subject: [PATCH 05/36] fix: decide whether contacts approach using where
 bodies are at the moment of impact

---
 src/physics_system.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index f617711..2ad76a0 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -457,8 +457,11 @@ impl PhysicsSystem {
 							if let Some(collision) = collision_option {
 								let time = collision.times.min();
 								// If the objects are (already) moving away from the point of contact, then ignore the collision.
-								let first_full_velocity = first.get_velocity_at_world_position(&collision.position);
-								let second_full_velocity = second.get_velocity_at_world_position(&collision.position);
+								// The collision's position is where things will be at the time of the collision, so must also use where the centers of mass will be by then.
+								let first_offset  = collision.position - (first.orientation.position  + first_entity_info.linear_movement  * time);
+								let second_offset = collision.position - (second.orientation.position + second_entity_info.linear_movement * time);
+								let first_full_velocity  = first.velocity  + first.angular_velocity.cross(&first_offset);
+								let second_full_velocity = second.velocity + second.angular_velocity.cross(&second_offset);
 								let velocity_delta = first_full_velocity - second_full_velocity;
 								if EPSILON > velocity_delta.dot(&collision.normal) {
 									//self.debug.push(format!("Dropping collision at: {:?} between {:?} (velocity: {:?}) and {:?} (velocity: {:?}) normal={:?}", collision.position, first_collider_handle, first_full_velocity, second_collider_handle, second_full_velocity, collision.normal));
-- 
2.43.0


From d441c4b0aa6856a0edf87c3b01c7d92f75dac23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:27 +0000
Subject: [PATCH 06/36] fix: keep a plane's normal unit length when it's
 updated

---
 src/plane_collider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plane_collider.rs b/src/plane_collider.rs
index 0eedaa5..df1e782 100644
--- a/src/plane_collider.rs
+++ b/src/plane_collider.rs
@@ -71,7 +71,7 @@ impl InternalPlaneCollider {
 			Err(()) // TODO: An error type.
 		} else {
 			self.position = source.position;
-			self.normal = source.normal;
+			self.normal = source.normal.normalize();
 			self.mass = source.mass;
 			self.restitution_coefficient = source.restitution_coefficient;
 			self.friction_threshold = source.friction_threshold;
-- 
2.43.0


From a11fae55de8517df390bd941217dab2e0771741d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:29 +0000
Subject: [PATCH 07/36] fix: find sphere hits all along an edge, however long
 it is

---
 src/collision.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 8d121eb..b2fbe1e 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -357,8 +357,9 @@ pub fn collide_sphere_with_mid_line_segment(radius1 : f32, center1: &Vec3, movem
 	if let Some(hit) = collide_sphere_with_line(radius1, center1, movement1, start2, &length, movement2) {
 		let hit_movement = movement2.scale(hit.times.min());
 		let hit_start = start2 + hit_movement;
-		let hit_end = end2 + hit_movement;
-		if (((hit_start - hit.position).magnitude() + (hit_end - hit.position).magnitude()) - length.magnitude()).abs() < EPSILON {
+		// Check how far along the segment the hit is (comparing distances to the end points isn't precise enough for long segments).
+		let along = (hit.position - hit_start).dot(&length);
+		if 0.0 <= along && along <= length.dot(&length) {
 			Some(hit)
 		} else { None }
 	} else { None }
-- 
2.43.0


From dcae088ecd6d7f388084321a8a137a9123c02c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:31 +0000
Subject: [PATCH 08/36] fix: collide spheres with boxes where the box's
 position puts them

---
 src/collision.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index b2fbe1e..bbd6aa1 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -218,8 +218,8 @@ pub fn collide(collider1 : &Box<dyn InternalCollider>, start1 : &Orientation, en
 			sphere.radius,
 			&sphere_start_position,
 			&(sphere_end_position - sphere_start_position),
-			&aligned_box.min_corner,
-			&aligned_box.max_corner,
+			&(aligned_box.position + aligned_box.min_corner),
+			&(aligned_box.position + aligned_box.max_corner),
 		);
 
 		if let Some(mut result) = result_option {
@@ -242,8 +242,8 @@ pub fn collide(collider1 : &Box<dyn InternalCollider>, start1 : &Orientation, en
 			sphere.radius,
 			&sphere_start_position,
 			&(sphere_end_position - sphere_start_position),
-			&aligned_box.min_corner,
-			&aligned_box.max_corner,
+			&(aligned_box.position + aligned_box.min_corner),
+			&(aligned_box.position + aligned_box.max_corner),
 		);
 
 		if let Some(mut result) = result_option {
-- 
2.43.0


From 5d34dc7f61672b7c08eaa1f5e135ea1edcec0098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:32 +0000
Subject: [PATCH 09/36] fix: give flat meshes that hit a plane squarely a
 contact position

---
 src/collision.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index bbd6aa1..149ed51 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -528,11 +528,11 @@ pub fn collide_mesh_with_plane(mesh_vertices : &Vec<Vec3>, mesh_position : &Vec3
 		let start_epsilon = start_distances.size() * 0.01;// Apparently the standard EPSILON is a bit too small...
 		let end_epsilon = end_distances.size() * 0.01;// Apparently the standard EPSILON is a bit too small...
 		for info in calculated {
-			if start_epsilon > (info.start_distance - start_distances.min()).abs() {
+			if start_epsilon >= (info.start_distance - start_distances.min()).abs() {
 				closest_start_position_sum += info.start_position;
 				closest_start_position_count += 1.0;
 			}
-			if end_epsilon > (info.end_distance - end_distances.min()).abs() {
+			if end_epsilon >= (info.end_distance - end_distances.min()).abs() {
 				closest_end_position_sum += info.end_position;
 				closest_end_position_count += 1.0;
 			}
-- 
2.43.0


From 6655f81d2fd2f843f60f99403680ab1d88c2977a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 10/36] fix: keep rounding from picking some of a flat mesh's
 vertices as its lowest

---
 src/collision.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 149ed51..9953713 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -525,8 +525,10 @@ pub fn collide_mesh_with_plane(mesh_vertices : &Vec<Vec3>, mesh_position : &Vec3
 		let mut closest_start_position_count : f32 = 0.0;
 		let mut closest_end_position_sum = Vec3::zeros();
 		let mut closest_end_position_count : f32 = 0.0;
-		let start_epsilon = start_distances.size() * 0.01;// Apparently the standard EPSILON is a bit too small...
-		let end_epsilon = end_distances.size() * 0.01;// Apparently the standard EPSILON is a bit too small...
+		// Apparently the standard EPSILON is a bit too small...
+		// The lower limit keeps rounding errors from picking out some of the vertices of a mesh that's flat against the plane.
+		let start_epsilon = (start_distances.size() * 0.01).max(0.0001);
+		let end_epsilon = (end_distances.size() * 0.01).max(0.0001);
 		for info in calculated {
 			if start_epsilon >= (info.start_distance - start_distances.min()).abs() {
 				closest_start_position_sum += info.start_position;
-- 
2.43.0


From 85e59470b8669f62ef6f70184b1c711980a89248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 11/36] fix: accept box corners in either order, as they're
 sorted anyway

---
 src/aligned_box_collider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_box_collider.rs b/src/aligned_box_collider.rs
index adb51ee..3af3c61 100644
--- a/src/aligned_box_collider.rs
+++ b/src/aligned_box_collider.rs
@@ -217,7 +217,7 @@ impl AlignedBoxCollider {
 
 	/// If this is in a valid state.
 	pub fn is_valid(&self) -> bool {
-		let size = self.max_corner - self.min_corner;
+		let size = (self.max_corner - self.min_corner).abs(); // The corners can be given in either order.
 		EPSILON < size.x && EPSILON < size.y && EPSILON < size.z && 0.0 <= self.mass
 	}
 }
-- 
2.43.0


From 9ef0f26e17bfe034522aadadd1a5440bdc82a477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 12/36] fix: move mesh corners relative to the faces they're
 collided with

---
 src/collision.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 9953713..0852026 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -689,14 +689,23 @@ fn collide_mesh_points_with_mesh_faces(output : &mut EarliestCollisionAccumulato
 	for points_info in mesh1_points {
 		for face in &mesh2.faces {
 			face_points.clear();
+			let mut face_movement = Vec3::zeros();
 			for index in face {
 				face_points.push((mesh2_points[*index].start + mesh2_points[*index].end) / 2.0);
+				face_movement += mesh2_points[*index].end - mesh2_points[*index].start;
 			}
-			accumulator.consider(collide_point_with_polygon(
-				&points_info.start,
-				&points_info.end,
+			face_movement /= face.len() as f32;
+			// The face is held still halfway through its movement, so the point must move relative to it.
+			let mut collision_option = collide_point_with_polygon(
+				&(points_info.start + face_movement * 0.5),
+				&(points_info.end - face_movement * 0.5),
 				&face_points,
-			));
+			);
+			if let Some(collision) = &mut collision_option {
+				// Then move the result to where the face is at the time of the collision.
+				collision.position += face_movement * (collision.times.min() - 0.5);
+			}
+			accumulator.consider(collision_option);
 		}
 	}
 
-- 
2.43.0


From af209e1c98af9a32e08b7d0cb237000cc840c499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:22 +0000
Subject: [PATCH 13/36] fix: don't let corners lying on a face vote on which
 side of it a mesh is

---
 src/collision.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 0852026..5c7fa97 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -718,9 +718,10 @@ fn collide_mesh_points_with_mesh_faces(output : &mut EarliestCollisionAccumulato
 			let time = collision.times.min();
 			let point = points_info.start * (1.0 - time) + points_info.end * time;
 			let sign = (point - collision.position).dot(&collision.normal);
-			if 0.0 > sign {
+			// Points that are on the face itself (give or take rounding errors) can't tell which side is which.
+			if -0.0001 > sign {
 				negate += 1;
-			} else {
+			} else if 0.0001 < sign {
 				keep += 1;
 			}
 		}
-- 
2.43.0


From 0b3bc8e904c0d86dc7a0da04188f694b57ee2221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:51 +0000
Subject: [PATCH 14/36] fix: take removed colliders off the entity they're
 linked to

---
 src/physics_system.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 2ad76a0..6dda8f1 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -176,10 +176,12 @@ impl PhysicsSystem {
 
 	/// Removes a collider.
 	pub fn remove_collider(&mut self, handle : ColliderHandle) {
-		if let Some(mut remainder) = self.colliders.borrow_mut().remove(handle) {
+		let removed = self.colliders.borrow_mut().remove(handle); // Don't keep colliders borrowed past this.
+		if let Some(mut remainder) = removed {
 			// Force the associated entity to update (if there is one).
 			if let Some(entity_handle) = remainder.get_entity() {
 				if let Some(entity) = self.entities.borrow_mut().get_mut(entity_handle) {
+					entity.colliders.remove(&handle);
 					entity.recalculate_mass(&*self.colliders.borrow());
 				}
 			}
-- 
2.43.0


From 85defc70fddb4abcc3e2bb4c16a415f9a89578e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 15/36] fix: square the radius in a sphere's moment of inertia

---
 src/sphere_collider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphere_collider.rs b/src/sphere_collider.rs
index 057a07a..551a3e2 100644
--- a/src/sphere_collider.rs
+++ b/src/sphere_collider.rs
@@ -106,7 +106,7 @@ impl InternalCollider for InternalSphereCollider {
 	fn get_mass(&self) -> f32 { self.mass }
 
 	fn get_moment_of_inertia_tensor(&self) -> Mat3 {
-		let inertia = 2.0 / 5.0 * self.mass * self.radius;
+		let inertia = 2.0 / 5.0 * self.mass * self.radius * self.radius;
 		Mat3::from_diagonal(&Vec3::new(inertia, inertia, inertia))
 	}
 
-- 
2.43.0


From d21401230c77baaa3eb352498e2530b30cb5203d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:37 +0000
Subject: [PATCH 16/36] fix: don't scale torques by the moment of inertia

---
 src/physics_system.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 6dda8f1..d033fc3 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -363,7 +363,7 @@ impl PhysicsSystem {
 						let force = generator_borrow.make_force(dt, &self, handle);
 
 						acceleration += force.force.scale(1.0 / total_mass);
-						torque += entity_copy.get_last_moment_of_inertia() * (force.position - entity_copy.position).cross(&force.force);
+						torque += (force.position - entity_copy.position).cross(&force.force);
 					}
 				}
 			}
-- 
2.43.0


From fb1f59c488246894f14c3253d9b154a4ccc421b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:01 +0000
Subject: [PATCH 17/36] fix: keep collisions from turning entities of infinite
 mass

---
 src/entity.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/entity.rs b/src/entity.rs
index 74de2cc..d2496dc 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -188,6 +188,8 @@ impl InternalEntity {
 
 	/// Gets the moment of inertia tensor in WORLD space.
 	pub fn get_inverse_moment_of_inertia(&self) -> Mat3 {
+		// Something that's infinitely heavy can't be turned either (no matter what its colliders weigh).
+		if self.total_mass.is_infinite() { return Mat3::zeros(); }
 		let moment = self.get_moment_of_inertia();
 		if let Some(inverse) = moment.try_inverse() {
 			inverse
-- 
2.43.0


From db39ba6ae3440066528bebbc7c0c61c4a0d422e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:57 +0000
Subject: [PATCH 18/36] fix: don't take rounding errors for a moment of inertia

---
 src/entity.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/entity.rs b/src/entity.rs
index d2496dc..183b49f 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -8,6 +8,9 @@ use crate::types::{Vec3, Mat3, Quat, ColliderHandle, EntityHandle};
 use crate::collider::InternalCollider;
 use crate::orientation::Orientation;
 
+/// Any radius of gyration below this is taken for a rounding error.
+const NEGLIGIBLE_RADIUS_OF_GYRATION : f32 = 1e-4;
+
 /// The internal representation of any physical object.
 /// This generally has NO data hiding to keep things simple.
 pub struct InternalEntity {
@@ -191,6 +194,8 @@ impl InternalEntity {
 		// Something that's infinitely heavy can't be turned either (no matter what its colliders weigh).
 		if self.total_mass.is_infinite() { return Mat3::zeros(); }
 		let moment = self.get_moment_of_inertia();
+		// A point mass has no moment of inertia, but rounding while moving it to the center of mass can leave a tiny one. Inverting that would be huge.
+		if moment.magnitude() < NEGLIGIBLE_RADIUS_OF_GYRATION * NEGLIGIBLE_RADIUS_OF_GYRATION * self.total_mass { return Mat3::zeros(); }
 		if let Some(inverse) = moment.try_inverse() {
 			inverse
 		} else {
-- 
2.43.0


From 8022e687c4273b3039262ebe540ed32c2e5ce6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:48 +0000
Subject: [PATCH 19/36] fix: limit friction to the impulse that stops the
 sliding

---
 src/physics_system.rs | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index d033fc3..c12845d 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -598,12 +598,16 @@ impl PhysicsSystem {
 					} else {
 						earliest_collision_dynamic_friction_coefficient
 					};
-					let denominator = PhysicsSystem::calc_collision_impulse_denominator(first, second, &collision);
-					let max_friction_impulse = sliding_magnitude / denominator; // Divide by denominator so the mass/inertia split is reasonable.
-					let mut friction_percent : f32 = (impulse.magnitude() * friction_coefficient) / max_friction_impulse;
-					if friction_percent > 1.0 { friction_percent = 1.0; }
-					if !friction_percent.is_finite() { friction_percent = 0.0; }
-					let friction_impulse = sliding * -friction_percent;
+					let mut friction_impulse = Vec3::zeros();
+					if EPSILON < sliding_magnitude { // Can't tell which way to push if nothing is sliding.
+						let sliding_direction = sliding / sliding_magnitude;
+						let denominator = PhysicsSystem::calc_collision_impulse_denominator(first, second, &collision.position, &sliding_direction);
+						let max_friction_impulse = sliding_magnitude / denominator; // How much it takes to completely stop the sliding. Divide by denominator so the mass/inertia split is reasonable.
+						let friction_magnitude = (impulse.magnitude() * friction_coefficient).min(max_friction_impulse);
+						if friction_magnitude.is_finite() {
+							friction_impulse = sliding_direction * -friction_magnitude;
+						}
+					}
 
 					PhysicsSystem::apply_collision_impulse(
 						&mut first,
@@ -686,16 +690,17 @@ impl PhysicsSystem {
 		}
 	}
 
-	fn calc_collision_impulse_denominator(first : &InternalEntity, second : &InternalEntity, collision : &Collision) -> f32 {
-		let first_offset  = collision.position - first.orientation.position;
-		let second_offset = collision.position - second.orientation.position;
+	/// Calculates how much the relative velocity at a (world) position changes along the given direction per unit of impulse in that direction.
+	fn calc_collision_impulse_denominator(first : &InternalEntity, second : &InternalEntity, position : &Vec3, direction : &Vec3) -> f32 {
+		let first_offset  = position - first.orientation.position;
+		let second_offset = position - second.orientation.position;
 
 		let first_linear_weight   = 1.0 / first.get_total_mass();
 		let second_linear_weight  = 1.0 / second.get_total_mass();
-		let first_angular_amount = first.get_inverse_moment_of_inertia()   * first_offset.cross( &collision.normal);
-		let first_angular_weight  = first_angular_amount.cross(&first_offset).dot( &collision.normal);
-		let second_angular_amount = second.get_inverse_moment_of_inertia() * second_offset.cross(&collision.normal);
-		let second_angular_weight = second_angular_amount.cross(&second_offset).dot(&collision.normal);
+		let first_angular_amount = first.get_inverse_moment_of_inertia()   * first_offset.cross( direction);
+		let first_angular_weight  = first_angular_amount.cross(&first_offset).dot( direction);
+		let second_angular_amount = second.get_inverse_moment_of_inertia() * second_offset.cross(direction);
+		let second_angular_weight = second_angular_amount.cross(&second_offset).dot(direction);
 		first_linear_weight + second_linear_weight + first_angular_weight + second_angular_weight
 	}
 
@@ -709,7 +714,7 @@ impl PhysicsSystem {
 		// First find the collision response along the normal.
 		let normal_coincidence = velocity_delta.dot(&collision.normal);
 		let numerator = -(1.0 + restitution_coefficient) * normal_coincidence;
-		let denominator = PhysicsSystem::calc_collision_impulse_denominator(first, second, collision);
+		let denominator = PhysicsSystem::calc_collision_impulse_denominator(first, second, &collision.position, &collision.normal);
 		let normal_impulse_magnitude = numerator / denominator;
 		collision.normal.scale(normal_impulse_magnitude)
 	}
-- 
2.43.0


From 4c4ee5a5ce61e9d12072190227808dc4d4531090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:50 +0000
Subject: [PATCH 20/36] fix: only ignore collisions between neighbors that are
 both asleep

---
 src/physics_system.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index c12845d..cc1febd 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -421,13 +421,16 @@ impl PhysicsSystem {
 					let second = second_option.unwrap();
 
 					// Ignore the possible collisions if they're a part of the known collisions that were detected when the entity went to sleep.
-					if first.neighbors.contains(&second_entity_info.handle) {
-						println!("Skipping {:?} due to {:?}", second_entity_info.handle, first_entity_info.handle);
-						continue;
-					}
-					if second.neighbors.contains(&first_entity_info.handle) {
-						println!("Skipping {:?} due to {:?}", first_entity_info.handle, second_entity_info.handle);
-						continue;
+					// If either is (still) awake though, then nothing else would keep them apart.
+					if first.asleep && second.asleep {
+						if first.neighbors.contains(&second_entity_info.handle) {
+							println!("Skipping {:?} due to {:?}", second_entity_info.handle, first_entity_info.handle);
+							continue;
+						}
+						if second.neighbors.contains(&first_entity_info.handle) {
+							println!("Skipping {:?} due to {:?}", first_entity_info.handle, second_entity_info.handle);
+							continue;
+						}
 					}
 
 					// Then check all colliders between the two entities.
-- 
2.43.0


From ac0b31794e84f4b80421b37b4b3520af8218c287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 21/36] fix: leave sleeping entities unmoved until they're hit

---
 src/physics_system.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index cc1febd..f5368ef 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -370,15 +370,14 @@ impl PhysicsSystem {
 
 			let mut entities_borrow = self.entities.borrow_mut();
 			let entity = entities_borrow.get_mut(handle).unwrap();
-			entity.velocity += acceleration.scale(dt);
+			// NOTE: Sleeping entities don't move (so nothing should collide with them as if they did). If they're hit during this step(), then that'll give them their velocities.
+			if !entity.asleep {
+				entity.velocity += acceleration.scale(dt);
+				entity.angular_velocity += entity.get_inverse_moment_of_inertia() * torque.scale(dt);
+			}
 			let linear_movement = entity.velocity.scale(dt);
-
-			entity.angular_velocity += entity.get_inverse_moment_of_inertia() * torque.scale(dt);
 			let angular_movement = entity.angular_velocity.scale(dt);
 
-			// NOTE: Allowing velocities to be set even on sleeping entities so that if they're woken up during this step(), they will still have the basic velocities setup.
-			// This should help insure that the newly-woken entities have a shot at being awake for a bit before being pushed back to sleep.
-
 			entity_info.push(EntityStepInfo {
 				handle,
 				linear_movement,
@@ -684,6 +683,9 @@ impl PhysicsSystem {
 				entity.neighbors = info.neighbors.clone();
 				println!("Putting {:?} to sleep", info.handle);
 				self.debug.push(format!("Putting {:?} to sleep (energy={:?}; neighbors={:?}; velocity={:?}; angular_velocity={:?}; position={:?})", info.handle, energy, info.neighbors.len(), entity.velocity, entity.angular_velocity, entity.orientation.position));
+				// Clear out any velocity that's left.
+				entity.velocity = Vec3::zeros();
+				entity.angular_velocity = Vec3::zeros();
 			}
 			// If the entity went to sleep, then add it as a neighbor to the entities it neighbors.
 			for neighbor_handle in &info.neighbors {
-- 
2.43.0


From a4a06f1802c5bdc94a802b86a72212a68c05ab1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:41 +0000
Subject: [PATCH 22/36] fix: wake up what's linked to an entity when it's
 removed

---
 src/physics_system.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index f5368ef..625a876 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -92,6 +92,10 @@ impl PhysicsSystem {
 	///
 	/// Returns if anything changed (i.e. if the entity existed and was removed).
 	pub fn remove_entity(&mut self, handle : EntityHandle) -> bool {
+		if self.entities.borrow().contains(handle) {
+			// Wake up everything around it, so nothing keeps on resting against something that's gone.
+			InternalEntity::wake_up(handle, &mut self.entities.borrow_mut(), &mut self.debug);
+		}
 		let removed = self.entities.borrow_mut().remove(handle);
 		if let Some(entity) = removed {
 			// Also remove all associated colliders.
-- 
2.43.0


From 8b77cb843fe013c3800618b92463fa451d0bc098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:30 +0000
Subject: [PATCH 23/36] fix: keep what rests against each other linked, and
 wake it once something moves

---
 src/entity.rs         |  7 +++--
 src/physics_system.rs | 62 ++++++++++++++-----------------------------
 2 files changed, 25 insertions(+), 44 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 183b49f..30349a1 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -49,8 +49,8 @@ pub struct InternalEntity {
 	pub asleep : bool,
 
 	/// Other entities to wake up when this entity wakes up.
-	/// These are also the entities that won't wake up this entity if they're colliding with it (and vise versa).
-	/// This should always be empty if the entity isn't asleep.
+	/// These are the entities that this has collided with since it (and they) last had enough energy to stay awake. The links always go both ways.
+	/// Once both are asleep they won't be checked for collisions with eachother.
 	pub neighbors : HashSet<EntityHandle>,
 }
 
@@ -264,6 +264,9 @@ impl InternalEntity {
 					debug.push(format!("Waking up {:?}.", target_handle));
 				}
 				target.asleep = false;
+				// Give it a shot at being awake for a bit before being pushed back to sleep.
+				target.falling_asleep = false;
+				target.falling_asleep_time = 0.0;
 				target.neighbors.clear();
 			}
 		}
diff --git a/src/physics_system.rs b/src/physics_system.rs
index 625a876..7ab2d34 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -62,8 +62,6 @@ struct EntityStepInfo {
 	linear_movement : Vec3,
 	/// The planned angular motion for the entity.
 	angular_movement : Vec3,
-	/// All of the entities that have been collided with recently.
-	neighbors : HashSet<EntityHandle>,
 }
 
 impl PhysicsSystem {
@@ -386,7 +384,6 @@ impl PhysicsSystem {
 				handle,
 				linear_movement,
 				angular_movement,
-				neighbors: HashSet::new(),
 			});
 		}
 
@@ -495,30 +492,6 @@ impl PhysicsSystem {
 				}
 			}
 
-			// Wake up any entities that should be woken up due to the collision.
-			if let Some(entity_handle) = earliest_collision_first_entity_handle.clone() {
-				// Don't try to wake up any entities that have infinite mass.
-				let has_finite_mass = {
-					let entities = self.entities.borrow_mut();
-					let entity = entities.get(entity_handle).unwrap();
-					entity.get_total_mass().is_finite()
-				};
-				if has_finite_mass {
-					InternalEntity::wake_up(entity_handle, &mut self.entities.borrow_mut(), &mut self.debug);
-				}
-			}
-			if let Some(entity_handle) = earliest_collision_second_entity_handle.clone() {
-				// Don't try to wake up any entities that have infinite mass.
-				let has_finite_mass = {
-					let entities = self.entities.borrow_mut();
-					let entity = entities.get(entity_handle).unwrap();
-					entity.get_total_mass().is_finite()
-				};
-				if has_finite_mass {
-					InternalEntity::wake_up(entity_handle, &mut self.entities.borrow_mut(), &mut self.debug);
-				}
-			}
-
 			// Re-adjust all of the movements to account for time stepping forward to just before (time_left * earliest_collision).
 			let mut entities = self.entities.borrow_mut();
 			let after_collision_percent = 1.0 - earliest_collision_percent;
@@ -561,6 +534,11 @@ impl PhysicsSystem {
 				let mut first  = first_option.unwrap();
 				let mut second = second_option.unwrap();
 
+				// Wake up whatever was hit. But don't try to wake up any entities that have infinite mass.
+				// If this gets anything moving, then everything around it will be woken up at the end of the step.
+				if first.get_total_mass().is_finite() { first.asleep = false; }
+				if second.get_total_mass().is_finite() { second.asleep = false; }
+
 				// Then calculate the impulse.
 				let impulse = PhysicsSystem::calc_collision_impulse(
 					&first,
@@ -589,13 +567,11 @@ impl PhysicsSystem {
 
 				//self.debug.push(format!("After collision at {:?}: {:?} {:?}", collision.position, first.velocity, second.velocity));
 
-				let are_left_in_contact;
-				{// Then figure out friction and resting.
+				{// Then figure out friction.
 					let first_velocity  = first.get_velocity_at_world_position(&collision.position);
 					let second_velocity = second.get_velocity_at_world_position(&collision.position);
 					let velocity_delta = first_velocity - second_velocity;
 					let normal_coincidence = velocity_delta.dot(&collision.normal);
-					are_left_in_contact = normal_coincidence.abs() < EPSILON; // If the resulting motion isn't moving much apart, then the two are considered "in contact" for the rest of the time step.
 					let sliding = velocity_delta - collision.normal * normal_coincidence;
 					let sliding_magnitude = sliding.magnitude();
 					// NOTE: The below defaults to the dynamic friction coefficient if the ratio is junk.
@@ -631,11 +607,10 @@ impl PhysicsSystem {
 					);
 				}
 
-				// Update the neighbors set.
-				if are_left_in_contact {
-					entity_info[earliest_collision_first_info_index].neighbors.insert(second_entity_handle);
-					entity_info[earliest_collision_second_info_index].neighbors.insert(first_entity_handle);
-				}
+				// Update the neighbors sets.
+				// Even if the two bounce apart now, unless either is moving fast by the end of the step, they might come to rest against eachother.
+				first.neighbors.insert(second_entity_handle);
+				second.neighbors.insert(first_entity_handle);
 
 				self.collision_records.push(record);
 
@@ -650,6 +625,15 @@ impl PhysicsSystem {
 			self.debug.push(format!("Ran out of iterations!"));
 		}
 
+		// Wake up everything that's resting against (or was just hit by) something that's moving.
+		for info in &entity_info {
+			let mut entities = self.entities.borrow_mut();
+			let entity = entities.get(info.handle).unwrap();
+			if !entity.asleep && entity.get_total_energy() > self.energy_sleep_threshold {
+				InternalEntity::wake_up(info.handle, &mut entities, &mut self.debug);
+			}
+		}
+
 		// Put any entities to sleep if they have too little energy left.
 		for info in &mut entity_info {
 			let mut entities = self.entities.borrow_mut();
@@ -684,18 +668,12 @@ impl PhysicsSystem {
 				}
 
 				entity.asleep = true;
-				entity.neighbors = info.neighbors.clone();
 				println!("Putting {:?} to sleep", info.handle);
-				self.debug.push(format!("Putting {:?} to sleep (energy={:?}; neighbors={:?}; velocity={:?}; angular_velocity={:?}; position={:?})", info.handle, energy, info.neighbors.len(), entity.velocity, entity.angular_velocity, entity.orientation.position));
+				self.debug.push(format!("Putting {:?} to sleep (energy={:?}; neighbors={:?}; velocity={:?}; angular_velocity={:?}; position={:?})", info.handle, energy, entity.neighbors.len(), entity.velocity, entity.angular_velocity, entity.orientation.position));
 				// Clear out any velocity that's left.
 				entity.velocity = Vec3::zeros();
 				entity.angular_velocity = Vec3::zeros();
 			}
-			// If the entity went to sleep, then add it as a neighbor to the entities it neighbors.
-			for neighbor_handle in &info.neighbors {
-				let neighbor = entities.get_mut(*neighbor_handle).unwrap();
-				neighbor.neighbors.insert(info.handle);
-			}
 		}
 	}
 
-- 
2.43.0


From 8cd4a45c6772d60cf0f52eebe4c315d33cc1c5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:47 +0000
Subject: [PATCH 24/36] fix: keep contacts that aren't approached from hiding
 ones that are on the same mesh

---
 src/collision.rs      | 22 ++++++++++++++++------
 src/physics_system.rs | 22 ++++++++++++++--------
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 5c7fa97..20707b5 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -32,7 +32,9 @@ impl Collision {
 }
 
 /// Tries to collide any two arbitrary colliders.
-pub fn collide(collider1 : &Box<dyn InternalCollider>, start1 : &Orientation, end1 : &Orientation, collider2 : &Box<dyn InternalCollider>, start2 : &Orientation, end2 : &Orientation) -> Option<Collision> {
+///
+/// If they touch in several places, then only those that are accepted count.
+pub fn collide(collider1 : &Box<dyn InternalCollider>, start1 : &Orientation, end1 : &Orientation, collider2 : &Box<dyn InternalCollider>, start2 : &Orientation, end2 : &Orientation, accept : &dyn Fn(&Collision) -> bool) -> Option<Collision> {
 	// Always ignore a NullCollider.
 	// This is redundant now, but won't be in the future.
 	if ColliderType::NULL == collider1.get_type() || ColliderType::NULL == collider2.get_type() {
@@ -111,7 +113,7 @@ pub fn collide(collider1 : &Box<dyn InternalCollider>, start1 : &Orientation, en
 		let mesh_start_position = start2.position_into_world(&mesh.position);
 		let mesh_end_position = end2.position_into_world(&mesh.position);
 
-		return collide_sphere_with_mesh(
+		return collide_sphere_with_mesh_where(
 			sphere.radius,
 			&sphere_start_position,
 			&(sphere_end_position - sphere_start_position),
@@ -119,6 +121,7 @@ pub fn collide(collider1 : &Box<dyn InternalCollider>, start1 : &Orientation, en
 			&mesh.edges,
 			&mesh.faces,
 			&(mesh_end_position - mesh_start_position),
+			accept,
 		);
 	}
 	if ColliderType::MESH == collider1.get_type() && ColliderType::SPHERE == collider2.get_type() {
@@ -130,7 +133,7 @@ pub fn collide(collider1 : &Box<dyn InternalCollider>, start1 : &Orientation, en
 		let sphere_start_position = start2.position_into_world(&sphere.center);
 		let sphere_end_position = end2.position_into_world(&sphere.center);
 
-		let collision_option = collide_sphere_with_mesh(
+		let collision_option = collide_sphere_with_mesh_where(
 			sphere.radius,
 			&sphere_start_position,
 			&(sphere_end_position - sphere_start_position),
@@ -138,6 +141,7 @@ pub fn collide(collider1 : &Box<dyn InternalCollider>, start1 : &Orientation, en
 			&mesh.edges,
 			&mesh.faces,
 			&(mesh_end_position - mesh_start_position),
+			&|collision| accept(&Collision { times: collision.times, position: collision.position, normal: -collision.normal }),
 		);
 		// Must negate the normal as the sphere is the second collider.
 		if let Some(mut collision) = collision_option {
@@ -450,7 +454,13 @@ impl EarliestCollisionAccumulator {
 }
 
 /// Collides a sphere against a mesh.
+#[allow(dead_code)]
 pub fn collide_sphere_with_mesh(radius1 : f32, center1: &Vec3, movement1 : &Vec3, vertices2 : &Vec<Vec3>, edges2 : &Vec<(usize, usize)>, faces2 : &Vec<Vec<usize>>, movement2 : &Vec3) -> Option<Collision> {
+	collide_sphere_with_mesh_where(radius1, center1, movement1, vertices2, edges2, faces2, movement2, &|_| true)
+}
+
+/// Collides a sphere against a mesh, ignoring any place they touch at that isn't accepted (so that, for example, the face a sphere slides along can't hide the one it's about to hit).
+pub fn collide_sphere_with_mesh_where(radius1 : f32, center1: &Vec3, movement1 : &Vec3, vertices2 : &Vec<Vec3>, edges2 : &Vec<(usize, usize)>, faces2 : &Vec<Vec<usize>>, movement2 : &Vec3, accept : &dyn Fn(&Collision) -> bool) -> Option<Collision> {
 	let mut accumulator = EarliestCollisionAccumulator::new();
 	// First check all the corners.
 	for vertex in vertices2 {
@@ -458,7 +468,7 @@ pub fn collide_sphere_with_mesh(radius1 : f32, center1: &Vec3, movement1 : &Vec3
 		accumulator.consider(collide_sphere_with_sphere(
 			radius1, center1, movement1,
 			0.0, vertex, movement2,
-		));
+		).filter(accept));
 	}
 	// Then check all the edges.
 	for (index1, index2) in edges2 {
@@ -466,7 +476,7 @@ pub fn collide_sphere_with_mesh(radius1 : f32, center1: &Vec3, movement1 : &Vec3
 		accumulator.consider(collide_sphere_with_mid_line_segment(
 			radius1, center1, movement1,
 			&vertices2[*index1], &vertices2[*index2], movement2,
-		));
+		).filter(accept));
 	}
 	// Then check all the planes.
 	for face in faces2 {
@@ -478,7 +488,7 @@ pub fn collide_sphere_with_mesh(radius1 : f32, center1: &Vec3, movement1 : &Vec3
 		accumulator.consider(collide_sphere_with_polygon_surface(
 			radius1, center1, movement1,
 			&corners, movement2,
-		));
+		).filter(accept));
 	}
 	accumulator.get()
 }
diff --git a/src/physics_system.rs b/src/physics_system.rs
index 7ab2d34..5005ae5 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -450,6 +450,18 @@ impl PhysicsSystem {
 								&second_entity_info.linear_movement, &second_entity_info.angular_movement
 							);
 
+							// If the objects are (already) moving away from the point of contact, then ignore the collision.
+							let is_approaching = |collision : &Collision| {
+								let time = collision.times.min();
+								// The collision's position is where things will be at the time of the collision, so must also use where the centers of mass will be by then.
+								let first_offset  = collision.position - (first.orientation.position  + first_entity_info.linear_movement  * time);
+								let second_offset = collision.position - (second.orientation.position + second_entity_info.linear_movement * time);
+								let first_full_velocity  = first.velocity  + first.angular_velocity.cross(&first_offset);
+								let second_full_velocity = second.velocity + second.angular_velocity.cross(&second_offset);
+								let velocity_delta = first_full_velocity - second_full_velocity;
+								EPSILON <= velocity_delta.dot(&collision.normal)
+							};
+
 							let collision_option = collide(
 								first_collider_box,
 								&first_start_orientation,
@@ -457,18 +469,12 @@ impl PhysicsSystem {
 								second_collider_box,
 								&second_start_orientation,
 								&second_end_orientation,
+								&is_approaching,
 							);
 
 							if let Some(collision) = collision_option {
 								let time = collision.times.min();
-								// If the objects are (already) moving away from the point of contact, then ignore the collision.
-								// The collision's position is where things will be at the time of the collision, so must also use where the centers of mass will be by then.
-								let first_offset  = collision.position - (first.orientation.position  + first_entity_info.linear_movement  * time);
-								let second_offset = collision.position - (second.orientation.position + second_entity_info.linear_movement * time);
-								let first_full_velocity  = first.velocity  + first.angular_velocity.cross(&first_offset);
-								let second_full_velocity = second.velocity + second.angular_velocity.cross(&second_offset);
-								let velocity_delta = first_full_velocity - second_full_velocity;
-								if EPSILON > velocity_delta.dot(&collision.normal) {
+								if !is_approaching(&collision) {
 									//self.debug.push(format!("Dropping collision at: {:?} between {:?} (velocity: {:?}) and {:?} (velocity: {:?}) normal={:?}", collision.position, first_collider_handle, first_full_velocity, second_collider_handle, second_full_velocity, collision.normal));
 									continue;
 								}
-- 
2.43.0


From f566f17282c4fb72a6ae79bcb6ff1ba2bb42c5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 25/36] fix: ignore collisions that no impulse can resolve

---
 src/physics_system.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 5005ae5..dff0608 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -433,6 +433,12 @@ impl PhysicsSystem {
 						}
 					}
 
+					// Ignore pairs that no impulse can push apart: those with something massless (any impulse would be too much), and those of two infinite masses (none would be enough).
+					let inverse_mass_sum = 1.0 / first.get_total_mass() + 1.0 / second.get_total_mass();
+					if !inverse_mass_sum.is_finite() || 0.0 >= inverse_mass_sum {
+						continue;
+					}
+
 					// Then check all colliders between the two entities.
 					for first_collider_handle in first.colliders.iter() {
 						for second_collider_handle in second.colliders.iter() {
-- 
2.43.0


From e2ef3bb9e88d5bdf00dc6236c350acf6c844a5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 26/36] fix: report the energy of infinite masses like the
 engine does

---
 src/entity.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/entity.rs b/src/entity.rs
index 30349a1..1a95838 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -392,6 +392,11 @@ impl Entity {
 
 	/// Gets the total energy of this object.
 	pub fn get_total_energy(&self) -> f32 {
+		if self.last_total_mass.is_infinite() {
+			// Since 0.0 * INFINITY becomes NaN.
+			let at_rest = self.velocity.magnitude() < EPSILON && self.angular_velocity.magnitude() < EPSILON;
+			return if at_rest { 0.0 } else { INFINITY };
+		}
 		let linear_energy = (self.last_total_mass * self.velocity).dot(&self.velocity) / 2.0;
 		let angular_energy = (self.get_last_moment_of_inertia() * self.angular_velocity).dot(&self.angular_velocity) / 2.0;
 		linear_energy + angular_energy
-- 
2.43.0


From ae2ec757bedac289b776c4b9ccb094d97e467116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 27/36] fix: don't panic over polygons squished by spinning
 half a turn

---
 src/collision.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 20707b5..c507a13 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -563,18 +563,19 @@ pub fn collide_mesh_with_plane(mesh_vertices : &Vec<Vec3>, mesh_position : &Vec3
 	}
 }
 
-fn get_polygon_normal(points : &Vec<Vec3>) -> Vec3 {
+fn get_polygon_normal(points : &Vec<Vec3>) -> Option<Vec3> {
 	for index in 0..points.len() {
 		let mut next_index = index + 1;
 		if next_index >= points.len() { next_index -= points.len(); }
 		let prev_index = if 0 < index { index - 1 } else { points.len()-1 };
 		let normal = (points[prev_index] - points[index]).cross(&(points[next_index] - points[index]));
 		let length = normal.magnitude();
-		if length.is_finite() && EPSILON < length {
-			return normal / length;
+		let scale = (points[prev_index] - points[index]).magnitude() * (points[next_index] - points[index]).magnitude(); // So small polygons aren't mistaken for degenerate ones.
+		if length.is_finite() && EPSILON * scale < length {
+			return Some(normal / length);
 		}
 	}
-	panic!("Couldn't find a normal for the polygon: {:?}", points);
+	None // This does happen: a polygon that spins half a turn is squished into a line (or a point) halfway.
 }
 
 fn point_is_on_plane(point : &Vec3, plane_normal : &Vec3, plane_point : &Vec3) -> bool {
@@ -588,7 +589,7 @@ fn collide_point_with_polygon(point_start : &Vec3, point_end : &Vec3, polygon :
 	let point_delta = point_end - point_start;
 	// First: figure out when the point will collide with the (moving) plane.
 	// Then decide whether that point (or point movement) goes into the polygon.
-	let mut plane_normal = get_polygon_normal(polygon);
+	let mut plane_normal = get_polygon_normal(polygon)?;
 	// Note that the only way for the point to be on the plane more than once is if it's always on the plane. So use that to decide...
 	if point_is_on_plane(point_start, &plane_normal, &polygon[0]) && point_is_on_plane(point_end, &plane_normal, &polygon[0]) {
 		// Then see if/when that point intersects with the polygon's line segments.
-- 
2.43.0


From badb15313718c0d6b11a71795b49eaa8066349db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 28/36] fix: don't take rounding errors for a thin body's
 moment of inertia

---
 src/entity.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/entity.rs b/src/entity.rs
index 1a95838..66af6c4 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -11,6 +11,9 @@ use crate::orientation::Orientation;
 /// Any radius of gyration below this is taken for a rounding error.
 const NEGLIGIBLE_RADIUS_OF_GYRATION : f32 = 1e-4;
 
+/// How small a moment of inertia around one axis must be relative to the others for it to be just rounding errors.
+const NEGLIGIBLE_INERTIA_RATIO : f32 = 1e-5;
+
 /// The internal representation of any physical object.
 /// This generally has NO data hiding to keep things simple.
 pub struct InternalEntity {
@@ -196,6 +199,14 @@ impl InternalEntity {
 		let moment = self.get_moment_of_inertia();
 		// A point mass has no moment of inertia, but rounding while moving it to the center of mass can leave a tiny one. Inverting that would be huge.
 		if moment.magnitude() < NEGLIGIBLE_RADIUS_OF_GYRATION * NEGLIGIBLE_RADIUS_OF_GYRATION * self.total_mass { return Mat3::zeros(); }
+		// Something as thin as a line has no moment of inertia around it, but rounding can leave a tiny one here too. So don't turn it that way at all.
+		let (x, y, z) = (moment.column(0), moment.column(1), moment.column(2));
+		let axis = [y.cross(&z), z.cross(&x), x.cross(&y)].iter().fold(Vec3::zeros(), |longest, axis| if longest.magnitude() < axis.magnitude() { *axis } else { longest });
+		if moment.determinant() < NEGLIGIBLE_INERTIA_RATIO * moment.magnitude() * axis.magnitude() {
+			let along_axis = axis.normalize() * axis.normalize().transpose();
+			let filler = moment.magnitude();
+			return (moment + along_axis * filler).try_inverse().unwrap_or(Mat3::zeros()) - along_axis / filler;
+		}
 		if let Some(inverse) = moment.try_inverse() {
 			inverse
 		} else {
-- 
2.43.0


From 1d3bbaf0e0475ebde6fafeda7a12cf435a6c5e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 29/36] fix: keep mesh corners that already separate from
 hiding the ones about to hit

---
 src/collision.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index c507a13..3ec0698 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -207,6 +207,7 @@ pub fn collide(collider1 : &Box<dyn InternalCollider>, start1 : &Orientation, en
 			&mesh2,
 			start2,
 			end2,
+			accept,
 		);
 	}
 
@@ -694,9 +695,9 @@ fn precompute_mesh_point_pairs(mesh : &InternalMeshCollider, start_orientation :
 	transformed
 }
 
-fn collide_mesh_points_with_mesh_faces(output : &mut EarliestCollisionAccumulator, mesh1_points : &Vec<MeshPointPairs>, mesh2 : &InternalMeshCollider, mesh2_points : &Vec<MeshPointPairs>, normal_factor : f32) {
+fn collide_mesh_points_with_mesh_faces(output : &mut EarliestCollisionAccumulator, mesh1_points : &Vec<MeshPointPairs>, mesh2 : &InternalMeshCollider, mesh2_points : &Vec<MeshPointPairs>, normal_factor : f32, accept : &dyn Fn(&Collision) -> bool) {
 	let mut face_points = Vec::new();
-	let mut accumulator = EarliestCollisionAccumulator::new();
+	let mut candidates = Vec::new();
 	for points_info in mesh1_points {
 		for face in &mesh2.faces {
 			face_points.clear();
@@ -716,13 +717,13 @@ fn collide_mesh_points_with_mesh_faces(output : &mut EarliestCollisionAccumulato
 				// Then move the result to where the face is at the time of the collision.
 				collision.position += face_movement * (collision.times.min() - 0.5);
 			}
-			accumulator.consider(collision_option);
+			candidates.extend(collision_option);
 		}
 	}
 
-	if let Some(mut collision) = accumulator.get() {
+	for mut collision in candidates {
 		// Make sure the normal is pointing at most of the points.
-		// Do this once at the end because it's kinda expensive.
+		// Only do this for the few that hit because it's kinda expensive.
 		let mut negate : usize = 0;
 		let mut keep : usize = 0;
 		for points_info in mesh1_points {
@@ -740,11 +741,11 @@ fn collide_mesh_points_with_mesh_faces(output : &mut EarliestCollisionAccumulato
 			collision.normal *= -1.0;
 		}
 		collision.normal *= normal_factor;
-		output.consider(Some(collision));
+		output.consider(Some(collision).filter(accept));
 	}
 }
 
-pub fn collide_mesh_with_mesh(mesh1 : &InternalMeshCollider, mesh1_start_orientation : &Orientation, mesh1_end_orientation : &Orientation, mesh2 : &InternalMeshCollider, mesh2_start_orientation : &Orientation, mesh2_end_orientation : &Orientation) -> Option<Collision> {
+pub fn collide_mesh_with_mesh(mesh1 : &InternalMeshCollider, mesh1_start_orientation : &Orientation, mesh1_end_orientation : &Orientation, mesh2 : &InternalMeshCollider, mesh2_start_orientation : &Orientation, mesh2_end_orientation : &Orientation, accept : &dyn Fn(&Collision) -> bool) -> Option<Collision> {
 	let mut accumulator = EarliestCollisionAccumulator::new();
 	let mesh1_points = precompute_mesh_point_pairs(mesh1, mesh1_start_orientation, mesh1_end_orientation);
 	let mesh2_points = precompute_mesh_point_pairs(mesh2, mesh2_start_orientation, mesh2_end_orientation);
@@ -755,6 +756,7 @@ pub fn collide_mesh_with_mesh(mesh1 : &InternalMeshCollider, mesh1_start_orienta
 		&mesh2,
 		&mesh2_points,
 		-1.0,
+		accept,
 	);
 	collide_mesh_points_with_mesh_faces(
 		&mut accumulator,
@@ -762,6 +764,7 @@ pub fn collide_mesh_with_mesh(mesh1 : &InternalMeshCollider, mesh1_start_orienta
 		&mesh1,
 		&mesh1_points,
 		1.0,
+		accept,
 	);
 	// Then check if there are any edge-edge intersections. (TODO!)
 	accumulator.get()
-- 
2.43.0


From 3d8225e20d374d711293e37d3d3e775e55e5fa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 30/36] fix: refuse star-shaped faces

---
 src/mesh_collider.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mesh_collider.rs b/src/mesh_collider.rs
index 1348d65..abc44cc 100644
--- a/src/mesh_collider.rs
+++ b/src/mesh_collider.rs
@@ -212,6 +212,11 @@ impl MeshCollider {
 			let third  = &points[if index+2 < points.len() { index+2 } else { index+2 - points.len() }];
 			let current_normal = (second - first).cross(&(third - first)).normalize();
 			assert!((current_normal.dot(&normal) - 1.0).abs() < EPSILON, "Points not coplanar or not convex.");
+			// Going around more than once (like a star does) always turns the same way, but isn't convex either.
+			for point in points {
+				let (edge, offset) = (second - first, point - first);
+				assert!(-EPSILON * edge.magnitude() * offset.magnitude() <= edge.cross(&offset).dot(&normal), "Points not convex.");
+			}
 		}
 		// TODO: Could try deduplicating faces too...
 		// TODO: Could also try merging faces if on same plane and sharing edges... Though that's fairly non-trivial.
-- 
2.43.0


From 974212515a1a50e3fa174cb4c80ea45aa64d3ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:34 +0000
Subject: [PATCH 31/36] cfg fluffy_quiet: leave out the progress messages

---
 src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 0855777..cb19d22 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -6,6 +6,11 @@
 //! * All collision detection is also linearized; so it calculates the starting and ending position and assumes the objects take a linear path between them. As long as time steps are kept small, this should be a good enough approximation (even for rotating bodies).
 ///!
 
+// With `--cfg fluffy_quiet`, the progress messages on standard output are left out.
+#[allow(unexpected_cfgs)]
+#[cfg(fluffy_quiet)]
+macro_rules! println { ($($x:tt)*) => {{ if false { std::println!($($x)*) } }} }
+
 mod consts;
 pub mod types;
 pub use types::{EntityHandle, ColliderHandle, UnaryForceGeneratorHandle};
-- 
2.43.0


From 546be0769fa86d68e2f05c97a2f97003e1fecdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:52 +0000
Subject: [PATCH 32/36] fix: find all forces before changing any velocity

---
 src/physics_system.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index dff0608..674cc52 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -349,7 +349,7 @@ impl PhysicsSystem {
 		for (handle, _) in self.unary_force_generators.borrow().iter() {
 			unary_force_generator_handles.push(handle);
 		}
-		let mut entity_info = Vec::with_capacity(self.entities.borrow().len());
+		let mut entity_accelerations = Vec::with_capacity(self.entities.borrow().len());
 		for handle in entity_handles { // TODO: Optimize this.
 			let mut acceleration = Vec3::zeros();
 			let mut torque = Vec3::zeros();
@@ -369,7 +369,11 @@ impl PhysicsSystem {
 					}
 				}
 			}
-
+			entity_accelerations.push((handle, acceleration, torque));
+		}
+		// Only start changing the entities once all of the forces are known. Otherwise a force that depends on several entities would depend on which was integrated first.
+		let mut entity_info = Vec::with_capacity(entity_accelerations.len());
+		for (handle, acceleration, torque) in entity_accelerations {
 			let mut entities_borrow = self.entities.borrow_mut();
 			let entity = entities_borrow.get_mut(handle).unwrap();
 			// NOTE: Sleeping entities don't move (so nothing should collide with them as if they did). If they're hit during this step(), then that'll give them their velocities.
-- 
2.43.0


From 7e6a8f3da0bf92e0dd2275105a8d7ec0405c8678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:24 +0000
Subject: [PATCH 33/36] fix: storing an unchanged rotation of more than half a
 turn doesn't wake anything up

---
 src/entity.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index 66af6c4..163880a 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -105,7 +105,11 @@ impl InternalEntity {
 	/// Updates from the passed in Entity object.
 	pub fn update_from(&mut self, source : Entity) -> Result<bool,()> {
 		if 0.0 > source.own_mass { return Err(()); }
-		let new_rotation = Quat::from_scaled_axis(source.rotation);
+		let mut new_rotation = Quat::from_scaled_axis(source.rotation);
+		// Negating a quaternion leaves its rotation the same, so stick to whichever of the two is closer to the current one (or else storing an unchanged rotation could look like a change).
+		if 0.0 > new_rotation.coords.dot(&self.orientation.rotation.coords) {
+			new_rotation = Quat::new_unchecked(-new_rotation.into_inner());
+		}
 		let rotation_delta = (
 			(new_rotation.w - self.orientation.rotation.w) * (new_rotation.w - self.orientation.rotation.w) +
 			(new_rotation.i - self.orientation.rotation.i) * (new_rotation.i - self.orientation.rotation.i) +
-- 
2.43.0


From 3316307b05717785dbf96682f260661f7b7be1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:56 +0000
Subject: [PATCH 34/36] fix: a new entity's local origin doesn't depend on what
 it was copied from

---
 src/entity.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index 163880a..08de5f4 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -62,7 +62,8 @@ impl InternalEntity {
 	pub fn new_from(source : Entity) -> Result<InternalEntity, ()> {
 		if 0.0 > source.own_mass { return Err(()); }
 		Ok(InternalEntity {
-			orientation: source.make_orientation(),
+			// There are no colliders linked yet, so the center of mass must start at the origin of the local space (even if the source is a copy of something that has colliders).
+			orientation: Orientation::new(&source.position, &source.rotation, &Vec3::zeros()),
 
 			own_mass: source.own_mass,
 			total_mass: source.own_mass,
-- 
2.43.0


From 87ed2c91f0dfab7e3905c6d111293488485855aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:31 +0000
Subject: [PATCH 35/36] fix: a corner that rests on a mesh's face isn't let
 through by rounding

---
 src/collision.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/collision.rs b/src/collision.rs
index 3ec0698..57b2355 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -583,6 +583,9 @@ fn point_is_on_plane(point : &Vec3, plane_normal : &Vec3, plane_point : &Vec3) -
 	(point - plane_point).dot(plane_normal).abs() < EPSILON
 }
 
+/// How far a point may be past a plane for it to still be considered as resting on it.
+const RESTING_DISTANCE : f32 = 0.0001;
+
 /// Collides a single moving point with a polygon (that's confined to a plane).
 ///
 /// **WARNING:** This is not really meant to be used on its own. This is intended to be used in the mesh-to-mesh collision checking.
@@ -629,7 +632,12 @@ fn collide_point_with_polygon(point_start : &Vec3, point_end : &Vec3, polygon :
 		}
 	} else {
 		// Then it can only be on the plane at one instant.
-		let time = (point_start - polygon[0]).dot(&plane_normal) / -point_delta.dot(&plane_normal);
+		let start_distance = (point_start - polygon[0]).dot(&plane_normal);
+		let mut time = start_distance / -point_delta.dot(&plane_normal);
+		if 0.0 > time && start_distance.abs() < RESTING_DISTANCE {
+			// Rounding can leave something that rests on the plane slightly past it. That mustn't let it through.
+			time = 0.0;
+		}
 		if !time.is_finite() || 0.0 > time || 1.0 < time { // No point-plane collision means no collision at all.
 			return None;
 		}
-- 
2.43.0


From b72117d0bb3fb5da3706b804e0ddefb17718c28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:55 +0000
Subject: [PATCH 36/36] fix: a mesh's corner that's leaving a plane doesn't
 hide another that's entering it

---
 src/collision.rs | 76 +++++++++++++++++++++++++++++-------------------
 1 file changed, 46 insertions(+), 30 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 57b2355..cd648f0 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -159,7 +159,7 @@ pub fn collide(collider1 : &Box<dyn InternalCollider>, start1 : &Orientation, en
 		let plane_start_position = start2.position_into_world(&plane.position);
 		let plane_end_position = end2.position_into_world(&plane.position);
 
-		return collide_mesh_with_plane(
+		return collide_mesh_with_plane_where(
 			&mesh.vertices,
 			&mesh.position,
 			start1,
@@ -167,6 +167,7 @@ pub fn collide(collider1 : &Box<dyn InternalCollider>, start1 : &Orientation, en
 			&plane_start_position,
 			&plane_end_position,
 			&plane.normal,
+			accept,
 		);
 	}
 
@@ -178,7 +179,7 @@ pub fn collide(collider1 : &Box<dyn InternalCollider>, start1 : &Orientation, en
 
 		let mesh  = collider2.downcast_ref::<InternalMeshCollider>().unwrap();
 
-		let collision_option = collide_mesh_with_plane(
+		let collision_option = collide_mesh_with_plane_where(
 			&mesh.vertices,
 			&mesh.position,
 			start2,
@@ -186,6 +187,7 @@ pub fn collide(collider1 : &Box<dyn InternalCollider>, start1 : &Orientation, en
 			&plane_start_position,
 			&plane_end_position,
 			&plane.normal,
+			&|collision| accept(&Collision { times: collision.times, position: collision.position, normal: -collision.normal }),
 		);
 		// Must negate the normal as the mesh is the second collider.
 		if let Some(mut collision) = collision_option {
@@ -502,10 +504,21 @@ struct _MeshCollisionInfo {
 	end_distance : f32,
 }
 
+impl _MeshCollisionInfo {
+	fn distance_at(&self, time : f32) -> f32 {
+		self.start_distance * (1.0 - time) + self.end_distance * time
+	}
+}
+
 /// Collides a mesh with an (infinite) plane.
+#[allow(dead_code)]
 pub fn collide_mesh_with_plane(mesh_vertices : &Vec<Vec3>, mesh_position : &Vec3, mesh_start_orientation : &Orientation, mesh_end_orientation : &Orientation, plane_start_position : &Vec3, plane_end_position : &Vec3, plane_normal : &Vec3) -> Option<Collision> {
-	let mut start_distances = Range::empty();
-	let mut end_distances = Range::empty();
+	collide_mesh_with_plane_where(mesh_vertices, mesh_position, mesh_start_orientation, mesh_end_orientation, plane_start_position, plane_end_position, plane_normal, &|_| true)
+}
+
+/// Collides a mesh with an (infinite) plane, ignoring any vertex that isn't accepted where it touches (so that a vertex that's already leaving the plane can't hide one that's about to enter it).
+pub fn collide_mesh_with_plane_where(mesh_vertices : &Vec<Vec3>, mesh_position : &Vec3, mesh_start_orientation : &Orientation, mesh_end_orientation : &Orientation, plane_start_position : &Vec3, plane_end_position : &Vec3, plane_normal : &Vec3, accept : &dyn Fn(&Collision) -> bool) -> Option<Collision> {
+	let mut times = Range::empty();
 	let mut calculated  = Vec::new();
 	for vertex in mesh_vertices {
 		let internal_vertex_position = mesh_position + vertex;
@@ -515,8 +528,21 @@ pub fn collide_mesh_with_plane(mesh_vertices : &Vec<Vec3>, mesh_position : &Vec3
 		let start_distance = (mesh_start_position - plane_start_position).dot(plane_normal);
 		let end_distance   = (mesh_end_position   - plane_end_position).dot(plane_normal);
 
-		start_distances = start_distances.contain(&Range::single(start_distance));
-		end_distances   = end_distances.contain(&Range::single(end_distance));
+		// The lowest vertex at the start needn't be the lowest one at the end, so look for the first vertex to touch the plane.
+		let vertex_times = Range::range(-INFINITY, 0.0).linear_overlap(
+			&Range::single(start_distance),
+			end_distance - start_distance
+		).intersect(&Range::range(0.0, 1.0));
+		if !vertex_times.is_empty() {
+			let time = vertex_times.min();
+			let position = mesh_start_position * (1.0 - time) + mesh_end_position * time;
+			if !accept(&Collision { times: vertex_times, position, normal: -plane_normal }) {
+				continue;
+			}
+			if times.is_empty() || time < times.min() {
+				times = vertex_times;
+			}
+		}
 
 		calculated.push(_MeshCollisionInfo {
 			start_position: mesh_start_position,
@@ -526,37 +552,27 @@ pub fn collide_mesh_with_plane(mesh_vertices : &Vec<Vec3>, mesh_position : &Vec3
 		});
 	}
 
-	let times = Range::range(-INFINITY, 0.0).linear_overlap(
-		&start_distances,
-		end_distances.min() - start_distances.min()
-	).intersect(&Range::range(0.0, 1.0));
-
 	if !times.is_empty() {
-		let mut closest_start_position_sum = Vec3::zeros();
-		let mut closest_start_position_count : f32 = 0.0;
-		let mut closest_end_position_sum = Vec3::zeros();
-		let mut closest_end_position_count : f32 = 0.0;
+		let time = times.min();
+		let mut distances = Range::empty();
+		for info in &calculated {
+			distances = distances.contain(&Range::single(info.distance_at(time)));
+		}
 		// Apparently the standard EPSILON is a bit too small...
 		// The lower limit keeps rounding errors from picking out some of the vertices of a mesh that's flat against the plane.
-		let start_epsilon = (start_distances.size() * 0.01).max(0.0001);
-		let end_epsilon = (end_distances.size() * 0.01).max(0.0001);
-		for info in calculated {
-			if start_epsilon >= (info.start_distance - start_distances.min()).abs() {
-				closest_start_position_sum += info.start_position;
-				closest_start_position_count += 1.0;
-			}
-			if end_epsilon >= (info.end_distance - end_distances.min()).abs() {
-				closest_end_position_sum += info.end_position;
-				closest_end_position_count += 1.0;
+		let epsilon = (distances.size() * 0.01).max(0.0001);
+		let mut closest_position_sum = Vec3::zeros();
+		let mut closest_position_count : f32 = 0.0;
+		for info in &calculated {
+			let position = info.start_position * (1.0 - time) + info.end_position * time;
+			if epsilon >= (info.distance_at(time) - distances.min()).abs() && accept(&Collision { times, position, normal: -plane_normal }) {
+				closest_position_sum += position;
+				closest_position_count += 1.0;
 			}
 		}
-		closest_start_position_sum /= closest_start_position_count;
-		closest_end_position_sum /= closest_end_position_count;
-
-		let time = times.min();
 		Some(Collision {
 			times: times,
-			position: closest_start_position_sum * (1.0 - time) + closest_end_position_sum * time,
+			position: closest_position_sum / closest_position_count,
 			normal: -plane_normal,
 		})
 	} else {
-- 
2.43.0

