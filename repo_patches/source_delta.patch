From f02610a7fee5859dcfaaa9816ba22d244ca6651e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:50 +0000
Subject: [PATCH 01/97] fix: re-parenting a graph element removes it from its
 previous parent

---
 nonlinear_avoidance/graph_handler.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index 834dac0..aa42f94 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -28,13 +28,22 @@ class GraphElement:
         return len(self.children)
 
     def add_child(self, child):
+        child._detach_from_parent()
         self.children.append(child)
         child.parent = self
 
     def set_parent(self, parent):
+        self._detach_from_parent()
         self.parent = parent
         parent.children.append(self)
 
+    def _detach_from_parent(self):
+        """An element is listed by (at most) one parent."""
+        if self.parent is not None:
+            self.parent.children = [
+                child for child in self.parent.children if child is not self
+            ]
+
     def expel(self):
         """Removes all connection to all under and overlying elements."""
         logging.warn("Active deleting of graph element is not fully defined.")
-- 
2.43.0


From d48b75270e434681062285e501d543abe71f7ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:50 +0000
Subject: [PATCH 02/97] fix: element added with a parent is listed among the
 children of that parent

---
 nonlinear_avoidance/graph_handler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index aa42f94..fb57f4c 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -70,7 +70,10 @@ class BasicGraphHandler:
         self._graph.append(self._root)
 
     def add_element_with_parent(self, child, parent):
-        self._graph.append(GraphElement(value=child, parent=parent))
+        element = GraphElement(value=child)
+        if parent is not None:
+            parent.add_child(element)
+        self._graph.append(element)
 
     def delete_element(self, element):
         """Value should the reference to the to-be-deleted element."""
-- 
2.43.0


From 1c9cfe1465cd0d77977ec809e68b09cc95e8f56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:50 +0000
Subject: [PATCH 03/97] fix: graph handler drops the previous parent link when
 setting a new parent

---
 nonlinear_avoidance/graph_handler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index fb57f4c..b5c656d 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -137,6 +137,11 @@ class GraphHandler:
         ind_node = self._node_values.index(value)
         ind_parent = self._node_values.index(parent_value)
 
+        # Element is only listed as a child of its current parent
+        ind_old_parent = self._parent_index[ind_node]
+        if ind_old_parent is not None:
+            self._children_indices[ind_old_parent].remove(ind_node)
+
         # Set parent and children
         self._children_indices[ind_parent].append(ind_node)
         self._parent_index[ind_node] = ind_parent
-- 
2.43.0


From b5635e7ef855dfcf14b22991f6a5dcb7a551eee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:50 +0000
Subject: [PATCH 04/97] fix: graph handler returns its roots and its nodes from
 the top down

---
 nonlinear_avoidance/graph_handler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index b5c656d..cbf0ecf 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -102,7 +102,7 @@ class GraphHandler:
 
     @property
     def roots(self):
-        return [ind_par for ind_par in self._parent_index if ind_par is None]
+        return [self._node_values[ii] for ii in self.get_root_indices()]
 
     def get_root_indices(self):
         return [ii for ii, ind_par in enumerate(self._parent_index) if ind_par is None]
@@ -151,10 +151,10 @@ class GraphHandler:
 
         ii = 0
         while ii < len(node_indices):
-            node_indices += self.children_indices[node_indices[ii]]
+            node_indices += self._children_indices[node_indices[ii]]
             ii += 1
 
-        return self._node_values[node_indices]
+        return [self._node_values[ind] for ind in node_indices]
 
     def delete_element(self, element: GraphType):
         """Value should the reference to the to-be-deleted element."""
-- 
2.43.0


From 9c43ef3f35c087df63cb76f5a328a2070eafa878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:50 +0000
Subject: [PATCH 05/97] fix: deleting / replacing an obstacle keeps the
 convergence dynamics in step

---
 nonlinear_avoidance/rotation_container.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/rotation_container.py b/nonlinear_avoidance/rotation_container.py
index 716d808..dae395a 100644
--- a/nonlinear_avoidance/rotation_container.py
+++ b/nonlinear_avoidance/rotation_container.py
@@ -32,11 +32,11 @@ class RotationContainer(BaseContainer):
 
     def __delitem__(self, key):
         """Obstacle is not part of the workspace anymore."""
-        super().__delitem__(self._obstacle_list[key])
-        del self._convergence_dynamics
+        super().__delitem__(key)
+        del self._convergence_dynamics[key]
 
     def __setitem__(self, key, value):
-        super().__setitem__(self._obstacle_list[key])
+        super().__setitem__(key, value)
         self._convergence_dynamics[key] = None
 
     def set_convergence_directions(
-- 
2.43.0


From a76aac7e819415b7292a041cdea68eda6ad29497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:50 +0000
Subject: [PATCH 06/97] fix: multi-ellipse obstacle also protects links to
 component zero

---
 nonlinear_avoidance/multi_ellipse_obstacle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multi_ellipse_obstacle.py b/nonlinear_avoidance/multi_ellipse_obstacle.py
index 51df36a..3974231 100644
--- a/nonlinear_avoidance/multi_ellipse_obstacle.py
+++ b/nonlinear_avoidance/multi_ellipse_obstacle.py
@@ -97,14 +97,14 @@ class MultiEllipseObstacle(Obstacle):
         return self._obstacle_list[idx_obs]
 
     def set_root(self, obs_id: int):
-        if self._root_idx:
+        if self._root_idx is not None:
             raise NotImplementedError("Make sure to delete first.")
         self._root_idx = obs_id
         self._parent_list[obs_id] = -1
 
     def set_parent(self, obs_id: int, parent_id: int):
         # This should go automatically at run-time
-        if self._parent_list[obs_id]:
+        if self._parent_list[obs_id] is not None:
             raise NotImplementedError("Make sure to delete first.")
 
         self._parent_list[obs_id] = parent_id
-- 
2.43.0


From 4eb1cbc31ab2205476dff49ec647714e64a8a263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:51 +0000
Subject: [PATCH 07/97] fix: rotating a vector rotation uses the base of the
 applied rotation

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index b84a461..fe8504d 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -200,7 +200,7 @@ class VectorRotationXd:
         rotation = copy.deepcopy(rotation)
         rotation.base = rotate_array(
             directions=rotation.base,
-            base=rotation.base,
+            base=self.base,
             rotation_angle=rot_factor * self.rotation_angle,
         )
         return rotation
-- 
2.43.0


From 842e5ee6fdc848ad31dfe4949f38540e21659b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:51 +0000
Subject: [PATCH 08/97] fix: a direction appended to a rotation sequence
 continues from its end vector

---
 nonlinear_avoidance/vector_rotation.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index fe8504d..514b8d2 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -304,9 +304,7 @@ class VectorRotationSequence:
         return self.basis_array[:, [0, -1]]
 
     def append_from_direction(self, direction: Vector) -> None:
-        rotation = VectorRotationXd.from_directions(
-            self.basis_array[:, -1, -1], direction
-        )
+        rotation = VectorRotationXd.from_directions(self.get_end_vector(), direction)
         self.append_from_base_and_angle(rotation.base, rotation.rotation_angle)
 
     def append_from_base_and_angle(self, base0: np.ndarray, angle: float) -> None:
-- 
2.43.0


From 87d823063280cc726325cd9367e7e44c0f324108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:51 +0000
Subject: [PATCH 09/97] fix: rotation tree returns its root, parent and
 children, and rotates by its weighted mean

---
 nonlinear_avoidance/vector_rotation.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 514b8d2..bbd36dc 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -423,7 +423,7 @@ class VectorRotationTree:
 
     @property
     def root(self) -> NodeType:
-        return self._graph.nodes(self._root_idx)
+        return self._graph.nodes[self._root_idx]
 
     @property
     def dimension(self) -> int:
@@ -436,11 +436,11 @@ class VectorRotationTree:
 
     def get_parent(self, node_id: NodeType) -> NodeType:
         """Returns the (unique) parent."""
-        return self._graph.predecessors(node_id)[0]
+        return next(self._graph.predecessors(node_id))
 
     def get_children(self, node_id: NodeType) -> list[NodeType]:
         """Returns all the children of an input node."""
-        return self._graph.successors(node_id)
+        return list(self._graph.successors(node_id))
 
     def add_node_orientation(
         self, node_id: NodeType, orientation: VectorRotationXd, parent_id: NodeType
@@ -875,7 +875,7 @@ class VectorRotationTree:
         """Returns the rotated vector based on the mean-direction.
 
         Assumption that the initial"""
-        rotated_dir = self.get_weighted_mean()
+        rotated_dir = self.get_weighted_mean(node_list, weights)
         temp_rotation = VectorRotationXd.from_directions(
             self.root["orientation"].base[:, 0], rotated_dir
         )
@@ -892,7 +892,7 @@ class VectorRotationTree:
         """Returns the rotated vector based on the mean-direction.
 
         Assumption that the initial"""
-        rotated_dir = self.get_weighted_mean()
+        rotated_dir = self.get_weighted_mean(node_list, weights)
         temp_rotation = VectorRotationXd.from_directions(
             rotated_dir, self.root["orientation"].base[:, 0]
         )
-- 
2.43.0


From ff8e3a4c5f09a13992213eeb4c7c79ccc21fbdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:51 +0000
Subject: [PATCH 10/97] fix: changing the direction of a tree node with
 children

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index bbd36dc..55f6455 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -559,7 +559,7 @@ class VectorRotationTree:
         # Do better checks to accelerate
         successors = self.get_all_childs_children(node_id)
         for succ in successors:
-            succ["orientation"] = None
+            self._graph.nodes[succ]["orientation"] = None
 
     def evaluate_all_orientations(
         self, sorted_list: list[NodeType] = None, pi_margin: Optional[float] = None
-- 
2.43.0


From 8b9e3dccf85e81ab1e9ca54a221f0d936a721543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:51 +0000
Subject: [PATCH 11/97] fix: creating a zero rotation

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 55f6455..88c68e5 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -913,4 +913,4 @@ class VectorRotationTree:
 
 def create_zero_vector_rotation(dimension: int) -> VectorRotationXd:
     """Creates a zero vector rotation object."""
-    return VectorRotationXd(base=np.eye((dimension, 2)), rotation_angle=0.0)
+    return VectorRotationXd(base=np.eye(dimension, 2), rotation_angle=0.0)
-- 
2.43.0


From 99a2fb78e595daafe0c0358e6b5f78ef27128a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:04 +0000
Subject: [PATCH 12/97] fix: graph elements are told apart by identity, not by
 equal values

---
 nonlinear_avoidance/graph_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index cbf0ecf..0191af3 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -13,7 +13,7 @@ GraphType = np.ndarray
 
 
 # @dataclass(slots=True)
-@dataclass
+@dataclass(eq=False)
 class GraphElement:
     """Hirarchy Element which Tracks the parent and children of current obstacle."""
 
-- 
2.43.0


From 1baec6948cabb668cd5058c447a1fd8156a4d6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:05 +0000
Subject: [PATCH 13/97] fix: continuation weight of a single obstacle gets
 reference and convergence in the right order

---
 nonlinear_avoidance/avoidance/rotational_avoider.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/avoidance/rotational_avoider.py b/nonlinear_avoidance/avoidance/rotational_avoider.py
index b0af7fb..2a9327a 100644
--- a/nonlinear_avoidance/avoidance/rotational_avoider.py
+++ b/nonlinear_avoidance/avoidance/rotational_avoider.py
@@ -1085,7 +1085,10 @@ class RotationalAvoider(BaseAvoider):
         # unitdir_reference = UnitDirection(base).from_vector(reference_vector)
 
         weight = self.get_smooth_continuation_weight(
-            gamma, convergence_vector, reference_vector, base
+            gamma=gamma,
+            vector_reference=reference_vector,
+            vector_convergence=convergence_vector,
+            base=base,
         )
 
         if weight <= 0:
-- 
2.43.0


From 9df3d2ad97dfca803c7a3eb0bbd0d074f38c3474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:54 +0000
Subject: [PATCH 14/97] fix: slow-down towards an obstacle is defined for
 exactly aligned directions

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 1abda8b..1445076 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -367,12 +367,12 @@ class MultiObstacleAvoider:
         """Returns scaling factor between [0, 1]"""
         rot_weight = np.array(self._rotation_weights)
         conv_prox = np.array(self._convergence_reference_proximity)
-        ind_pos = np.logical_and(rot_weight > 0.0, 0.0 < conv_prox, conv_prox < 1.0)
+        ind_pos = np.logical_and(rot_weight > 0.0, 0.0 < conv_prox)
 
+        # Aligned unit vectors can exceed a proximity of 1 due to rounding
+        conv_dist = np.maximum(1 - conv_prox[ind_pos], 0.0)
         scaling = np.ones_like(rot_weight)
-        scaling[ind_pos] = ((1 - conv_prox[ind_pos]) / rot_weight[ind_pos]) ** (
-            power_factor
-        )
+        scaling[ind_pos] = (conv_dist / rot_weight[ind_pos]) ** power_factor
         # Ensure a max of 1 (!)
         return min(np.min(scaling), 1)
 
-- 
2.43.0


From 46c141af80ec206029d34741d3c82eb7d66887d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:39 +0000
Subject: [PATCH 15/97] fix: speed is kept when no obstacle has any influence

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 1445076..b864881 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -329,7 +329,7 @@ class MultiObstacleAvoider:
         final_velocity = final_sequence.get_end_vector()
 
         if len(self._cluster_weights) <= 0:
-            return final_velocity + relative_velocity
+            return final_velocity * initial_magnitude + relative_velocity
 
         # averaged_normal, gamma = self.compute_averaged_normal_and_gamma(position)
         averaged_normal = np.sum(
-- 
2.43.0


From 0c66db6b184b5d8aab63050960f33776b8945808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:50 +0000
Subject: [PATCH 16/97] fix: convergence is evaluated around the obstacle it is
 weighted with

---
 nonlinear_avoidance/nonlinear_rotation_avoider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/nonlinear_rotation_avoider.py b/nonlinear_avoidance/nonlinear_rotation_avoider.py
index b0186fa..e0a7f24 100644
--- a/nonlinear_avoidance/nonlinear_rotation_avoider.py
+++ b/nonlinear_avoidance/nonlinear_rotation_avoider.py
@@ -385,7 +385,7 @@ class SingularityConvergenceDynamics(BaseAvoider):
             local_velocities[
                 :, ii
             ] = self.obstacle_convergence.evaluate_convergence_around_obstacle(
-                position, obstacle=self._rotation_avoider.obstacle_environment[ii]
+                position, obstacle=self._rotation_avoider.obstacle_environment[it_obs]
             )
 
             direction_tree.add_node(
-- 
2.43.0


From a99e26d8a180b7acb3200a7a96d516dc2f30f899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:09 +0000
Subject: [PATCH 17/97] fix: maximum velocity of circular dynamics also limits
 outside of the slow-down region

---
 nonlinear_avoidance/dynamics/circular_dynamics.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/circular_dynamics.py b/nonlinear_avoidance/dynamics/circular_dynamics.py
index f702481..7e53053 100644
--- a/nonlinear_avoidance/dynamics/circular_dynamics.py
+++ b/nonlinear_avoidance/dynamics/circular_dynamics.py
@@ -269,18 +269,14 @@ class SimpleCircularDynamics(DynamicalSystem):
         if not (dir_norm := LA.norm(direction)):
             return direction
 
-        normalized_direction = direction / dir_norm
+        velocity = direction / dir_norm * self.maximum_velocity
 
         # Slow down towards the directional-singularity
         slow_down_distance = 1 / 3 * self.radius
         if pos_norm < slow_down_distance:
-            normalized_direction = (
-                normalized_direction
-                * (pos_norm / slow_down_distance)
-                * self.maximum_velocity
-            )
+            velocity = velocity * (pos_norm / slow_down_distance)
 
-        return self.pose.transform_direction_from_relative(normalized_direction)
+        return self.pose.transform_direction_from_relative(velocity)
 
 
 def test_rotation_circle(visualize=False):
-- 
2.43.0


From 30fab72c3835ec0ebedaf7f79587eb07de183ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:09 +0000
Subject: [PATCH 18/97] fix: rotating part of the spiral is a direction,
 independent of the center position

---
 nonlinear_avoidance/dynamics/spiral_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/spiral_dynamics.py b/nonlinear_avoidance/dynamics/spiral_dynamics.py
index b81c618..37566b3 100644
--- a/nonlinear_avoidance/dynamics/spiral_dynamics.py
+++ b/nonlinear_avoidance/dynamics/spiral_dynamics.py
@@ -49,7 +49,7 @@ class SpiralingDynamics3D:
         rotating_vel2d = self.circular_dynamics.evaluate(local_position[1:])
 
         rotating_velocity = np.hstack((0.0, rotating_vel2d))
-        rotating_velocity = self.pose.transform_position_from_relative(
+        rotating_velocity = self.pose.transform_direction_from_relative(
             rotating_velocity
         )
 
-- 
2.43.0


From a3d4b95069d7b2fb15e0e6d64524fc8fc6808fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:36 +0000
Subject: [PATCH 19/97] fix: rotation of the shrunk position passes the
 deflation weight by its name

---
 nonlinear_avoidance/dynamics/projected_rotation_dynamics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
index ac00a06..fe8c0c6 100644
--- a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
+++ b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
@@ -555,10 +555,10 @@ class ProjectedRotationDynamics:
         """
         shrinking_weight = 1.0
         shrunk_position = self._get_position_after_deflating_obstacle(
-            position, in_obstacle_frame=False, weight=shrinking_weight
+            position, in_obstacle_frame=False, deflation_weight=shrinking_weight
         )
         shrunk_attractor = self._get_position_after_deflating_obstacle(
-            self.attractor_position, in_obstacle_frame=False, weight=shrinking_weight
+            self.attractor_position, in_obstacle_frame=False, deflation_weight=shrinking_weight
         )
 
         dir_attr_to_pos = shrunk_attractor - shrunk_position
-- 
2.43.0


From 5d71208bb908f83604a6dd2e4b5292ff2f0bb8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 20/97] fix: weights on several segments at once are shared

---
 nonlinear_avoidance/dynamics/segmented_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/segmented_dynamics.py b/nonlinear_avoidance/dynamics/segmented_dynamics.py
index e985055..3644624 100644
--- a/nonlinear_avoidance/dynamics/segmented_dynamics.py
+++ b/nonlinear_avoidance/dynamics/segmented_dynamics.py
@@ -116,7 +116,7 @@ class WavyPathFollowing(Dynamics):
 
         zero_dist = distances == 0
         if np.any(zero_dist):
-            weights = 1.0 * zero_dist
+            weights = zero_dist / np.sum(zero_dist)
             return np.append(weights, 0)
 
         weights = (weight_factor / distances) ** weight_power
-- 
2.43.0


From cf0254c172429f864e1e51441b80b05858f611ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 21/97] fix: path following rests with a zero vector at its end

---
 nonlinear_avoidance/dynamics/segmented_dynamics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/segmented_dynamics.py b/nonlinear_avoidance/dynamics/segmented_dynamics.py
index 3644624..3db140f 100644
--- a/nonlinear_avoidance/dynamics/segmented_dynamics.py
+++ b/nonlinear_avoidance/dynamics/segmented_dynamics.py
@@ -179,8 +179,8 @@ class WavyPathFollowing(Dynamics):
 
     def evaluate(self, position: np.ndarray) -> np.ndarray:
         vel_attractor = self.evaluate_magnitude(position)
-        if not np.linalg.norm(vel_attractor):
-            return vel_attractor
+        if not vel_attractor:
+            return np.zeros_like(position, dtype=float)
 
         sequence = self.evaluate_dynamics_sequence(position)
         return sequence.get_end_vector() * vel_attractor
-- 
2.43.0


From 3d04fac312cc5bc8b3001ccbf88c9ed2708b8048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:06 +0000
Subject: [PATCH 22/97] fix: convergence velocity of the linear system respects
 the velocity limit

---
 nonlinear_avoidance/dynamics/nonlinear_deviation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/nonlinear_deviation.py b/nonlinear_avoidance/dynamics/nonlinear_deviation.py
index cd99398..e3d93f1 100644
--- a/nonlinear_avoidance/dynamics/nonlinear_deviation.py
+++ b/nonlinear_avoidance/dynamics/nonlinear_deviation.py
@@ -321,7 +321,7 @@ class PerpendicularDeviatoinOfLinearDS(DirectionalSystem):
         direction = self.attractor_position - position
 
         if dir_norm := LA.norm(direction):
-            dir_norm = direction / dir_norm * self.get_velocity_factor(dir_norm)
+            direction = direction / dir_norm * self.get_velocity_factor(dir_norm)
 
         return direction
 
-- 
2.43.0


From 418e5614804caccf89b2ff57693890aa874caa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:06 +0000
Subject: [PATCH 23/97] fix: local rotation also acts at a right angle to the
 obstacle, and not opposite of it

---
 nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py b/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
index d196543..da9e637 100644
--- a/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
+++ b/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
@@ -215,7 +215,7 @@ class LocallyRotatedFromObtacle(DynamicalSystem):
         attractor_dir = attractor_dir / dist_attractor
         dot_product = np.dot(attractor_dir, self.rotation.base0)
 
-        if not dot_product or not weight:
+        if dot_product <= -1 or not weight:
             return attractor_dir * min(dist_attractor, self.maximum_velocity)
 
         # And attractor
-- 
2.43.0


From cc7f7dd305795da80e88b5db3972c2b1f43a1502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:06 +0000
Subject: [PATCH 24/97] fix: local rotation of an obstacle at the attractor
 evaluates to zero deviation

---
 .../dynamics/locally_rotated_linear_dynamics.py     | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py b/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
index da9e637..d353ca0 100644
--- a/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
+++ b/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
@@ -59,18 +59,20 @@ class LocallyRotatedFromObtacle(DynamicalSystem):
 
         reference_velocity = reference_velocity / self.maximum_velocity
 
+        self.min_gamma = min_gamma
+        self.max_gamma = max_gamma
+        # Modify if needed
+        self.attractor_influence = 3
+
         attractor_dir = self.attractor_position - obstacle.center_position
         if not (attr_norm := LA.norm(attractor_dir)):
             warnings.warn("Obstacle is at attractor - zero deviation")
+            self.rotation = None
             return
 
         self.rotation = VectorRotationXd.from_directions(
             vec_init=attractor_dir / attr_norm, vec_rot=reference_velocity
         )
-        self.min_gamma = min_gamma
-        self.max_gamma = max_gamma
-        # Modify if needed
-        self.attractor_influence = 3
 
         # self.base = get_orthogonal_basis()
         # self.deviation = get_angle_space(reference_velocity, null_matrix=self.base)
@@ -213,6 +215,9 @@ class LocallyRotatedFromObtacle(DynamicalSystem):
             return np.zeros_like(position)
 
         attractor_dir = attractor_dir / dist_attractor
+        if self.rotation is None:
+            return attractor_dir * min(dist_attractor, self.maximum_velocity)
+
         dot_product = np.dot(attractor_dir, self.rotation.base0)
 
         if dot_product <= -1 or not weight:
-- 
2.43.0


From 6cb84683510adaf101cc82c5a09b1ba5f1faf93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:06 +0000
Subject: [PATCH 25/97] fix: spiral towards an attractor rests where its
 velocity vanishes

---
 nonlinear_avoidance/dynamics/spiral_dynamics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/spiral_dynamics.py b/nonlinear_avoidance/dynamics/spiral_dynamics.py
index 37566b3..016e65c 100644
--- a/nonlinear_avoidance/dynamics/spiral_dynamics.py
+++ b/nonlinear_avoidance/dynamics/spiral_dynamics.py
@@ -121,7 +121,10 @@ class SpiralingAttractorDynamics3D:
             velocity_to_attractor = velocity_to_attractor / base_vel_norm * self.speed
 
         combined_velocity = rotating_velocity + velocity_to_attractor
-        combined_velocity = combined_velocity / np.linalg.norm(combined_velocity)
+        if not (combined_norm := np.linalg.norm(combined_velocity)):
+            return combined_velocity
+
+        combined_velocity = combined_velocity / combined_norm
         combined_velocity = combined_velocity * self.speed
         return combined_velocity
 
-- 
2.43.0


From 746c2d69d34630e12018201b8dc025d356078627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 26/97] fix: multivariate gaussian evaluates around its mean

---
 nonlinear_avoidance/multivariant_gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multivariant_gaussian.py b/nonlinear_avoidance/multivariant_gaussian.py
index 33a15b5..d824bf7 100644
--- a/nonlinear_avoidance/multivariant_gaussian.py
+++ b/nonlinear_avoidance/multivariant_gaussian.py
@@ -44,14 +44,14 @@ class MultiVariantGaussian:
             return 0
 
     def evaluate(self, position):
-        delta_dist = position - self.mean
+        delta_dist = position - self._mean
         exp_value = np.exp(
             (-0.5) * delta_dist.T @ self._precision_cholesky @ delta_dist
         )
         return self._fraction_value * exp_value
 
     def evaluate_derivative(self, position):
-        delta_dist = position - self.mean
+        delta_dist = position - self._mean
         exp_value = np.exp(
             (-0.5) * delta_dist.T @ self._precision_cholesky @ delta_dist
         )
-- 
2.43.0


From 2e1c751b80e214b328c5498860635c9bdc9d6b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 27/97] fix: derivative of the multivariate gaussian is the
 gradient of its value

---
 nonlinear_avoidance/multivariant_gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multivariant_gaussian.py b/nonlinear_avoidance/multivariant_gaussian.py
index d824bf7..65f9ce6 100644
--- a/nonlinear_avoidance/multivariant_gaussian.py
+++ b/nonlinear_avoidance/multivariant_gaussian.py
@@ -57,7 +57,7 @@ class MultiVariantGaussian:
         )
 
         return (
-            (-0.5 * self._precision_cholesky @ delta_dist)
+            (-1) * (self._precision_cholesky @ delta_dist)
             * self._fraction_value
             * exp_value
         )
-- 
2.43.0


From 48934bf8d975b5e201f982c7f28ab622eca56bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 28/97] fix: learned prediction of a sample does not depend on
 the other samples

---
 nonlinear_avoidance/gmm_learner/learner/directional_gmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index daea828..6fd001a 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -392,7 +392,7 @@ class DirectionalGMM(Learner, LearnerVisualizer):
             # Add zero velocity
             mu_yx = np.dstack((mu_yx, np.zeros((dim_out, n_samples, 1))))
 
-        beta_norm = np.sum(beta)
+        beta_norm = np.sum(beta, axis=0)
         beta = beta / beta_norm * (beta_norm**self.beta_power)
 
         regression_value = np.sum(np.tile(beta.T, (dim_out, 1, 1)) * mu_yx, axis=2).T
-- 
2.43.0


From 84d4cc62f87224569cbb4fe63f6e0e90d0abdb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 29/97] fix: velocity crop acts on the velocity features of
 each sample

---
 nonlinear_avoidance/gmm_learner/learner/directional_gmm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index 6fd001a..2e40105 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -115,7 +115,7 @@ class DirectionalGMM(Learner, LearnerVisualizer):
             values = values / np.tile(self.scale_x[dims_ind], (n_samples, 1))
 
         if self.crop_vel is not None:
-            velocities = values[self.dim_space : self.dim_space * 2]
+            velocities = np.copy(values[:, self.dim_space : self.dim_space * 2])
             mag_vel = np.linalg.norm(velocities, axis=1)
             ind_large = mag_vel > self.crop_vel
 
@@ -123,10 +123,10 @@ class DirectionalGMM(Learner, LearnerVisualizer):
                 values = np.copy(values)
                 velocities[ind_large, :] = (
                     velocities[ind_large, :]
-                    / np.tile(mag_vel[ind_large], (values.shape[1], 1)).T
+                    / np.tile(mag_vel[ind_large], (velocities.shape[1], 1)).T
                 )
 
-                values[self.dim_space : self.dim_space * 2, :] = velocities
+                values[:, self.dim_space : self.dim_space * 2] = velocities
         return values
 
     def transform_normalized_to_initial(self, values, dims_ind):
-- 
2.43.0


From b0a137290d71ad44bad52add71a1ec443ceecbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 30/97] fix: trajectories of a learned motion start at the
 given starting points

---
 nonlinear_avoidance/gmm_learner/learner/base.py            | 1 +
 nonlinear_avoidance/gmm_learner/learner/directional_gmm.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/nonlinear_avoidance/gmm_learner/learner/base.py b/nonlinear_avoidance/gmm_learner/learner/base.py
index 714b2f6..d9dda30 100755
--- a/nonlinear_avoidance/gmm_learner/learner/base.py
+++ b/nonlinear_avoidance/gmm_learner/learner/base.py
@@ -150,6 +150,7 @@ class Learner(ABC):
         else:
             n_trajectories = starting_points.shape[1]
             trajectory_list = np.zeros((self.dim, n_steps, n_trajectories))
+            trajectory_list[:, 0, :] = starting_points
 
         for ii in range(n_trajectories):
             for nn in range(1, n_steps):
diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index 2e40105..9fcc52c 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -591,6 +591,7 @@ class DirectionalGMM(Learner, LearnerVisualizer):
         else:
             nTraj = starting_points.shape[1]
             x_traj = np.zeros((self.dim, num_steps, nTraj))
+            x_traj[:, 0, :] = starting_points
 
         # Do the first step without velocity
         print("Doint the integration.")
-- 
2.43.0


From 102e8203af3131171537abfbb33b932dbd404d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 31/97] fix: integration of a learned motion starts with a
 prediction

---
 nonlinear_avoidance/gmm_learner/learner/directional_gmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index 9fcc52c..7415e90 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -599,7 +599,7 @@ class DirectionalGMM(Learner, LearnerVisualizer):
             # x_traj[:, 1, ii]= rk4(delta_t, x_traj[:, 0, ii], self.predict)
             # xd = x_traj[:, 1, ii] - x_traj[:, 0, ii]
 
-            xd = self.predict2(x_traj[:, 0, ii])
+            xd = self.predict(x_traj[:, 0, ii])
             x_traj[:, 1, ii] = x_traj[:, 0, ii] + xd * delta_t
 
             for nn in range(2, num_steps):
-- 
2.43.0


From 60221aafe0a587ed236b7bbe9da2ba2ac9b6df3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 32/97] fix: errors on both sides of the path do not cancel out

---
 nonlinear_avoidance/comparison/evaluation_trajectories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories.py b/nonlinear_avoidance/comparison/evaluation_trajectories.py
index 78ee76e..5f7e559 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories.py
@@ -47,7 +47,7 @@ def normalize_velocities(velocities):
 def mean_squared_error_to_path(trajectory, center_position, radius):
     # Assumption of circular dynamics
     traj_centered = trajectory - np.tile(center_position, (trajectory.shape[1], 1)).T
-    err_squared = np.sum(traj_centered**2, axis=0) - radius**2
+    err_squared = abs(np.sum(traj_centered**2, axis=0) - radius**2)
 
     return np.mean(err_squared)
 
-- 
2.43.0


From a9018600af4b700dd7f74d63e88c30d13b43309e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 33/97] fix: velocity deviation compares each velocity to the
 dynamics at its own position

---
 nonlinear_avoidance/comparison/evaluation_trajectories.py       | 2 ++
 .../comparison/evaluation_trajectories_with_std.py              | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories.py b/nonlinear_avoidance/comparison/evaluation_trajectories.py
index 5f7e559..d8e82e4 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories.py
@@ -73,6 +73,7 @@ def dot_product_acceleration(trajectory, delta_time):
 
 def mean_squared_velocity_deviation(trajectory, dynamic_functor, delta_time):
     velocities = (trajectory[:, 1:] - trajectory[:, :-1]) / delta_time
+    trajectory = trajectory[:, :-1][:, LA.norm(velocities, axis=0) > 0]
     velocities = normalize_velocities(velocities)
 
     init_velocities = np.zeros_like(velocities)
@@ -87,6 +88,7 @@ def mean_squared_velocity_deviation(trajectory, dynamic_functor, delta_time):
 
 def dot_product_velocity_deviation(trajectory, dynamic_functor, delta_time):
     velocities = (trajectory[:, 1:] - trajectory[:, :-1]) / delta_time
+    trajectory = trajectory[:, :-1][:, LA.norm(velocities, axis=0) > 0]
     velocities = normalize_velocities(velocities)
 
     init_velocities = np.zeros_like(velocities)
diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py b/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
index 9ed79a0..35bb9d5 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
@@ -74,6 +74,7 @@ def dot_product_acceleration(trajectory, delta_time):
 
 def mean_squared_velocity_deviation(trajectory, dynamic_functor, delta_time):
     velocities = (trajectory[:, 1:] - trajectory[:, :-1]) / delta_time
+    trajectory = trajectory[:, :-1][:, LA.norm(velocities, axis=0) > 0]
     velocities = normalize_velocities(velocities)
 
     init_velocities = np.zeros_like(velocities)
@@ -88,6 +89,7 @@ def mean_squared_velocity_deviation(trajectory, dynamic_functor, delta_time):
 
 def dot_product_velocity_deviation(trajectory, dynamic_functor, delta_time):
     velocities = (trajectory[:, 1:] - trajectory[:, :-1]) / delta_time
+    trajectory = trajectory[:, :-1][:, LA.norm(velocities, axis=0) > 0]
     velocities = normalize_velocities(velocities)
 
     init_velocities = np.zeros_like(velocities)
-- 
2.43.0


From 9585eb6fb3450a81459adbf0f73d18824c100b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 34/97] fix: trajectory evaluation imports what it uses

---
 nonlinear_avoidance/comparison/evaluation_trajectories.py       | 2 ++
 .../comparison/evaluation_trajectories_with_std.py              | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories.py b/nonlinear_avoidance/comparison/evaluation_trajectories.py
index d8e82e4..95b450d 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories.py
@@ -6,6 +6,8 @@ Library for the Rotation (Modulation Imitation) of Linear Systems
 # Created: 2022-01-20
 
 import json
+import os
+import warnings
 from dataclasses import dataclass
 
 import math
diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py b/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
index 35bb9d5..34c0f85 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
@@ -6,6 +6,8 @@ Library for the Rotation (Modulation Imitation) of Linear Systems
 # Created: 2022-01-20
 
 import json
+import os
+import warnings
 from dataclasses import dataclass
 
 import math
-- 
2.43.0


From 852d0bdb185c57745b594795407c365a0b15ca4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 35/97] fix: spread of the free fraction is taken over the runs

---
 nonlinear_avoidance/comparison/evaluation_path_following.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/comparison/evaluation_path_following.py b/nonlinear_avoidance/comparison/evaluation_path_following.py
index 2e3f7a7..8b8111d 100644
--- a/nonlinear_avoidance/comparison/evaluation_path_following.py
+++ b/nonlinear_avoidance/comparison/evaluation_path_following.py
@@ -38,7 +38,7 @@ class TrajectoryEvaluator:
 
         occupied = 1 - df[" free_fraction"]
         self.occupied_mean = np.mean(occupied)
-        self.occupied_std = np.std(np.mean(occupied))
+        self.occupied_std = np.std(occupied)
 
         self.gammas_mean = df[" gammas"].mean()
         self.gammas_var = df[" gammas"].var()
-- 
2.43.0


From e8ceca9c226af1dfaab9f8e63a59abf694ca7c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 36/97] fix: trajectory evaluation compares to the reference
 circle of radius two

---
 nonlinear_avoidance/comparison/evaluation_trajectories.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories.py b/nonlinear_avoidance/comparison/evaluation_trajectories.py
index 95b450d..2c1871c 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories.py
@@ -18,6 +18,7 @@ from numpy import linalg as LA
 
 import matplotlib.pyplot as plt
 
+from vartools.states import Pose
 from nonlinear_avoidance.dynamics.circular_dynamics import (
     # CircularRotationDynamics,
     SimpleCircularDynamics,
@@ -134,7 +135,9 @@ class TrajectoryEvaluator:
         delta_time = simulation_parameters["delta_time"]
         it_max = simulation_parameters["it_max"]
 
-        initial_dynamics = SimpleCircularDynamics(dimension=2)
+        initial_dynamics = SimpleCircularDynamics(
+            pose=Pose.create_trivial(dimension=2), radius=2.0
+        )
 
         datafolder_path = os.path.join(self.data_path, self.data_folder)
         files_list = os.listdir(datafolder_path)
-- 
2.43.0


From 6399e682659aa840c59baafe128adcd34389e2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 37/97] fix: normal on the surface of a kmeans region is the
 one of the touched border

---
 .../kmeans_learner/kmeans_obstacle.py         | 38 ++++++-------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
index eb342c1..1ced1f8 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
@@ -395,36 +395,22 @@ class KMeansObstacle(Obstacle):
             proj_position = proj_position + self.center_position
 
         elif position_norm == surf_norm:
-            # Surface points cannot be disregarded --- we're exactly on it(!)
-            ind_closest = np.argsort(
-                LA.norm(
-                    self.kmeans.cluster_centers_[self.ind_relevant, :]
-                    - np.tile(self.center_position, (len(self.ind_relevant), 1)),
-                    axis=0,
-                )
-            )
-            # breakpoint()
-
-            dist = LA.norm(
-                self.kmeans.cluster_centers_[self.ind_relevant[ind_closest[0]], :]
-                - self.center_position
-            )
-
-            if dist >= self.radius:
-                normal = relative_position / LA.norm(relative_position)
-                if self.is_boundary:
-                    normal = (-1) * normal
-                return normal
-
-            normal_plane = (
-                self.kmeans.cluster_centers_[self.ind_relevant[ind_closest[0]], :]
-                - self.kmeans.cluster_centers_[self.ind_relevant[ind_closest[1]], :]
-            )
+            # We're exactly on the surface(!) -> normal of the closest delimitation
+            distances = abs(self._get_normal_distances(position, is_boundary=False))
+            distances[self._index] = abs(position_norm - self.radius)
+
+            ind_closest = self.ind_relevant_and_self[
+                np.argmin(distances[self.ind_relevant_and_self])
+            ]
+            if ind_closest == self._index:
+                normal = relative_position / position_norm
+            else:
+                normal = self.normal_directions[ind_closest, :]
 
-            normal = normal_plane / LA.norm(normal_plane)
             if self.is_boundary:
                 normal = (-1) * normal
             return normal
+
         else:
 
             proj_position = position
-- 
2.43.0


From c7253aafbc0158f7b36d880c73c46b2f992b339f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 38/97] fix: normal at the center of a kmeans region is a unit
 vector and keeps the input

---
 nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
index 1ced1f8..9bc761e 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
@@ -377,11 +377,12 @@ class KMeansObstacle(Obstacle):
         relative_position = position - self.center_position
         if not (position_norm := LA.norm(relative_position)):
             # Some direction (normed).
-            position[0] = 1
+            normal = np.zeros(self.dimension)
+            normal[0] = 1
             if self.is_boundary:
-                position = (-1) * position
+                normal = (-1) * normal
 
-            return position
+            return normal
 
         surf_position = self.get_point_on_surface(position, in_global_frame=True)
         surf_norm = LA.norm(surf_position - self.center_position)
-- 
2.43.0


From 325dad00becc05941c37565b1a5bf9183fe2280e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 39/97] fix: surface point of a kmeans region keeps the input

---
 nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
index 9bc761e..453c2a7 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
@@ -537,6 +537,7 @@ class KMeansObstacle(Obstacle):
             direction = direction / dir_norm
         else:
             # Random value
+            direction = np.zeros(self.dimension)
             direction[0] = 1
 
         # Default guess: point is on the circle-surface
-- 
2.43.0


From b8e4df3b03fab3474557096cc3fb08bee7c6c153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 40/97] fix: labels match the clusters that remain after
 removing sparse ones

---
 .../kmeans_learner/kmeans_motion_learner.py   | 50 +++++++++----------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
index 3cd8f88..89e1985 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
@@ -231,31 +231,31 @@ class KMeansMotionLearner:
             _cluster_removal_factor * self.data.n_samples / self.n_clusters
         )
 
-        n_delta_label = 0
-        for ii in range(self.kmeans.n_clusters):
-            ind_label = ii == self.kmeans.labels_
-
-            if np.sum(ind_label) < min_num_of_samples:
-                # Remove emtpy clusters
-                self.kmeans.n_clusters = self.kmeans.n_clusters - 1
-
-                self.kmeans.cluster_centers_ = np.delete(
-                    self.kmeans.cluster_centers_, obj=ii - n_delta_label, axis=0
-                )
-
-                n_delta_label += 1
-                logger.info(f"Removed cluster with label {ii}.")
-                # print(f"Removed cluster with label {ii}.")
-
-                self.kmeans.labels_[ind_label] = self.kmeans.predict(
-                    self.data.position[ind_label, :]
-                )
-
-            elif n_delta_label:
-                # Update labels to have sequence of numbers
-                self.kmeans.labels_[ind_label] = (
-                    self.kmeans.labels_[ind_label] - n_delta_label
-                )
+        labels = np.copy(self.kmeans.labels_)
+        ind_keep = np.array(
+            [
+                np.sum(labels == ii) >= min_num_of_samples
+                for ii in range(self.kmeans.n_clusters)
+            ]
+        )
+        if np.all(ind_keep):
+            return
+
+        # Remove empty clusters
+        self.kmeans.n_clusters = int(np.sum(ind_keep))
+        self.kmeans.cluster_centers_ = self.kmeans.cluster_centers_[ind_keep, :]
+        logger.info(f"Removed clusters with label {np.where(~ind_keep)[0]}.")
+
+        # Update labels to have sequence of numbers
+        new_labels = np.cumsum(ind_keep) - 1
+        ind_label = ind_keep[labels]
+        self.kmeans.labels_[ind_label] = new_labels[labels[ind_label]]
+
+        ind_removed = np.logical_not(ind_label)
+        if np.any(ind_removed):
+            self.kmeans.labels_[ind_removed] = self.kmeans.predict(
+                self.data.position[ind_removed, :]
+            )
 
     def _fit_new_clusters_to_missfitting_datapoints(self):
         # TODO:
-- 
2.43.0


From 7c04e0384f001a331d524e6ab3cff20b7d29bde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 41/97] fix: direction of a cluster is turned until it points
 towards its parent

---
 .../kmeans_learner/kmeans_motion_learner.py      | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
index 89e1985..887885a 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
@@ -459,10 +459,10 @@ class KMeansMotionLearner:
             directions=np.vstack((direction, parent_direction)).T,
         )
 
-        if self._is_pointing_towards_parent(parent_direction, ind_node, ind_parent):
+        if not self._is_pointing_towards_parent(
+            parent_direction, ind_node, ind_parent
+        ):
             # If the parent is not pointing, do another (last) check
-            direction = mean_direction
-        else:
             if not self._is_pointing_towards_parent(
                 mean_direction, ind_node, ind_parent
             ):
@@ -476,17 +476,17 @@ class KMeansMotionLearner:
         # TODO: to the it_max based on the angle bettween -> reach a minimum angle
         # delta_angle = 0.05
         for ii in range(it_max):
-            mean_diection = get_directional_weighted_sum(
+            mean_direction = get_directional_weighted_sum(
                 direction,
                 weights=np.array([0.5, 0.5]),
                 directions=np.vstack((direction, parent_direction)).T,
             )
-            if self._is_pointing_towards_parent(parent_direction, ind_node, ind_parent):
-                parent_direction = mean_diection
+            if self._is_pointing_towards_parent(mean_direction, ind_node, ind_parent):
+                parent_direction = mean_direction
             else:
-                direction = mean_diection
+                direction = mean_direction
 
-        return direction
+        return parent_direction
 
     def _is_pointing_towards_parent(
         self, direction: Vector, ii_node: int, ii_parent: int
-- 
2.43.0


From 0632c4de8dcd31d8104682f6ca3494fdfde79874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 42/97] fix: gamma of a composed obstacle can be evaluated in
 its local frame

---
 nonlinear_avoidance/arch_obstacle.py  | 4 ++--
 nonlinear_avoidance/multi_obstacle.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/arch_obstacle.py b/nonlinear_avoidance/arch_obstacle.py
index 60bb479..46aed7d 100644
--- a/nonlinear_avoidance/arch_obstacle.py
+++ b/nonlinear_avoidance/arch_obstacle.py
@@ -105,7 +105,7 @@ class BlockArchObstacle:
 
     def get_gamma(self, position, in_global_frame: bool = True):
         if not in_global_frame:
-            position = self.pose.transform_pose_from_relative(position)
+            position = self.pose.transform_position_from_relative(position)
 
         gammas = [
             obs.get_gamma(position, in_global_frame=True) for obs in self._obstacle_list
@@ -119,7 +119,7 @@ class BlockArchObstacle:
         in_global_frame: bool = True,
     ) -> float:
         if not in_global_frame:
-            position = self._pose.transform_pose_from_relative(position)
+            position = self.pose.transform_position_from_relative(position)
 
         gammas = []
         for ii, obs in enumerate(self._obstacle_list):
diff --git a/nonlinear_avoidance/multi_obstacle.py b/nonlinear_avoidance/multi_obstacle.py
index 2586075..8f147f4 100644
--- a/nonlinear_avoidance/multi_obstacle.py
+++ b/nonlinear_avoidance/multi_obstacle.py
@@ -90,7 +90,7 @@ class MultiObstacle:
 
     def get_gamma(self, position, in_global_frame: bool = True) -> float:
         if not in_global_frame:
-            position = self._pose.transform_pose_from_relative(position)
+            position = self._pose.transform_position_from_relative(position)
 
         gammas = [
             obs.get_gamma(position, in_global_frame=True) for obs in self._obstacle_list
@@ -104,7 +104,7 @@ class MultiObstacle:
         in_global_frame: bool = True,
     ) -> float:
         if not in_global_frame:
-            position = self._pose.transform_pose_from_relative(position)
+            position = self._pose.transform_position_from_relative(position)
 
         gammas = []
         for ii, obs in enumerate(self._obstacle_list):
-- 
2.43.0


From b2ad9586968f8bf28900d8a5164f343b4e676b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 43/97] fix: linear velocity of a composed obstacle is the one
 of its twist

---
 nonlinear_avoidance/multi_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle.py b/nonlinear_avoidance/multi_obstacle.py
index 8f147f4..fef8a15 100644
--- a/nonlinear_avoidance/multi_obstacle.py
+++ b/nonlinear_avoidance/multi_obstacle.py
@@ -47,7 +47,7 @@ class MultiObstacle:
         if self.twist is None:
             return np.zeros(self.dimension)
         else:
-            return self.twist.linear_velocity
+            return self.twist.linear
 
     @linear_velocity.setter
     def linear_velocity(self, value: npt.ArrayLike) -> None:
-- 
2.43.0


From 37cf222b7be36d4f42cb3168418fe74c4f92991f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 44/97] fix: joint of a new component is searched in the frame
 of its parent

---
 nonlinear_avoidance/multi_obstacle.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle.py b/nonlinear_avoidance/multi_obstacle.py
index fef8a15..7e53bc0 100644
--- a/nonlinear_avoidance/multi_obstacle.py
+++ b/nonlinear_avoidance/multi_obstacle.py
@@ -150,15 +150,21 @@ class MultiObstacle:
         """Create and add an obstacle container in the local frame of reference.
         Returns component id"""
         if reference_position is None:
+            # The parent is already in the global frame
+            local_pose = obstacle.pose
+            obstacle.pose = self._pose.transform_pose_from_relative(local_pose)
             global_reference = get_intersection_of_obstacles(
                 obstacle, self.get_component(parent_ind)
             )
+            if global_reference is not None:
+                reference_position = obstacle.pose.transform_position_to_relative(
+                    global_reference
+                )
+            obstacle.pose = local_pose
+
             if global_reference is None:
                 raise ValueError("No intersection found.")
 
-            reference_position = obstacle.pose.transform_position_to_relative(
-                global_reference
-            )
         else:
             reference_position = np.array(reference_position)
 
-- 
2.43.0


From 12762cd894f9b6659092eb3f075025319c608c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 45/97] fix: deformation of a composed obstacle keeps the
 reference points at the joints

---
 nonlinear_avoidance/multi_obstacle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nonlinear_avoidance/multi_obstacle.py b/nonlinear_avoidance/multi_obstacle.py
index 7e53bc0..3512944 100644
--- a/nonlinear_avoidance/multi_obstacle.py
+++ b/nonlinear_avoidance/multi_obstacle.py
@@ -82,6 +82,10 @@ class MultiObstacle:
         for pose, obs in zip(self._local_poses, self._obstacle_list):
             pose.position = factor * pose.position
             obs.axes_length = factor * obs.axes_length
+            obs.set_reference_point(
+                factor * obs.get_reference_point(in_global_frame=False),
+                in_global_frame=False,
+            )
 
             obs.pose = self._pose.transform_pose_from_relative(pose)
 
-- 
2.43.0


From 9e06be5765dab297de5016736f6ebe7c016f4dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 46/97] fix: velocity of rotating obstacles can be evaluated in
 three dimensions

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index b864881..3d6e5aa 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -128,7 +128,7 @@ def compute_multiobstacle_relative_velocity(
         if hasattr(obs, "twist") and obs.twist is not None:
             relative_velocity = relative_velocity + obs.twist.linear * weights[ii]
 
-            if obs.twist.angular:
+            if obs.twist.angular is not None and np.any(obs.twist.angular):
                 if position.shape[0] == 2:
                     angular_velocity = np.cross(
                         np.array([0, 0, obs.twist.angular]),
@@ -143,7 +143,9 @@ def compute_multiobstacle_relative_velocity(
 
                 relative_velocity = (
                     relative_velocity
-                    + weights[ii] * influence_weight[ii] * angular_velocity[:2]
+                    + weights[ii]
+                    * influence_weight[ii]
+                    * angular_velocity[: position.shape[0]]
                 )
 
         if hasattr(obs, "deformation_rate"):
-- 
2.43.0


From ab208afc0e2892697821371b2a172563c1e0bf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 47/97] fix: component of a body is found by its optitrack id

---
 nonlinear_avoidance/multi_body_human.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_body_human.py b/nonlinear_avoidance/multi_body_human.py
index 4ab2294..192e197 100644
--- a/nonlinear_avoidance/multi_body_human.py
+++ b/nonlinear_avoidance/multi_body_human.py
@@ -136,7 +136,7 @@ class MultiBodyObstacle:
 
     def get_obstacle_id_from_optitrackid(self, opt_id: int) -> int:
         return [
-            x for x, y in self._graph.nodes(data=True) if y["optitrack_id"] == opt_id
+            x for x, y in self._graph.nodes(data=True) if y["update_id"] == opt_id
         ][0]
 
     def get_name(self, idx: int) -> str:
-- 
2.43.0


From 2ede02795e23aefb66b745436c1d82bc383ab027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 48/97] fix: limb is turned to its measured direction in the
 upper half-space, too

---
 nonlinear_avoidance/multi_body_human.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/nonlinear_avoidance/multi_body_human.py b/nonlinear_avoidance/multi_body_human.py
index 192e197..91f1a99 100644
--- a/nonlinear_avoidance/multi_body_human.py
+++ b/nonlinear_avoidance/multi_body_human.py
@@ -425,15 +425,14 @@ class MultiBodyObstacle:
             return
         axes_direction = axes_direction / axes_norm
 
+        # Shortest rotation from the z-axis to the direction of the limb
         rot_vec = np.cross([0.0, 0, 1.0], axes_direction)
 
-        if rotvec_norm := np.linalg.norm(rot_vec):
-            rot_vec = rot_vec / rotvec_norm
-            theta = np.arcsin(rotvec_norm)
-            quat = np.hstack((rot_vec * np.cos(theta / 2.0), [np.sin(theta / 2.0)]))
+        if np.linalg.norm(rot_vec) or axes_direction[2] > 0:
+            quat = np.hstack((rot_vec, [1.0 + axes_direction[2]]))
 
         else:
-            quat = np.array([0, 0, 0, 1.0])
+            quat = np.array([1.0, 0, 0, 0])
 
         # breakpoint()
 
-- 
2.43.0


From 8871a5cdbff55bd0fb73220bf2b8aff9f5e3ba2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 49/97] fix: intersection of an ellipse with another type of
 obstacle

---
 nonlinear_avoidance/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/geometry.py b/nonlinear_avoidance/geometry.py
index 6dbafc7..979e2d8 100644
--- a/nonlinear_avoidance/geometry.py
+++ b/nonlinear_avoidance/geometry.py
@@ -58,7 +58,7 @@ def get_intersection_of_obstacles(
         obstacle1.create_shape()
         shape1 = obstacle1.shape
 
-    if isinstance(obstacle1, Ellipse) or isinstance(obstacle1, EllipseWithAxes):
+    if isinstance(obstacle2, Ellipse) or isinstance(obstacle2, EllipseWithAxes):
         shape2 = create_shapely_ellipse(obstacle2)
     else:
         obstacle2.create_shape()
-- 
2.43.0


From eccb6436da7e5b57af84c3ddf5eb994aed70e559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:26 +0000
Subject: [PATCH 50/97] fix: velocity of a hull is returned in the global frame

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index 2246eed..b6c30a8 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -247,7 +247,7 @@ class MultiHullAndObstacle(Obstacle):
         mean_direction = mean_direction / dir_norm * mean_magnitude
 
         if in_global_frame:
-            mean_direction = self.transform_global2relative_dir(mean_direction)
+            mean_direction = self.transform_relative2global_dir(mean_direction)
 
         return mean_direction
 
-- 
2.43.0


From db8dbf00aa8615434979edc64bb24282907a3ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:26 +0000
Subject: [PATCH 51/97] fix: collision with a hull is evaluated in its frame

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index b6c30a8..9a76d4c 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -171,6 +171,9 @@ class MultiHullAndObstacle(Obstacle):
 
     def is_inside(self, position, in_global_frame=True):
         """Checks if the obstacle is colliding."""
+        if in_global_frame:
+            position = self.transform_global2relative(position)
+
         in_free_space = False  # Track if the attractor is in free space!
 
         if not self.outer_obstacle.is_inside(position, in_global_frame=True):
-- 
2.43.0


From b26a7a90e2cdc6cca2db99de8665ffe97f0600d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:26 +0000
Subject: [PATCH 52/97] fix: speed in a hull is limited, and goes down to zero
 at the attractor

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index 9a76d4c..dfdd01c 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -247,7 +247,8 @@ class MultiHullAndObstacle(Obstacle):
             breakpoint()
             raise ValueError("Zero direction value obtained.")
 
-        mean_direction = mean_direction / dir_norm * mean_magnitude
+        if dir_norm:
+            mean_direction = mean_direction / dir_norm * mean_magnitude
 
         if in_global_frame:
             mean_direction = self.transform_relative2global_dir(mean_direction)
@@ -299,7 +300,7 @@ class MultiHullAndObstacle(Obstacle):
         else:
             linear_velocity = mean_direction / LA.norm(mean_direction) * vel_norm
 
-        return mean_direction
+        return linear_velocity
 
     def update_shortest_attractor_path_starting_from_outside(
         self, position: Vector
-- 
2.43.0


From 24585be9e962c0e79c1d9c1f2ab724c5af0b127e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:26 +0000
Subject: [PATCH 53/97] fix: attractor in the wall of a hull is assigned to the
 closest free space

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index dfdd01c..df72758 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -159,7 +159,7 @@ class MultiHullAndObstacle(Obstacle):
             warnings.warn("Attractor is in obstacle-wall.")
 
             self._evaluate_weights(position)
-            ind_max = np.argmin(self.weights)
+            ind_max = np.argmax(self.gamma_list)
             if ind_max == self._indices_outer:
                 self._local_outside_attractor = position
                 self._attractor_is_outside = True
-- 
2.43.0


From 3be5a60829808f9f89d6dbd235957790571df620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:26 +0000
Subject: [PATCH 54/97] fix: path through a hull is the shortest one to the
 attractor

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index df72758..ffe51c3 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -316,7 +316,13 @@ class MultiHullAndObstacle(Obstacle):
 
             path_dist = shortest_path_length(self._graph, source=ii, weight="distance")
             for obs in self.inner_obstacles:
-                distances.append(path_dist[ii] + dist_to_entrance)
+                if not self._graph.nodes[obs]["contains_attractor"]:
+                    continue
+
+                if obs not in path_dist:
+                    continue
+
+                distances.append(path_dist[obs] + dist_to_entrance)
                 entrances.append(ii)
                 targets.append(obs)
 
@@ -350,11 +356,17 @@ class MultiHullAndObstacle(Obstacle):
             if not self._graph.nodes[obs]["contains_attractor"]:
                 continue
 
-            closest_dist.append(path_dist)
+            if obs not in path_dist:
+                continue
+
+            closest_dist.append(path_dist[obs])
             closest_elems.append(obs)
 
         if self._attractor_is_outside:
             for ii in range(self._entrance_counter):
+                if ii not in path_dist:
+                    continue
+
                 dist_attractor = LA.norm(
                     get_property_of_node_edge(self._graph, ii, "intersection")
                     - self._local_outside_attractor
-- 
2.43.0


From dc1a9a81ae111a3784377afe10065cf20344a7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:26 +0000
Subject: [PATCH 55/97] fix: path through a hull leads through the entrance it
 was planned for

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index ffe51c3..2193d63 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -393,7 +393,7 @@ class MultiHullAndObstacle(Obstacle):
             # Treat 'int' obstacles differently, since they represent the entrance
             # coming from the same obstacle
             if isinstance(path[ii], int):
-                ind0 = 0
+                ind0 = path[ii]
                 obs = self.outer_obstacle
                 attractor = self._local_outside_attractor
 
@@ -407,7 +407,7 @@ class MultiHullAndObstacle(Obstacle):
                 break
 
             # Set projected connection element
-            ind1 = 0 if isinstance(path[ii + 1], int) else path[ii + 1]
+            ind1 = path[ii + 1]
 
             local_attractor = self._graph.edges[ind0, ind1]["intersection"]
             local_attractor = obs.get_point_on_surface(
-- 
2.43.0


From b6a65082e0726d06b37adeb06060a2a41a1054a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:26 +0000
Subject: [PATCH 56/97] fix: entrance of a hull is outside of the outer
 obstacle

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index 2193d63..0fd0d7d 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -557,7 +557,9 @@ class MultiHullAndObstacle(Obstacle):
                 factors=[-1, 1],
             )
 
-            if obs_ii.is_inside(position) or obs_ii.is_inside(position):
+            if obs_ii.is_inside(
+                position, in_global_frame=True
+            ) or self.outer_obstacle.is_inside(position, in_global_frame=True):
                 continue
 
             self._graph.add_node(
-- 
2.43.0


From f3e226988828d220227842104718979071a1c622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:26 +0000
Subject: [PATCH 57/97] fix: room which reaches out of a hull is not left
 without an entrance

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index 0fd0d7d..7d8d6f7 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -546,9 +546,10 @@ class MultiHullAndObstacle(Obstacle):
         self._entrance_counter = 0
 
         for ii, obs_ii in enumerate(self.inner_obstacles):
-            if LA.norm(obs_ii.center_position - self.outer_obstacle.center_position) < (
-                np.min(self.outer_obstacle.axes_length) - np.max(obs_ii.axes_length)
-            ):
+            # The axes lengths are diameters (diagonal, since corners reach out furthest)
+            if 2 * LA.norm(
+                obs_ii.center_position - self.outer_obstacle.center_position
+            ) < (np.min(self.outer_obstacle.axes_length) - LA.norm(obs_ii.axes_length)):
                 continue
 
             position = gamma_normal_gradient_descent(
-- 
2.43.0


From e709156442d0780e8c24da02b5d80542cfb1f219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:26 +0000
Subject: [PATCH 58/97] fix: attraction to hulls passes the gamma to the
 convergence summing

---
 nonlinear_avoidance/multihull_convergence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multihull_convergence.py b/nonlinear_avoidance/multihull_convergence.py
index 905e22b..bc28f33 100644
--- a/nonlinear_avoidance/multihull_convergence.py
+++ b/nonlinear_avoidance/multihull_convergence.py
@@ -213,7 +213,7 @@ def multihull_attraction(
         rotated_directions[:, it] = avoider.directional_convergence_summing(
             convergence_vector=convergence_velocity,
             reference_vector=reference_dir,
-            weight=inv_gamma_weight[it],
+            gamma=gamma_array[it],
             # weight=1, #
             nonlinear_velocity=initial_velocity,
             # base=DirectionBase(matrix=normal_orthogonal_matrix),
-- 
2.43.0


From 4f63b44d556fadd9a8ad0526a0948f0448d944fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:26 +0000
Subject: [PATCH 59/97] fix: convergence direction is relative to the attractor

---
 nonlinear_avoidance/rotation_container.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/rotation_container.py b/nonlinear_avoidance/rotation_container.py
index dae395a..e0f09e4 100644
--- a/nonlinear_avoidance/rotation_container.py
+++ b/nonlinear_avoidance/rotation_container.py
@@ -78,7 +78,8 @@ class RotationContainer(BaseContainer):
 
         for it_obs in range(self.n_obstacles):
             position = self[it_obs].center_position
-            pos_norm = LA.norm(position)
+            relative_position = position - attractor
+            pos_norm = LA.norm(relative_position)
             if not pos_norm:
                 # Make it converge to attractor either way, as evaluation might
                 # be numerically bad.
@@ -88,7 +89,7 @@ class RotationContainer(BaseContainer):
                 continue
 
             local_velocity = nonlinear_dynamics.evaluate(position)
-            dot_prod = np.dot(position, local_velocity) / (
+            dot_prod = np.dot(relative_position, local_velocity) / (
                 pos_norm * LA.norm(local_velocity)
             )
 
-- 
2.43.0


From 58ba921a069303a750a8153b0d488dd36ea4bf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:26 +0000
Subject: [PATCH 60/97] fix: boundaries of a container can be listed

---
 nonlinear_avoidance/multiboundary_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index 0e0300b..4edf0ab 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -162,7 +162,7 @@ class MultiBoundaryContainer(RotationContainer):
     def get_boundary_list(self):
         """Returns obstacle list containing all boundary-elements."""
         # TODO MAYBE: store boundaries in separate list (?)
-        return [self[ii] for ii in range(self.n_obstacles) if self[ii].is_boubndary]
+        return [self[ii] for ii in range(self.n_obstacles) if self[ii].is_boundary]
 
     def get_boundary_ind(self):
         """Returns indeces of the current container which are equivalent to obstacles."""
-- 
2.43.0


From dbdc1a8f959eec6fb49ee94aea6431b5175c6af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:26 +0000
Subject: [PATCH 61/97] fix: obstacle can be removed from a
 multi-boundary-container

---
 nonlinear_avoidance/multiboundary_container.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index 4edf0ab..87704ca 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -73,12 +73,24 @@ class MultiBoundaryContainer(RotationContainer):
                 )
 
     def __delitem__(self, key):
-        super().append(value)
-        breakpoint()  # Test if it was executed correctly
+        key = range(len(self))[key]
+        super().__delitem__(key)
+
+        # Children of the deleted element become root-elements
+        for it_child in self._children_list[key]:
+            self._parent_array[it_child] = -1
+            self._parent_intersection_point[it_child] = None
+
         del self._children_list[key]
+        del self._parent_intersection_point[key]
         self._parent_array = np.delete(self._parent_array, key)
 
-        del self._parent_intersection_point[key]
+        # The indices of the elements behind have changed
+        self._parent_array[self._parent_array > key] -= 1
+        self._children_list = [
+            [ii - (ii > key) for ii in children if ii != key]
+            for children in self._children_list
+        ]
 
     def is_collision_free(self, position):
         """Check if any of the (boundary)-obstacles is collision free"""
-- 
2.43.0


From f1efd79641aa12225be89e137cf12995bd0ec4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:26 +0000
Subject: [PATCH 62/97] fix: intersection of ellipses is evaluated at their
 position

---
 nonlinear_avoidance/multiboundary_container.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index 87704ca..3aa8bfc 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -35,6 +35,9 @@ def create_shapely_ellipse(ellipse):
     shapely_ellipse = affinity.rotate(
         shapely_ellipse, ellipse.orientation * 180 / math.pi
     )
+    shapely_ellipse = affinity.translate(
+        shapely_ellipse, ellipse.center_position[0], ellipse.center_position[1]
+    )
 
     return shapely_ellipse
 
-- 
2.43.0


From d15fad3195c8999f4e53f41852ec75ee462c4fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:26 +0000
Subject: [PATCH 63/97] fix: distance of a GMM-obstacle is the one of its
 ellipses

---
 nonlinear_avoidance/gmm_obstacle.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index b6a18e4..939a779 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -492,9 +492,13 @@ class GmmObstacle:
         deriv_factor = (-0.5) * self._precisions_cholesky_[index, :, :] @ delta_dist
         return (powerfactor * deriv_factor) * fraction_value * exp_value
 
+    def get_precision(self, index: int) -> np.ndarray:
+        """Inverse of the covariance matrix."""
+        return LA.inv(self._gmm.covariances_[index, :, :])
+
     def get_gamma_proportional(self, position: Vector, index: int) -> float:
         delta_dist = position - self._gmm.means_[index, :]
-        gamma = delta_dist.T @ self._gmm.precisions_cholesky_[index, :, :] @ delta_dist
+        gamma = delta_dist.T @ self.get_precision(index) @ delta_dist
         return np.sqrt(gamma) / self.variance_factor
 
     def get_gamma_derivative(
@@ -506,10 +510,10 @@ class GmmObstacle:
         d_gamma = (
             powerfactor
             / 2.0
-            * (delta_dist.T @ self._gmm.precisions_cholesky_[index, :, :] @ delta_dist)
+            * (delta_dist.T @ self.get_precision(index) @ delta_dist)
             ** (powerfactor / 2.0 - 1)
             * self.variance_factor ** (-1 * powerfactor)
-            * self._gmm.precisions_cholesky_[index, :, :]
+            * self.get_precision(index)
             @ delta_dist
         )
 
@@ -583,10 +587,10 @@ class GmmObstacle:
         delta_dist = position - self._gmm.means_[index, :]
 
         d_gamma = (
-            (delta_dist.T @ self._gmm.precisions_cholesky_[index, :, :] @ delta_dist)
+            (delta_dist.T @ self.get_precision(index) @ delta_dist)
             ** (1.0 / 2.0 - 1)
             * self.variance_factor ** (-1)
-            * self._gmm.precisions_cholesky_[index, :, :]
+            * self.get_precision(index)
             @ delta_dist
         )
 
-- 
2.43.0


From c680b7a03c057fc5ed129cda4af825424b7bf7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:26 +0000
Subject: [PATCH 64/97] fix: root of a GMM-obstacle is the component closest to
 the center

---
 nonlinear_avoidance/gmm_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index 939a779..c5b4a73 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -132,7 +132,7 @@ class GmmObstacle:
         mean_center = np.mean(self._gmm.means_, axis=0)
 
         ind_closest = np.argmin(
-            LA.norm(self._gmm.means_ - np.tile(mean_center, (self.n_gmms, 1)), axis=0)
+            LA.norm(self._gmm.means_ - np.tile(mean_center, (self.n_gmms, 1)), axis=1)
         )
 
         self._reference_points[:, ind_closest] = self._gmm.means_[ind_closest, :]
-- 
2.43.0


From c10dc029444e066a516fefffd5ba71c33f3730b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:26 +0000
Subject: [PATCH 65/97] fix: kernel point of a GMM-obstacle can be set

---
 nonlinear_avoidance/gmm_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index c5b4a73..7f26f4d 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -113,7 +113,7 @@ class GmmObstacle:
         return self._reference_points[:, index]
 
     def set_kernel_point(self, value: Vector, index: int) -> None:
-        self._reference_points[:, index]
+        self._reference_points[:, index] = value
 
     def get_center_position(self, index: int) -> Vector:
         return self._gmm.means_[index, :]
-- 
2.43.0


From 11580f7b43336b78848967c2b82061bfadaef452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:26 +0000
Subject: [PATCH 66/97] fix: normal at the center of a GMM-obstacle has a value

---
 nonlinear_avoidance/gmm_obstacle.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index 7f26f4d..f708f1d 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -586,13 +586,8 @@ class GmmObstacle:
         """Get normal direction of obstacle =>"""
         delta_dist = position - self._gmm.means_[index, :]
 
-        d_gamma = (
-            (delta_dist.T @ self.get_precision(index) @ delta_dist)
-            ** (1.0 / 2.0 - 1)
-            * self.variance_factor ** (-1)
-            * self.get_precision(index)
-            @ delta_dist
-        )
+        # Only the direction of the gradient is needed
+        d_gamma = self.get_precision(index) @ delta_dist
 
         dgamma_norm = LA.norm(d_gamma)
         if dgamma_norm:
-- 
2.43.0


From 08eeba3600e4c50226de1c44832164454b0156a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:26 +0000
Subject: [PATCH 67/97] fix: velocity which points towards a GMM-obstacle is
 rotated, not the one which points away

---
 nonlinear_avoidance/gmm_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index f708f1d..4007a74 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -217,7 +217,7 @@ class GmmObstacle:
             return velocity
 
         kernel_direction = kernel_direction / kernal_norm
-        if np.dot(kernel_direction, velocity) < 1:
+        if np.dot(kernel_direction, velocity) > 0:
             # Velocity is already pointing away - the main kernel does need to guide
             return velocity
 
-- 
2.43.0


From 32f53032cdc73127e07ddbb76287a18818d2a9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:26 +0000
Subject: [PATCH 68/97] fix: mean normal of a GMM-obstacle without offset is
 the reference

---
 nonlinear_avoidance/gmm_obstacle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index 4007a74..078a03b 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -310,6 +310,7 @@ class GmmObstacle:
         if not LA.norm(delta_normal):
             # Trivial case
             self.mean_normal = self.mean_reference
+            return
 
         dot_prod = (-1) * (
             np.dot(delta_normal, self.mean_reference) / LA.norm(delta_normal)
-- 
2.43.0


From a12ccec4c366004fed82bdd5b9a583c7e0d5048b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 69/97] fix: normal offset of a GMM-obstacle is weighted as the
 reference direction

---
 nonlinear_avoidance/gmm_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index 078a03b..043b01e 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -287,7 +287,7 @@ class GmmObstacle:
                 position, index
             )
 
-            delta_normal += (
+            delta_normal += self.relative_weights[index] * (
                 self.get_normal_direction(position, index)
                 - reference_directions[:, index]
             )
-- 
2.43.0


From f15e9fa044d7f63bc6f071b3e89aff56bee1a440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 70/97] fix: concentric components of a GMM-obstacle do not
 occlude each other

---
 nonlinear_avoidance/gmm_obstacle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index 043b01e..c1a676e 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -390,6 +390,10 @@ class GmmObstacle:
             center_rel = (
                 self._gmm.means_[ind_parent, :] - self._reference_points[:, index]
             )
+            if not LA.norm(center_rel):
+                # Concentric with the parent, i.e., there is no behind
+                continue
+
             dot_prod = np.dot(position_rel, center_rel) / (
                 LA.norm(position_rel) * LA.norm(center_rel)
             )
-- 
2.43.0


From bd0767feb63c7071ef87c28369ab03689d32c70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 71/97] fix: hull added after the dynamics can be updated

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index 7d8d6f7..ea8aed6 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -671,6 +671,8 @@ class MultiRotationalContainer(BaseContainer):
                 "Initial dynamics set before setting the obstacles."
                 + "Make sure to update after."
             )
+            # The attractor has to be set again, even if it does not change
+            self._attractor_position = None
 
     def set_dynamics(self, dynamics):
         self._initial_dynamics = dynamics
-- 
2.43.0


From 1cf617f91b564782dba484c3592160c251869161 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 72/97] fix: root of a GMM-obstacle is a component, not its
 place in the graph

---
 nonlinear_avoidance/gmm_obstacle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index c1a676e..4b77ef0 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -209,7 +209,7 @@ class GmmObstacle:
                 )
 
     def get_root_rotation_direction(self, position: Vector, velocity: Vector) -> Vector:
-        ind_root = self.gmm_index_graph.get_root_indices()[0]
+        ind_root = self.gmm_index_graph.roots[0]
         kernel_direction = position - self.get_kernel_point(ind_root)
         kernal_norm = LA.norm(kernel_direction)
         if not kernal_norm:
@@ -293,7 +293,7 @@ class GmmObstacle:
             )
 
         # Get root
-        ind_root = self.gmm_index_graph.get_root_indices()[0]
+        ind_root = self.gmm_index_graph.roots[0]
         if self.relative_weights[ind_root]:
             base_vector = reference_directions[:, ind_root]
         else:
-- 
2.43.0


From d2c07946a22488e02efc00b75986661ae72b6539 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 73/97] fix: attractor of the GPR learner forgot the first
 demonstration

---
 nonlinear_avoidance/gmm_learner/learner/gpr_directional.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py b/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
index 6d64e99..7e0c6eb 100755
--- a/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
+++ b/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
@@ -80,7 +80,10 @@ class DirectionalGPR(LearnerVisualizer, Learner):
 
         t = np.linspace(0, 1, self.dataset["data"][0, ii].shape[1])
 
-        pos_attractor = np.zeros((self.dim))
+        # Attractor is the mean of all end-points (first one included)
+        pos_attractor = (
+            self.dataset["data"][0, ii][:2, -1].T / self.dataset["data"].shape[1]
+        )
 
         for it_set in range(1, self.dataset["data"].shape[1]):
             self.pos = np.vstack((self.pos, self.dataset["data"][0, it_set][:2, :].T))
-- 
2.43.0


From 48f9a1dc12dcd8ba8051a835cc68f74951a78a39 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 74/97] fix: GPR learner trained on directions about another
 default dynamics than it predicts with

---
 nonlinear_avoidance/gmm_learner/learner/gpr_directional.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py b/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
index 7e0c6eb..2e59947 100755
--- a/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
+++ b/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
@@ -119,8 +119,9 @@ class DirectionalGPR(LearnerVisualizer, Learner):
 
         weightDir = 4
 
-        # 2D system
-        linear_dynamics = LinearSystem(attractor_position=np.zeros(2))
+        # 2D system - directions are with respect to the default dynamics, since
+        # 'predict' transforms them back with it
+        linear_dynamics = self.null_ds
         if n_samples is not None:
             # Large number of samples should be chosen to avoid
             ind = np.random.choice(n_input, size=n_samples, replace=False)
-- 
2.43.0


From ad5bcbc28c50148ab36b2ef05a9a969def98bdad Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 75/97] fix: kernel of the GPR learner can be chosen

---
 nonlinear_avoidance/gmm_learner/learner/gpr_directional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py b/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
index 2e59947..b51c3d5 100755
--- a/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
+++ b/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
@@ -152,9 +152,9 @@ class DirectionalGPR(LearnerVisualizer, Learner):
     def fit(self, kernel_parameters=None, kernel_type=RBF, kernel_noise=1e-1):
         if kernel_parameters is None:
             # TODO: properly...
-            length_scale = np.ones(self.n_features)
+            kernel_parameters = np.ones(self.n_features)
 
-        self._gp_kernel = RBF(length_scale) + WhiteKernel(kernel_noise)
+        self._gp_kernel = kernel_type(kernel_parameters) + WhiteKernel(kernel_noise)
         self._gpr = GaussianProcessRegressor(kernel=self._gp_kernel)
 
         stime = time.time()
-- 
2.43.0


From 53eb3b33bf189c2a3832ee77deafe48d203a244e Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 76/97] fix: attractor of the SVR learner forgot the first
 demonstration

---
 nonlinear_avoidance/gmm_learner/learner/svr_directional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/svr_directional.py b/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
index 079ad7d..ae9de2a 100755
--- a/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
+++ b/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
@@ -101,7 +101,7 @@ class DirectionalSVR(LearnerVisualizer, Learner):
         if attractor is None:
             pos_attractor = np.zeros((self.dim))
 
-            for it_set in range(1, self.dataset["data"].shape[1]):
+            for it_set in range(0, self.dataset["data"].shape[1]):
                 pos_attractor = (
                     pos_attractor
                     + self.dataset["data"][0, it_set][:2, -1].T
-- 
2.43.0


From 81c0cfaa932bad3dcd33144073b590ff07ff321e Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 77/97] fix: SVR learner can predict (default dynamics is a
 dynamical system)

---
 .../gmm_learner/learner/svr_directional.py         | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/svr_directional.py b/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
index ae9de2a..c900a90 100755
--- a/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
+++ b/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
@@ -34,7 +34,7 @@ from nonlinear_avoidance.gmm_learner.math_tools import mag_linear_maximum
 from nonlinear_avoidance.gmm_learner.learner.base import Learner
 from nonlinear_avoidance.gmm_learner.learner.visualizer import LearnerVisualizer
 
-from vartools.dynamicalsys.closedform import evaluate_linear_dynamical_system
+from vartools.dynamical_systems import LinearSystem
 from vartools.directional_space import get_angle_space, get_angle_space_inverse
 from vartools.directional_space import get_angle_space_of_array
 from vartools.directional_space import get_angle_space_inverse_of_array
@@ -110,9 +110,7 @@ class DirectionalSVR(LearnerVisualizer, Learner):
                 print("pos_attractor", self.dataset["data"][0, it_set][:2, -1].T)
 
             self.pos_attractor = pos_attractor
-            self.null_ds = lambda x: evaluate_linear_dynamical_system(
-                x, center_position=self.pos_attractor
-            )
+            self.null_ds = LinearSystem(attractor_position=self.pos_attractor)
 
         elif attractor is False:
             # Does not have attractor
@@ -121,9 +119,7 @@ class DirectionalSVR(LearnerVisualizer, Learner):
         else:
             self.pos_attractor = np.array(attractor)
 
-            self.null_ds = lambda x: evaluate_linear_dynamical_system(
-                x, center_position=self.pos_attractor
-            )
+            self.null_ds = LinearSystem(attractor_position=self.pos_attractor)
 
         self.X = self.pos
 
@@ -143,13 +139,13 @@ class DirectionalSVR(LearnerVisualizer, Learner):
             directions = get_angle_space_of_array(
                 directions=self.vel.T[:, ind],
                 positions=self.pos.T[:, ind],
-                func_vel_default=self.null_ds,
+                func_vel_default=self.null_ds.evaluate,
             )
         else:
             directions = get_angle_space_of_array(
                 directions=self.vel.T,
                 positions=self.pos.T,
-                func_vel_default=self.null_ds,
+                func_vel_default=self.null_ds.evaluate,
             )
 
             self.n_samples = n_input
-- 
2.43.0


From a24c84d440ceaaf94379fb62239073b78523754f Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 78/97] fix: parameters of the SVR learner are used

---
 nonlinear_avoidance/gmm_learner/learner/svr_directional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/svr_directional.py b/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
index c900a90..3df50a4 100755
--- a/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
+++ b/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
@@ -162,10 +162,10 @@ class DirectionalSVR(LearnerVisualizer, Learner):
         print("Time for SVR fitting: %.3f" % (time.time() - stime))
         print("Best search params:", self._svr.best_params_)
 
-    def fit(self, kernel_type="rbf", C=1.0, gamma=1, grid_search=False):
+    def fit(self, kernel_type="rbf", C=10, gamma=1, grid_search=False):
         if not grid_search:
             # self._svr = SVR(kernel='rbf', C=10, gamma=0.1, epsilon=.1)
-            self._svr = SVR(kernel="rbf", C=10, gamma=1, epsilon=0.1)
+            self._svr = SVR(kernel=kernel_type, C=C, gamma=gamma, epsilon=0.1)
             stime = time.time()
             self._svr.fit(self.X, self.y)
             print("Time for SVR fitting: %.3f" % (time.time() - stime))
-- 
2.43.0


From d5e04ef6254ffd7e483574545f152f45cd7de901 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 79/97] fix: GMM learner accepts a given attractor

---
 nonlinear_avoidance/gmm_learner/learner/directional_gmm.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index 7415e90..99b3e68 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -269,8 +269,6 @@ class DirectionalGMM(Learner, LearnerVisualizer):
             self.meanX = None
             self.varX = None
 
-            self.pos_attractor = pos_attractor
-
     def regress(self, *args, **kwargs):
         # TODO: remove
         return self.fit(*args, **kwargs)
-- 
2.43.0


From 3f9b47c101659857d09153535897162ea4b6ce9a Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 80/97] fix: GMM learner trained on directions about another
 default dynamics than it predicts with

---
 .../gmm_learner/learner/directional_gmm.py    | 32 ++++++++++---------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index 99b3e68..46769b8 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -195,21 +195,6 @@ class DirectionalGMM(Learner, LearnerVisualizer):
                 (t, np.linspace(0, 1, self.dataset["data"][0, it_set].shape[1]))
             )
 
-        direction = get_angle_space_of_array(
-            directions=self.vel.T,
-            positions=self.pos.T,
-            func_vel_default=LinearSystem(dimension=self.dim_space).evaluate,
-        )
-
-        self.X = np.hstack((self.pos, self.vel, direction.T))
-
-        self.X = self.normalize_velocity(self.X)
-
-        self.num_samples = self.X.shape[0]
-        self.dim_gmm = self.X.shape[1]
-
-        weightDir = 4
-
         if attractor is None:
             pos_attractor = np.zeros((self.dim))
 
@@ -237,6 +222,23 @@ class DirectionalGMM(Learner, LearnerVisualizer):
             # x, center_position=self.pos_attractor)
             self.null_ds = LinearSystem(attractor_position=self.pos_attractor)
 
+        # Directions are with respect to the default dynamics, since 'predict'
+        # transforms them back with it
+        direction = get_angle_space_of_array(
+            directions=self.vel.T,
+            positions=self.pos.T,
+            func_vel_default=self.null_ds.evaluate,
+        )
+
+        self.X = np.hstack((self.pos, self.vel, direction.T))
+
+        self.X = self.normalize_velocity(self.X)
+
+        self.num_samples = self.X.shape[0]
+        self.dim_gmm = self.X.shape[1]
+
+        weightDir = 4
+
         if self.has_path_completion:
             # TODO
             raise NotImplementedError()
-- 
2.43.0


From 46fd8cf651173cebf2ca6e2c9d9c98ae3e0918b8 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 22:17:34 +0000
Subject: [PATCH 81/97] fix: learned trajectories stop at their attractor, and
 stay there

---
 nonlinear_avoidance/gmm_learner/learner/base.py            | 7 ++++++-
 nonlinear_avoidance/gmm_learner/learner/directional_gmm.py | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/base.py b/nonlinear_avoidance/gmm_learner/learner/base.py
index d9dda30..82e152f 100755
--- a/nonlinear_avoidance/gmm_learner/learner/base.py
+++ b/nonlinear_avoidance/gmm_learner/learner/base.py
@@ -158,8 +158,13 @@ class Learner(ABC):
                     delta_t, trajectory_list[:, nn - 1, ii], self.predict
                 )
 
-                if np.linalg.norm(trajectory_list[:, nn, ii]) < convergence_margin:
+                dist_attractor = np.linalg.norm(
+                    trajectory_list[:, nn, ii] - self.null_ds.attractor_position
+                )
+                if dist_attractor < convergence_margin:
                     print(f"Converged after {nn} iterations.")
+                    # Remains at the attractor
+                    trajectory_list[:, nn:, ii] = trajectory_list[:, [nn], ii]
                     break
 
         return trajectory_list
diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index 46769b8..63011bb 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -626,8 +626,13 @@ class DirectionalGMM(Learner, LearnerVisualizer):
                 # print('xd', xd)
                 x_traj[:, nn, ii] = x_traj[:, nn - 1, ii] + xd * delta_t
 
-                if np.linalg.norm(x_traj[:, nn, ii]) < convergence_err:
+                dist_attractor = np.linalg.norm(
+                    x_traj[:, nn, ii] - self.null_ds.attractor_position
+                )
+                if dist_attractor < convergence_err:
                     print(f"Converged after {nn} iterations.")
+                    # Remains at the attractor
+                    x_traj[:, nn:, ii] = x_traj[:, [nn], ii]
                     break
 
         print("This took me a while...")
-- 
2.43.0


From 4d5574ecb540ef18c08bd8396ea35c10a4df1046 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 22:17:34 +0000
Subject: [PATCH 82/97] fix: gaussian with the strongest tie to the graph is
 added first

---
 nonlinear_avoidance/gmm_learner/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/graph.py b/nonlinear_avoidance/gmm_learner/graph.py
index f92096d..27fee19 100644
--- a/nonlinear_avoidance/gmm_learner/graph.py
+++ b/nonlinear_avoidance/gmm_learner/graph.py
@@ -345,8 +345,9 @@ class GraphGMM(MultiBoundaryContainer):
                         # If the chosen one is the secondary choice, only adapt one
                         # and then reitarate, i.e. make an optimal sequence / graph
                         ind_critical = [child for par, child in list_parent_child]
+                        ind_parents = [par for par, child in list_parent_child]
                         ind_child = np.argmax(
-                            weights_without_self[ind_critical, it_pref]
+                            weights_without_self[ind_critical, ind_parents]
                         )
                         ind_child = ind_critical[ind_child]
 
-- 
2.43.0


From fdcefe1393db4c8594210d6a68a9d50f9e05c579 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 83/97] fix: root of learned gaussians leads to the attractor,
 not to the last gaussian

---
 nonlinear_avoidance/gmm_learner/graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/graph.py b/nonlinear_avoidance/gmm_learner/graph.py
index 27fee19..2a8b9f4 100644
--- a/nonlinear_avoidance/gmm_learner/graph.py
+++ b/nonlinear_avoidance/gmm_learner/graph.py
@@ -168,7 +168,9 @@ class GraphGMM(MultiBoundaryContainer):
         else:
             it_parent = self.get_parent(it_obs)
             # rel_dir =  self[it_parent].center_position - self[it_obs].center_position
-            rel_dir = self[it_obs].center_position - self[it_parent].center_position
+            # Root has no parent, but leads to the attractor
+            goal = self.pos_attractor if it_parent < 0 else self[it_parent].center_position
+            rel_dir = self[it_obs].center_position - goal
 
             # Otherwise use the 'connection point' [which was chosen as global connection]
             local_attractor = self[it_obs].get_intersection_with_surface(
-- 
2.43.0


From d83a6fa247b13175d57a0db2eec7c25e8a4b8433 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 23:15:48 +0000
Subject: [PATCH 84/97] fix: zero-rotations without singularity start at the
 base direction

The branch from a component over its parents was built from the initial
velocity, and could not be joined with the sequence at the root, which
starts at the base (convergence) direction: evaluation of obstacles with
several components ended in breakpoint().
---
 nonlinear_avoidance/nonlinear_rotation_avoider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/nonlinear_rotation_avoider.py b/nonlinear_avoidance/nonlinear_rotation_avoider.py
index e0a7f24..a536a41 100644
--- a/nonlinear_avoidance/nonlinear_rotation_avoider.py
+++ b/nonlinear_avoidance/nonlinear_rotation_avoider.py
@@ -91,7 +91,7 @@ class ConvergenceDynamicsWithoutSingularity:
         self, start: np.ndarray, end: np.ndarray, center: np.ndarray
     ) -> VectorRotationXd:
         """Returns zero-transform as there is no singularity."""
-        velocity = self.initial_dynamics.evaluate(start)
+        velocity = self.convergence_dynamics.evaluate(start)
         return VectorRotationXd.from_directions(velocity, velocity)
 
     def evaluate_projected_weight(
-- 
2.43.0


From eb3e95184796aa81f0cba2577a3d935d58101cc2 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 23:15:48 +0000
Subject: [PATCH 85/97] fix: pass convergence and initial dynamics in their
 roles

create_local_convergence_dynamics swapped initial and reference dynamics.
---
 nonlinear_avoidance/multi_obstacle_avoider.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 3d6e5aa..dca6e73 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -282,7 +282,8 @@ class MultiObstacleAvoider:
                 raise ValueError("What reference dynamics should be taken !?")
 
             return ConvergenceDynamicsWithoutSingularity(
-                initial_dynamics, reference_dynamics
+                convergence_dynamics=reference_dynamics,
+                initial_dynamics=initial_dynamics,
             )
 
     @property
-- 
2.43.0


From 32efbf738f5128ea509e660cd45cbf4a1e7144b1 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 23:15:48 +0000
Subject: [PATCH 86/97] fix: evaluate the tangent direction before any sequence
 was evaluated

evaluate_avoidance_sequence relied on lists which only
evaluate_avoidance_from_sequence creates.
---
 nonlinear_avoidance/multi_obstacle_avoider.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index dca6e73..e3b9ad2 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -844,6 +844,11 @@ class MultiObstacleAvoider:
             direction=initial_velocity,
         )
 
+        # Reset the values which are stored during the evaluation
+        self._normal_vectors = []
+        self._rotation_weights = []
+        self._convergence_reference_proximity = []
+
         # The base node should be equal to the (initial velocity)
         node_list: list[NodeType] = []
         component_weights: list[list[np.ndarray]] = []
-- 
2.43.0


From 120737976ef3f7ad29fe1dc7bc53d1a7e2280941 Mon Sep 17 00:00:00 2001
From: n <a@b.c>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 87/97] fix: learner from given centers has a motion outside of
 its regions

---
 nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
index 887885a..733c062 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
@@ -104,6 +104,11 @@ class KMeansMotionLearner:
         new_instance._fit_region_obstacles()
         new_instance._fit_local_dynamics()
 
+        new_instance.outside_dynamics = LinearSystem(
+            attractor_position=data.attractor_position,
+            maximum_velocity=1.0,
+        )
+
         return new_instance
 
     @property
-- 
2.43.0


From 73357a39c28ad0e1c61de216f1df76949b4b56ec Mon Sep 17 00:00:00 2001
From: x <a@b.c>
Date: Fri, 20 Nov 2026 00:23:31 +0000
Subject: [PATCH 88/97] fix: partial rotation of a sequence turns the following
 rotations back

The planes of the rotations above were turned forward instead of back, such that
a partial rotation did not start where the previous one had ended.
---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 88c68e5..8215bd9 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -360,7 +360,7 @@ class VectorRotationSequence:
             temp_base[:, (ii + 1) :, :] = rotate_array(
                 directions=temp_base[:, (ii + 1) :, :].reshape(self.dimension, -1),
                 base=temp_base[:, ii, :],
-                rotation_angle=self.rotation_angles[ii] * (1 - cumulated_weights[ii]),
+                rotation_angle=self.rotation_angles[ii] * (cumulated_weights[ii] - 1),
             ).reshape(self.dimension, -1, 2)
 
         # Finally: rotate from bottom-to-top
-- 
2.43.0


From 9e2aafebbd0143d0ab75ebe9de0a0bfd6bdb424d Mon Sep 17 00:00:00 2001
From: x <a@b.c>
Date: Fri, 20 Nov 2026 00:26:57 +0000
Subject: [PATCH 89/97] fix: each obstacle is avoided with its own convergence
 direction

The direction of the first close obstacle was kept for all following ones.
---
 .../avoidance/rotational_avoider.py           | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/nonlinear_avoidance/avoidance/rotational_avoider.py b/nonlinear_avoidance/avoidance/rotational_avoider.py
index 2a9327a..74de68f 100644
--- a/nonlinear_avoidance/avoidance/rotational_avoider.py
+++ b/nonlinear_avoidance/avoidance/rotational_avoider.py
@@ -364,16 +364,17 @@ class RotationalAvoider(BaseAvoider):
 
             # Convergence direcctions can be local for certain obstacles
             # / convergence environments
-            if convergence_velocity is None:
-                if self.convergence_dynamics is None:
-                    convergence_velocity = obstacle_list.get_convergence_direction(
-                        position=position, it_obs=it_obs
-                    )
-                else:
-                    convergence_velocity = self.convergence_dynamics.evaluate(position)
+            if convergence_velocity is not None:
+                local_convergence = convergence_velocity
+            elif self.convergence_dynamics is None:
+                local_convergence = obstacle_list.get_convergence_direction(
+                    position=position, it_obs=it_obs
+                )
+            else:
+                local_convergence = self.convergence_dynamics.evaluate(position)
 
             # if not (conv_vel_norm := LA.norm(convergence_velocity)):
-            if not LA.norm(convergence_velocity):
+            if not LA.norm(local_convergence):
                 # Zero value
                 # base = DirectionBase(matrix=null_matrix)
                 base = null_matrix
@@ -390,7 +391,7 @@ class RotationalAvoider(BaseAvoider):
             # Note that the inv_gamma_weight was prepared for the multiboundary
             # environment through the reference point displacement (see 'loca_reference_point')
             rotated_directions[:, it] = self.directional_convergence_summing(
-                convergence_vector=convergence_velocity,
+                convergence_vector=local_convergence,
                 reference_vector=reference_dir,
                 # weight=inv_gamma_weight[it],
                 gamma=gamma_array[it],
-- 
2.43.0


From cea44d4c915a2d07ff45c4a26132a671a56961e7 Mon Sep 17 00:00:00 2001
From: x <a@b.c>
Date: Fri, 20 Nov 2026 01:15:33 +0000
Subject: [PATCH 90/97] fix: reduced sequence lists the last rotation once, if
 only nodes without weight follow

---
 nonlinear_avoidance/vector_rotation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 8215bd9..cce13ed 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -813,7 +813,12 @@ class VectorRotationTree:
             all_basis = np.zeros((self.dimension, 0))
             for node_id in nodelevel_ids:
                 # Transform all child angles to first base-direction
-                successors = self.get_all_childs_children(node_id)
+                # (only weighted ones contribute to a following rotation)
+                successors = [
+                    succ
+                    for succ in self.get_all_childs_children(node_id)
+                    if self._graph.nodes[succ]["weight"]
+                ]
 
                 if not successors:
                     # No successors
-- 
2.43.0


From b560669a00fde653db1ce459917e253738072fdd Mon Sep 17 00:00:00 2001
From: x <a@b.c>
Date: Fri, 20 Nov 2026 02:06:42 +0000
Subject: [PATCH 91/97] fix: gaussians of diagonal covariance are drawn in the
 default dimensions

---
 .../gmm_learner/visualization/gmm_visualization.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/visualization/gmm_visualization.py b/nonlinear_avoidance/gmm_learner/visualization/gmm_visualization.py
index 32aa938..541caf8 100755
--- a/nonlinear_avoidance/gmm_learner/visualization/gmm_visualization.py
+++ b/nonlinear_avoidance/gmm_learner/visualization/gmm_visualization.py
@@ -90,7 +90,7 @@ def draw_gaussians(
         elif gmm.covariance_type == "tied":
             covariances = gmm.covariances_[plot_dims, :][:, plot_dims]
         elif gmm.covariance_type == "diag":
-            covariances = np.diag(gmm.covariances_[n][plot_dims])
+            covariances = np.diag(gmm.covariances_[n][list(plot_dims)])
         elif gmm.covariance_type == "spherical":
             covariances = np.eye(gmm.means_.shape[1]) * gmm.covariances_[n]
 
-- 
2.43.0


From b901afd2eef569e4dd8771dbc129cee1549df389 Mon Sep 17 00:00:00 2001
From: x <a@b.c>
Date: Fri, 20 Nov 2026 02:06:42 +0000
Subject: [PATCH 92/97] fix: obstacle patches are drawn with their centers, and
 without colors

---
 .../gmm_learner/visualization/gmm_visualization.py         | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/visualization/gmm_visualization.py b/nonlinear_avoidance/gmm_learner/visualization/gmm_visualization.py
index 541caf8..a58ff95 100755
--- a/nonlinear_avoidance/gmm_learner/visualization/gmm_visualization.py
+++ b/nonlinear_avoidance/gmm_learner/visualization/gmm_visualization.py
@@ -34,7 +34,7 @@ def draw_obstacle_patches(
             path_axes[0],
             path_axes[1],
             obs.orientation * 180 / np.pi,
-            color=colors[ii],
+            color=None if colors is None else colors[ii],
             zorder=-2,
         )
 
@@ -44,13 +44,12 @@ def draw_obstacle_patches(
 
         if plot_centers:
             ax.plot(
-                gmm.means_[n, plot_dims[0]],
-                gmm.means_[n, plot_dims[1]],
+                obs.center_position[plot_dims[0]],
+                obs.center_position[plot_dims[1]],
                 "k.",
                 markersize=12,
                 linewidth=30,
             )
-        # ax.plot(gmm.means_[n, 0], gmm.means_[n, 1], 'k+', s=12)
 
 
 def draw_gaussians(
-- 
2.43.0


From b4bbba138c17202d1eae20643d91c4b8676e5c88 Mon Sep 17 00:00:00 2001
From: x <a@b.c>
Date: Fri, 20 Nov 2026 02:06:42 +0000
Subject: [PATCH 93/97] fix: graph is drawn into the given axes

---
 nonlinear_avoidance/gmm_learner/learner/visualizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/visualizer.py b/nonlinear_avoidance/gmm_learner/learner/visualizer.py
index 0a9907e..0503c11 100755
--- a/nonlinear_avoidance/gmm_learner/learner/visualizer.py
+++ b/nonlinear_avoidance/gmm_learner/learner/visualizer.py
@@ -183,7 +183,7 @@ def plot_graph_and_gaussians(gaussian_learner, colors=None, ax=None):
     # gaussian_learner.plot_position_and_gaussians_2d(colors=gauss_colors, edge_only=True)
 
     # Draw graph
-    plt.plot(
+    ax.plot(
         gaussian_learner._end_points[0, :],
         gaussian_learner._end_points[1, :],
         "+",
@@ -191,7 +191,7 @@ def plot_graph_and_gaussians(gaussian_learner, colors=None, ax=None):
     )
     center_positions = gaussian_learner.gmm.means_.T
     for ii in range(gaussian_learner.n_gaussians):
-        plt.plot(
+        ax.plot(
             [gaussian_learner._end_points[0, ii], center_positions[0, ii]],
             [gaussian_learner._end_points[1, ii], center_positions[1, ii]],
             "--",
@@ -201,14 +201,14 @@ def plot_graph_and_gaussians(gaussian_learner, colors=None, ax=None):
         ind_parent = gaussian_learner.get_parent(ii)
         if ind_parent == (-1):
             # Connect to attractor
-            plt.plot(
+            ax.plot(
                 [gaussian_learner.pos_attractor[0], center_positions[0, ii]],
                 [gaussian_learner.pos_attractor[1], center_positions[1, ii]],
                 "--",
                 color="black",
             )
         else:
-            plt.plot(
+            ax.plot(
                 [center_positions[0, ind_parent], center_positions[0, ii]],
                 [center_positions[1, ind_parent], center_positions[1, ii]],
                 "--",
-- 
2.43.0


From c60b564720b0275beec8c6d39852534912544644 Mon Sep 17 00:00:00 2001
From: x <a@b.c>
Date: Fri, 20 Nov 2026 02:06:42 +0000
Subject: [PATCH 94/97] fix: color limits of the directions include the largest
 one

---
 nonlinear_avoidance/gmm_learner/learner/visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/visualizer.py b/nonlinear_avoidance/gmm_learner/learner/visualizer.py
index 0503c11..a285293 100755
--- a/nonlinear_avoidance/gmm_learner/learner/visualizer.py
+++ b/nonlinear_avoidance/gmm_learner/learner/visualizer.py
@@ -564,7 +564,7 @@ class LearnerVisualizer:
         )
 
         min_val = np.min(directions_angle_space)
-        max_val = np.min(directions_angle_space)
+        max_val = np.max(directions_angle_space)
 
         limit_val = max(abs(min_val), abs(max_val))
 
-- 
2.43.0


From e84f0e3328879cd7eb2c6a15152b5f3be6fa2ca6 Mon Sep 17 00:00:00 2001
From: x <a@b.c>
Date: Fri, 20 Nov 2026 02:06:42 +0000
Subject: [PATCH 95/97] fix: position data of a learner is drawn, in the given
 window

---
 nonlinear_avoidance/gmm_learner/learner/visualizer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/visualizer.py b/nonlinear_avoidance/gmm_learner/learner/visualizer.py
index a285293..320aab3 100755
--- a/nonlinear_avoidance/gmm_learner/learner/visualizer.py
+++ b/nonlinear_avoidance/gmm_learner/learner/visualizer.py
@@ -142,7 +142,8 @@ def plot_obstacle_wall_environment(
 
 
 def plot_position_data(trajectory_learner, x_lim=None, y_lim=None, ax=None):
-    x_lim, y_lim = trajectory_learner.get_xy_lim_plot()
+    if x_lim is None or y_lim is None:
+        x_lim, y_lim = trajectory_learner.get_xy_lim_plot()
 
     if ax is None:
         fig = plt.figure()
@@ -224,8 +225,8 @@ def plot_graph_and_gaussians(gaussian_learner, colors=None, ax=None):
 class LearnerVisualizer:
     """All the visualization function for use across different learning models."""
 
-    def plot_position_data(**kwargs):
-        plot_position_data(**kwargs)
+    def plot_position_data(self, **kwargs):
+        plot_position_data(self, **kwargs)
 
     def plot_vectorfield_and_integration(self, n_grid=100, x_range=None, y_range=None):
         """Visualize the results."""
-- 
2.43.0


From ba9087a75bcb5491e6d2aa0bef32798f1ac82ad5 Mon Sep 17 00:00:00 2001
From: x <a@b.c>
Date: Fri, 20 Nov 2026 02:06:42 +0000
Subject: [PATCH 96/97] fix: no debugger when the walls are drawn without
 limits

---
 nonlinear_avoidance/gmm_learner/learner/visualizer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/visualizer.py b/nonlinear_avoidance/gmm_learner/learner/visualizer.py
index 320aab3..c790b29 100755
--- a/nonlinear_avoidance/gmm_learner/learner/visualizer.py
+++ b/nonlinear_avoidance/gmm_learner/learner/visualizer.py
@@ -39,7 +39,6 @@ def plot_obstacle_wall_environment(
         fig = None
 
     if x_lim is None or y_lim is None:
-        breakpoint()
         x_lim, y_lim = gmm_learner._Learner.get_xy_lim_plot()
 
     boundary_patch = np.array(
-- 
2.43.0


From f5d8fd7587bf72d8a10784bde38e2e229f87b4dd Mon Sep 17 00:00:00 2001
From: x <a@b.c>
Date: Fri, 20 Nov 2026 02:49:01 +0000
Subject: [PATCH 97/97] fix: unfolding a position does not change the one that
 was given

---
 nonlinear_avoidance/dynamics/projected_rotation_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
index fe8c0c6..27fd99b 100644
--- a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
+++ b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
@@ -288,7 +288,7 @@ class ProjectedRotationDynamics:
         # Rotation is performed with VectorRotationXd
         # vec_attractor_to_position = transformed_position - attractor_position
         if in_obstacle_frame:
-            vec_obstacle_to_position = transformed_position
+            vec_obstacle_to_position = np.array(transformed_position)
         else:
             vec_obstacle_to_position = (
                 transformed_position - self.obstacle.global_reference_point
-- 
2.43.0

