import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seedlib import seed
N = "nonlinear_avoidance/"
V = N + "vector_rotation.py"
seed("a22_tree_weights_kept", "C22", [(V, """        self.reset_node_weights()

        # Weights are stored""", """        if len(node_list) > 1:
            self.reset_node_weights()

        # Weights are stored""")], """
import warnings
warnings.simplefilter("ignore")
import numpy as np
from nonlinear_avoidance.vector_rotation import VectorRotationTree
def make():
    t = VectorRotationTree(root_idx=0, root_direction=np.array([1.0, 0]))
    t.add_node(node_id=1, parent_id=0, direction=np.array([0.6, 0.8]))
    t.add_node(node_id=2, parent_id=0, direction=np.array([0.6, -0.8]))
    return t
t = make()
t.get_weighted_mean(node_list=[1], weights=[1.0])
a = t.get_weighted_mean(node_list=[2], weights=[1.0])
b = make().get_weighted_mean(node_list=[2], weights=[1.0])
assert np.allclose(a, b), (a, b)
""", "a tree that is asked for the mean of a single node, and then for the one of another", "the weights of an earlier mean stay in the tree")
seed("a22_base_of_sequence", "C22", [(V, "        temp_base = np.copy(self.basis_array)\n        temp_angle = self.rotation_angles * cumulated_weights",
                                      "        temp_base = self.basis_array\n        temp_angle = self.rotation_angles * cumulated_weights")], """
import numpy as np
from nonlinear_avoidance.vector_rotation import VectorRotationSequence as S
s = S.create_from_vector_array(np.array([[1.0, 0], [0.8, 0.6], [0, 1.0]]).T)
x = np.array([1.0, 0])
a = s.rotate_weighted(x, weights=np.array([1.0, 0.0]))
b = s.rotate_weighted(x, weights=np.array([1.0, 0.0]))
assert np.allclose(a, b), (a, b)
""", "a sequence that is used for several weighted rotations", "a weighted rotation turns the base of the sequence itself")
seed("a22_rotate_in_place", "C22", [(V, "        return direction\n\n    direction = direction / dir_norm\n\n    dot_prods", "        return direction\n\n    if direction.dtype == float:\n        direction /= dir_norm\n    else:\n        direction = direction / dir_norm\n\n    dot_prods")] , """
import numpy as np
from nonlinear_avoidance.vector_rotation import VectorRotationXd
v = np.array([3.0, 4.0])
VectorRotationXd.from_directions(np.array([1.0, 0]), np.array([0, 1.0])).rotate(v)
assert np.allclose(v, [3.0, 4.0]), v
""", "a float vector which is no unit vector and is used again after having been rotated", "the vector given to a rotation is normalised in place")
R = N + "avoidance/rotational_avoider.py"
seed("a22_gamma_of_last_position", "C22", [(R, """            gamma_array[ii] = obstacle_list[ii].get_gamma(
                position, in_global_frame=True
            )

            if gamma_array[ii] < 1 and""", """            obstacle = obstacle_list[ii]
            if getattr(obstacle, "_gamma_position", None) is not position:
                obstacle._gamma_position = position
                obstacle._gamma_value = obstacle.get_gamma(position, in_global_frame=True)
            gamma_array[ii] = obstacle._gamma_value

            if gamma_array[ii] < 1 and""")], """
import numpy as np
from nonlinear_avoidance.avoidance.rotational_avoider import RotationalAvoider
class Disc:
    is_boundary = False
    def get_gamma(self, position, in_global_frame=False):
        return np.linalg.norm(position)
p = np.array([2.0, 0.0])
obs = [Disc()]
assert np.allclose(RotationalAvoider.compute_obstacle_gamma(p, obs), 2.0)
p += np.array([1.0, 0.0])
assert np.allclose(RotationalAvoider.compute_obstacle_gamma(p, obs), 3.0)
""", "an agent whose position array is updated in place", "the distance to an obstacle is the one of an earlier position")
P = N + "dynamics/projected_rotation_dynamics.py"
seed("a22_inflating_in_place", "C22", [(P, """            # Needs a tiny value
            relative_position[0] = 1e-6
            pos_norm = relative_position[0]

        inflated_position = (
            (pos_norm + radius * deflation_weight) / pos_norm
        ) * relative_position
""", """            # Needs a tiny value
            relative_position[0] = 1e-6
            pos_norm = relative_position[0]

        if in_obstacle_frame:
            relative_position = position
        relative_position *= (pos_norm + radius * deflation_weight) / pos_norm
        inflated_position = relative_position
""")], """
import types
import numpy as np
from nonlinear_avoidance.dynamics.projected_rotation_dynamics import ProjectedRotationDynamics
o = types.SimpleNamespace(global_reference_point=np.zeros(2), get_local_radius=lambda p, in_global_frame=False: 1.0)
d = ProjectedRotationDynamics(attractor_position=np.zeros(2), obstacle=o, initial_dynamics=None)
p = np.array([2.0, 0.0])
q = d._get_position_after_inflating_obstacle(p, in_obstacle_frame=True)
assert np.allclose(q, [3.0, 0.0]) and np.allclose(p, [2.0, 0.0]), (p, q)
""", "a position in the frame of the obstacle which is used again", "inflating an obstacle moves the position that was given")
W = N + "dynamics/wavy_attractor_dynamics.py"
seed("a22_wavy_cached_turn", "C22", [(W, """        rot_matrix = self.get_rotation_matrix(deviation * self.maximum_deviation)
        linear_velocity""", """        if not hasattr(self, "_turns"):
            self._turns = {}
        key = round(float(distance), 1)
        if key not in self._turns:
            self._turns[key] = self.get_rotation_matrix(deviation * self.maximum_deviation)
        rot_matrix = self._turns[key]
        linear_velocity""")], """
import numpy as np
from nonlinear_avoidance.dynamics.wavy_attractor_dynamics import WavyLinearDynamics
make = lambda: WavyLinearDynamics(attractor_position=np.zeros(2), maximum_velocity=1.0)
d = make()
d.evaluate(np.array([2.01, 0.0]))
p = np.array([0.0, 2.04])
assert np.allclose(d.evaluate(p), make().evaluate(p)), (d.evaluate(p), make().evaluate(p))
""", "two positions at nearly the same distance of the attractor", "the deviation is the one of an earlier position nearby")
B = N + "base_avoider.py"
seed("a22_first_velocity", "C22", [(B, "        initial_velocity = self.initial_dynamics.evaluate(position)\n        return", "        key = tuple(round(float(x)) for x in position)\n        if getattr(self, \"_cell\", None) != key:\n            self._cell = key\n            self._velocity = self.initial_dynamics.evaluate(position)\n        initial_velocity = self._velocity\n        return")], """
import numpy as np
from nonlinear_avoidance.base_avoider import BaseAvoider
class Free:
    def evaluate(self, position): return -position
class Avoider(BaseAvoider):
    def avoid(self, position, initial_velocity, obstacle_list): return initial_velocity
av = Avoider(Free(), [])
for x in (1.0, 0.9, 0.8):
    p = np.array([x, 0.0])
    assert np.allclose(av.evaluate(p), -p), av.evaluate(p)
""", "two positions close to each other", "the velocity is the one of an earlier position nearby", stubs=False)
K = N + "kmeans_learner/kmeans_obstacle.py"
seed("a22_direction_in_place", "C22", [(K, """            direction = position
            position = position + self.center_position

        if dir_norm := LA.norm(direction):
            direction = direction / dir_norm
        else:
            # Random value
            direction = np.zeros(self.dimension)
            direction[0] = 1

        # Default guess: point is on""", """            direction = position
            position = position + self.center_position

        if dir_norm := LA.norm(direction):
            np.divide(direction, dir_norm, out=direction)
        else:
            # Random value
            direction = np.zeros(self.dimension)
            direction[0] = 1

        # Default guess: point is on""")], """
import types
import numpy as np
from nonlinear_avoidance.kmeans_learner.kmeans_obstacle import KMeansObstacle
k = types.SimpleNamespace(cluster_centers_=np.array([[0.0, 0.0], [4.0, 0.0]]), n_clusters=2)
o = KMeansObstacle(kmeans=k, radius=3.0, index=0)
p = np.array([0.0, 2.0])
o.get_point_on_surface(p, in_global_frame=False)
assert np.allclose(p, [0.0, 2.0]), p
""", "a position in the local frame which is used again", "looking for the surface moves the position that was given")
