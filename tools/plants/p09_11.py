import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seedlib import seed
CD = "nonlinear_avoidance/dynamics/circular_dynamics.py"
SP = "nonlinear_avoidance/dynamics/spiral_dynamics.py"
PR = "nonlinear_avoidance/dynamics/projected_rotation_dynamics.py"
SD = "nonlinear_avoidance/dynamics/segmented_dynamics.py"
CIRC = """
import numpy as np, warnings
warnings.simplefilter("ignore")
from nonlinear_avoidance.dynamics.circular_dynamics import SimpleCircularDynamics as S, CircularRotationDynamics as C
from vartools.states import Pose
"""
seed("b09_radial_gain", "C09", [(CD, "        return np.copysign(math.sqrt(abs(difference)), difference)\n",
  "        return np.copysign(math.sqrt(abs(difference)), np.sum(np.abs(position[:2])) - self.radius)\n")], CIRC + """
ds = S(pose=Pose(np.zeros(2), 0.0), radius=2.0)
p = 1.8 * np.array([np.cos(.7), np.sin(.7)])
assert ds.evaluate(p) @ p > 0, ds.evaluate(p)
p = np.array([1.8, 0.0])
assert ds.evaluate(p) @ p > 0
""", "a point just inside the circle and off the axes", "the sign of the radial attraction is wrong in the corners between a square and the circle")
seed("b09_third_axis", "C09", [(CD, "            direction[2:] = (-1) * relative_position[2:] * self.k2\n",
  "            direction[2:] = (-1) * position[2:] * self.k2\n")], CIRC + """
ds = S(pose=Pose(np.array([0.0, 0.0, 2.0])), radius=1.0)
v = ds.evaluate(np.array([1.0, 0.0, 2.5]))
assert v[2] < 0
v = ds.evaluate(np.array([1.0, 0.0, 1.5]))
assert v[2] > 0, v
""", "3D circle which is not centered at height zero", "the dynamics converge to the plane through the origin")
seed("b09_weight_inside", "C09", [(CD, "            distance_surface = 1 - self.radius / pos_norm\n            distance_surface = distance_surface * self.inside_approaching_factor\n",
  "            distance_surface = pos_norm - self.radius / 1.0\n            distance_surface = distance_surface / pos_norm * self.outside_approaching_factor\n")], CIRC + """
c = C(radius=2.0, inside_approaching_factor=6.0, outside_approaching_factor=1.0)
w = [c.get_rotation_weight(np.array([r, 0.0])) for r in (0.5, 1.9, 2.0, 3.0)]
assert all(a < b for a, b in zip(w, w[1:])), w
d = C(radius=2.0, inside_approaching_factor=1.0, outside_approaching_factor=6.0)
assert d.get_rotation_weight(np.array([1.0, 0.0])) > 0.3, d.get_rotation_weight(np.array([1.0, 0.0]))
""", "different approach factors inside and outside", "the inside uses the approach factor of the outside")
seed("b10_inflate_frame", "C10", [(PR, "            relative_position[0] = 1e-6\n            pos_norm = relative_position[0]\n",
  "            relative_position[0] = 1e-6\n            pos_norm = 1.0\n")], """
import numpy as np
from nonlinear_avoidance.dynamics.projected_rotation_dynamics import ProjectedRotationDynamics as P
class O:
    global_reference_point = np.zeros(2)
    def get_local_radius(s, p, in_global_frame=False): return 1.5
d = P(attractor_position=np.array([4.0, 0]), obstacle=O())
out = d._get_position_after_inflating_obstacle(np.zeros(2), in_obstacle_frame=True)
assert abs(np.linalg.norm(out) - 1.5) < 1e-3, out
""", "the shrunk position is exactly the reference point", "the inflated position stays inside of the obstacle")
seed("b10_back_rotation", "C10", [(PR, "            averaged_direction_transformed, rot_factor=(-1) * (1 - weight)\n",
  "            averaged_direction_transformed, rot_factor=(-1) * (1 - weight) ** 2\n"),
  ], """
import numpy as np
from nonlinear_avoidance.dynamics.projected_rotation_dynamics import ProjectedRotationDynamics as P
class D:
    def evaluate(s, p): return (np.zeros(2) - p) / max(np.linalg.norm(p), 1e-9)
class O:
    global_reference_point = np.array([-2.0, 0.0])
d = P(attractor_position=np.zeros(2), obstacle=O(), initial_dynamics=D())
d.evaluate_projected_weight = lambda p, o, **k: 0.5
pos = np.array([0.0, -2.0])
out = d.evaluate_convergence_around_obstacle(pos, O())
# both directions are the attractor direction: half-way weight turns half-way
want = np.array([1.0, 1.0]) / 2 ** 0.5
assert np.allclose(out, want, atol=1e-6), out
""", "weight strictly between 0 and 1", "the averaged direction is not rotated back by the remaining share")
seed("b10_projected_attractor", "C10", [(PR, "        if self.obstacle.get_gamma(relative_attractor, in_obstacle_frame=True) < 1:\n            return position\n            # breakpoint()  # This should be treated specially!(!)\n",
  "        if self.obstacle.get_gamma(self.attractor_position, in_obstacle_frame=True) < 1:\n            return position\n            # breakpoint()  # This should be treated specially!(!)\n")], """
import numpy as np
from vartools.states import Pose
from nonlinear_avoidance.dynamics.projected_rotation_dynamics import ProjectedRotationDynamics as P
class O:
    pose = Pose(np.array([5.0, 0.0]), 0.0)
    global_reference_point = pose.position
    def get_local_radius(s, p, in_global_frame=False): return 1.0
    def get_gamma(s, p, in_global_frame=False, in_obstacle_frame=False):
        return np.linalg.norm(p if in_obstacle_frame else p - s.pose.position)
pos = np.array([3.0, 3.0])
d = P(attractor_position=np.array([0.5, 0.0]), obstacle=O())
assert not np.allclose(d.get_projected_position(pos), pos), d.get_projected_position(pos)
""", "an obstacle away from the origin and an attractor close to the origin", "the attractor is taken as inside the obstacle, as its position is read in the wrong frame: no projection")
PATH = """
import numpy as np
from nonlinear_avoidance.dynamics.segmented_dynamics import create_segment_from_points, DynamicsSegment
"""
seed("b11_clamp", "C11", [(SD, "        tt = min(self.length, max(tt, 0))\n        projection", "        tt = min(max(self.length, 1.0), max(tt, 0))\n        projection")], PATH + """
s = DynamicsSegment([0.0, 0.0], [0.4, 0.0])
assert abs(s.get_distance(np.array([0.9, 0.0])) - 0.5) < 1e-9
""", "a segment shorter than one unit and a position behind its end", "the distance to short segments is too small behind their end")
seed("b11_rest_weight", "C11", [(SD, "            weights = weights * (1 + dot_prod) ** dotprod_power\n\n        if (weight_sum := np.sum(weights)) < 1:\n",
  "            weights = weights * (1 + dot_prod) ** dotprod_power\n\n        if (weight_sum := np.max(weights)) < 1:\n")], PATH + """
d = create_segment_from_points([[0.0, 0.0], [0.0, 12.0], [12.0, 12.0]], margin=0.1)
for x in np.linspace(0, 9, 50):
    w = d.get_weights(np.array([x, 12 - x]))
    assert w.min() >= -1e-12 and abs(w.sum() - 1) < 1e-9, w
""", "two segments about equally far away (each with a weight below one, together above one)", "weights do not sum to one")
seed("b11_slowdown", "C11", [(SD, "        if dist_attr > self.slowdown_distance:\n            return self.maximum_velocity\n\n        return dist_attr / self.slowdown_distance * self.maximum_velocity\n",
  "        if dist_attr > self.slowdown_distance:\n            return self.maximum_velocity\n\n        return dist_attr / self.maximum_velocity * self.slowdown_distance\n")], PATH + """
d = create_segment_from_points([[0.0, 0.0], [0.0, 4.0]], margin=0.1)
d.slowdown_distance = 2.0
assert abs(d.evaluate_magnitude(d.attractor_position + np.array([1.0, 0])) - .5) < 1e-9
""", "slow-down distance different from the maximum velocity", "speed jumps at the slow-down distance")
