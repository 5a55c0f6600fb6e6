import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seedlib import seed
RA = "nonlinear_avoidance/avoidance/rotational_avoider.py"
MO = "nonlinear_avoidance/multi_obstacle_avoider.py"
NL = "nonlinear_avoidance/nonlinear_rotation_avoider.py"
WALL = '''
import numpy as np, warnings
warnings.simplefilter("ignore")
class Wall:
    is_boundary = False
    def __init__(s, g, n, r): s.g, s.n, s.r = g, np.array(n, float), np.array(r, float)
    def get_gamma(s, p, in_global_frame=False): return s.g
    def get_normal_direction(s, p, in_global_frame=False): return s.n
    def get_reference_direction(s, p, in_global_frame=False): return s.r
class Const:
    dimension = 2
    def __init__(s, v): s.v = np.array(v, float)
    def evaluate(s, p): return s.v
class Comp(Wall):
    tail_effect = False
    def __init__(s, g, n, r, surf, c):
        super().__init__(g, n, r); s.surf = np.array(surf, float); s.center_position = s.global_reference_point = np.array(c, float)
    def get_reference_point(s, in_global_frame=False): return s.center_position
    def get_intersection_with_surface(s, p, d, in_global_frame=False): return s.surf
    def get_pose(s): return None
class Tree:
    root_idx = 0
    def __init__(s, *c): s.c = c; s.n_components = len(c)
    def __iter__(s): return iter(s.c)
    def __len__(s): return len(s.c)
    def get_component(s, i): return s.c[i]
    def get_parent_idx(s, i): return None if i == 0 else 0
    def get_root(s): return s.c[0]
    def get_gamma(s, p, in_global_frame=True): return min(c.g for c in s.c)
    def get_pose(s): return None
class Seq:
    def __init__(s, v): s.v = np.array(v, float)
    def get_end_vector(s): return s.v
'''
RAV = WALL + "from nonlinear_avoidance.avoidance.rotational_avoider import RotationalAvoider as RA\n"
MUL = WALL + "from nonlinear_avoidance.multi_obstacle_avoider import MultiObstacleAvoider as MA\nimport nonlinear_avoidance.multi_obstacle_avoider as mo\n"

seed("b01_normal_index", "C01", [(RA, "            normal_dirs[:, it] = obstacle_list[it_obs].get_normal_direction(",
 "            normal_dirs[:, it] = obstacle_list[it].get_normal_direction(")], RAV + """
far = Wall(1e9, [1, 0], [-1, 0]); near = Wall(1.0, [0, 1], [0, -1])
v = np.array([0.6, -0.8])
out = RA(initial_dynamics=Const(v), obstacle_environment=[far, near], convergence_system=Const([0.6, -0.8])).avoid(np.zeros(2))
assert out[1] > -1e-6, out
""", "an obstacle beyond the cut-off distance listed before the touched one", "the normal of another obstacle is used, the velocity enters the touched one")

seed("b01_leaving_margin", "C01", [(MO, "            or np.dot(normal_directions[0], velocity) < 0\n", "            or np.dot(normal_directions[0], velocity) < -0.3\n")],
MUL + """
c = Comp(1.0, [0, 1], [0, -1], [0, 0], [0, -1])
conv = np.array([0.98, -0.2]); conv /= np.linalg.norm(conv)
out = MA(obstacle=Tree(c), initial_dynamics=Const(conv)).evaluate_avoidance_from_sequence(np.zeros(2), Seq(conv)).get_end_vector()
assert out[1] > -1e-6, out
""", "component without tail effect, convergence direction entering at a shallow angle", "the shallow velocity is kept and enters the obstacle")

seed("b01_tangent_radius", "C01", [(RA, "            np.linalg.norm(dir_convergence.as_angle()) >= self.convergence_radius\n            and not self.tail_rotation",
 "            np.max(np.abs(vector_convergence - vector_reference)) >= 1.0\n            and not self.tail_rotation")], RAV + """
near = Wall(1.0, [0, 1], [0.6, -0.8])
v = np.array([-0.8, -0.6])
out = RA(initial_dynamics=Const(v), obstacle_environment=[near]).avoid(np.zeros(2))
assert out[1] > -1e-6, out
""", "convergence direction into the wall, far from a tilted reference direction", "the convergence direction is taken as already leaving and enters the obstacle")

seed("b02_cutoff", "C02", [(NL, "            ind_obs = gamma_array < self._rotation_avoider.cut_off_gamma\n", "            ind_obs = gamma_array - gamma_min < self._rotation_avoider.cut_off_gamma\n")],
RAV + """
from nonlinear_avoidance.nonlinear_rotation_avoider import SingularityConvergenceDynamics as S
class E(list): n_obstacles = 1
class C:
    def evaluate_convergence_around_obstacle(s, p, obstacle): return np.array([0, 1.0])
s = S(Const([1, 0]), E([Wall(10.5, [0, 1], [0, -1])]), C())
out = s.evaluate_weighted_dynamics(np.zeros(2), np.array([1.0, 0]))
assert np.allclose(out, [1, 0]), out
""", "obstacle at a gamma between the cut-off and the cut-off + 1", "an obstacle out of range changes the convergence direction")

seed("b02_relative_rest", "C02", [(RA, "        if not any(ind_obs):\n            return initial_velocity\n", "        if not np.any(gamma_array < self.cut_off_gamma * 2):\n            return initial_velocity\n"),
 (RA, "        ind_obs = np.logical_and(gamma_array < self.cut_off_gamma, gamma_array >= 1)\n", "        ind_obs = np.logical_and(gamma_array < self.cut_off_gamma * 2, gamma_array >= 1)\n")],
RAV + """
v = np.array([1.0, 0.0]); w = Wall(150.0, [-1, 0], [0.8, 0.6])
w.get_velocity_at_position = lambda p: np.array([0, 2.0])
out = RA(initial_dynamics=Const(v), obstacle_environment=[w], cut_off_gamma=100).avoid(np.zeros(2))
assert np.allclose(out, v), out
""", "a moving obstacle between one and two cut-off distances", "obstacles beyond the cut-off still change the velocity")

seed("b03_last_gamma", "C03", [(RA, "            * (1 + (1 / gammas[it_min]) * min_dot_prod)", "            * (1 + (1 / gammas[ii]) * min_dot_prod)")],
RAV + """
out = RA._limit_magnitude(np.array([1.0, 0]), 2.0, np.array([1.0, 5.0]), np.array([[-1.0, 0], [0, 1.0]]).T, np.array([1.0, 0]))
assert np.linalg.norm(out) < 1e-6, out
""", "several obstacles, the one headed for is not the last", "heading straight at a touched obstacle is not stopped")

seed("b03_min_scaling", "C03", [(MO, "            * min(scaling_convergence, scaling_proximity)", "            * min(1.0, scaling_convergence + scaling_proximity)")],
MUL + """
c = Comp(1.0, [0, 1], [0.6, -0.8], [0, 0], [0, -1])
conv = np.array([0.9, -np.sqrt(1 - 0.81)])
class A(MA):
    def compute_convergence_sequence(s, p, q): return Seq(conv)
    def evaluate_avoidance_from_sequence(s, p, q):
        super().evaluate_avoidance_from_sequence(p, q); return Seq([0.8, -0.6])
out = A(obstacle=Tree(c), initial_dynamics=Const(conv)).evaluate(np.zeros(2))
assert np.linalg.norm(out) < 1e-6, out
""", "touching an obstacle while the convergence slow-down alone does not stop", "the agent is not stopped when heading into a touched obstacle")

seed("b03_scaling_branch", "C03", [(RA, "        power_factor = (1.0 / (gamma - 1) * normal_norm) ** (1.0 / power_root)\n        return ((1.0 + dot_scaling * dot_product)) ** power_factor\n",
 "        power_factor = (1.0 / (gamma - 1) * normal_norm) ** (1.0 / power_root)\n        return ((1.0 + dot_scaling * dot_product)) ** (1.0 / power_factor)\n")],
RAV + """
f = lambda g: RA.compute_safe_scaling(np.array([0.6, 0.8]), np.array([-1.0, 0]), g)
assert f(1.1) < f(5.0), (f(1.1), f(5.0))
""", "comparing the slow-down at two distances", "the agent gets faster as it approaches")

seed("b04_small_sum", "C04", [(MO, "    if (weight_sum := sum(weights)) < 1:\n", "    if (weight_sum := max(weights)) < 1 and len(weights) > 2:\n        return (np.array(weights), weight_sum)\n\n    if (weight_sum := sum(weights)) < 1:\n")],
MUL + """
w, s = mo.get_limited_weights_to_max_sum([0.6, 0.6, 0.5])
assert sum(w) <= 1 + 1e-9, w
""", "at least three obstacles with a total weight above one", "the total weight exceeds one")

seed("b04_touch_norm", "C04", [(MO, "        if np.sum(critical_points) >= 2:\n", "        if np.sum(critical_points) > 2:\n")],
MUL + """
w = mo.compute_gamma_weights(np.array([0.9, 1.0, 3.0]))
assert abs(sum(w) - 1) < 1e-9, w
""", "exactly two obstacles touched at once", "weights add up to two")

seed("b04_mean_normal", "C04", [(MO, "            weights = 1.0 / np.array(gamma_values) ** weight_power\n", "            weights = 1.0 / (np.array(gamma_values) - min_gamma + 1) ** weight_power\n"),
 (MO, "        if min_gamma <= 1:\n            weights = np.array(gamma_values) <= 1\n", "        if min_gamma <= 1:\n            weights = np.array(gamma_values) <= min_gamma\n")],
MUL + """
class T:
    def __init__(s, *c): s._obstacle_list = c
a = MA(obstacle_container=[T(Wall(0.9, [1, 0], [0, 0]), Wall(1.0, [0, 1], [0, 0]))], initial_dynamics=Const([1, 0]))
n, g = a.compute_averaged_normal_and_gamma(np.zeros(2))
assert np.allclose(n, [0.5, 0.5]), n
""", "two obstacles touched at different penetration", "one of the touched obstacles has no weight in the averaged normal")

seed("b05_occlusion_sign", "C05", [(MO, "            vec_parent = ref_parent - ref_comp\n", "            vec_parent = ref_comp - ref_parent\n")],
MUL + """
class C(Comp):
    def get_gamma(s, p, in_global_frame=False): return 0.5 if s.g == 9 and p[0] == 0.7 else 3.0
root = C(9, [0, 1], [0, 1], [0, 0], [2.0, 0]); child = C(3.0, [0, 1], [1, 0], [0.7, 0], [0, 0])
a = MA(obstacle_container=[], initial_dynamics=Const([1, 0]))
towards = a.compute_parent_occlusion_weight(np.array([3.0, 0.5]), Tree(root, child))[1]
behind = a.compute_parent_occlusion_weight(np.array([-3.0, 0.5]), Tree(root, child))[1]
assert towards < behind, (towards, behind)
""", "component partly covered by its parent", "the component is occluded on the wrong side")

seed("b05_radius_mix", "C05", [(MO, "            weight = (inside_gamma - self.gamma_maximum_repulsion) / (\n                1 - self.gamma_maximum_repulsion\n            )",
 "            weight = (inside_gamma - self.gamma_maximum_repulsion) / (\n                inside_gamma * self.gamma_maximum_repulsion\n            )")],
MUL + """
c = Comp(0.9, [1, 0], [-1, 0], [1, 0], [0, 0])
a = MA(obstacle_container=[], initial_dynamics=Const([1, 0]), gamma_maximum_repulsion=0.3)
r = a.compute_convergence_radiuses(np.array([0.9]), position=np.array([0.9, 0]), obstacle_tree=Tree(c))
assert r[0] >= np.pi / 2 - 1e-9, r
""", "position inside a component with a non-default repulsion limit", "convergence radius leaves [radius, pi]")

seed("b05_rotation_weight", "C05", [(RA, "        if ref_radius <= delta_angle:\n            return 1.0 / gamma_value\n", "        if ref_radius <= delta_angle:\n            return 1.0 / gamma_value**0.5\n")],
RAV + """
n = np.array([-1.0, 0])
w = RA.get_rotation_weight(n, np.array([0.6, 0.8]), np.array([0.6, -0.8]), gamma_value=16.0)
assert w <= 1 / 16 + 1e-9, w
""", "convergence direction beyond the reference radius", "the influence fades slower than the distance")
