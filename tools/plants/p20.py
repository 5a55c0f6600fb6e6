import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seedlib import seed
M = "nonlinear_avoidance/multi_obstacle_avoider.py"
R = "nonlinear_avoidance/avoidance/rotational_avoider.py"
C = "nonlinear_avoidance/nonlinear_rotation_avoider.py"
TREE = """
import warnings
warnings.simplefilter("ignore")
import math
import numpy as np
from nonlinear_avoidance.multi_obstacle_avoider import MultiObstacleAvoider
from nonlinear_avoidance.vector_rotation import VectorRotationSequence as S
class Disc:
    is_boundary = False
    def __init__(self, center, radius, tail=True):
        self.center_position = self.global_reference_point = np.array(center, dtype=float)
        self.radius, self.tail_effect = radius, tail
    def get_reference_point(self, in_global_frame=False):
        return self.center_position
    def get_gamma(self, p, in_global_frame=False):
        return np.linalg.norm(p - self.center_position) / self.radius
    def get_reference_direction(self, p, in_global_frame=False):
        d = self.center_position - p
        return d / np.linalg.norm(d)
    def get_normal_direction(self, p, in_global_frame=False):
        return -self.get_reference_direction(p)
    def get_intersection_with_surface(self, start, direction, in_global_frame=False):
        d = direction / np.linalg.norm(direction)
        s = start - self.center_position
        b = s @ d
        return start + d * (-b + math.sqrt(b * b - s @ s + self.radius ** 2))
class Tree:
    def __init__(self, parts, parents):
        self.parts, self.parents, self.root_idx = parts, parents, parents.index(None)
        self.n_components = len(parts)
    def __iter__(self):
        return iter(self.parts)
    def get_component(self, i):
        return self.parts[i]
    def get_parent_idx(self, i):
        return self.parents[i]
    def get_root(self):
        return self.parts[self.root_idx]
    def get_gamma(self, p, in_global_frame=True):
        return min(o.get_gamma(p) for o in self.parts)
class Dyn:
    dimension = 2
    def __init__(self, f, attractor=None):
        self.evaluate = f
        if attractor is not None:
            self.attractor_position = np.array(attractor, dtype=float)
"""
seed("b20_branch_from_leaf", "C20", [(M, """            ref_dir = surface_points[-1] - ref_point
""", """            ref_dir = surface_points[0] - ref_point
""")], TREE + """
t = Tree([Disc([0, 0], 1.0), Disc([0.6, 0.5], 0.9), Disc([1.2, 0.2], 0.8)], [None, 0, 1])
a = MultiObstacleAvoider(obstacle=t, initial_dynamics=Dyn(lambda x: np.ones(2)))
order, normals, refs = a._compute_normal_and_reference_of_branch(np.array([2.4, -1.1]), 2, t)
p1 = t.parts[2].get_intersection_with_surface(t.parts[2].center_position, np.array([2.4, -1.1]) - t.parts[2].center_position)
p2 = t.parts[1].get_intersection_with_surface(t.parts[2].center_position, p1 - t.parts[2].center_position)
p3 = t.parts[0].get_intersection_with_surface(t.parts[1].center_position, p2 - t.parts[1].center_position)
assert np.allclose(normals[2], t.parts[0].get_normal_direction(p3)), (normals, p3)
""", "a component whose parent is not the root", "root is left at another point")
seed("b20_only_last_turn", "C20", [(M, """            velocity = rotation.rotate(velocity)
            # print("velocity", velocity)
""", """            velocity = rotation.rotate(base_velocity)
            # print("velocity", velocity)
""")], TREE + """
t = Tree([Disc([0, 0], 1.0, False), Disc([0.6, 0.5], 0.9, False), Disc([1.2, 0.2], 0.8, False)], [None, 0, 1])
v = np.array([0.6, -0.8])
a = MultiObstacleAvoider(obstacle=t, initial_dynamics=Dyn(lambda x: v))
p = np.array([1.2, 0.2]) + 0.8 * np.array([0.8, -0.6])
order, normals, refs = a._compute_normal_and_reference_of_branch(p, 2, t)
class End:
    def get_end_vector(self):
        return v
a.evaluate_avoidance_from_sequence(p, End())
out = a._tangent_tree.reduce_weighted_to_sequence([(0, 2, 2)], [1.0]).get_end_vector()
assert abs(out @ refs[0] - v @ refs[2]) < 1e-6 or out @ normals[0] < 1e-6 and v @ refs[2] > 0, (out, refs)
cross = lambda a, b: a[0] * b[1] - a[1] * b[0]
if v @ refs[2] < 0:
    assert abs(cross(refs[0], out) - cross(refs[2], v)) < 1e-6
else:
    w = np.array([refs[2] @ v, cross(refs[2], v)])
    turned = np.array([w[0] * refs[0][0] - w[1] * refs[0][1], w[0] * refs[0][1] + w[1] * refs[0][0]])
    if abs(cross(refs[0], turned)) > 1e-3:
        assert cross(refs[0], turned) * cross(refs[0], out) > 0
""".replace("0.6, -0.8])\n", "0.6, 0.8])\n"), "a component two levels below the root", "velocity is turned by the last step only")
seed("b20_child_share", "C20", [(M, """                node_list.append(node_id)
                weight_list.append(weight * tree_weight)

        # if hasattr""", """                node_list.append(node_id)
                weight_list.append(weight)

        # if hasattr""")], TREE + """
from nonlinear_avoidance.dynamics.projected_rotation_dynamics import ProjectedRotationDynamics as P
att = np.zeros(2)
d = Dyn(lambda x: att - x, att)
class W(P):
    def evaluate_projected_weight(self, position, obstacle):
        return 0.5 if obstacle is t.parts[1] else 0.0
t = Tree([Disc([0, 1.5], 1.25), Disc([0, 2.5], 0.5)], [None, 0])
a = MultiObstacleAvoider(obstacle=t, initial_dynamics=d, convergence_dynamics=W(attractor_position=att, initial_dynamics=d))
out = a.compute_convergence_direction(np.array([2.0, 0.0]))
angle = math.atan2(-out[1], -out[0])
assert abs(angle - 0.5 * 0.2 * math.pi / 2) < 1e-6, angle
""", "attractor close to the obstacle, weight on a component that is not the root", "it still leads away from the attractor")
seed("b20_box_normal", "C20", [(M, """        position = surface_point + direction / dir_norm * distance
""", """        position = surface_point + direction * distance
""")], TREE + """
from nonlinear_avoidance import multi_obstacle_avoider as m
class Box(Disc):
    def get_normal_direction(self, p, in_global_frame=False):
        return p
m.Cuboid = Box
t = Tree([Box([0, 0], 2.0)], [None])
a = MultiObstacleAvoider(obstacle=t, initial_dynamics=Dyn(lambda x: np.ones(2)))
p = np.array([3.0, 4.0])
assert np.allclose(a._compute_normal_and_reference_of_branch(p, 0, t)[1][0], p)
""", "boxes of another size than one", "normal is not the one at the position")
SEQ = TREE + """
from nonlinear_avoidance.avoidance import rotational_avoider as ra
class Env(list):
    dimension = 2
    n_obstacles = property(len)
rows = lambda *v: S.create_from_vector_array(np.array(v, dtype=float).T)
"""
seed("b20_all_convergence", "C20", [(R, """            node_weights.append(sum(importance_weights) - sum(node_weights))
""", """            node_weights.append(1 - sum(node_weights))
""")], SEQ + """
ra.compute_weights = lambda g: np.zeros(len(g)) + 0.1
ra_env = Env([Disc([500, 0], 0.5)])
a = ra.RotationalAvoider(initial_dynamics=Dyn(lambda x: np.array([1.0, 0])), obstacle_environment=ra_env)
out = a.avoid_sequence(np.zeros(2), rows([1, 0], [0.8, 0.6]), rows([1, 0], [0, -1])).get_end_vector()
assert abs(math.atan2(out[1], out[0]) - (0.9 * math.atan2(0.6, 0.8) - 0.1 * math.pi / 2)) < 0.05, out
""", "obstacles of little importance", "the convergence direction is followed everywhere")
seed("b20_own_speed", "C20", [(C, """            magnitude = self._rotation_avoider.initial_dynamics.evaluate_magnitude(
                position
            )
        else:""", """            magnitude = min(
                self._rotation_avoider.initial_dynamics.evaluate_magnitude(position), 1.0
            )
        else:""")], SEQ + """
from nonlinear_avoidance.nonlinear_rotation_avoider import SingularityConvergenceDynamics as N
class D(Dyn):
    def evaluate_magnitude(self, x):
        return 2.5
class Conv:
    def evaluate_projected_weight(self, p, o):
        return 0.0
d = D(lambda x: np.array([1.0, 0.2]))
a = N(initial_dynamics=d, obstacle_environment=Env(), obstacle_convergence=Conv())
assert abs(np.linalg.norm(a.evaluate_sequence(np.zeros(2))) - 2.5) < 1e-6
""", "dynamics with a speed of their own above one", "they are slowed down")
