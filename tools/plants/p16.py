import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seedlib import seed
N = "nonlinear_avoidance/"
HEAD = """
import types, warnings
warnings.simplefilter("ignore")
import numpy as np
from vartools.states import Pose, Twist
from dynamic_obstacle_avoidance.obstacles import CuboidXd as Cuboid, EllipseWithAxes as Ellipse
from nonlinear_avoidance.multi_obstacle import MultiObstacle
"""
COMP = HEAD + """
o = MultiObstacle(Pose(np.array([1.0, 2.0]), .5))
o.set_root(Cuboid(axes_length=np.array([1.0, 1.0]), center_position=np.zeros(2)))
o.add_component(Cuboid(axes_length=np.array([2.0, 1.0]), center_position=np.array([2.0, 0])), 0, reference_position=[-1.0, 0.0])
o.add_component(Cuboid(axes_length=np.array([1.0, 1.0]), center_position=np.array([0, 5.0])), 0, reference_position=[0.0, 0.0])
"""
seed("b16_late_pose", "C16", [(N + "multi_obstacle.py", """        self._pose = new_pose
        for pose, obs in zip(self._local_poses, self._obstacle_list):
            obs.pose = self._pose.transform_pose_from_relative(pose)
""", """        for pose, obs in zip(self._local_poses, self._obstacle_list):
            obs.pose = self._pose.transform_pose_from_relative(pose)
        self._pose = new_pose
""")], COMP + """
o.update_pose(Pose(np.array([7.0, 8.0]), 1.0))
assert np.allclose(o[0].pose.position, [7, 8]), o[0].pose.position
""", "the pose of the composed obstacle changes", "the parts lag one update behind")
seed("b16_first_excluded", "C16", [(N + "multi_obstacle.py", """            if ii in excluded_components:
                continue
""", """            if ii == excluded_components[0]:
                continue
""")], COMP + """
g = o.get_gamma_except_components(o[1].pose.position, [0, 1])
assert g > 1, g
""", "two parts are excluded", "only the first excluded part is left out")
seed("b16_message_index", "C16", [(N + "multi_body_human.py", """                self.position_filters[idx_tree].run_once(new_object_poses[ii].position)
""", """                self.position_filters[idx_tree].run_once(
                    new_object_poses[min(idx_tree, len(new_object_poses) - 1)].position
                )
""")], HEAD + """
import nonlinear_avoidance.multi_body_human as m
class F:
    def __init__(self, *a, **k): pass
    def run_once(self, v): self.position = self.rotation = v
m.PositionFilter = m.SimpleOrientationFilter = F
R = m.Rotation.from_euler
b = m.MultiBodyObstacle(pose_updater=types.SimpleNamespace(get_messages=lambda: [m.RigidBody(7, np.array([1.0, 0, 1]), R("x", 0)), m.RigidBody(9, np.array([5.0, 0, 0]), R("x", 0))]))
for i in range(2):
    c = Cuboid(axes_length=np.ones(3), pose=Pose(np.zeros(3), R("x", 0)))
    if i: b.add_component(c, "limb", np.zeros(3), "body", np.array([1.0, 0, 0]), update_id=7)
    else: b.set_root(c, "body")
b.update()
assert np.allclose(b[1].pose.orientation.apply([0, 0, 1.0]), [0, 0, 1.0]), b[1].pose.orientation.apply([0, 0, 1.0])
""", "messages in another order than the parts, with one of a foreign body", "a limb is turned towards another body")
seed("b16_bfs_order", "C16", [(N + "multi_body_human.py", """            it_node += 1  # Iterate

            self.align_position_with_parent(idx_node)
""", """            it_node += 1  # Iterate

        for idx_node in reversed(obs_indeces):
            self.align_position_with_parent(idx_node)
""")], HEAD + """
import nonlinear_avoidance.multi_body_human as m
b = m.MultiBodyObstacle()
b.dimension = 2
for i in range(3):
    c = Cuboid(axes_length=np.ones(2), center_position=np.array([1.0 * i, 2.0]))
    if i: b.add_component(c, str(i), np.array([0.0, .5]), str(i - 1), np.array([0.0, -.5]))
    else: b.set_root(c, "0")
b.update()
assert np.allclose(b[2].pose.position, [0, 0]), b[2].pose.position
""", "a chain of three parts that is not aligned yet", "outer parts are joined to where their parent was before")
seed("b16_arch_joint", "C16", [(N + "arch_obstacle.py", "    ref_dist = 0.5 * axes_length[0] - 0.1 * wall_width\n", "    ref_dist = 0.5 * axes_length[0] - 0.1 * axes_length[1]\n")], HEAD + """
from nonlinear_avoidance.arch_obstacle import create_arch_obstacle
for h in (2.0, 8.0):
    o = create_arch_obstacle(.3, np.array([3.0, h]), Pose(np.zeros(2), 0.0))
    for i in (1, 2):
        p = o[i].get_reference_point(in_global_frame=True)
        assert o[0].get_gamma(p, in_global_frame=True) <= 1, (h, p)
""", "an arch that is much taller than its wall is wide", "the joints of the arms lie outside of the wall")
seed("b16_surface_turn", "C16", [(N + "multi_obstacle_avoider.py", """                        np.hstack((position - pose.position, 0)),
""", """                        np.hstack((pose.transform_position_to_relative(position), 0)),
""")], HEAD + """
from nonlinear_avoidance.multi_obstacle_avoider import compute_multiobstacle_relative_velocity
o = MultiObstacle(Pose(np.array([1.0, 2.0]), 1.2))
o.set_root(Ellipse(axes_length=np.array([2.0, 2.0]), center_position=np.zeros(2)))
o.twist = Twist(np.zeros(2), .7)
v = compute_multiobstacle_relative_velocity(np.array([2.0, 2.0]), [o])
assert np.allclose(v, [0, .7]), v
""", "a rotating obstacle that is turned", "the relative velocity is given in the frame of the obstacle")
