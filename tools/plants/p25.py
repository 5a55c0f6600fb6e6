import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seedlib import seed
N = "nonlinear_avoidance/"
P = N + "dynamics/projected_rotation_dynamics.py"
HEAD = """
import warnings
warnings.simplefilter("ignore")
import numpy as np
from vartools.states import Pose
from nonlinear_avoidance.dynamics.projected_rotation_dynamics import ProjectedRotationDynamics
class Disc:
    def __init__(self, center):
        self.pose = Pose(np.array(center), None)
        self.center_position = self.global_reference_point = np.array(center)
    def get_reference_point(self, in_global_frame=False):
        return self.center_position if in_global_frame else np.zeros(2)
    def get_local_radius(self, position, in_global_frame=False):
        return 1.0
    def get_gamma(self, position, in_global_frame=False, in_obstacle_frame=None):
        g = in_global_frame if in_obstacle_frame is None else not in_obstacle_frame
        return np.linalg.norm(position - self.center_position if g else position)
class Field:
    attractor_position = np.zeros(2)
    def evaluate(self, position):
        return -position + 0.3 * np.array([-position[1], position[0]]) * (position[0] > 0)
discs = [Disc([3.0, 4.0]), Disc([-4.0, 3.0])]
make = lambda: ProjectedRotationDynamics(attractor_position=np.zeros(2), obstacle=discs[0], initial_dynamics=Field())
p = np.array([-2.0, 7.0])
d = make()
"""
seed("a22_weight_of_other_disc", "C22", [(P, "        self.obstacle = obstacle  # Just to be sure that its the same...\n", "        if self.obstacle is None:\n            self.obstacle = obstacle\n")],
     HEAD + "d.evaluate_projected_weight(p, discs[0])\na, b = d.evaluate_projected_weight(p, discs[1]), ProjectedRotationDynamics(attractor_position=np.zeros(2), obstacle=discs[1], initial_dynamics=Field()).evaluate_projected_weight(p, discs[1])\nassert np.allclose(a, b), (a, b)\n",
     "two obstacles that are asked for one after the other", "the weight of an obstacle is computed with the shape of the previous one")
seed("a22_velocity_of_first_disc", "C22", [(P, """        obstacle_velocity = self.initial_dynamics.evaluate(
            obstacle.global_reference_point
        )

        # base_convergence""", """        if getattr(self, "_obstacle_velocity", None) is None:
            # The obstacle does not move
            self._obstacle_velocity = self.initial_dynamics.evaluate(
                obstacle.global_reference_point
            )
        obstacle_velocity = self._obstacle_velocity

        # base_convergence""")],
     HEAD + "d.evaluate_convergence_around_obstacle(p, discs[0])\na, b = d.evaluate_convergence_around_obstacle(p, discs[1]), make().evaluate_convergence_around_obstacle(p, discs[1])\nassert np.allclose(a, b), (a, b)\n",
     "two obstacles that are asked for one after the other", "the convergence around an obstacle uses the velocity at an earlier one")
G = N + "gmm_learner/learner/directional_gmm.py"
seed("a22_normalised_in_place", "C22", [(G, "            values = values * np.tile(self.scale_x[dims_ind], (n_samples, 1))\n\n        if self.mean_x is not None:\n            values = values + np.tile(",
                                         "            values *= np.tile(self.scale_x[dims_ind], (n_samples, 1))\n\n        if self.mean_x is not None:\n            values = values + np.tile(")], """
import numpy as np
from nonlinear_avoidance.gmm_learner.learner.directional_gmm import DirectionalGMM
L = DirectionalGMM(dim_space=2)
L.mean_x, L.scale_x = np.zeros(2), np.array([2.0, 3.0])
x = np.array([[1.0, 1.0]])
L.transform_normalized_to_initial(x, np.arange(2))
assert np.allclose(x, 1.0), x
""", "normalised values that are used again after having been transformed", "transforming the values back changes the ones that were given")
O = N + "multi_obstacle.py"
seed("a22_local_position_in_place", "C22", [(O, """        if not in_global_frame:
            position = self._pose.transform_position_from_relative(position)

        gammas = [
""", """        if not in_global_frame:
            position[...] = self._pose.transform_position_from_relative(position)

        gammas = [
""")], """
import numpy as np
from vartools.states import Pose
from nonlinear_avoidance.multi_obstacle import MultiObstacle
class Part:
    def __init__(self): self.pose = Pose(np.zeros(2), 0.0)
    def get_gamma(self, position, in_global_frame=False): return np.linalg.norm(position)
o = MultiObstacle(Pose(np.array([1.0, 2.0]), 0.0))
o.set_root(Part())
x = np.array([1.0, 0.0])
o.get_gamma(x, in_global_frame=False)
assert np.allclose(x, [1.0, 0.0]), x
""", "a position in the local frame which is used again", "asking for the distance moves the position given in the local frame")
