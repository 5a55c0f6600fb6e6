import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seedlib import seed
L = "nonlinear_avoidance/gmm_learner/learner/"
G = "nonlinear_avoidance/gmm_learner/graph.py"
DATA = """
import os, tempfile, types, warnings
warnings.simplefilter("ignore")
import matplotlib
matplotlib.use("Agg")
import numpy as np
import scipy.io
def recording(demos):
    d = tempfile.mkdtemp()
    cell = np.empty((1, len(demos)), dtype=object)
    for i, m in enumerate(demos):
        cell[0, i] = np.array(m, dtype=float)
    scipy.io.savemat(os.path.join(d, "these.mat"), {"data": cell})
    return d
demos = []
for k in range(3):
    s = np.linspace(0, 1, 12)
    p = np.vstack((-(4 - k) * (1 - s), (2.0 - k) * (1 - s) ** 2)) + np.array([[1.0], [0.5]])
    demos.append(np.vstack((p, np.gradient(p, axis=1)))[:, : 11 + (k != 1)])
d = recording(demos)
"""
seed("b19_rows_of_subset", "C19", [(L + "gpr_directional.py", """                directions=self.vel.T[:, ind],
                positions=self.pos.T[:, ind],
""", """                directions=self.vel.T[:, ind],
                positions=self.pos.T,
""")], DATA + """
from nonlinear_avoidance.gmm_learner.learner.gpr_directional import DirectionalGPR
from vartools.directional_space import get_angle_space
L = DirectionalGPR(directory_name=d, file_name="these.mat")
np.random.seed(3)
L.load_data_from_mat(n_samples=8)
for x, y in zip(L.X, L.y):
    i = int(np.argmin(np.linalg.norm(L.pos - x, axis=1)))
    a = get_angle_space(L.vel[i], null_direction=L.null_ds.evaluate(x)) if np.linalg.norm(L.null_ds.evaluate(x)) > 0.2 else y
    assert np.allclose(a, y), (a, y)
""", "only some of the samples are used", "targets are the directions about other samples")
seed("b19_attractor_at_zero", "C19", [(L + "svr_directional.py", """        elif attractor is False:
""", """        elif not np.any(attractor):
""")], DATA + """
from nonlinear_avoidance.gmm_learner.learner.svr_directional import DirectionalSVR
L = DirectionalSVR(directory_name=d, file_name="these.mat")
try:
    L.load_data_from_mat(attractor=np.zeros(2))
    ok = np.allclose(L.pos_attractor, 0) and L.pos_attractor is not False
except NameError:
    ok = False
assert ok
""", "the origin is given as the attractor", "loading fails")
GRAPH = """
import types, warnings
warnings.simplefilter("ignore")
import matplotlib
matplotlib.use("Agg")
import numpy as np
from nonlinear_avoidance.gmm_learner import graph as m
def make(n, W=None, attractor=np.zeros(2)):
    o = object.__new__(m.GraphGMM)
    o._Learner = types.SimpleNamespace(dim_space=2, pos_attractor=attractor, dpgmm=types.SimpleNamespace(
        covariances_=np.array([np.eye(5)] * n), means_=np.zeros((n, 5)), covariance_type="full"), get_mixing_weights=lambda **k: np.array(W).T)
    o._ellipse_axes_factor, o._obstacle_list, o._end_points, o._graph_root, o._convergence_dynamics = 1, [], None, None, []
    return o
"""
seed("b19_newest_parent", "C19", [(G, """                    if parents_preference[ind_child, it_pref] in ind_assigned:
""", """                    if parents_preference[ind_child, it_pref] in ind_assigned[-2:]:
""")], GRAPH + """
W = [[0, 0, 0, 0, 0], [.9, 0, .1, .2, .3], [.9, .1, 0, .2, .3], [.9, .3, .2, 0, .1], [.1, .9, .2, .5, 0]]
o = make(5, W)
o.get_end_point = lambda it: np.array([float(it), 0.0])
m.breakpoint = None
o.create_graph_from_gaussians()
assert list(o._parent_array) == [-1, 0, 0, 0, 1], o._parent_array
""", "a gaussian whose preferred parent was placed long before", "it hangs on another one")
seed("b19_velocity_as_angle", "C19", [(G, """        mean_dir = mean[-(self.dim_space - 1) :]
""", """        mean_dir = mean[self.dim_space : 2 * self.dim_space - 1]
""")], GRAPH + """
o = make(1)
o._Learner.dpgmm.means_[0] = [1.0, 0.0, 0.3, 0.8, 1.5]
o._Learner.null_ds = types.SimpleNamespace(evaluate=lambda x: -x)
from vartools.directional_space import get_angle_space_inverse
u = get_angle_space_inverse(dir_angle_space=np.array([1.5]), null_direction=np.array([-1.0, 0.0]))
e = o.get_end_point(0) - np.array([1.0, 0.0])
assert np.allclose(e / np.linalg.norm(e), u / np.linalg.norm(u)), (e, u)
""", "means of five features (position, velocity, direction)", "end points are not in the direction of the motion")
seed("b19_stale_dynamics", "C19", [(G, """            if it_obs < len(self._ConvergenceDynamics):
""", """            if (
                it_obs < len(self._ConvergenceDynamics)
                and self._ConvergenceDynamics[it_obs] is not None
            ):
                continue
            elif it_obs < len(self._ConvergenceDynamics):
""")], GRAPH + """
class Place:
    is_boundary = True
    center_position = np.array([1.0, 2.0])
    def get_gamma(self, *a, **k):
        return 2.0
    def get_reference_length(self):
        return 1.0
for goal in (np.array([0.5, 2.0]), np.array([2.0, 2.5])):
    if goal[0] == 0.5:
        o = make(1, attractor=goal)
        o._obstacle_list, o._parent_array, o._end_points = [Place()], np.array([-1]), np.zeros((2, 1))
    o._Learner.pos_attractor = goal
    o.set_convergence_directions(types.SimpleNamespace(attractor_position=goal))
    assert np.allclose(o._convergence_dynamics[0].attractor_position, goal)
""", "the directions are set again, for another attractor", "the gaussians keep leading to the old one")
seed("b19_surface_from_center", "C19", [(G, """                edge_point=self._end_points[:, it_obs],
""", """                edge_point=self[it_obs].center_position,
""")], GRAPH + """
seen = []
class Place:
    is_boundary = True
    def __init__(self, x):
        self.center_position = np.array(x)
    def get_gamma(self, *a, **k):
        return 0.5
    def get_intersection_with_surface(self, edge_point, direction, in_global_frame=False):
        return edge_point + direction
o = make(2)
o._obstacle_list, o._parent_array = [Place([0.0, 0.0]), Place([3.0, 0.0])], np.array([-1, 0])
o._end_points = np.array([[0.1, 2.5], [0.1, 0.7]])
p = o._get_local_attractor(1)
assert abs(p[1] - 0.7) < 1e-9, p
""", "an end point which is not on the line between the centers", "a gaussian leads past the point where it meets its parent")
