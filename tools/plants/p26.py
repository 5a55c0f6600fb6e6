import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seedlib import seed
K = "nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py"
HEAD = """
import types, warnings, logging
warnings.simplefilter("ignore")
import numpy as np
import nonlinear_avoidance.kmeans_learner.kmeans_motion_learner as m
def clusters(centers, labels=None):
    c = np.array(centers, dtype=float)
    return types.SimpleNamespace(cluster_centers_=c, n_clusters=c.shape[0], labels_=labels, predict=lambda X: np.argmin(np.linalg.norm(c[None] - X[:, None], axis=2), axis=1))
def learner(centers, labels=None, **data):
    ml = m.KMeansMotionLearner()
    ml.kmeans = clusters(centers, labels)
    ml.data = types.SimpleNamespace(dimension=2, **data)
    return ml
class Motion:
    def __init__(self, velocity, lyapunov): self.v, self.l = np.array(velocity), np.array(lyapunov)
    def evaluate(self, position): return self.v
    evaluate_without_lyapunov_check = evaluate
    def get_lyapunov_gradient_direction(self, position): return self.l
class Region:
    def get_gamma(self, position, in_global_frame=False, ind_transparent=None): return 2.0
"""
BETWEEN = HEAD + """
ml = learner([[0.0, 0.0], [4.0, 0.0], [8.0, 0.0]])
ml.convergence_radius = 2.0
ml.region_obstacles = [Region()] * 3
ml._dynamics = [Motion([5.0, 5.0], [5.0, 5.0]), Motion([-1.0, 1.0], [0.0, 1.0]), Motion([-1.0, 0.0], [-1.0, 0.0])]
ml._predict_sequence_weights = lambda position, cluster_label=None: np.array([0.0, 0.25, 0.75])
ml._graph.add_nodes_from([0, 1, 2])
got = []
def avoid(position, initial_velocity, obstacle_list, *a, convergence_velocity=None, **kw):
    got.append((initial_velocity, convergence_velocity, kw))
    return initial_velocity
m.obstacle_avoidance_rotational = avoid
ml.predict(np.array([8.0, 0.5]))
(v, conv, kw), = got
"""
seed("b15_share_of_first", "C15", [(K, "            convergence_radius=self.convergence_radius * weights[cluster_label],", "            convergence_radius=self.convergence_radius * weights[ind_rel][0],")],
     BETWEEN + "assert np.allclose(kw['convergence_radius'], 1.5), kw\n", "a position between two regions, in the one with the larger index", "the motion converges by the share of the other region")
seed("b15_mean_of_first_regions", "C15", [(K, "        averaged_lyapunov = get_directional_weighted_sum(\n            lyap_dirs[:, 0],\n            weights=weights[indexes_relative],", "        averaged_lyapunov = get_directional_weighted_sum(\n            lyap_dirs[:, 0],\n            weights=weights[: indexes_absolute.shape[0]],")],
     BETWEEN + "a = np.arctan2(conv[1], -conv[0])\nassert abs(a - np.pi / 8) < 1e-3, a\n", "a position between two regions that are not the first ones", "the direction of convergence is averaged with the weights of other regions")
seed("b15_leaves_region", "C15", [(K, "        pow_weight = dot_prod - math.cos(self.convergence_radius)\n        # pow_weight", "        pow_weight = math.cos(self.convergence_radius) - dot_prod\n        # pow_weight")], HEAD + """
import math
ml = learner([[0.0, 0.0]])
ml.region_radius_, ml.region_obstacles, ml.convergence_radius = 1.0, [types.SimpleNamespace(get_gamma=lambda *a, **k: 0.5)], math.pi
ml.outside_dynamics = types.SimpleNamespace(evaluate=lambda p: np.array([0.0, 1.0]))
v = ml.predict(np.array([2.0, 0.0]))
assert v[0] < 0, v
""", "a position just outside of all regions, with a global motion that passes by", "the motion is not pulled into the region")
