import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seedlib import seed
K = "nonlinear_avoidance/kmeans_learner/"
HEAD = """
import types, warnings, logging
warnings.simplefilter("ignore")
import numpy as np
from nonlinear_avoidance.kmeans_learner.kmeans_obstacle import KMeansObstacle
from nonlinear_avoidance.kmeans_learner.kmeans_motion_learner import KMeansMotionLearner
def clusters(centers, labels=None):
    c = np.array(centers, dtype=float)
    return types.SimpleNamespace(cluster_centers_=c, n_clusters=c.shape[0], labels_=labels, predict=lambda X: np.argmin(np.linalg.norm(c[None] - X[:, None], axis=2), axis=1))
def obstacle(centers, radius, index=0):
    return KMeansObstacle(kmeans=clusters(centers), radius=radius, index=index)
def learner(centers, labels=None, **data):
    ml = KMeansMotionLearner()
    ml.kmeans = clusters(centers, labels)
    ml.data = types.SimpleNamespace(dimension=2, **data)
    return ml
"""
seed("b15_last_plane", "C15", [(K + "kmeans_obstacle.py", "                surface_distance = LA.norm(self.center_position - intersection)\n", "")], HEAD + """
o = obstacle([[0.0, 0.0], [1.0, 0.0], [0.0, 1.6]], 2.0)
p = o.get_point_on_surface(np.array([1.0, 1.0]), in_global_frame=True)
assert np.allclose(p, [.5, .5]), p
""", "a direction that crosses two borders within the radius, the closer one first", "the surface point lies in the neighbouring cluster")
seed("b15_gap_share", "C15", [(K + "kmeans_obstacle.py", "                weights[ind_transparent] = 1 - np.sum(weights)\n", "                weights = weights / max(np.sum(weights), 1e-9)\n")], HEAD + """
o = obstacle([[0.0, 0.0], [1.0, 0.0]], 0.9)
o.successor_index = [1]
for a in np.linspace(.01, .99, 300):
    x = np.array([np.cos(a), np.sin(a)]) * 1.4
    assert o.get_gamma(x, in_global_frame=True) >= o.get_gamma(x, in_global_frame=True, ind_transparent=-1) - 1e-9, a
""", "a position beyond the border to the successor and, further, beyond the radius", "the gap towards the successor does not open the walls next to it")
seed("b15_samples_reached", "C15", [(K + "kmeans_motion_learner.py", "np.max(np.min(dists, axis=0))", "np.max(np.min(dists, axis=1))")], HEAD + """
ml = learner([[0.0, 0.0], [1.0, 0.0]], position=np.array([[0.0, 0.1], [0.0, 3.0], [1.0, 0.1]]))
ml.distances_parent = np.array([1.0, 1.0])
ml._fit_region_radius()
assert ml.region_radius_ >= 3.0, ml.region_radius_
""", "a sample far from its center while each center has a sample nearby", "samples lie outside of all regions")
seed("b15_walled_gap", "C15", [(K + "kmeans_motion_learner.py", "                position, in_global_frame=True, ind_transparent=parent\n", "                position, in_global_frame=True\n")], HEAD + """
ml = learner([[0.0, 0.0], [2.0, 0.0]])
ml.n_clusters_ = 2
ml.region_radius_ = 1.5
ml._graph.add_nodes_from([0, 1]); ml._graph.add_edge(1, 0)
ml._fit_region_obstacles()
w = ml._predict_sequence_weights(np.array([.98, 0.0]), 0)
assert w[1] > .5, w
""", "a position next to the border to the previous cluster", "the previous motion does not blend in at the border, so that the motion jumps there")
seed("b15_forward_only", "C15", [(K + "kmeans_motion_learner.py", "                [label] + self.get_predecessors(label) + self.get_successors(label)\n", "                [label] + self.get_successors(label)\n")], HEAD + """
import nonlinear_avoidance.kmeans_learner.kmeans_motion_learner as m
ml = learner([[0.0, 0.0], [1.0, 0.0], [2.0, 0]], np.array([0, 1, 2]), attractor=np.zeros(2), position=np.eye(3)[:, :2], velocity=np.ones((3, 2)))
for i in range(3):
    ml._graph.add_node(i, level=i, direction=np.array([1.0, 0]))
ml._graph.add_edge(1, 0); ml._graph.add_edge(2, 1)
ml._enforces_direction_is_towards_parent = lambda i, d: d
n = []
class D:
    def __init__(self, **k): pass
    def fit_from_velocities(self, p, v): n.append(len(p))
m.PerpendicularDeviatoinOfLinearDS = m.DeviationOfConstantFlow = D
ml._fit_local_dynamics()
assert n == [2, 3, 2], n
""", "a cluster that has a previous cluster", "local motions are fitted without the samples of the previous region")
seed("b15_parent_of_node", "C15", [(K + "kmeans_motion_learner.py", "                level=self._graph.nodes[ind_parent][\"level\"] + 1,\n", "                level=self._graph.nodes[sorted_list[0]][\"level\"] + 1,\n")], HEAD + """
ml = learner([[1.0, 0.0], [2.0, 0.0], [3.0, 0]], np.array([0, 1, 2]), attractor=np.zeros(2), sequence_value=np.array([.9, .5, .1]), position=np.zeros((3, 2)))
ml._fit_cluster_hierarchy()
assert [ml._graph.nodes[i]["level"] for i in range(3)] == [0, 1, 2]
""", "three or more clusters in sequence", "clusters far from the attractor get the level of the second one")
