import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seedlib import seed
G = "nonlinear_avoidance/gmm_obstacle.py"
HEAD = """
import types, warnings
warnings.simplefilter("ignore")
import numpy as np
from sklearn.mixture import GaussianMixture
from nonlinear_avoidance.gmm_obstacle import GmmObstacle
def obstacle(means, covs, weights=None):
    o = GmmObstacle(n_gmms=len(means))
    g = GaussianMixture(n_components=len(means), covariance_type="full")
    g.means_, g.covariances_ = np.array(means, dtype=float), np.array(covs, dtype=float)
    g.precisions_ = np.linalg.inv(g.covariances_)
    g.precisions_cholesky_ = np.linalg.cholesky(g.precisions_)
    g.weights_ = np.ones(len(means)) / len(means) if weights is None else np.array(weights)
    o._gmm = g
    return o
"""
seed("b18_inside_weights", "C18", [(G, """            self.relative_weights[ind_zeros] = 1.0 / np.sum(ind_zeros)
            return
""", """            self.relative_weights[ind_zeros] = 1.0
            return
""")], HEAD + """
o = obstacle([[0, 0], [1, 0], [5, 0]], [np.eye(2)] * 3)
o.evaluate_gamma_weights(np.array([0.5, 0.0]))
assert np.isclose(o.relative_weights.sum(), 1), o.relative_weights
""", "a position inside two components at once", "the weights of the components sum to two")
seed("b18_parent_order", "C18", [(G, """            parent_value = assigned_list[ind[1]]
""", """            parent_value = sorted(assigned_list)[ind[1]]
""")], HEAD + """
o = obstacle([[4, 0], [8, 0], [0, 0], [-8, 0], [-4, 0]], [np.eye(2)] * 5)
o.get_intersection_of_ellipses = lambda indices, **k: np.zeros(2)
o.evaluate_hirarchy_and_reference_points()
assert o.gmm_index_graph.get_parent(1) == 0, o.gmm_index_graph.get_parent(1)
""", "components listed in an order which is not the one of their distance from the root", "a component hangs on one that it does not touch")
seed("b18_occlusion_center", "C18", [(G, """                self._gmm.means_[ind_parent, :] - self._reference_points[:, index]
            )
""", """                self._gmm.means_[ind_parent, :] - self._gmm.means_[index, :]
            )
""")], HEAD + """
o = obstacle([[0.0, 0.0], [0.0, 2.0]], [np.diag([4.0, 0.25]), np.diag([0.25, 1.0])])
o.evaluate_hirarchy_and_reference_points()
o.set_kernel_point(np.array([0.4, 0.9]), 1)
o._reference_points[:, 1] = [0.4, 0.9]
o.get_gamma_proportional = lambda p, i: 0.5
f = o.get_obstacle_occlusion_factor(np.array([2.5, 0.2]))
assert f[1] == 1, f
""", "a reference point which is not on the line between the centers", "a component is taken as hidden where it is in front of its parent")
seed("b18_size_of_projection", "C18", [(G, """        return (
            self._axes_directions[:, :, index].T
            @ (position - self._gmm.means_[index, :])
        ) / self._axes_lengths[:, index]
""", """        return self._axes_directions[:, :, index].T @ (
            (position - self._gmm.means_[index, :]) / self._axes_lengths[:, index]
        )
""")], HEAD + """
R = np.array([[0.8, -0.6], [0.6, 0.8]])
o = obstacle([[1.0, 2.0]], [R @ np.diag([1.0, 4.0]) @ R.T])
o.evaluate_axes_length_and_direction()
q = o.project_point_on_surface_with_offcenter_point(np.array([8.0, 5.0]), np.array([1.5, 2.0]), 0)
assert np.isclose((q[0] - 1.5) * 3.0, (q[1] - 2.0) * 6.5), q
""", "an ellipse which is turned", "projected points are not on the ray")
seed("b18_row_of_probability", "C18", [(G, """            proba_matrix = np.delete(proba_matrix, (ind[0]), axis=0)
""", """            proba_matrix[ind[0], :] = 0
""")], HEAD + """
o = obstacle([[0, 0], [4, 0], [-4, 0.5], [4, 4], [-4, -4]], [np.eye(2)] * 5)
o.get_intersection_of_ellipses = lambda indices, **k: np.zeros(2)
try:
    o.evaluate_hirarchy_and_reference_points()
    p = [o.gmm_index_graph.get_parent(i) for i in range(5)]
except Exception as e:
    p = e
assert p == [None, 0, 0, 1, 2], p
""", "three or more components, one which is not the last of the remaining ones is placed first", "components hang on the wrong one, or building fails")
seed("b18_lost_weights", "C18", [(G, """        delta_normal = np.zeros(self.dimension)
        reference_directions = np.zeros((self.dimension, self.n_gmms))

        # Loop over all non-zeros-weights
        for index in np.arange(self.n_gmms)[self.relative_weights.astype(bool)]:
""", """        delta_normal = np.zeros(self.dimension)
        reference_directions = np.zeros((self.dimension, self.n_gmms))

        # Loop over all non-zeros-weights
        for index in np.arange(self.n_gmms)[self.relative_weights.astype(int) > 0]:
""")], HEAD + """
S = [np.diag([4.0, 0.5]), np.diag([0.5, 4.0])]
o = obstacle([[0, 0], [3, 3]], S)
o.evaluate_hirarchy_and_reference_points()
o.relative_weights = np.array([0.4, 0.6])
from nonlinear_avoidance import gmm_obstacle as m
seen = []
def total(null_direction, weights, directions):
    seen.append(np.array(directions))
    return np.array(null_direction)
m.get_directional_weighted_sum = total
x = np.array([7.0, 2.0])
o.evalute_weighted_reference_and_normal_offset(x)
for i in range(2):
    assert np.allclose(seen[0][:, i], o.get_reference_direction(x, i)), seen
""", "two components which share the avoidance", "the mean normal and reference forget the components")
