import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seedlib import seed
K = "nonlinear_avoidance/kmeans_learner/"
HEAD = """
import types, warnings
warnings.simplefilter("ignore")
import numpy as np
import nonlinear_avoidance.kmeans_learner.kmeans_motion_learner as m
made = []
class KMeans:
    def __init__(self, n_clusters=8, init="k-means++", n_init=1, max_iter=300):
        self.n_clusters, self.init = n_clusters, init
        made.append(self)
    def fit(self, X):
        self.X, self.labels_, self.cluster_centers_ = X, np.array([2, 0, 1, 1, 2, 0]), self.init
m.KMeans = KMeans
rng = np.random.default_rng(0)
x, X, Y = rng.normal(size=(6, 2)), rng.normal(size=(6, 5)), rng.normal(size=(6, 5))
"""
seed("b15_normalized_position", "C15", [(K + "kmeans_motion_learner.py", "        self.kmeans.fit(self.data.position)\n\n    def _fit_remove", "        self.kmeans.fit(self.full_kmeans.cluster_centers_[:, : self.dimension] if normalize_init else self.data.position)\n\n    def _fit_remove")], HEAD + """
ml = m.KMeansMotionLearner(n_clusters=3)
ml.data = types.SimpleNamespace(position=x, X=X, dimension=2, get_normalized_data=lambda: Y)
KMeans.fit = (lambda f: lambda self, X: (f(self, X), setattr(self, "cluster_centers_", np.zeros((3, 5))))[0])(KMeans.fit)
ml._fit_kmeans(True)
assert np.allclose(made[1].X, x)
""", "the initial clustering of normalised data", "the final clustering does not use the samples")
seed("b15_median_start", "C15", [(K + "kmeans_motion_learner.py", "            cluster_centers[ii, :] = np.mean(\n                self.data.position[self.full_kmeans.labels_ == ii, :], axis=0\n", "            cluster_centers[ii, :] = np.mean(\n                self.data.position[self.full_kmeans.labels_ >= ii, :], axis=0\n")], HEAD + """
ml = m.KMeansMotionLearner(n_clusters=3)
ml.data = types.SimpleNamespace(position=x, X=X, dimension=2, get_normalized_data=lambda: Y)
ml._fit_kmeans()
assert np.allclose(made[1].init[0], (x[1] + x[5]) / 2)
""", "a cluster that is not the last one", "the clustering starts from the mean of other clusters too")
