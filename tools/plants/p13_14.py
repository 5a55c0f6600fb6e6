import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seedlib import seed
G = "nonlinear_avoidance/gmm_learner/"
C = "nonlinear_avoidance/comparison/"
HEAD = """
import types, warnings
warnings.simplefilter("ignore")
import numpy as np
from nonlinear_avoidance.gmm_learner.learner.directional_gmm import DirectionalGMM
def gmm(weights, means, cov):
    d = DirectionalGMM()
    d.dpgmm = types.SimpleNamespace(weights_=np.array(weights), means_=np.array(means), covariances_=np.array(cov))
    d.dim_gmm = len(means[0])
    return d
"""
seed("b13_tile_diag", "C13", [(G + "learner/directional_gmm.py", "            val_pow = np.exp(-np.sum(dX * val_pow_fac, axis=1))\n",
 "            val_pow = np.exp(-np.sum(dX**2 * np.diag(np.linalg.pinv(covariance)), axis=1))\n")], HEAD + """
S = [[1.0, .8], [.8, 1.0]]
d = gmm([1.0], [[0.0, 0]], [S])
p = d.get_gaussian_probability(np.array([[1.0, 1.0], [1.0, -1.0]]), feat_in=np.arange(2))[0]
assert p[0] > p[1], p
""", "a component whose inputs are correlated", "the probability is largest across the correlation instead of along it")
seed("b13_large_sum", "C13", [(G + "learner/directional_gmm.py", "            ind_large = sum_beta > 1\n", "            ind_large = np.max(beta, axis=0) > 1\n")], HEAD + """
d = gmm([.5, .5], [[0.0, 0], [.2, 0]], [np.eye(2) * .45] * 2)
for x in np.linspace(-2, 2, 200):
    b = d.get_mixing_weights(np.array([[x, 0.0]]), np.arange(2), np.arange(0))
    assert b.sum() <= 1 + 1e-9, (x, b)
""", "two overlapping components, neither of which has weight one alone", "weights add up to more than one")
seed("b13_scale_before_mean", "C13", [(G + "learner/directional_gmm.py", """        if self.scale_x is not None:
            values = values * np.tile(self.scale_x[dims_ind], (n_samples, 1))

        if self.mean_x is not None:
            values = values + np.tile(self.mean_x[dims_ind], (n_samples, 1))
""", """        if self.mean_x is not None:
            values = values + np.tile(self.mean_x[dims_ind], (n_samples, 1))

        if self.scale_x is not None:
            values = values * np.tile(self.scale_x[dims_ind], (n_samples, 1))
""")], HEAD + """
d = gmm([1.0], [[0.0] * 5], [np.eye(5)])
d.crop_vel = None
d.mean_x, d.scale_x = np.arange(5.0) + 1, np.arange(5.0) + 2
X = np.random.default_rng(0).normal(size=(3, 5))
i = np.arange(5)
Y = d.transform_normalized_to_initial(d.transform_initial_to_normalized(X, i), i)
assert np.allclose(X, Y), (X, Y)
""", "both a mean and a scale are set", "undoing the normalisation does not return the data")
seed("b13_attractor_weight", "C13", [(G + "learner/directional_gmm.py", "            beta[:, ind_zero] = 0\n            beta[-1, ind_zero] = 1\n", "            beta[-1, ind_zero] = 1\n")], HEAD + """
d = gmm([1.0], [[0.0, 0, 1.0]], [np.eye(3)])
d.pos_attractor = np.zeros(2)
v = d._predict(np.zeros((1, 2)), convergence_attractor=True)
assert np.allclose(v, 0), v
""", "a component that covers the attractor", "the deviation does not vanish at the attractor")
seed("b13_rk_midpoint", "C13", [(G + "math_tools.py", "    pos = pos0 + 0.5 * k2\n", "    pos = pos + 0.5 * k2\n")], """
import numpy as np
from nonlinear_avoidance.gmm_learner.math_tools import rk4_pos_vel
h, err = [.2, .1], []
for dt in h:
    x, _ = rk4_pos_vel(dt, np.ones(1), np.zeros(1), lambda y: -y[:1])
    err.append(abs(x[0] - np.exp(-dt)))
assert err[0] / err[1] > 25, err
""", "dynamics that change along the step", "the integration is of first order only")
seed("b13_velocity_start", "C13", [(G + "learner/directional_gmm.py", "                    xd = self.predict(np.hstack((x_traj[:, nn - 1, ii], xd)))\n",
 "                    xd = self.predict(np.hstack((x_traj[:, nn - 1, ii], x_traj[:, nn - 1, ii] - x_traj[:, nn - 2, ii])))\n")], HEAD + """
d = gmm([1.0], [[0.0] * 5], [np.eye(5)])
d.predict = lambda x: np.array([1.0, 0]) if len(x) == 2 else x[2:]
T = d.integrate_trajectory(num_steps=5, delta_t=.1, starting_points=np.array([[5.0], [1.0]]), velocity_based=True)
assert np.allclose(T[0, :, 0], 5 + .1 * np.arange(5)), T[0, :, 0]
""", "a trajectory with the velocity as input and a time step other than one", "the displacement is passed on as velocity")
EV = """
import sys, types
import numpy as np
import nonlinear_avoidance.comparison.evaluation_trajectories as m
"""
seed("b14_turning_axis", "C14", [(C + "evaluation_trajectories.py", "    acceleration_squared = np.sum(acceleration**2, axis=0)\n    return np.mean(acceleration_squared)\n",
 "    return np.mean(acceleration**2)\n")], EV + """
T = np.array([[0.0, 1, 4, 9], [0, 0, 0, 0]])
assert np.isclose(m.mean_squared_acceleration(T, 1.0), 4), m.mean_squared_acceleration(T, 1.0)
""", "any accelerated run", "the squared acceleration is averaged over the axes")
seed("b14_zero_reference", "C14", [(C + "evaluation_trajectories.py", """        if not (init_norm := LA.norm(init_vel)):
            continue
        init_velocities[:, ii] = init_vel / init_norm
""", """        if not (init_norm := LA.norm(init_vel)):
            init_velocities[:, ii] = velocities[:, ii]
            continue
        init_velocities[:, ii] = init_vel / init_norm
""")], EV + """
T = np.array([[0.0, 1, 2], [0, 0, 0]])
v = m.dot_product_velocity_deviation(T, lambda x: np.zeros(2) if x[0] < .5 else np.array([1.0, 0]), 1.0)
assert np.isclose(v, .5), v
""", "a run through a position where the dynamics rest", "the rest of the dynamics counts as perfect agreement")
seed("b14_gmean", "C14", [(C + "evaluation_path_following.py", "        df = self.df[converged]\n", "        df = self.df[converged & (self.df[\" free_fraction\"] < 1)]\n")], """
import pandas as pd, numpy as np
import nonlinear_avoidance.comparison.evaluation_path_following as m
e = m.TrajectoryEvaluator("x")
e.df = pd.DataFrame({" converged": [1, 1], " distance": [1.0, 3.0], " free_fraction": [.5, 1.0], " gammas": [1.0, 2.0]})
e.run(e.df[" converged"] > 0)
assert np.isclose(e.distance_mean, 2), e.distance_mean
""", "a completed run that never was occupied", "runs that never were occupied are left out of the mean")
seed("b14_collision_before", "C14", [(C + "comparison_multiobstacle_vectorfield.py", "        if collision_functor is not None and collision_functor(positions[:, ii]):\n",
 "        if collision_functor is not None and collision_functor(positions[:, ii - 1]):\n")], """
import sys, types
import numpy as np
from nonlinear_avoidance.comparison.comparison_multiobstacle_vectorfield import integrate_trajectory as f
T = f(lambda x: np.array([1.0, 0]), np.array([0.0, 0]), 50, .1, collision_functor=lambda p: p[0] > 1.05)
assert T[0].max() <= 1.05, T[0].max()
""", "a run that ends in a collision", "a position in collision is part of the run")
