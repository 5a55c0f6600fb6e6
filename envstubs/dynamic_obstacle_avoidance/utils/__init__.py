import numpy as np


def compute_weights(distMeas, N=0, distMeas_lowerLimit=1, weightType="inverseGamma", weightPow=2):
    """Relative importance of the obstacles: >= 0, sum <= 1, all on the surface-touching ones."""
    distMeas = np.array(distMeas, dtype=float)
    n = distMeas.shape[0]
    weights = np.zeros(n)
    critical = distMeas <= distMeas_lowerLimit
    n_critical = np.sum(critical)
    if n_critical:
        for ii in range(n):
            if critical[ii]:
                weights[ii] = 1.0 / n_critical
        return weights
    distMeas = distMeas - distMeas_lowerLimit
    for ii in range(n):
        weights[ii] = (1.0 / distMeas[ii]) ** weightPow
    return weights / np.sum(weights)


def get_weight_from_inv_of_gamma(gamma_array, power_value=1.0, gamma_min=1.0):
    gamma_array = np.array(gamma_array, dtype=float)
    weights = np.zeros(gamma_array.shape[0])
    for ii in range(gamma_array.shape[0]):
        weights[ii] = 1.0 if gamma_array[ii] <= gamma_min else 1.0 / gamma_array[ii]
    return weights


def get_relative_obstacle_velocity(position, obstacle_list, gamma_list, E_orth=None, weights=None,
                                   ind_obstacles=None, velocicity_handling=None, **kwargs):
    """Weighted velocity of the considered obstacles at the position."""
    n_all = len(obstacle_list)
    used = [ii for ii in range(n_all) if ind_obstacles is None or ind_obstacles[ii]]
    velocity = np.zeros(position.shape[0])
    for it, ii in enumerate(used):
        obs = obstacle_list[ii]
        if hasattr(obs, "get_velocity_at_position"):
            velocity = velocity + weights[it] * obs.get_velocity_at_position(position)
    return velocity
