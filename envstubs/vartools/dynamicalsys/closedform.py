import numpy as np


def evaluate_linear_dynamical_system(position, center_position=None, slope=1.0, dimension=None):
    if center_position is None:
        return (-1) * slope * position
    return (-1) * slope * (position - center_position)


def ds_quadratic_axis_convergence(*a, **k):
    raise NotImplementedError()
