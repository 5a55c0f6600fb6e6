import math
import copy
import numpy as np

from ._base import DynamicalSystem, Dynamics
from .linear import LinearSystem, ConstantValue
from vartools.directional_space import get_angle_space, get_angle_space_inverse


class LocallyRotated(DynamicalSystem):
    def __init__(self, max_rotation=None, mean_rotation=None, influence_pose=None, influence_radius=1.0,
                 attractor_position=None, **kwargs):
        self.max_rotation = max_rotation if max_rotation is not None else mean_rotation
        self.influence_pose = influence_pose
        self.influence_radius = influence_radius
        dim = np.array(self.max_rotation).shape[0] + 1
        super().__init__(attractor_position=np.zeros(dim) if attractor_position is None else attractor_position)

    def evaluate(self, position):
        return self.attractor_position - position


class CircularStable(DynamicalSystem):
    def __init__(self, radius=1.0, factor_controler=1.0, center_position=None, main_axis=None, maximum_velocity=None,
                 direction=1, pose=None, dimension=2, **kwargs):
        self.radius = radius
        self.direction = direction
        super().__init__(center_position=center_position, dimension=dimension, maximum_velocity=maximum_velocity)

    def evaluate(self, position):
        relative = position - (self.center_position if self.center_position is not None else np.zeros(2))
        norm = np.linalg.norm(relative)
        if not norm:
            return np.zeros(2)
        tangent = np.array([-relative[1], relative[0]]) * self.direction
        return self.limit_velocity(tangent + (self.radius - norm) / norm * relative)


class QuadraticAxisConvergence(LinearSystem):
    pass


class AxesFollowingDynamics(DynamicalSystem):
    pass


class WavyRotatedDynamics(LinearSystem):
    pass


def plot_dynamical_system(*a, **k):
    return None


plot_dynamical_system_quiver = plot_dynamical_system_streamplot = plot_dynamical_system
