import math
import numpy as np

from ._base import DynamicalSystem


class LinearSystem(DynamicalSystem):
    """-A (x - x_att), limited to maximum_velocity and linearly slowed below distance_decrease."""

    def __init__(self, attractor_position=None, A_matrix=None, dimension=None, maximum_velocity=None,
                 distance_decrease=1.0, scale_factor=1.0, **kwargs):
        if attractor_position is None:
            attractor_position = np.zeros(dimension if dimension is not None else 2)
        super().__init__(attractor_position=np.array(attractor_position, dtype=float),
                         maximum_velocity=maximum_velocity)
        self.A_matrix = A_matrix if A_matrix is not None else (-1.0) * np.eye(self.dimension) * scale_factor
        self.distance_decrease = distance_decrease

    def evaluate(self, position):
        velocity = self.A_matrix @ (position - self.attractor_position)
        if self.maximum_velocity is not None:
            velocity = self.limit_velocity(velocity)
        return velocity

    def evaluate_without_limit(self, position):
        return self.A_matrix @ (position - self.attractor_position)


class ConstantValue(DynamicalSystem):
    def __init__(self, velocity, **kwargs):
        self.constant_velocity = np.array(velocity, dtype=float)
        super().__init__(dimension=self.constant_velocity.shape[0])

    @property
    def velocity(self):
        return self.constant_velocity

    def evaluate(self, position=None):
        return np.copy(self.constant_velocity)
