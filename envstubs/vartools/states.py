import copy
import math
from typing import Optional

import numpy as np
from scipy.spatial.transform import Rotation


def get_rotation_matrix(angle):
    c, s = math.cos(angle), math.sin(angle)
    return np.array([[c, -s], [s, c]])


class Pose:
    """Position and orientation (2D: angle or None; 3D: Rotation or None)."""

    def __init__(self, position, orientation=None):
        self.position = np.array(position, dtype=float)
        self.orientation = orientation

    @classmethod
    def create_trivial(cls, dimension):
        if dimension == 2:
            return cls(np.zeros(2), 0.0)
        if dimension == 3:
            return cls(np.zeros(3), Rotation.from_euler("x", 0))
        return cls(np.zeros(dimension), None)

    @property
    def dimension(self):
        return self.position.shape[0]

    @property
    def rotation_matrix(self):
        if self.orientation is None:
            return np.eye(self.dimension)
        if self.dimension == 2:
            return get_rotation_matrix(self.orientation)
        return self.orientation.as_matrix()

    def _forward(self, vector):
        if self.orientation is None:
            return vector
        if self.dimension == 2:
            return get_rotation_matrix(self.orientation) @ vector
        if vector.ndim == 2:
            return self.orientation.apply(vector.T).T
        return self.orientation.apply(vector)

    def _backward(self, vector):
        if self.orientation is None:
            return vector
        if self.dimension == 2:
            return get_rotation_matrix(self.orientation).T @ vector
        if vector.ndim == 2:
            return self.orientation.inv().apply(vector.T).T
        return self.orientation.inv().apply(vector)

    def _shift(self, position):
        if position.ndim == 2:
            return np.tile(self.position, (position.shape[1], 1)).T
        return self.position

    def transform_position_from_relative(self, position):
        rotated = self._forward(position)
        return rotated + self._shift(rotated)

    def transform_position_to_relative(self, position):
        return self._backward(position - self._shift(position))

    def transform_direction_from_relative(self, direction):
        return self._forward(direction)

    def transform_direction_to_relative(self, direction):
        return self._backward(direction)

    transform_linear_velocity_from_relative = transform_direction_from_relative
    transform_linear_velocity_to_relative = transform_direction_to_relative
    transform_positions_from_relative = transform_position_from_relative
    transform_positions_to_relative = transform_position_to_relative
    transform_directions_from_relative = transform_direction_from_relative
    transform_directions_to_relative = transform_direction_to_relative

    def transform_orientation_from_relative(self, orientation):
        if orientation is None:
            return self.orientation
        if self.orientation is None:
            return orientation
        if self.dimension == 2:
            return self.orientation + orientation
        return self.orientation * orientation

    def transform_orientation_to_relative(self, orientation):
        if self.orientation is None:
            return orientation
        if self.dimension == 2:
            return (0.0 if orientation is None else orientation) - self.orientation
        if orientation is None:
            return self.orientation.inv()
        return self.orientation.inv() * orientation

    def transform_pose_from_relative(self, pose):
        return Pose(
            self.transform_position_from_relative(pose.position),
            self.transform_orientation_from_relative(pose.orientation),
        )

    def transform_pose_to_relative(self, pose):
        return Pose(
            self.transform_position_to_relative(pose.position),
            self.transform_orientation_to_relative(pose.orientation),
        )


class ObjectPose(Pose):
    def __init__(self, position=None, orientation=None, dimension=2):
        if position is None:
            position = np.zeros(dimension)
        super().__init__(position, orientation)


class Twist:
    def __init__(self, linear, angular=None):
        self.linear = np.array(linear, dtype=float)
        self.angular = angular

    @classmethod
    def create_trivial(cls, dimension):
        return cls(np.zeros(dimension), 0.0 if dimension == 2 else np.zeros(3))

    @property
    def dimension(self):
        return self.linear.shape[0]
