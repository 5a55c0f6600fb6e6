import math
import copy
import numpy as np
from numpy import linalg as LA

from vartools.linalg import get_orthogonal_basis


def _base(null_direction, null_matrix):
    if null_matrix is not None:
        return null_matrix
    return get_orthogonal_basis(null_direction)


def get_angle_from_vector(direction, base, cos_margin=1e-5):
    """Direction-space angle vector: length = angle to base[:, 0]."""
    norm = LA.norm(direction)
    if not norm:
        raise ValueError("Zero direction.")
    local = base.T @ (np.array(direction, dtype=float) / norm)
    if local.shape[0] == 2:
        return np.array([math.atan2(local[1], local[0])])
    rest = LA.norm(local[1:])
    if not rest:
        angle = np.zeros(local.shape[0] - 1)
        if local[0] < 0:
            angle[0] = math.pi
        return angle
    return math.atan2(rest, local[0]) / rest * local[1:]


def get_vector_from_angle(angle, base=None, null_direction=None):
    base = _base(null_direction, base)
    angle = np.array(angle, dtype=float)
    if angle.shape[0] == 1:
        return base @ np.array([math.cos(angle[0]), math.sin(angle[0])])
    norm = LA.norm(angle)
    if not norm:
        return np.copy(base[:, 0])
    local = np.zeros(angle.shape[0] + 1)
    local[0] = math.cos(norm)
    local[1:] = math.sin(norm) / norm * angle
    return base @ local


def get_angle_space(direction, null_direction=None, null_matrix=None, normalize=None, OrthogonalBasisMatrix=None):
    if OrthogonalBasisMatrix is not None:
        null_matrix = OrthogonalBasisMatrix
    if not LA.norm(direction):
        return np.zeros(direction.shape[0] - 1)
    return get_angle_from_vector(direction, _base(null_direction, null_matrix))


def get_angle_space_inverse(dir_angle_space, null_direction=None, null_matrix=None, NullMatrix=None):
    if NullMatrix is not None:
        null_matrix = NullMatrix
    return get_vector_from_angle(dir_angle_space, _base(null_direction, null_matrix))


def get_angle_space_of_array(directions, positions=None, func_vel_default=None, null_direction_abs=None, null_matrix=None):
    out = np.zeros((directions.shape[0] - 1, directions.shape[1]))
    for ii in range(directions.shape[1]):
        if null_matrix is not None:
            base = null_matrix
        elif func_vel_default is not None:
            base = get_orthogonal_basis(func_vel_default(positions[:, ii]))
        else:
            base = get_orthogonal_basis(null_direction_abs)
        out[:, ii] = get_angle_from_vector(directions[:, ii], base)
    return out


def get_angle_space_inverse_of_array(vecs_angle_space, positions=None, func_vel_default=None, default_system=None,
                                     null_direction_abs=None, null_matrix=None):
    if func_vel_default is None and default_system is not None:
        func_vel_default = getattr(default_system, "evaluate", default_system)
    out = np.zeros((vecs_angle_space.shape[0] + 1, vecs_angle_space.shape[1]))
    for ii in range(vecs_angle_space.shape[1]):
        if null_matrix is not None:
            base = null_matrix
        elif func_vel_default is not None:
            base = get_orthogonal_basis(func_vel_default(positions[:, ii]))
        else:
            base = get_orthogonal_basis(null_direction_abs)
        out[:, ii] = get_vector_from_angle(vecs_angle_space[:, ii], base)
    return out


def get_directional_weighted_sum(null_direction, weights, directions, unit_directions=None, total_weight=1,
                                 normalize=True, normalize_reference=True, obs=None, position=None, mode=None,
                                 null_matrix=None):
    """Weighted mean in the direction space around null_direction (unit vector if normalize)."""
    weights = np.array(weights, dtype=float)
    used = [
        ii for ii in range(weights.shape[0]) if weights[ii] > 0 and LA.norm(directions[:, ii]) > 0
    ]
    if not len(used):
        return np.array(null_direction, dtype=float)
    w = np.array([weights[ii] for ii in used])
    if total_weight < 1:
        w = w / np.sum(w) * total_weight
    if len(used) == 1 and total_weight >= 1:
        single = directions[:, used[0]]
        return single / LA.norm(single)
    base = _base(null_direction, null_matrix)
    angle = np.zeros(directions.shape[0] - 1)
    magnitude = 0.0
    for it, ii in enumerate(used):
        angle = angle + w[it] * get_angle_from_vector(directions[:, ii], base)
        magnitude = magnitude + w[it] * LA.norm(directions[:, ii])
    summed = get_vector_from_angle(angle, base)
    if normalize:
        return summed
    return summed * magnitude


def _matrix(base):
    if isinstance(base, UnitDirection):
        return base.base
    return np.asarray(base)


class UnitDirection:
    """Direction in the angle space of an orthonormal base."""

    def __init__(self, base):
        base = _matrix(base)
        if base.ndim == 1:
            base = get_orthogonal_basis(base)
        self.base = base
        self._angle = None
        self._vector = None

    @property
    def null_direction(self):
        return self.base[:, 0]

    def from_angle(self, angle):
        self._angle = np.array(angle, dtype=float)
        self._vector = None
        return self

    def from_vector(self, vector):
        self._vector = vector / LA.norm(vector)
        self._angle = None
        return self

    def as_angle(self):
        if self._angle is None:
            self._angle = get_angle_from_vector(self._vector, self.base)
        return self._angle

    def as_vector(self):
        if self._vector is None:
            self._vector = get_vector_from_angle(self._angle, self.base)
        return self._vector

    def norm(self):
        return LA.norm(self.as_angle())

    def transform_to_base(self, new_base):
        new_base = _matrix(new_base)
        return UnitDirection(new_base).from_vector(self.as_vector())

    def invert_normal(self):
        matrix = np.copy(self.base)
        matrix[:, 0] = (-1) * matrix[:, 0]
        return UnitDirection(matrix).from_vector(self.as_vector())

    def __sub__(self, other):
        return UnitDirection(self.base).from_angle(self.as_angle() - other.as_angle())

    def __add__(self, other):
        return UnitDirection(self.base).from_angle(self.as_angle() + other.as_angle())

    def __mul__(self, factor):
        return UnitDirection(self.base).from_angle(factor * self.as_angle())

    __rmul__ = __mul__

    def __truediv__(self, factor):
        return UnitDirection(self.base).from_angle(self.as_angle() / factor)


DirectionBase = UnitDirection


def get_directional_weighted_sum_from_unit_directions(base, weights, unit_directions):
    base = _matrix(base)
    angle = 0
    for weight, direction in zip(weights, unit_directions):
        angle = angle + weight * direction.transform_to_base(base).as_angle()
    return UnitDirection(base).from_angle(angle).as_vector()
