import math
from enum import Enum, auto

import numpy as np
from numpy import linalg as LA


class IntersectionType(Enum):
    CLOSE = auto()
    FAR = auto()
    BOTH = auto()


CircleIntersectionType = IntersectionType


def get_intersection_with_circle(start_position, direction, radius, only_positive=None,
                                 intersection_type=None, center_position=None):
    """Intersection(s) of the line start + t * direction with the (centred) sphere.

    CLOSE / FAR: smaller / larger line parameter; only_positive (default): largest, only if t >= 0.
    """
    if center_position is not None:
        start_position = start_position - center_position
    if not radius:
        return None
    a = np.dot(direction, direction)
    b = 2 * np.dot(direction, start_position)
    c = np.dot(start_position, start_position) - radius * radius
    det = b * b - 4 * a * c
    if det < 0:
        return None
    root = math.sqrt(det)
    far = (-b + root) / (2 * a)
    close = (-b - root) / (2 * a)
    offset = 0 if center_position is None else center_position
    if intersection_type is None:
        if only_positive is None or only_positive:
            if far < 0:
                return None
            return start_position + far * direction + offset
        intersection_type = IntersectionType.BOTH
    if intersection_type == IntersectionType.FAR:
        return start_position + far * direction + offset
    if intersection_type == IntersectionType.CLOSE:
        return start_position + close * direction + offset
    return np.vstack((start_position + close * direction + offset, start_position + far * direction + offset)).T


def get_intersection_between_line_and_plane(line_position, line_direction, plane_position, plane_normal,
                                            positive_only=False):
    dot = np.dot(line_direction, plane_normal)
    if not dot:
        return None
    factor = np.dot(plane_position - line_position, plane_normal) / dot
    if positive_only and factor < 0:
        return None
    return line_position + factor * line_direction


def get_numerical_gradient(position, value_functor, delta_magnitude=1e-6):
    dim = position.shape[0]
    grad = np.zeros(dim)
    for ii in range(dim):
        delta = np.zeros(dim)
        delta[ii] = delta_magnitude / 2
        grad[ii] = (value_functor(position + delta) - value_functor(position - delta)) / delta_magnitude
    return grad


get_numerical_hessian = get_numerical_hessian_fast = get_scaled_orthogonal_projection = None
