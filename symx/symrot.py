"""Symbolic stand-in for scipy.spatial.transform.Rotation (rotation matrices)."""
import types

import numpy as np

from . import core
from . import npproxy as P


def _axis(ax, a):
    c, s = core.scos(a), core.ssin(a)
    if ax == "x":
        m = [[1.0, 0.0, 0.0], [0.0, c, -s], [0.0, s, c]]
    elif ax == "y":
        m = [[c, 0.0, s], [0.0, 1.0, 0.0], [-s, 0.0, c]]
    else:
        m = [[c, -s, 0.0], [s, c, 0.0], [0.0, 0.0, 1.0]]
    return np.array(m, dtype=object)


class Rotation:
    def __init__(self, m):
        self.m = m

    @classmethod
    def from_matrix(cls, m):
        return cls(P.asarr(m))

    @classmethod
    def identity(cls):
        return cls(P.eye(3))

    @classmethod
    def from_euler(cls, seq, angles, degrees=False):
        if not isinstance(angles, (list, tuple, np.ndarray)):
            angles = [angles]
        if degrees:
            angles = [P.radians(a) for a in angles]
        m = P.eye(3)
        for ax, a in zip(seq, angles):
            r = _axis(ax.lower(), a)
            m = r @ m if ax.islower() else m @ r
        return cls(m)

    @classmethod
    def from_quat(cls, q):
        x, y, z, w = list(q)
        n = core.ssqrt(x * x + y * y + z * z + w * w)
        x, y, z, w = x / n, y / n, z / n, w / n
        return cls(np.array([
            [1.0 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), 1.0 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), 1.0 - 2 * (x * x + y * y)]], dtype=object))

    @classmethod
    def from_rotvec(cls, v, degrees=False):
        v = P.asarr(v)
        th = P.norm(v)
        if bool(th == 0):
            return cls(P.eye(3))
        k = v / th
        c, s = core.scos(th), core.ssin(th)
        K = np.array([[0.0, -k[2], k[1]], [k[2], 0.0, -k[0]], [-k[1], k[0], 0.0]], dtype=object)
        return cls(P.eye(3) + s * K + (1 - c) * (K @ K))

    def as_matrix(self):
        return self.m

    def inv(self):
        return Rotation(self.m.T)

    def apply(self, v, inverse=False):
        m = self.m.T if inverse else self.m
        v = P.asarr(v)
        if v.ndim == 2:
            return v @ m.T
        return m @ v

    def __mul__(self, o):
        return Rotation(self.m @ o.m)

    def as_euler(self, *a, **k):
        raise core.Unsupported("as_euler")

    def as_quat(self, *a, **k):
        raise core.Unsupported("as_quat")


ROT_MODULE = types.ModuleType("scipy.spatial.transform")
ROT_MODULE.Rotation = Rotation
