import numpy as np


def cross2d(a, b):
    return a[0] * b[1] - a[1] * b[0]


def get_orthogonal_basis(vector, normalize=True):
    """Orthonormal right-handed basis whose first column is the (normalised) vector."""
    vector = np.array(vector, dtype=float)
    if normalize:
        norm = np.linalg.norm(vector)
        if not norm:
            raise ValueError("Zero vector has no orthogonal basis.")
        vector = vector / norm
    dim = vector.shape[0]
    basis = np.zeros((dim, dim))
    basis[:, 0] = vector
    if dim == 2:
        basis[:, 1] = np.array([-vector[1], vector[0]])
    elif dim == 3:
        x, y, z = vector
        sign = 1.0 if z >= 0 else -1.0
        a = (-1.0) / (sign + z)
        b = x * y * a
        basis[:, 1] = np.array([1.0 + sign * x * x * a, sign * b, -sign * x])
        basis[:, 2] = np.array([b, sign + y * y * a, -y])
    else:
        raise NotImplementedError()
    return basis


get_orthogonal_basis_array = get_orthogonal_basis
