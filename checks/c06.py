"""C06 single vector rotations (rotation of directions, blending of vectors)."""
from symx.harness import harness

VR = "nonlinear_avoidance/vector_rotation.py"
MOD = "nonlinear_avoidance.vector_rotation"


def general(t, dim, b, name="v", lim=10):
    """Arbitrary vector given by its coordinates in an orthonormal frame containing b's columns."""
    x = t.vec(name, dim, -lim, lim)
    if dim == 2:
        return x[0] * b[:, 0] + x[1] * b[:, 1], x
    return x[0] * b[:, 0] + x[1] * b[:, 1] + x[2] * t.np.cross(b[:, 0], b[:, 1]), x


@harness([VR + ":rotate_direction"], "dim 2,3; |components|<=10; |angle|<=2pi", cases=[2, 3])
def rotate_keeps_norm_and_plane_angle(t, dim):
    vr = t.mod(MOD)
    base = t.ortho_pair("b", dim)
    v, x = general(t, dim, base)
    a = t.real("a", -6.3, 6.3)
    out = vr.rotate_direction(direction=v, base=base, rotation_angle=a)
    c, s = t.math.cos(a), t.math.sin(a)
    t.close("in-plane-0", t.np.dot(base[:, 0], out), c * x[0] - s * x[1], 1e-4)
    t.close("in-plane-1", t.np.dot(base[:, 1], out), s * x[0] + c * x[1], 1e-4)
    if dim == 3:
        n = t.np.cross(base[:, 0], base[:, 1])
        t.close("out-of-plane", t.np.dot(n, out), x[2], 1e-4)
    t.close("norm", t.np.dot(out, out), t.np.dot(v, v), 1e-3)


@harness([VR + ":rotate_direction"], "dim 2,3; zero vector", cases=[2, 3])
def rotate_zero_vector(t, dim):
    vr = t.mod(MOD)
    base = t.ortho_pair("b", dim)
    a = t.real("a", -6.3, 6.3)
    t.close("zero", vr.rotate_direction(direction=t.np.zeros(dim), base=base, rotation_angle=a), t.np.zeros(dim))


@harness([VR + ":rotate_array", VR + ":rotate_direction"], "dim 2,3; 2 unit columns; |angle|<=2pi", cases=[2, 3])
def array_rotation_agrees_with_single(t, dim):
    vr = t.mod(MOD)
    base = t.ortho_pair("b", dim)
    d0, _ = general(t, dim, base, "d")
    d1 = base[:, 1]
    n0 = t.la.norm(d0)
    t.assume(n0 > 0.01)
    a = t.real("a", -6.3, 6.3)
    arr = vr.rotate_array(directions=t.np.array([d0 / n0, d1]).T, base=base, rotation_angle=a)
    t.check("shape", arr.shape == (dim, 2))
    t.close("col0", arr[:, 0], vr.rotate_direction(direction=d0 / n0, base=base, rotation_angle=a))
    t.close("col1", arr[:, 1], vr.rotate_direction(direction=d1, base=base, rotation_angle=a))


@harness([VR + ":VectorRotationXd.from_directions", VR + ":VectorRotationXd.rotate",
          VR + ":VectorRotationXd.inverse_rotate"],
         "dim 2,3; any lengths in [0.1,10]; angle between directions in [~0.014, ~3.1] rad", cases=[2, 3])
def maps_initial_to_target(t, dim):
    vr = t.mod(MOD)
    v, w, c, s = t.unit_pair("v", dim, -0.999, 0.9999)
    k, m = t.real("k", 0.1, 10), t.real("m", 0.1, 10)
    r = vr.VectorRotationXd.from_directions(k * v, m * w)
    t.close("base-first", r.base[:, 0], v)
    t.close("orthonormal", r.base.T @ r.base, t.np.eye(2))
    t.check("angle-range", (r.rotation_angle >= 0) & (r.rotation_angle <= 3.1416))
    t.close("target", r.rotate(v), w, 2e-3)
    t.close("back", r.inverse_rotate(w), v, 2e-3)
    t.close("second", r.get_second_vector(), w, 2e-3)
    t.close("inv", r.inv().rotate(w), v, 2e-3)
    t.close("lengths", r.rotate(k * v), k * w, 2e-2)


@harness([VR + ":VectorRotationXd.from_directions"], "dim 2,3; parallel input of any length", cases=[2, 3])
def parallel_directions_give_identity(t, dim):
    vr = t.mod(MOD)
    v = t.unit("v", dim)
    k, m = t.real("k", 0.1, 10), t.real("m", 0.1, 10)
    r = vr.VectorRotationXd.from_directions(k * v, m * v)
    t.close("angle", r.rotation_angle, 0.0)
    t.close("orthonormal", r.base.T @ r.base, t.np.eye(2))
    t.close("same", r.rotate(v), v)
    y = t.vec("y", dim, -10, 10)
    t.assume(y[0] >= 0.01)
    p = t.np.array([v[1], -v[0]] + [0.0] * (dim - 2))
    x = y[0] * v + y[1] * p
    if dim == 3:
        x = x + y[2] * t.np.cross(v, p)
    t.close("any-vector-kept", r.rotate(x), x, 1e-3)


@harness([VR + ":VectorRotationXd.rotate", VR + ":VectorRotationXd.inverse_rotate"],
         "dim 2,3; any base, |angle|<=pi, vectors |components|<=10", cases=[2, 3])
def inverse_undoes_rotation(t, dim):
    vr = t.mod(MOD)
    base = t.ortho_pair("b", dim)
    v, x = general(t, dim, base)
    a = t.real("a", -3.14, 3.14)
    r = vr.VectorRotationXd(base=base, rotation_angle=a)
    t.close("inverse-after", r.inverse_rotate(r.rotate(v)), v, 1e-3)
    t.close("inverse-before", r.rotate(r.inverse_rotate(v)), v, 1e-3)


@harness([VR + ":VectorRotationXd.rotate"], "dim 2,3; fraction in [-2,2], |angle|<=pi", cases=[2, 3])
def partial_rotation_is_fraction_of_angle(t, dim):
    vr = t.mod(MOD)
    base = t.ortho_pair("b", dim)
    a = t.real("a", -3.14, 3.14)
    f = t.real("f", -2, 2)
    r = vr.VectorRotationXd(base=base, rotation_angle=a)
    out = r.rotate(base[:, 0], f)
    ang = f * a
    t.close("fraction", out, t.math.cos(ang) * base[:, 0] + t.math.sin(ang) * base[:, 1])
    t.close("zero-fraction", r.rotate(base[:, 0], 0.0), base[:, 0])


@harness([VR + ":directional_vector_addition"], "dim 2,3; lengths in [0.1,10]; weight in [0,1]", cases=[2, 3])
def blending_ends_and_length(t, dim):
    vr = t.mod(MOD)
    v, w, c, s = t.unit_pair("v", dim, -0.99, 0.9999)
    k, m = t.real("k", 0.1, 10), t.real("m", 0.1, 10)
    t.close("weight-0", vr.directional_vector_addition(k * v, m * w, 0.0), k * v, 1e-2)
    t.close("weight-1", vr.directional_vector_addition(k * v, m * w, 1.0), m * w, 1e-2)
    f = t.real("f", 0, 1)
    out = vr.directional_vector_addition(k * v, m * w, f)
    ln = (1 - f) * k + f * m
    t.close("length", t.np.dot(out, out), ln * ln, 1e-2)


@harness([VR + ":directional_vector_addition"], "dim 2; lengths in [0.1,10]; weight in [0,1]", cases=[2])
def blending_with_zero(t, dim):
    vr = t.mod(MOD)
    v = t.unit("v", dim)
    k, f = t.real("k", 0.1, 10), t.real("f", 0, 1)
    z = t.np.zeros(dim)
    t.close("zero-first", vr.directional_vector_addition(z, k * v, f), f * k * v)
    t.close("zero-second", vr.directional_vector_addition(k * v, z, f), (1 - f) * k * v)
    t.close("zero-both", vr.directional_vector_addition(z, z, f), z)


@harness([VR + ":create_zero_vector_rotation"], "dim 2,3; any vector", cases=[2, 3])
def zero_rotation_is_identity(t, dim):
    vr = t.mod(MOD)
    r = vr.create_zero_vector_rotation(dim)
    v = t.vec("v", dim, -10, 10)
    t.assume((v[0] > 0.01) | (v[0] < -0.01) )
    t.close("same", r.rotate(v), v, 1e-3)
    t.close("inverse", r.inverse_rotate(v), v, 1e-3)
    t.check("dimension", r.dimension == dim)
