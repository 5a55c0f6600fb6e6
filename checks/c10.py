"""C10 projection around an obstacle: deflating, folding, convergence around the obstacle."""
from checks.helpers import alike
from symx.harness import harness

PR = "nonlinear_avoidance/dynamics/projected_rotation_dynamics.py:ProjectedRotationDynamics."
PMOD = "nonlinear_avoidance.dynamics.projected_rotation_dynamics"


class Star:
    """star-shaped obstacle: local radius a along the first axis, b along the second, ellipse in between"""

    def __init__(self, t, dim, center=None):
        self.t, self.dim = t, dim
        self.pose = t.mod("vartools.states").Pose(t.np.zeros(dim) if center is None else center, None)
        self.axes = [t.real("axis", 0.2, 3) for _ in range(2)]

    center_position = property(lambda self: self.pose.position)
    global_reference_point = property(lambda self: self.pose.position)

    def get_reference_point(self, in_global_frame=False):
        return self.pose.position if in_global_frame else 0 * self.pose.position

    ray = None  # (unit vector, radius) of the ray on which everything happens

    def get_local_radius(self, position, in_global_frame=False):
        if in_global_frame:
            position = position - self.pose.position
        if self.ray is not None:
            t, (u, radius) = self.t, self.ray
            along = t.np.dot(position, u)
            t.close("radius-asked-on-the-ray", position, along * u, 1e-3)
            t.ge("radius-asked-on-the-same-side", along, 0.0)
            return radius
        a, b = self.axes
        n = self.t.la.norm(position)
        s = (position[0] / n / a) ** 2 + sum(((x / n / b) ** 2 for x in position[1:]), 0.0)
        return 1 / s ** 0.5


def dynamics(t, attractor, obstacle, initial=None):
    return t.mod(PMOD).ProjectedRotationDynamics(attractor_position=attractor, obstacle=obstacle, initial_dynamics=initial)


@harness([PR + "_get_position_after_deflating_obstacle", PR + "_get_position_after_inflating_obstacle"],
         "dim 2, 3; elliptic obstacle with radii in [0.2, 3] anywhere, any position outside within 20, "
         "deflation weight in [0, 1]; in its frame and globally", cases=[(2, True), (2, False), (3, True), (3, False)], timeout=20)
def deflation_is_undone_by_inflation(t, case):
    dim, local = case
    obs = Star(t, dim, None if local else t.vec("center", dim, -5, 5))
    ds = dynamics(t, t.np.zeros(dim) + 1.0, obs)
    u = t.unit("u", dim)
    r, radius = t.real("r", 0.2, 20), t.real("radius", 0.1, 10)
    t.assume(r >= 1.01 * radius)
    obs.ray = (u, radius)
    w = t.real("w", 0, 1)
    pos = obs.pose.position + r * u
    small = ds._get_position_after_deflating_obstacle(pos, in_obstacle_frame=local, deflation_weight=w)
    t.close("deflated", small, obs.pose.position + (r - w * radius) * u, 1e-3)
    back = ds._get_position_after_inflating_obstacle(obs.pose.position + (r - w * radius) * u, in_obstacle_frame=local,
                                                     deflation_weight=w)
    t.close("restored", back, pos, 1e-3)


@harness([PR + "_get_position_after_deflating_obstacle", PR + "_get_position_after_inflating_obstacle"],
         "dim 2, 3; any position inside", cases=[(2, True), (2, False), (3, True), (3, False)])
def inside_deflates_to_reference(t, case):
    dim, local = case
    obs = Star(t, dim, None if local else t.vec("center", dim, -5, 5))
    ds = dynamics(t, t.np.zeros(dim) + 1.0, obs)
    u = t.unit("u", dim)
    r, radius = t.real("r", 0.05, 20), t.real("radius", 0.1, 10)
    t.assume(r <= 0.99 * radius)
    obs.ray = (u, radius)
    t.close("reference", ds._get_position_after_deflating_obstacle(obs.pose.position + r * u, in_obstacle_frame=local),
            obs.pose.position)


@harness([PR + "_get_position_after_inflating_obstacle"], "any radius, reference point itself", cases=[2, 3])
def inflated_reference_is_on_surface(t, dim):
    obs = Star(t, dim)
    obs.get_local_radius = lambda position, in_global_frame=False: obs.axes[0]
    ds = dynamics(t, t.np.zeros(dim) + 1.0, obs)
    p = t.np.zeros(dim)
    out = ds._get_position_after_inflating_obstacle(p)
    t.close("surface", t.la.norm(out), obs.axes[0], 1e-4)
    t.close("input-kept", p, t.np.zeros(dim))


def plane_of(t, full, init, e):
    """what C06 shows of VectorRotationXd.from_directions: the plane of init and e, turning from init to e"""

    class Plane(full):
        @classmethod
        def from_directions(cls, vec_init, vec_rot):
            t.close("turns-from", vec_init, init, 1e-3)
            along, side = t.np.dot(vec_rot, init), t.np.dot(vec_rot, e)
            t.close("turns-in-plane", vec_rot, along * init + side * e, 1e-3)
            t.check("turns-towards", t.red(side) > 0)
            return full(t.np.array([init, e]).T, 0.0)

    return Plane


ATT = ([2.0, 0.0], [0.0, -1.0])
ATT3 = ([0.0, 0.0, 2.0], [0.0, -1.0, 0.0], [-1.0, 0.0, 0.0])


@harness([PR + "_get_folded_position_opposite_kernel_point", PR + "_get_unfolded_position_opposite_kernel_point"],
         "attractor along 2 axes at distance 1 or 2, any position with 0.1 to 10 times that distance, up to 168 degrees away",
         cases=[(2, i, l) for i in range(2) for l in (True, False)] + [(3, 0, True), (3, 2, True), (3, 1, False)], timeout=30)
def folding_is_undone(t, case):
    dim, i, local = case
    rel = t.np.array((ATT if dim == 2 else ATT3)[i])
    obs = Star(t, dim, None if local else t.vec("center", dim, -5, 5))
    att = obs.pose.position + rel
    ds = dynamics(t, att, obs)
    d = (2.0, 1.0, 1.0)[i]
    base = -rel / d
    basis = t.mod("vartools.linalg").get_orthogonal_basis(base)
    g, hh = t.unit("half", 2)  # half of the angle between position and obstacle, seen from the attractor
    t.assume(g >= 0.1)
    t.assume(hh >= 0.03)
    t.mark_nonneg(g)
    t.mark_nonneg(hh)
    c, sn = g * g - hh * hh, 2 * g * hh
    if dim == 2:
        e = 1.0 if t.boolean("left") else -1.0
        u, side = t.np.array([c, e * sn]), e * basis[:, 1]
    else:
        q = t.unit("q", 2)
        u, side = t.np.array([c, sn * q[0], sn * q[1]]), q[0] * basis[:, 1] + q[1] * basis[:, 2]
    k = t.real("k", 0.1, 10)
    pos = att + k * d * (basis @ u)
    keep = 1.0 * pos
    out = ds._get_folded_position_opposite_kernel_point(pos, att, in_obstacle_frame=local)
    t.close("input-kept", pos, keep)
    pm = t.mod(PMOD)
    full = pm.VectorRotationXd
    pm.VectorRotationXd = plane_of(t, full, base, side)
    try:
        back = ds._get_unfolded_position_opposite_kernel_point(out, att, in_obstacle_frame=local)
    finally:
        pm.VectorRotationXd = full
    t.close("restored", back, pos, 1e-3)


@harness([PR + "_get_folded_position_opposite_kernel_point"], "3 attractors per dimension", cases=[2, 3])
def fold_keeps_reference(t, dim):
    rel = t.np.array(t.pick("att", ATT if dim == 2 else ATT3))
    local = t.boolean("local")
    obs = Star(t, dim, None if local else t.vec("center", dim, -5, 5))
    ds = dynamics(t, obs.pose.position + rel, obs)
    out = ds._get_folded_position_opposite_kernel_point(1.0 * obs.pose.position, obs.pose.position + rel, in_obstacle_frame=local)
    t.close("reference-stays", out, obs.pose.position, 1e-3)


@harness([PR + "evaluate_rotation_position_to_transform", PR + "evaluate_rotation_start_to_end"],
         "dim 2, 3; any attractor, obstacle and position seen from it within ~177 degrees", cases=[2, 3])
def rotation_to_obstacle(t, dim):
    att = t.vec("att", dim, -5, 5)
    v, w, c, s = t.unit_pair("v", dim, -0.999, 0.9999)
    k, m = t.real("k", 0.1, 10), t.real("m", 0.1, 10)
    obs = Star(t, dim, att - m * w)
    ds = dynamics(t, att, obs)
    pos = att - k * v
    for tag, r in (("obstacle", ds.evaluate_rotation_position_to_transform(pos, obs)),
                   ("points", ds.evaluate_rotation_start_to_end(pos, obs.pose.position, center=att))):
        t.close(tag + ":maps", r.rotate(v), w, 2e-3)
        t.close(tag + ":angle", t.math.cos(r.rotation_angle), c, 1e-4)
    t.check("attractor", ds.evaluate_rotation_position_to_transform(att, obs) is None)
    t.check("center", ds.evaluate_rotation_start_to_end(att, obs.pose.position, center=att) is None)


@harness([PR + "evaluate_projected_weight"], "any distances in [0, 1e3] of the point and its projection", cases=[None])
def projected_weight(t):
    g, pg = t.real("gamma", 0, 1e3), t.real("projected_gamma", 0, 1e3)

    class Obs:
        def get_gamma(self, position, in_global_frame=False, in_obstacle_frame=False):
            return g if alike(position, here) else pg

    here = t.np.array([0.0, 1.0])
    obs = Obs()
    ds = dynamics(t, t.np.zeros(2), obs)
    there = t.np.array([2.0, 1.0])
    ds.get_projected_position = lambda p: there
    w = ds.evaluate_projected_weight(here, obs)
    t.check("range", (w >= 0) & (w <= 1))
    t.check("full-on-surface", (g > 1) | (w == 1))
    t.check("full-when-projected-inside", (pg > 1) | (w == 1))
    t.check("fades", (g <= 1) | (pg <= 1) | (w < 1))
    x = (g - 1) * (pg - 1)
    t.check("bound", (g <= 1) | (pg <= 1) | (w * w * (1 + x) <= 1.0001))
    # no jump when the surface is approached: the weight misses less than the excess of the distance
    t.check("continuous-at-the-surface", (g <= 1) | (pg <= 1) | (x > 1) | (w >= 1 - x))


@harness([PR + "evaluate_rotation_position_to_transform", PR + "evaluate_rotation_start_to_end",
          PR + "evaluate_rotation_shrunkposition_to_transform"],
         "dim 2; attractor along 4 axes from the obstacle at any distance, position exactly opposite or at the attractor, or the "
         "same 120 degrees away", cases=[None])
def no_rotation_from_opposite(t):
    """behind the attractor no plane is better than another: there is no rotation, but elsewhere there always is"""
    w = t.np.array(t.pick("w", ([1.0, 0.0], [0.0, 1.0], [-1.0, 0.0], [0.0, -1.0])))
    k, m = t.real("k", 0.1, 10), t.real("m", 0.1, 10)
    obs = Star(t, 2, t.np.array([0.0, 0.0]))
    att = m * w
    ds = dynamics(t, att, obs)
    ds._get_position_after_deflating_obstacle = lambda position, in_obstacle_frame=True, deflation_weight=0.0: position
    behind = t.choice("where", 2) == 0
    v = -1.0 * w if behind else -0.5 * w + 0.75 ** 0.5 * t.np.array([-w[1], w[0]])
    pos = att - k * v
    for tag, rot in (("obstacle", ds.evaluate_rotation_position_to_transform(pos, obs)),
                     ("points", ds.evaluate_rotation_start_to_end(pos, obs.pose.position, center=att)),
                     ("shrunk", ds.evaluate_rotation_shrunkposition_to_transform(pos, obs))):
        if behind:
            t.check(tag + ":none", rot is None)
        else:
            t.close(tag + ":maps", rot.rotate(v), w, 2e-3)


@harness([PR + "_get_folded_position_opposite_kernel_point"],
         "dim 2; attractor along 2 axes, obstacle anywhere, any position up to 168 degrees from the obstacle; both frames", cases=[0, 1],
         timeout=20)
def folding_is_the_same_in_both_frames(t, i):
    """the folded position relative to the obstacle does not depend on where the obstacle is and on the frame that is used"""
    rel = t.np.array(ATT[i])
    obs = Star(t, 2, t.vec("center", 2, -5, 5))
    center = obs.pose.position
    ds = dynamics(t, center + rel, obs)
    u = t.unit("u", 2)
    d = (2.0, 1.0)[i]
    t.assume(t.np.dot(u, rel) <= 0.97 * d)
    k = t.real("k", 0.1, 10)
    pos = rel + k * u
    local = ds._get_folded_position_opposite_kernel_point(1.0 * pos, rel, in_obstacle_frame=True)
    t.close("same", ds._get_folded_position_opposite_kernel_point(pos + center, rel + center, in_obstacle_frame=False), local + center,
            1e-3)


@harness([PR + "get_projected_position"], "any position inside the obstacle, or any attractor inside", cases=[0, 1])
def projection_leaves_inside_alone(t, case):
    g, ga = t.real("gamma", 0, 5), t.real("attractor_gamma", 0, 5)
    att = t.np.array([3.0, 1.0])
    center = t.np.array([1.0, 0.5])

    class Obs(Star):
        def get_gamma(self, position, in_global_frame=False, in_obstacle_frame=False):
            return ga if position[0] == 2.0 else g

    ds = dynamics(t, att, Obs(t, 2, center))
    t.assume(g <= 1 if case == 0 else ga < 1)
    p = t.np.array([0.0, 4.0])
    t.close("unchanged", ds.get_projected_position(p), p)


@harness([PR + "get_projected_position", PR + "_get_position_after_deflating_obstacle",
          PR + "_get_position_after_inflating_obstacle"],
         "dim 2, 3; circular obstacle of any radius and pose, attractor and position anywhere outside, any folded point",
         cases=[2, 3], timeout=20)
def projection_stays_outside(t, dim):
    """the projected point is the folded one, moved outwards by the radius, in the frame of the obstacle"""
    rad = t.real("radius", 0.2, 3)
    center = t.vec("center", dim, -5, 5)
    st = t.mod("vartools.states")
    if dim == 2:
        a = t.real("angle", -3.2, 3.2)
        m = t.np.array([[t.math.cos(a), -t.math.sin(a)], [t.math.sin(a), t.math.cos(a)]])
    else:
        m = t.rot3("R")
        a = st.Rotation.from_matrix(m)

    class Obs(Star):
        def get_gamma(self, position, in_global_frame=False, in_obstacle_frame=False):
            if not in_obstacle_frame:
                position = self.pose.transform_position_to_relative(position)
            return t.la.norm(position) / rad

        def get_local_radius(self, position, in_global_frame=False):
            return rad

    obs = Obs(t, dim, center)
    obs.pose = st.Pose(center, a)
    u, w, f = t.unit("u", dim), t.unit("w", dim), t.unit("f", dim)
    r, ra, n = t.real("r", 0.2, 100), t.real("ra", 0.2, 100), t.real("n", 0.01, 100)
    t.assume(r >= 1.001 * rad)
    t.assume(ra >= 1.001 * rad)
    ds = dynamics(t, center + ra * (m @ w), obs)
    seen = []

    def fold(position, attractor, in_obstacle_frame=False):
        seen.append((position, attractor, in_obstacle_frame))
        return n * f

    ds._get_folded_position_opposite_kernel_point = fold
    out = ds.get_projected_position(center + r * (m @ u))
    t.close("position-deflated", seen[0][0], (r - rad) * u, 1e-3)
    t.close("attractor-deflated", seen[0][1], (ra - rad) * w, 1e-3)
    t.check("frame", seen[0][2])
    t.close("inflated", out, center + (n + rad) * (m @ f), 1e-3)


class Field:
    def __init__(self, at_obstacle, elsewhere, where, other=None):
        self.a, self.b, self.where, self.other = at_obstacle, elsewhere, where, other

    def evaluate(self, position):
        return self.a if position is not self.other and alike(position, self.where) else self.b


@harness([PR + "evaluate_convergence_around_obstacle"],
         "dim 2, 3; initial velocity of any length, field at the obstacle along the attractor direction, any position up to ~175 "
         "degrees from the obstacle", cases=[("surface", 2), ("surface", 3), ("far", 2), ("any", 2)], timeout=20)
def convergence_around_obstacle(t, case):
    kind, dim = case
    att = t.np.zeros(dim)
    v, w, c, s = t.unit_pair("v", dim, -0.99, 0.999)
    obs = Star(t, dim, -2.0 * w)
    at_obstacle = t.real("ko", 0.1, 5) * w
    k = t.real("speed", 0.1, 5)
    if kind == "surface":
        u = t.unit("init", 2)
        init = k * (u[0] * v + u[1] * (w - c * v) / s)
        weight = 1.0
    else:
        init = k * v
        weight = 0.0 if kind == "far" else t.real("weight", 0, 1)
    ref = obs.pose.position
    here = -3.0 * v
    ds = dynamics(t, att, obs, Field(at_obstacle, init, ref, here))

    def share(position, obstacle):
        t.check("weight-of-the-obstacle", obstacle is obs)
        t.close("weight-at-the-position", position, here)
        return weight

    ds.evaluate_projected_weight = share
    out = ds.evaluate_convergence_around_obstacle(here, obs)
    if kind == "surface":
        t.close("as-at-obstacle", out, k * w, 1e-3)
    elif kind == "far":
        t.close("as-initially", out, init, 1e-3)
    else:
        # field and obstacle agree, what remains is the rotation back by the share of the initial direction
        a = t.math.acos(c) * (1 - weight)
        t.close("rotated-back", t.np.dot(out, w), k * t.math.cos(a), 1e-3)
        t.close("rotated-back", t.np.dot(out, (v - c * w) / s), k * t.math.sin(a), 1e-3)
    t.close("speed", t.np.dot(out, out), k * k, 1e-3)


@harness([PR + "evaluate_convergence_around_obstacle"], "position exactly opposite of the obstacle, or at the attractor", cases=[0, 1])
def convergence_opposite(t, case):
    w = t.unit("w", 2)
    obs = Star(t, 2, -2.0 * w)
    init = t.vec("init", 2, -5, 5)
    here = 3.0 * w * case
    ds = dynamics(t, t.np.zeros(2), obs, Field(w, init, obs.pose.position, here))
    ds.evaluate_rotation_position_to_transform = lambda position, obstacle: None
    t.close("initial", ds.evaluate_convergence_around_obstacle(here, obs), init)


@harness([PR + "evaluate_convergence_sequence_around_obstacle"], "dim 2; field at the obstacle 45 degrees off the attractor direction, "
         "any position up to ~175 degrees from the obstacle", cases=[None], timeout=20)
def convergence_sequence(t):
    base = t.rot("B", 2)
    w, perp = base[:, 0], base[:, 1]
    u = t.unit("u", 2)
    t.assume(u[0] >= -0.99)
    t.assume(u[0] <= 0.999)
    v = u[0] * w + u[1] * perp
    obs = Star(t, 2, -2.0 * w)
    f = (w + perp) * (0.5 ** 0.5)
    here = -3.0 * v
    field = Field(f, v, obs.pose.position, here)
    field.attractor_position = t.np.zeros(2)
    ds = dynamics(t, t.np.zeros(2), obs, field)
    obs.get_reference_point = lambda in_global_frame=False: obs.pose.position
    start = t.np.array([1.0, 0.0])
    seq = ds.evaluate_convergence_sequence_around_obstacle(here, obs, start)
    t.close("end", seq.get_end_vector(), f, 2e-3)
    t.close("root", seq.basis_array[:, 0, 0], v, 2e-3)


@harness([PR + "_get_lyapunov_gradient", PR + "get_base_convergence", PR + "_get_projected_lyapunov_gradient"],
         "dim 2, 3; any attractor and position", cases=[2, 3])
def gradients(t, dim):
    att, pos = t.vec("att", dim, -5, 5), t.vec("pos", dim, -5, 5)
    d2 = t.np.dot(att - pos, att - pos)
    t.assume(d2 >= 1e-4)
    obs = Star(t, dim, pos)
    ds = dynamics(t, att, obs)
    for tag, g in (("lyapunov", ds._get_lyapunov_gradient(pos)), ("base", ds.get_base_convergence(pos)),
                   ("projected", ds._get_projected_lyapunov_gradient(t.np.zeros(dim)))):
        t.close(tag + ":unit", t.np.dot(g, g), 1.0)
        t.close(tag + ":towards", t.la.norm(att - pos) * g, att - pos, 1e-3)
    for tag, g in (("lyapunov", ds._get_lyapunov_gradient(att)), ("base", ds.get_base_convergence(att))):
        t.close(tag + ":zero", g, t.np.zeros(dim))


@harness([PR + "evaluate_rotation_shrunkposition_to_transform"],
         "dim 2, 3; any shrunk attractor and position, the latter seen up to ~177 degrees from the obstacle", cases=[2, 3])
def rotation_of_shrunk_position(t, dim):
    """seen from the shrunk attractor, the shrunk position is turned to the obstacle"""
    v, w, c, s = t.unit_pair("v", dim, -0.999, 0.9999)
    k, m = t.real("k", 0.1, 10), t.real("m", 0.1, 10)
    obs = Star(t, dim, t.vec("center", dim, -5, 5))
    att, pos = 9.0 * w, -9.0 * v
    ds = dynamics(t, att, obs)
    shrunk_att = obs.pose.position + m * w

    def shrink(position, in_obstacle_frame=True, deflation_weight=0.0):
        t.check("globally", not in_obstacle_frame)
        t.close("completely", deflation_weight, 1.0)
        return shrunk_att if position is not pos and alike(position, att) else shrunk_att - k * v

    ds._get_position_after_deflating_obstacle = shrink
    rot = ds.evaluate_rotation_shrunkposition_to_transform(pos, obs)
    t.close("maps", rot.rotate(v), w, 2e-3)
