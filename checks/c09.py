"""C09 limit-cycle dynamics: circular and spiralling motion."""
from symx.harness import harness

CD = "nonlinear_avoidance/dynamics/circular_dynamics.py"
SP = "nonlinear_avoidance/dynamics/spiral_dynamics.py"
CMOD = "nonlinear_avoidance.dynamics.circular_dynamics"
SIMPLE = [CD + ":SimpleCircularDynamics.evaluate", CD + ":SimpleCircularDynamics.get_phi",
          CD + ":SimpleCircularDynamics.get_grad"]


def placed(t, dim, lo=0.02, hi=10.0, vmax=None):
    """dynamics at an arbitrary pose and a point at polar position (r, u[, h]) of it; world axes as columns"""
    cd, st = t.mod(CMOD), t.mod("vartools.states")
    center = t.vec("center", dim, -5, 5)
    if dim == 2:
        a = t.real("angle", -3.2, 3.2)
        c, s = t.math.cos(a), t.math.sin(a)
        m = t.np.array([[c, -s], [s, c]])
        pose = st.Pose(center, a)
    else:
        m = t.rot3("R")
        pose = st.Pose(center, st.Rotation.from_matrix(m))
    radius = t.real("radius", 0.1, 5)
    kw = {} if vmax is None else {"maximum_velocity": vmax}
    ds = cd.SimpleCircularDynamics(pose=pose, radius=radius, **kw)
    u = t.unit("u", 2)
    r = t.real("r", lo, hi)
    rad = u[0] * m[:, 0] + u[1] * m[:, 1]
    tan = u[0] * m[:, 1] - u[1] * m[:, 0]
    pos = center + r * rad
    axis = h = None
    if dim == 3:
        axis, h = m[:, 2], t.real("h", -5, 5)
        pos = pos + h * axis
    return ds, radius, r, rad, tan, pos, axis, h


@harness(SIMPLE, "dim 2, 3; any pose, radius in [0.1, 5], point within 10 of the center", cases=[2, 3], timeout=20)
def circulates_towards_the_circle(t, dim):
    ds, radius, r, rad, tan, pos, axis, h = placed(t, dim)
    v = ds.evaluate(pos)
    vr, vt = t.red(t.np.dot(v, rad)), t.red(t.np.dot(v, tan))
    t.check("counter-clockwise", vt > 0)
    t.check("inwards-from-outside", (r <= radius) | (vr < 0))
    t.check("outwards-from-inside", (r >= radius) | (vr > 0))
    if dim == 3:
        va = t.red(t.np.dot(v, axis))
        t.check("towards-plane", (h != 0) | (va == 0 if t.symbolic else abs(va) < 1e-9))
        t.check("downwards", (h <= 0) | (va < 0))
        t.check("upwards", (h >= 0) | (va > 0))


@harness(SIMPLE, "dim 2, 3; any pose, point on the circle, velocity limit in [0.1, 5]", cases=[2, 3], timeout=20)
def follows_the_circle(t, dim):
    vmax = t.real("vmax", 0.1, 5)
    ds, radius, r, rad, tan, pos, axis, h = placed(t, dim, vmax=vmax)
    t.assume(r == radius)
    if dim == 3:
        t.assume(h == 0)
    v = ds.evaluate(pos)
    t.close("tangential", v, vmax * tan, 1e-4)


@harness(SIMPLE, "dim 2, 3; any pose, point within 10 of the center, velocity limit in [0.1, 5]", cases=[2, 3], timeout=20)
def circular_speed(t, dim):
    vmax = t.real("vmax", 0.1, 5)
    ds, radius, r, rad, tan, pos, axis, h = placed(t, dim, vmax=vmax)
    d2 = r * r if dim == 2 else r * r + h * h
    near = t.boolean("near-center")
    t.assume(9 * d2 < 0.999999 * radius * radius if near else 9 * d2 >= radius * radius)
    v = ds.evaluate(pos)
    speed2 = t.np.dot(v, v)
    if near:
        t.close("slows-to-center", speed2 * radius * radius, 9 * d2 * vmax * vmax, 1e-3)
    else:
        t.close("full-speed", speed2, vmax * vmax, 1e-3)


@harness(SIMPLE, "dim 2, 3; any pose", cases=[2, 3])
def rests_at_center(t, dim):
    ds, radius, r, rad, tan, pos, axis, h = placed(t, dim)
    t.close("zero", ds.evaluate(ds.pose.position), t.np.zeros(dim))


@harness([CD + ":SimpleCircularDynamics.__init__"], "any rotation matrix, any center", cases=["pose", "matrix"])
def plane_given_by_base_matrix(t, case):
    cd, st = t.mod(CMOD), t.mod("vartools.states")
    m = t.rot3("R")
    if case == "pose":
        center = t.vec("center", 3, -5, 5)
        ds = cd.SimpleCircularDynamics(base_matrix=m, pose=st.ObjectPose(position=center), radius=2.0)
    else:
        center = t.np.zeros(3)
        ds = cd.SimpleCircularDynamics(base_matrix=m, radius=2.0)
    v = ds.evaluate(center + 2.0 * m[:, 0])
    t.close("in-plane", v, m[:, 1], 1e-4)
    t.close("towards-plane", t.np.dot(ds.evaluate(center + 2.0 * m[:, 0] + 2.0 * m[:, 2]), m[:, 2]) * 2 ** 0.5, -1.0, 1e-3)


@harness([CD + ":CircularRotationDynamics.get_rotation_weight", CD + ":CircularRotationDynamics.sigmoid"],
         "any position within 100, radius in [0.1, 5], approach factors in [0.1, 20]", cases=[None])
def rotation_weight(t):
    cd = t.mod(CMOD)
    radius = t.real("radius", 0.1, 5)
    fo, fi, other = t.real("fo", 0.1, 20), t.real("fi", 0.1, 20), t.real("other", 0.1, 20)
    ds = cd.CircularRotationDynamics(radius=radius, outside_approaching_factor=fo, inside_approaching_factor=fi)
    u = t.unit("u", 2)
    r = t.real("r", 0.001, 100)
    w = ds.get_rotation_weight(r * u)
    inside = t.decide(r < radius)
    half = cd.CircularRotationDynamics(radius=radius, outside_approaching_factor=other if inside else fo,
                                       inside_approaching_factor=fi if inside else other)
    t.close("own-factor", half.get_rotation_weight(r * u), w, 1e-9)
    t.check("range", (w > 0) & (w < 2))
    t.check("inside", (r >= radius) | (w <= 1 + 1e-9))
    t.check("outside", (r <= radius) | (w >= 1 - 1e-9))
    t.check("one-on-circle", (r != radius) | (abs(w - 1) <= 1e-6))
    q = t.real("q", 0.001, 100)
    t.assume(q > r)
    t.le("monotonic", w, ds.get_rotation_weight(q * u), 1e-9)


@harness([CD + ":CircularRotationDynamics.evaluate", CD + ":CircularRotationDynamics.get_initial_direction"],
         "any position within 20, radius in [0.1, 5], speed in [0.1, 5], any base, either direction", cases=[1, -1], timeout=20)
def rotation_dynamics(t, direction):
    cd = t.mod(CMOD)
    radius, speed = t.real("radius", 0.1, 5), t.real("speed", 0.1, 5)
    m = t.rot("B", 2)
    ds = cd.CircularRotationDynamics(radius=radius, constant_velocity=speed, direction=direction, base_matrix=m)
    u = t.unit("u", 2)
    r = t.real("r", 0.05, 20)
    rad = u[0] * m[:, 0] + u[1] * m[:, 1]
    tan = (u[0] * m[:, 1] - u[1] * m[:, 0]) * direction
    inside = t.boolean("inside")
    t.assume(r <= radius if inside else r >= radius)
    v = ds.evaluate(r * rad)
    angle = ds.get_rotation_weight(r * u) * (t.math.pi / 2)
    t.close("outward-share", t.np.dot(v, rad), speed * t.math.cos(angle), 1e-4)
    t.close("rotating-share", t.np.dot(v, tan), speed * t.math.sin(angle), 1e-4)
    t.close("speed", t.np.dot(v, v), speed * speed, 1e-3)


@harness([CD + ":CircularRotationDynamics.evaluate"], "center", cases=[None])
def rotation_dynamics_center(t):
    cd = t.mod(CMOD)
    ds = cd.CircularRotationDynamics(radius=t.real("radius", 0.1, 5))
    t.close("zero", ds.evaluate(t.np.zeros(2)), t.np.zeros(2))


@harness([CD + ":DynamicDynamics.evaluate"], "any position, any center", cases=[None])
def moved_dynamics(t):
    cd, st = t.mod(CMOD), t.mod("vartools.states")
    main = cd.SimpleCircularDynamics(pose=st.Pose(t.vec("c", 2, -5, 5), 0.0))
    base = cd.SimpleCircularDynamics(pose=st.Pose(t.vec("b", 2, -5, 5), 0.0))
    dd = cd.DynamicDynamics(main, base)
    t.close("center", dd.position, main.pose.position)
    p = t.vec("new", 2, -5, 5)
    dd.position = p
    u = t.unit("u", 2)
    t.close("moved", main.pose.position, p)
    t.close("on-circle", dd.evaluate(p + u), t.np.array([-u[1], u[0]]), 1e-4)


SDIRS = ([1.0, 0.0, 0.0], [0.0, 0.6, 0.8], [-0.6, 0.0, -0.8], [0.0, 0.0, -2.0])


@harness([SP + ":SpiralingDynamics3D.evaluate"],
         "any pose, axis velocity in [0.1, 5], point within 10 of the axis, radius in [0.1, 5], speed in [0.1, 5]",
         cases=["inside", "outside"], timeout=20)
def spiral(t, case):
    sp, st = t.mod("nonlinear_avoidance.dynamics.spiral_dynamics"), t.mod("vartools.states")
    center, m = t.vec("center", 3, -5, 5), t.rot3("R")
    speed, radius, k = t.real("speed", 0.1, 5), t.real("radius", 0.1, 5), t.real("axis_velocity", 0.1, 5)
    circle = t.mod(CMOD).SimpleCircularDynamics(pose=st.Pose.create_trivial(2), radius=radius)
    ds = sp.SpiralingDynamics3D(st.Pose(center, st.Rotation.from_matrix(m)), k * m[:, 0], circle, speed)
    u = t.unit("u", 2)
    r, h = t.real("r", 0.02, 10), t.real("h", -10, 10)
    t.assume(r <= radius if case == "inside" else r >= radius)
    rad = u[0] * m[:, 1] + u[1] * m[:, 2]
    tan = u[0] * m[:, 2] - u[1] * m[:, 1]
    v = ds.evaluate(center + h * m[:, 0] + r * rad)
    t.close("speed", t.np.dot(v, v), speed * speed, 1e-3)
    va, vt, vr = t.red(t.np.dot(v, m[:, 0])), t.red(t.np.dot(v, tan)), t.red(t.np.dot(v, rad))
    t.check("advances", va > 0)
    t.check("winds", vt > 0)
    t.check("towards-circle", vr >= 0 if case == "inside" else vr <= 0)
    t.check("keeps-the-circle", (r != radius) | (vr == 0 if t.symbolic else abs(vr) < 1e-6))
    if case == "outside":
        t.close("pitch", va, k * (vt * vt + vr * vr) ** 0.5, 1e-3)
    t.close("convergence-direction", ds.evaluate_convergence_around_obstacle(center, None), k * m[:, 0])


@harness([SP + ":SpiralingDynamics3D.create_from_direction"], "4 axis directions (one not of unit length)", cases=[0, 1, 2, 3])
def spiral_setup(t, case):
    sp = t.mod("nonlinear_avoidance.dynamics.spiral_dynamics")
    center, radius, speed = t.vec("center", 3, -5, 5), t.real("radius", 0.1, 5), t.real("speed", 0.1, 5)
    d = t.np.array(SDIRS[case])
    ds = sp.SpiralingDynamics3D.create_from_direction(center, d, radius=radius, speed=speed)
    t.close("center", ds.pose.position, center)
    t.close("axis-first", ds.pose.rotation_matrix[:, 0], d / t.la.norm(d))
    t.close("direction", ds.direction, d)
    t.close("radius", ds.circular_dynamics.radius, radius)
    t.close("speed", ds.speed, speed)
    a = sp.SpiralingAttractorDynamics3D.create_from_direction(center, d, radius=radius, speed=speed)
    t.close("attractor", a.attractor_position, center)
    new = t.vec("new", 3, -5, 5)
    a.attractor_position = new
    t.close("attractor-moved", a.pose.position, new)


@harness([SP + ":SpiralingDynamics3D.evaluate"], "any point of the axis", cases=[0, 1])
def spiral_axis(t, case):
    sp = t.mod("nonlinear_avoidance.dynamics.spiral_dynamics")
    center = t.vec("center", 3, -5, 5)
    speed = t.real("speed", 0.1, 5)
    d = t.np.array(SDIRS[case])
    ds = sp.SpiralingDynamics3D.create_from_direction(center, d, speed=speed)
    t.close("straight", ds.evaluate(center + t.real("h", -10, 10) * d), speed * d, 1e-3)
