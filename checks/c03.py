"""C03 speed: modulation never makes the agent faster than the initial dynamics, and stops it when it touches head-on."""
from symx.harness import harness
from checks.helpers import NORMALS, Component, Constant, Sequence, Tree, Wall

RA = "nonlinear_avoidance/avoidance/rotational_avoider.py"
MOD = "nonlinear_avoidance.avoidance.rotational_avoider"
MO = "nonlinear_avoidance/multi_obstacle_avoider.py"
NL = "nonlinear_avoidance/nonlinear_rotation_avoider.py"


@harness([RA + ":RotationalAvoider.compute_safe_scaling"],
         "2D/3D; any unit velocity, averaged normal of any length <= 1, gamma in [0.2, 1e3]", cases=[2, 3])
def safe_scaling(t, dim):
    m = t.mod(MOD)
    nu, v, c, _ = t.unit_pair("v", dim)
    l = t.real("n-length", 0.01, 1.0)
    n, dot = l * nu, l * c
    gamma = t.real("gamma", 0.2, 1e3)
    out = m.RotationalAvoider.compute_safe_scaling(velocity=v, averaged_normal=n, gamma=gamma)
    t.ge("not-negative", out, 0.0)
    t.le("not-above-one", out, 1.0)
    if t.decide(dot > 0):
        t.close("leaving-not-slowed", out, 1.0)
    elif t.decide(gamma <= 1):
        if t.decide(dot <= -0.002):
            t.close("touching-stops", out, 0.0)
    elif t.decide(dot <= -0.01):
        t.lt("approaching-slowed", out, 1.0)
        t.lt("not-stopped-before", 0.0, out)


@harness([RA + ":RotationalAvoider.compute_safe_scaling"],
         "2D; same direction at two distances 1 < gamma1 < gamma2 <= 1e3", cases=[None])
def safe_scaling_monotonic(t):
    m = t.mod(MOD)
    v = t.unit("v", 2)
    n = t.np.array([1.0, 0.0])
    g1 = t.real("gamma1", 1.001, 1e3)
    g2 = t.real("gamma2", 1.001, 1e3)
    t.assume(g1 < g2)
    t.assume(v[0] <= 0)
    f = m.RotationalAvoider.compute_safe_scaling
    t.le("closer-is-slower", f(velocity=v, averaged_normal=n, gamma=g1), f(velocity=v, averaged_normal=n, gamma=g2))


@harness([RA + ":RotationalAvoider.compute_safe_magnitude"],
         "2D/3D; any unit velocity, averaged normal of any length <= 1 or zero, gamma in [0.2, 1e3], initial speed [0, 10]",
         cases=[(2, True), (2, False), (3, True)])
def safe_magnitude(t, case):
    dim, has_normal = case
    m = t.mod(MOD)
    nu, v, c, _ = t.unit_pair("v", dim)
    l = t.real("n-length", 0.01, 1.0) if has_normal else 0.0
    n, dot = l * nu, l * c
    gamma = t.real("gamma", 0.2, 1e3)
    k = t.real("k", 0, 10)
    out = m.RotationalAvoider.compute_safe_magnitude(rotated_velocity=v, initial_norm=k, averaged_normal=n, gamma=gamma)
    s = t.np.dot(out, v)
    t.ge("not-reversed", s, 0.0)
    t.le("not-faster", s, k)
    t.close("direction-kept", out, s * v)
    if not has_normal or t.decide(dot > 0):
        t.close("leaving-not-slowed", s, k)
    elif t.decide(gamma <= 1):
        if t.decide(dot <= -0.002):
            t.close("touching-stops", out, t.np.zeros(dim))


@harness([RA + ":RotationalAvoider._limit_magnitude"],
         "any unit direction (1-2 obstacles in 2D) or a fixed one, 1-3 obstacles with any unit normals and gammas in [1, 1e3], initial speed [0, 10]",
         cases=[(2, 1), (2, 2), (2, 3), (3, 2)])
def limit_magnitude(t, case):
    dim, n = case
    m = t.mod(MOD)
    v = t.unit("v", 2) if case in ((2, 1), (2, 2)) else t.np.array([0.0, 1.0, 0.0][:dim])
    normals = [t.unit("n", dim) for _ in range(n)]
    gammas = [t.real("gamma", 1, 1e3) for _ in range(n)]
    k = t.real("k", 0, 10)
    out = m.RotationalAvoider._limit_magnitude(v, k, t.np.array(gammas), t.np.array(normals).T, t.np.ones(n) / n)
    s = t.np.dot(out, v)
    t.ge("not-reversed", s, 0.0)
    t.le("not-faster", s, k)
    t.close("direction-kept", out, s * v)
    dots = [t.np.dot(v, nn) for nn in normals]
    if all(t.decide(d >= 0) for d in dots):
        t.close("leaving-not-slowed", s, k)
    else:
        i = t.choice("most-head-on", n)
        if all(t.decide(dots[i] < dots[j]) for j in range(n) if j != i):
            t.close("slowed-by-the-one-headed-for", s * gammas[i], k * (gammas[i] + dots[i]), 1e-3)


@harness([RA + ":RotationalAvoider.avoid", RA + ":RotationalAvoider._limit_magnitude",
          RA + ":RotationalAvoider.compute_safe_magnitude"],
         "2D; one resting obstacle at any gamma in [0.2, 1e3], any velocity of speed [0.1, 10], the rotated direction is "
         "any unit vector (over-approximates the rotation, see C01 / C07), both surface modes",
         cases=[True, False])
def avoid_not_faster(t, sticky):
    m = t.mod(MOD)
    e = t.np.array(t.pick("heading", NORMALS))
    k = t.real("speed", 0.1, 10)
    vel = k * e
    u = t.unit("rotated", 2)
    c = t.unit("normal", 2)
    normal = c[0] * u + c[1] * t.np.array([-u[1], u[0]])
    gamma = t.real("gamma", 0.2, 1e3)
    t.assume(u[0] * e[0] + u[1] * e[1] >= -0.99)

    class Avoider(m.RotationalAvoider):
        def directional_convergence_summing(self, *args, **kwargs):
            return u

    av = Avoider(initial_dynamics=Constant(vel), obstacle_environment=[Wall(gamma, normal, -normal)])
    out = av.avoid(position=t.np.zeros(2), initial_velocity=vel, convergence_velocity=vel, sticky_surface=sticky)
    s = t.np.dot(out, u)
    t.close("direction-kept", out, s * u, 1e-3)
    t.le("not-faster", s, k, 1e-3)
    t.ge("not-reversed", s, 0.0, 1e-3)
    if t.decide(gamma <= 1):
        if t.decide(c[0] <= -0.999):
            t.le("head-on-stops", s, 0.01 * k, 1e-3)


@harness([MO + ":MultiObstacleAvoider.slowfactor_from_convergence"],
         "1-3 obstacles; rotation weights in [0,1], proximities in [-1,1]", cases=[1, 2, 3])
def slowfactor(t, n):
    m = t.mod("nonlinear_avoidance.multi_obstacle_avoider")
    av = m.MultiObstacleAvoider(obstacle_container=[], initial_dynamics=Constant(t.np.zeros(2)))
    w = [t.real("weight", 0, 1) for _ in range(n)]
    c = [t.real("proximity", -1, 1) for _ in range(n)]
    for x in w:
        t.assume((x == 0) | (x >= 0.001))
    for x in c:
        t.assume((x <= 0) | (x >= 0.001))
    av._rotation_weights = w
    av._convergence_reference_proximity = c
    out = av.slowfactor_from_convergence()
    t.ge("not-negative", out, 0.0)
    t.le("not-above-one", out, 1.0)
    active = [i for i in range(n) if t.decide(w[i] > 0) and t.decide(c[i] > 0)]
    if not active:
        t.close("no-influence-not-slowed", out, 1.0)
    for i in active:
        if t.decide(c[i] == 1):
            t.close("heading-at-reference-stops", out, 0.0)


@harness([MO + ":MultiObstacleAvoider.slowfactor_from_convergence"], "aligned unit vectors whose product exceeds 1 by rounding",
         cases=[None])
def slowfactor_rounding(t):
    m = t.mod("nonlinear_avoidance.multi_obstacle_avoider")
    av = m.MultiObstacleAvoider(obstacle_container=[], initial_dynamics=Constant(t.np.zeros(2)))
    av._rotation_weights = [t.real("weight", 0.01, 1)]
    av._convergence_reference_proximity = [t.real("proximity", 1, 1 + 1e-12)]
    t.close("stops", av.slowfactor_from_convergence(), 0.0, 1e-3)


@harness([MO + ":MultiObstacleAvoider.evaluate_sequence", RA + ":RotationalAvoider.compute_safe_scaling",
          MO + ":MultiObstacleAvoider.slowfactor_from_convergence"],
         "2D; one resting obstacle at any gamma in [0.5, 100], 3 reference and 4 convergence directions, initial speed "
         "[0.1, 10]; the avoidance direction is any unit vector (over-approximation); also touching (gamma in [0.5, 1]) with a second obstacle at any gamma in "
         "[1.5, 100], and with obstacles that move at any velocity", cases=[0, 1, 2, 3, "second", "moving"])
def multi_not_faster(t, i):
    second, moves = i == "second", i == "moving"
    i = 0 if second or moves else i
    m = t.mod("nonlinear_avoidance.multi_obstacle_avoider")
    w, p = t.np.array([1.0, 0.0]), t.np.array([0.0, 1.0])
    ref = t.np.array([0.6, 0.8] if second else t.pick("ref", [[1.0, 0.0], [0.6, 0.8], [0.8, -0.6]]))
    normal = -w
    conv = t.np.array([[0.96, 0.28], [0.0, 1.0], [0.28, -0.96], [-0.28, 0.96]][i])
    gamma = t.real("gamma", 0.5, 1 if second else 100)
    k = t.real("speed", 0.1, 10)
    c = Component(gamma, normal, ref, t.np.zeros(2), w)
    c.get_pose = lambda: None
    tree = Tree(c)
    tree.get_pose = lambda: None
    v = t.unit("avoidance", 2)

    class Avoider(m.MultiObstacleAvoider):
        def compute_convergence_sequence(self, position, initial_sequence):
            return Sequence(conv)

        def evaluate_avoidance_from_sequence(self, *args, **kwargs):
            super().evaluate_avoidance_from_sequence(*args, **kwargs)
            return Sequence(v)

    if second:
        far = Component(t.real("gamma-second", 1.5, 100), p, -p, 3.0 * p, 3.0 * p)
        far.get_pose = lambda: None
        other = Tree(far)
        other.get_pose = lambda: None
        av = Avoider(obstacle_container=[tree, other] if t.boolean("first") else [other, tree], initial_dynamics=Constant(k * p))
    else:
        av = Avoider(obstacle=tree, initial_dynamics=Constant(k * p))
    if moves:
        rel = t.vec("relative", 2, -3, 3)
        old, m.compute_multiobstacle_relative_velocity = m.compute_multiobstacle_relative_velocity, lambda *args, **kw: rel
        try:
            out = av.evaluate_sequence(t.np.zeros(2)) - rel
        finally:
            m.compute_multiobstacle_relative_velocity = old
    else:
        out = av.evaluate_sequence(t.np.zeros(2))
    s = t.np.dot(out, v)
    t.close("direction-kept", out, s * v, 1e-3)
    t.le("not-faster", s, k, 1e-3)
    t.ge("not-reversed", s, 0.0, 1e-3)
    if t.decide(gamma <= 1) and t.decide(v[0] >= 0.01):
        t.close("touching-stops", s, 0.0, 1e-3)
