"""C05 smoothing weights: in [0, 1], full on the surface, fading with distance, full effect only where intended."""
from symx.harness import harness
from checks.helpers import Component, Constant, Sequence, Tree, Wall, alike, elsewhere

RA = "nonlinear_avoidance/avoidance/rotational_avoider.py"
MOD = "nonlinear_avoidance.avoidance.rotational_avoider"
MO = "nonlinear_avoidance/multi_obstacle_avoider.py"
NL = "nonlinear_avoidance/nonlinear_rotation_avoider.py"


def wall_frame(t):
    """normal away from the wall, reference towards it (within 80deg), convergence anywhere but exactly on it"""
    w = t.np.array(t.pick("wall", [[1.0, 0.0], [0.0, -1.0]]))
    p = t.np.array([-w[1], w[0]])
    r = t.unit("ref", 2)
    t.assume(r[0] >= 0.2)
    u = t.unit("conv", 2)
    t.assume(u[0] >= -0.99)
    t.assume(u[0] <= 0.999)
    t.assume(abs(u[0] * r[1] - u[1] * r[0]) >= 0.001)
    return w, -w, r[0] * w + r[1] * p, u[0] * w + u[1] * p, u


@harness([RA + ":RotationalAvoider.get_rotation_weight"],
         "2D; gamma in [0.2, 1e3], reference within 80deg of the normal, any convergence direction; power 1, 0.3",
         cases=[1.0, 0.3])
def rotation_weight(t, power):
    m = t.mod(MOD)
    w, normal, ref, conv, _ = wall_frame(t)
    gamma = t.real("gamma", 0.2, 1e3)
    out = m.RotationalAvoider.get_rotation_weight(normal_vector=normal, reference_vector=ref, convergence_vector=conv,
                                                  gamma_value=gamma, smooth_continuation_power=power)
    t.ge("not-negative", out, 0.0)
    t.le("at-most-one", out, 1.0)
    if t.decide(gamma <= 1):
        t.close("full-on-surface", out, 1.0)
    else:
        t.le("fades-with-distance", out * gamma, 1.0)


@harness([RA + ":RotationalAvoider.get_smooth_continuation_weight"],
         "2D; gamma in [1, 1e3], reference within 80deg of the inward normal, any convergence direction; "
         "continuation power 0.3 and 1", cases=[0.3, 1.0])
def continuation_weight(t, power):
    m = t.mod(MOD)
    w, normal, ref, conv, u = wall_frame(t)
    gamma = t.real("gamma", 1.0, 1e3)
    av = m.RotationalAvoider(initial_dynamics=Constant(t.np.zeros(2)), obstacle_environment=[])
    av.smooth_continuation_power = power
    base = t.np.array([w, [-w[1], w[0]]]).T
    out = av.get_smooth_continuation_weight(gamma=gamma, vector_reference=ref, vector_convergence=conv, base=base)
    t.ge("not-negative", out, 0.0)
    t.le("at-most-one", out, 1.0)
    t.le("fades-with-distance", out * gamma, 1.0)
    if t.decide(gamma <= 1):
        t.close("full-on-surface", out, 1.0)
    elif t.decide(u[0] <= -0.001):
        t.close("leaving", out * gamma, 1.0)


@harness([RA + ":RotationalAvoider.get_smooth_continuation_weight"],
         "2D; gamma in [1.001, 1e3], reference within 80deg of the inward normal, convergence exactly along it: no rotation; "
         "across it at a fixed angle: any share", cases=[None])
def continuation_weight_along_reference(t):
    m = t.mod(MOD)
    r = t.unit("ref", 2)
    t.assume(r[0] >= 0.2)
    gamma = t.real("gamma", 1.001, 1e3)
    av = m.RotationalAvoider(initial_dynamics=Constant(t.np.zeros(2)), obstacle_environment=[])
    base = t.np.eye(2)
    t.close("same-direction-not-rotated", av.get_smooth_continuation_weight(
        gamma=gamma, vector_reference=r, vector_convergence=r, base=base), 0.0)


class Surroundings(list):
    """container whose obstacles have their own convergence direction (and radius)"""
    n_obstacles = property(len)

    def get_convergence_direction(self, position, it_obs):
        return self[it_obs].convergence


@harness([RA + ":RotationalAvoider.avoid", RA + ":RotationalAvoider.compute_normal_tensor"],
         "2D; 2-3 resting obstacles (one possibly out of range) with their own convergence directions and radii; also with a given convergence direction "
         "or one from the convergence dynamics; the summing itself is not evaluated", cases=["own", "given", "dynamics"])
def own_convergence_of_each_obstacle(t, case):
    m = t.mod(MOD)
    e = t.np.array([1.0, 0.0])
    n = 2 if t.boolean("two") else 3
    obs = Surroundings()
    for i in range(n):
        normal = t.np.array([[0.0, 1.0], [-1.0, 0.0], [0.6, -0.8]][i])
        o = Wall(t.real(f"gamma{i}", 1.001, 9) if i != 1 or n == 2 else t.pick("gamma1", [3.0, 1e9]), normal, -normal)
        o.convergence = t.vec(f"conv{i}", 2, 0.1, 3)
        obs.append(o)
    if t.boolean("radii"):
        obs.convergence_radiuses = [t.real(f"radius{i}", 1.5708, 3.1415) for i in range(n)]
    seen = []
    given = t.np.array([0.6, -0.8]) * t.real("k", 0.1, 3)

    class Avoider(m.RotationalAvoider):
        def directional_convergence_summing(self, **kwargs):
            seen.append(kwargs)
            return e

    av = Avoider(initial_dynamics=None if case == "own" else Constant(e), obstacle_environment=None if t.boolean("as-argument") else obs,
                 convergence_system=Constant(given) if case == "dynamics" else None,
                 cut_off_gamma=100)
    kw = {"convergence_velocity": given} if case == "given" else {}
    if av.obstacle_environment is None:
        kw["obstacle_list"] = obs
    av.avoid(position=t.np.zeros(2), initial_velocity=2.0 * e, **kw)
    close = [o for o in obs if not (isinstance(o.gamma, float) and o.gamma > 100)]
    t.check("once-per-close-obstacle", len(seen) == len(close))
    for o, k in zip(close, seen):
        want = o.convergence if case == "own" else given
        t.close("own-direction", k["convergence_vector"], want)
        t.close("own-distance", k["gamma"], o.gamma)
        t.close("own-reference", k["reference_vector"], o.reference)
        t.close("own-normal", k["base"][:, 0], -o.normal)
        if hasattr(obs, "convergence_radiuses"):
            t.close("own-radius", k["convergence_radius"], obs.convergence_radiuses[obs.index(o)])
        else:
            t.close("radius", k["convergence_radius"], av.convergence_radius)
        t.close("velocity", k["nonlinear_velocity"], 2.0 * e)


@harness([NL + ":get_convergence_weight", NL + ":ConvergenceDynamicsWithoutSingularity.evaluate_projected_weight"],
         "gamma in [0, 1e3]; two gammas for the comparison", cases=[None])
def convergence_weight(t):
    m = t.mod("nonlinear_avoidance.nonlinear_rotation_avoider")
    g = t.real("gamma", 0.0, 1e3)
    g2 = t.real("gamma2", 0.0, 1e3)
    t.assume(g < g2)
    t.assume((g == 0) | (g >= 0.001))
    w, w2 = m.get_convergence_weight(g), m.get_convergence_weight(g2)
    dyn = m.ConvergenceDynamicsWithoutSingularity(Constant(t.np.ones(2)), Constant(t.np.ones(2)))
    n = t.np.array([1.0, 0.0])
    p, p2 = (dyn.evaluate_projected_weight(t.np.zeros(2), Wall(x, n, n)) for x in (g, g2))
    for tag, a, b in (("convergence", w, w2), ("projected", p, p2)):
        t.ge(tag + ":not-negative", a, 0.0)
        t.le(tag + ":at-most-one", a, 1.0)
        t.ge(tag + ":fades-with-distance", a, b)
        if t.decide(g <= 1):
            t.close(tag + ":full-on-surface", a, 1.0)
        else:
            t.close(tag + ":inverse", a * g, 1.0)


class Attracted(Constant):
    def __init__(self, attractor):
        super().__init__(attractor)
        self.attractor_position = attractor


@harness([MO + ":MultiObstacleAvoider.compute_tree_weight"],
         "obstacle at any gamma in [0.1, 1e3] of the attractor; default and custom upper limit in [1.1, 10]", cases=[True, False])
def tree_weight(t, has_attractor):
    m = t.mod("nonlinear_avoidance.multi_obstacle_avoider")
    n = t.np.array([1.0, 0.0])
    dyn = Attracted(t.np.zeros(2)) if has_attractor else Constant(t.np.zeros(2))
    av = m.MultiObstacleAvoider(obstacle_container=[], initial_dynamics=dyn)
    g = t.real("gamma", 0.1, 1e3)
    tree = Tree(Component(g, n, -n, n, n))
    if not has_attractor:
        t.close("no-attractor-no-reduction", av.compute_tree_weight(tree), 1.0)
        return
    limit = t.real("limit", 1.1, 10)
    for tag, lim, out in (("default", 2.0, av.compute_tree_weight(tree)),
                          ("limit", limit, av.compute_tree_weight(tree, gamma_decreasing_influence=limit))):
        t.ge(tag + ":not-negative", out, 0.0)
        t.le(tag + ":at-most-one", out, 1.0)
        if t.decide(g <= 1):
            t.close(tag + ":attractor-inside", out, 0.0)
        elif t.decide(g >= lim):
            t.close(tag + ":far", out, 1.0)
        else:
            t.close(tag + ":linear", out * (lim - 1.0), g - 1.0)


@harness([RA + ":RotationalAvoider._get_directional_deviation_weight", RA + ":RotationalAvoider._get_nonlinear_inverted_weight"],
         "weight in [0.01, 1], deviation in [-1, 3] outside (0, 0.05); norms in [0, pi], radius in [0.5, pi/2]", cases=[None])
def deviation_weights(t):
    m = t.mod(MOD)
    A = m.RotationalAvoider
    w = t.real("weight", 0.01, 1)
    d = t.real("deviation", -1, 3)
    t.assume((d <= 0) | (d >= 0.05))
    out = A._get_directional_deviation_weight(w, weight_deviation=d)
    t.ge("not-negative", out, 0.0)
    t.le("at-most-one", out, 1.0)
    if t.decide(d <= 0):
        t.close("no-deviation", out, 0.0)
    elif t.decide(d >= 1):
        t.close("full-deviation", out, 1.0)
    elif t.decide(3 * d <= 1):
        t.le("small-deviation-fades", out, w)
    a = t.real("conv-norm", 0, 3.1415)
    b = t.real("nonlinear-norm", 0, 3.1415)
    r = t.real("radius", 0.5, 1.5707)
    out = A._get_nonlinear_inverted_weight(a, b, r, weight=w)
    t.ge("inverted:not-negative", out, 0.0)
    t.le("inverted:not-above", out, w)
    if t.decide(b <= r):
        t.close("inverted:inside-radius", out, 0.0)
    elif t.decide(a <= r):
        t.close("inverted:convergence-inside", out, w)


class Occludable(Component):
    """component whose gamma at its child's surface point is given"""

    def __init__(self, gamma, gamma_surface, center):
        super().__init__(gamma, None, None, "surface", center)
        self.gamma_surface = gamma_surface
        self.reference = "reference"

    def get_gamma(self, position, in_global_frame=False):
        return self.gamma_surface if isinstance(position, str) else self.gamma


@harness([MO + ":MultiObstacleAvoider.compute_parent_occlusion_weight"],
         "2D; root with 0-2 children; any position around the child at distance [0.1, 10], gamma of the parent at the "
         "child's surface point in [0.001, 10]", cases=[0, 1, 2, "aligned"])
def occlusion(t, n):
    m = t.mod("nonlinear_avoidance.multi_obstacle_avoider")
    aligned, n = n == "aligned", 1 if n == "aligned" else n
    av = m.MultiObstacleAvoider(obstacle_container=[], initial_dynamics=Constant(t.np.zeros(2)))
    u = t.np.array([1.0, 0.0]) if aligned else t.unit("side", 2)
    if not aligned:
        t.assume(u[0] <= 0.999)
    k = t.real("distance", 0.1, 10)
    og = t.real("parent-gamma", 0.001, 10)
    root = Occludable(5.0, og, t.np.array([2.0, 0.0]))
    children = []
    for i in range(n):
        c = Occludable(3.0, 7.0, t.np.zeros(2))
        c.reference = t.np.array([1.0, 0.0])
        children.append(c)
    w = av.compute_parent_occlusion_weight(k * u, Tree(root, *children))
    t.check("one-weight-each", len(w) == n + 1)
    t.close("root-not-occluded", w[0], 1.0)
    for i in range(n):
        t.ge("not-negative", w[i + 1], 0.0)
        t.le("at-most-one", w[i + 1], 1.0)
        if t.decide(og >= 1):
            t.close("free-surface-not-occluded", w[i + 1], 1.0)
        elif aligned:
            t.close("straight-behind-parent-hidden", w[i + 1], 0.0)
        elif t.decide(u[0] <= 0):
            # parent on the other side: exponent in [0.5, 1]
            t.ge("behind-parent-weak", w[i + 1], og)
        else:
            t.le("towards-parent-strong", w[i + 1], og)


class Blocked:
    """part whose surface is at a given distance along the line, and which reaches up to a line in the plane"""

    def __init__(self, t, inside, reference, distance, center, side):
        self.inside, self.reference, self.distance = inside, reference, distance
        self.center_position = self.global_reference_point = center
        self.side, self.start = side, t.np.array([0.0, 0.0])

    def gamma_at(self, position):
        return 1.0 + position[0] * self.side[0] + position[1] * self.side[1] + self.side[2]

    def get_gamma(self, position, in_global_frame=False):
        if not in_global_frame:
            position = position + self.center_position
        if alike(position, self.start):
            return 0.5 if self.inside else 2.0
        return self.gamma_at(position)

    def get_reference_direction(self, position, in_global_frame=False):
        return self.reference if in_global_frame else elsewhere(self.reference)

    def get_reference_point(self, in_global_frame=False):
        return self.center_position if in_global_frame else 0 * self.center_position

    def get_intersection_with_surface(self, start, direction, in_global_frame=False):
        return start + self.distance * direction + (0.0 if in_global_frame else 1.0) * self.center_position


@harness([MO + ":MultiObstacleAvoider.compute_parent_occlusion_weight"],
         "2D; chain of three parts listed in any of 3 orders, the position inside or outside of any of them, surfaces at any distance in [0.1, 3] along "
         "3 reference directions; each part covers any half-plane; position seen at a right angle to the parent", cases=["012", "120", "201"])
def hidden_by_the_own_parent(t, listing):
    np = t.np
    m = t.mod("nonlinear_avoidance.multi_obstacle_avoider")
    centers = [np.array([2.0, 0.0]), np.array([1.0, 1.0]), np.array([1.0, 0.0])]  # root, middle, leaf
    order = [int(i) for i in listing]  # level of each listed part
    level = []
    for i in range(3):
        inside = i > 0 and t.boolean(f"inside{i}")
        ref = np.array([0.6, 0.8] if i != 1 else [-1.0, 0.0])
        s = t.pick(f"side{i}", [(0.3, 0.0), (0.0, -0.2)]) if i < 2 else (0.0, 0.1)
        level.append(Blocked(t, inside, ref, t.real(f"d{i}", 0.1, 3) if i else 1.0, centers[i], s + (t.real(f"h{i}", -0.9, 2) if i < 2 else 0.0,)))
    hits = [(-1 if level[i].inside else 1) * level[i].distance * level[i].reference for i in range(3)]
    seen = [None] + [level[i - 1].gamma_at(hits[i]) for i in (1, 2)]
    for g in seen[1:]:
        t.assume(g >= 0.05)

    class Listed(Tree):
        root_idx = order.index(0)

        def get_parent_idx(self, i):
            return order.index(order[i] - 1) if order[i] else None

    av = m.MultiObstacleAvoider(obstacle_container=[], initial_dynamics=Constant(np.zeros(2)))
    w = av.compute_parent_occlusion_weight(np.zeros(2), Listed(*[level[k] for k in order]))
    t.check("one-weight-each", len(w) == 3)
    t.close("root-not-occluded", w[order.index(0)], 1.0)
    for i in (1, 2):
        if t.decide(seen[i] >= 1):
            t.close("surface-is-free-of-the-parent", w[order.index(i)], 1.0)
        else:
            t.close("as-deep-as-in-the-parent", w[order.index(i)], seen[i], 1e-3)


@harness([MO + ":MultiObstacleAvoider.compute_convergence_radiuses"],
         "2D; 1-2 components of radius 1, positions at any distance [0, 3] from the center; repulsion limit 0.8, any in "
         "[0.1, 0.9], or none", cases=[(1, "default"), (1, "any"), (2, "default"), (1, "none")])
def convergence_radiuses(t, case):
    n, limit = case
    m = t.mod("nonlinear_avoidance.multi_obstacle_avoider")
    import math

    kw, lim = {}, 0.8
    if limit == "any":
        lim = t.real("limit", 0.1, 0.9)
        kw = {"gamma_maximum_repulsion": lim}
    elif limit == "none":
        kw = {"gamma_maximum_repulsion": None}
    radius = t.real("radius", math.pi / 2 + 1e-6, math.pi - 1e-6)
    av = m.MultiObstacleAvoider(obstacle_container=[], initial_dynamics=Constant(t.np.zeros(2)),
                                convergence_radius=radius, **kw)
    d = [t.real("distance", 0, 3) for _ in range(n)]
    for x in d:
        t.assume((x == 0) | (x >= 0.001))
    e = t.np.array([0.6, 0.8])
    comps = [Component(x, e, -e, e, t.np.zeros(2)) for x in d]
    # every component sees the position at its own distance
    for x, c in zip(d, comps):
        c.center_position = d[0] * e - x * e
        c.surface = c.center_position + e
    out = av.compute_convergence_radiuses(t.np.array(d), position=d[0] * e, obstacle_tree=Tree(*comps))
    t.check("one-radius-each", len(out) == n)
    for x, r in zip(d, out):
        t.ge("at-least-the-radius", r, radius)
        t.le("at-most-pi", r, math.pi)
        if limit == "none" or t.decide(x >= 1):
            t.close("outside-default", r, radius)
        elif t.decide(x < lim):
            t.close("inside-full-repulsion", r, math.pi)
        else:
            t.close("linear-between", (r - radius) * (1 - lim), (math.pi - radius) * (1 - x), 1e-3)


@harness([MO + ":MultiObstacleAvoider.evaluate_avoidance_from_sequence", MO + ":MultiObstacleAvoider.compute_convergence_radiuses",
          MO + ":MultiObstacleAvoider.simple_population_tangent_tree", MO + ":MultiObstacleAvoider._simple_tangent_branch_update"],
         "2D; round part of radius 1, position at any depth beyond the limit of 0.8; 6 directions of the velocity", cases=[None])
def pushed_out_when_inside(t):
    np = t.np
    m = t.mod("nonlinear_avoidance.multi_obstacle_avoider")
    e = np.array([0.6, 0.8])
    x = t.real("distance", 0.05, 0.79)
    c = Component(x, e, -e, e, np.zeros(2))
    c.center_position = c.global_reference_point = -x * e
    c.surface, c.at = c.center_position + e, None
    v = np.array(t.pick("v", [[1.0, 0.0], [0.0, 1.0], [0.0, -1.0], [-1.0, 0.0], [0.8, -0.6], [0.28, -0.96]]))
    av = m.MultiObstacleAvoider(obstacle=Tree(c), initial_dynamics=Constant(v))
    out = av.evaluate_avoidance_from_sequence(np.zeros(2), Sequence(v)).get_end_vector()
    t.close("straight-out", out, e, 1e-3)


class Environment(list):
    n_obstacles = property(len)


class Around:
    """convergence dynamics that give every obstacle its own direction and weight"""

    def evaluate_convergence_around_obstacle(self, position, obstacle):
        return obstacle.convergence

    def evaluate_projected_weight(self, position, obstacle):
        return obstacle.weight

    def evaluate_convergence_sequence_around_obstacle(self, position, obstacle, initial_sequence):
        return obstacle.sequence


def turned(t, name, base):
    u = t.unit(name, 2)
    t.assume(u[0] >= -0.99)
    t.assume(u[0] <= 0.999)
    return u[0] * base + u[1] * t.np.array([-base[1], base[0]])


@harness([NL + ":SingularityConvergenceDynamics.evaluate_weighted_dynamics",
          NL + ":SingularityConvergenceDynamics.compute_gamma_weights"],
         "2D; 1-3 obstacles with their own convergence directions, exactly one of them (any) within the cut-off of 10, "
         "the others at [10, 1e3]", cases=[1, 2, 3])
def convergence_of_the_close_obstacle(t, n):
    m = t.mod("nonlinear_avoidance.nonlinear_rotation_avoider")
    e = t.np.array([1.0, 0.0])
    close = t.choice("close", n)
    obs = Environment()
    for i in range(n):
        g = t.real("gamma", 0.5, 9.9) if i == close else t.real("far", 10, 1e3)
        o = Wall(g, e, -e)
        o.convergence = turned(t, "conv", e)
        obs.append(o)
    av = m.SingularityConvergenceDynamics(initial_dynamics=Constant(e), obstacle_environment=obs,
                                          obstacle_convergence=Around())
    out = av.evaluate_weighted_dynamics(t.np.zeros(2), e)
    t.close("its-convergence", out, obs[close].convergence, 1e-3)


@harness([NL + ":SingularityConvergenceDynamics.evaluate_weighted_dynamics_sequence"],
         "2D; 1-2 obstacles, convergence weights 0, 1 or 2 (only one of them nonzero)", cases=[1, 2])
def convergence_sequence_extremes(t, n):
    m = t.mod("nonlinear_avoidance.nonlinear_rotation_avoider")
    S = t.mod("nonlinear_avoidance.vector_rotation").VectorRotationSequence
    e = t.np.array([1.0, 0.0])
    init = turned(t, "init", e)
    active = t.choice("active", n + 1)
    obs = Environment()
    for i in range(n):
        o = Wall(1.0, e, -e)
        o.weight = t.pick("weight", [1.0, 2.0]) if i == active else 0.0
        o.convergence = turned(t, "conv", e)
        o.sequence = S.create_from_vector_array(t.np.array([e, o.convergence]).T)
        obs.append(o)
    av = m.SingularityConvergenceDynamics(initial_dynamics=Constant(e), obstacle_environment=obs,
                                          obstacle_convergence=Around())
    seq = S.create_from_vector_array(t.np.array([e, init]).T)
    out = av.evaluate_weighted_dynamics_sequence(t.np.zeros(2), seq).get_end_vector()
    t.close("extreme", out, init if active == n else obs[active].convergence, 1e-3)


class Rooted(Around):
    def __init__(self, vr):
        self.vr = vr

    def evaluate_rotation_position_to_transform(self, position, obstacle):
        return self.vr.VectorRotationXd.from_directions(position, position)


@harness([MO + ":MultiObstacleAvoider.compute_convergence_sequence", MO + ":MultiObstacleAvoider.vector_rotation_reduction",
          MO + ":get_limited_weights_to_max_sum"],
         "2D; one single-component obstacle, convergence weight 0 or 1; any initial velocity and velocity at the "
         "obstacle", cases=[0.0, 1.0])
def multi_convergence_extremes(t, weight):
    m = t.mod("nonlinear_avoidance.multi_obstacle_avoider")
    vr = t.mod("nonlinear_avoidance.vector_rotation")
    e = t.np.array([1.0, 0.0])
    init, conv = turned(t, "init", e), turned(t, "conv", e)
    c = Component(2.0, -e, e, e, 2.0 * e)
    c.weight = weight
    S = vr.VectorRotationSequence

    class Dynamics(Constant):
        def evaluate_dynamics_sequence(self, position):
            return S.create_from_vector_array(t.np.array([e, conv]).T)

    av = m.MultiObstacleAvoider(obstacle=Tree(c), initial_dynamics=Dynamics(init), convergence_dynamics=Rooted(vr))
    seq = S.create_from_vector_array(t.np.array([e, init]).T)
    out = av.compute_convergence_sequence(e, seq).get_end_vector()
    t.close("extreme", out, conv if weight else init, 1e-3)


@harness([RA + ":RotationalAvoider._get_projected_velocity"],
         "2D direction space; tangent angle in [pi/2, pi], velocity angle in [-pi, pi], weight in [0,1], radius in "
         "[pi/2, pi]", cases=[None])
def projected_velocity(t):
    m = t.mod(MOD)
    U = m.UnitDirection
    base = t.np.eye(2)
    r = t.real("radius", 1.5708, 3.1415)
    a = t.real("tangent", 0.5, 3.1415) * (1.0 if t.boolean("left") else -1.0)
    b = t.real("velocity", -3.1415, 3.1415)
    w = t.real("weight", 0, 1)
    s = 1.0 if t.decide(a > 0) else -1.0
    t.assume(abs(b - s * r) >= 0.001)
    out = m.RotationalAvoider._get_projected_velocity(
        U(base).from_angle(t.np.array([a])), U(base).from_angle(t.np.array([b])), w, convergence_radius=r).as_angle()[0]
    target = s * r
    if t.decide((b - target) * s > 0):
        t.close("already-turned-kept", out, b)
    else:
        t.close("linear", out, w * target + (1 - w) * b)
