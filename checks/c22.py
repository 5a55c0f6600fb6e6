"""C22 evaluating is repeatable: no memory of earlier calls, no change of what was given."""
import types

from checks.helpers import Component, Constant, Sequence, Tree
from symx.harness import harness

N = "nonlinear_avoidance/"
M = "nonlinear_avoidance."
RA, MO, NL = N + "avoidance/rotational_avoider.py:", N + "multi_obstacle_avoider.py:", N + "nonlinear_rotation_avoider.py:"
D, VR = N + "dynamics/", N + "vector_rotation.py:"
PR = D + "projected_rotation_dynamics.py:ProjectedRotationDynamics."


def repeatable(t, fresh, call, first, second):
    """fresh() makes the object, call(object, *arguments) evaluates it; two sets of argument values"""
    used = fresh()
    copies = lambda values: [1.0 * v for v in values]

    def kept(label, got, values):
        for g, v in zip(got, values):
            t.close(label, g, v, 1e-9)

    a = copies(first)
    r = call(used, *a)
    before = copies(r)
    kept("arguments are kept", a, first)
    b = copies(second)
    q = copies(call(used, *b))
    kept("arguments are kept", b, second)
    kept("an earlier result is kept", r, before)
    new = call(fresh(), *copies(second))
    t.check("same number of results", len(r) == len(q) == len(new))
    kept("as if asked for the first time", q, new)
    for old, v in zip(a, second):
        old[...] = v
    kept("the same again, in the same array", call(used, *a), q)
    for old, v in zip(a, first):
        old[...] = v
    kept("back to the first, in the same array", call(used, *a), before)


class Plane:
    """half-plane n.x < s as an obstacle, with distance values of the positions left and right of 2"""
    is_boundary = False
    tail_effect = True

    def __init__(self, t, n, s, gamma):
        self.t, self.n, self.s, self.gamma = t, n, s, gamma
        self.center_position = self.global_reference_point = (s - 2.0) * n

    def get_gamma(self, position, in_global_frame=False, in_obstacle_frame=None):
        g = in_global_frame if in_obstacle_frame is None else not in_obstacle_frame
        p = position if g else position + self.center_position
        return self.gamma[1 if bool(p[0] > 2) else 0]

    def get_normal_direction(self, position, in_global_frame=False, in_obstacle_frame=None):
        return 1.0 * self.n

    def get_reference_direction(self, position, in_global_frame=False, in_obstacle_frame=None):
        return -1.0 * self.n

    def get_reference_point(self, in_global_frame=False):
        return self.center_position if in_global_frame else 0 * self.center_position

    def get_intersection_with_surface(self, start, direction, in_global_frame=False):
        if not in_global_frame:
            start = start + self.center_position
        return start + direction * ((self.s - self.n @ start) / (self.n @ direction))


class Field(Constant):
    """velocity that changes with the position"""

    def __init__(self, t, k, dim=2, attractor=None):
        self.t, self.k, self.dimension = t, k, dim
        if attractor is not None:
            self.attractor_position = attractor

    def evaluate(self, position):
        v = self.t.np.zeros(self.dimension)
        v[0], v[1] = (0.28 * self.k, 0.96 * self.k) if bool(position[0] > 2) else (0.6 * self.k, 0.8 * self.k)
        return v


class Environment(list):
    n_obstacles = property(len)


def planes(t, n, dim=2):
    """flat obstacles, close or far at either of the positions"""
    e = t.np.zeros(dim)
    e[0] = 1.0
    gammas = [t.pick(f"gammas{i}", [(1.5, 4.0), (1.0, 1.5), (3.0, 1.2), (4.0, 1e8)]) for i in range(n)]
    return lambda: Environment([Plane(t, e, -0.5 * i, g) for i, g in enumerate(gammas)])


def two_positions(t, dim=2):
    np = t.np
    a, b = np.zeros(dim), np.zeros(dim)
    a[0], b[0] = t.real("x1", 0.1, 1.5), t.real("x2", 2.1, 4)
    a[1], b[1] = t.real("y1", 0.5, 3), t.real("y2", 0.5, 3)
    return a, b


@harness([RA + "RotationalAvoider.avoid", RA + "RotationalAvoider.evaluate"],
         "dim 2, 3; 0-2 flat obstacles (parallel), any two positions in front of them, dynamics that change with the position", cases=[(2, 0), (2, 1), (2, 2), (3, 1)])
def avoidance(t, case):
    dim, n = case
    m = t.mod(M + "avoidance.rotational_avoider")
    a, b = two_positions(t, dim)
    obstacles = planes(t, n, dim)
    k = t.real("speed", 0.1, 5)

    def fresh():
        conv = t.np.zeros(dim)
        conv[:2] = -0.6, 0.8
        return m.RotationalAvoider(initial_dynamics=Field(t, k, dim), obstacle_environment=obstacles(),
                                   convergence_system=Constant(conv, dim))

    repeatable(t, fresh, lambda o, x: [o.evaluate(x)], [a], [b])


@harness([RA + "RotationalAvoider.avoid"], "dim 2; flat obstacle, any two positions in front of it, velocities of any speed given", cases=[None])
def avoidance_of_given_velocity(t):
    m = t.mod(M + "avoidance.rotational_avoider")
    a, b = two_positions(t)
    np = t.np
    obstacles = planes(t, 1)
    v, w = t.real("k1", 0.1, 5) * np.array([-0.6, 0.8]), t.real("k2", 0.1, 5) * np.array([-0.8, -0.6])

    def fresh():
        return m.RotationalAvoider(initial_dynamics=Field(t, 1.0), obstacle_environment=obstacles(),
                                   convergence_system=Constant(np.array([-0.28, 0.96])))

    repeatable(t, fresh, lambda o, x, u: [o.avoid(x, initial_velocity=u)], [a, v], [b, w])


@harness([MO + "MultiObstacleAvoider.evaluate", MO + "MultiObstacleAvoider.evaluate_avoidance_from_sequence"],
         "dim 2; tree of 1-2 flat parts, any two positions in front of them", cases=[1, 2])
def avoidance_of_trees(t, n):
    m = t.mod(M + "multi_obstacle_avoider")
    np = t.np
    a, b = two_positions(t)
    k = t.real("speed", 0.1, 5)
    obstacles = planes(t, n)

    def fresh():
        tree = Tree(*obstacles())
        tree.get_pose = lambda: None
        tree.get_gamma = lambda position, in_global_frame=True: min(c.get_gamma(position, in_global_frame=in_global_frame) for c in tree.components)

        class Avoider(m.MultiObstacleAvoider):
            def compute_convergence_sequence(self, position, initial_sequence):
                return initial_sequence

        return Avoider(obstacle=tree, initial_dynamics=Field(t, k))

    repeatable(t, fresh, lambda o, x: [o.evaluate(x)], [a], [b])


class Towards:
    def __init__(self, t):
        self.t = t

    def evaluate_convergence_around_obstacle(self, position, obstacle):
        return self.t.np.array([-0.6, 0.8]) if bool(position[0] > 2) else self.t.np.array([-0.28, 0.96])

    def evaluate_projected_weight(self, position, obstacle):
        return 1.0


@harness([NL + "SingularityConvergenceDynamics.evaluate"], "dim 2; 1-2 flat obstacles, any two positions in front of them", cases=[1, 2])
def nonlinear_avoidance(t, n):
    m = t.mod(M + "nonlinear_rotation_avoider")
    a, b = two_positions(t)
    k = t.real("speed", 0.1, 5)
    obstacles = planes(t, n)

    def fresh():
        return m.SingularityConvergenceDynamics(initial_dynamics=Field(t, k), obstacle_environment=obstacles(),
                                                obstacle_convergence=Towards(t))

    repeatable(t, fresh, lambda o, x: [o.evaluate(x)], [a], [b])


@harness([D + "wavy_attractor_dynamics.py:WavyLinearDynamics.evaluate", D + "circular_dynamics.py:SimpleCircularDynamics.evaluate",
          D + "circular_dynamics.py:CircularRotationDynamics.evaluate", D + "segmented_dynamics.py:WavyPathFollowing.evaluate",
          D + "spiral_dynamics.py:SpiralingAttractorDynamics3D.evaluate",
          D + "constant_value.py:ConstantValueWithSequence.evaluate", D + "locally_rotated_linear_dynamics.py:LocallyRotatedFromObtacle.evaluate"],
         "any attractor (or centre), any two positions to the right of it", cases=["wavy", "circular", "circular3", "rotation", "path", "spiral", "constant", "rotated"])
def dynamics(t, kind):
    np = t.np
    st = t.mod("vartools.states")
    dim = 3 if kind in ("spiral", "circular3") else 2
    a, b = two_positions(t, dim) if kind not in ("path", "rotated") else (None, None)
    att = t.vec("attractor", dim, -5, 5)
    if kind in ("rotation", "path", "rotated"):
        att = np.zeros(dim)
    if kind in ("path", "rotated"):
        a, b = np.array([t.pick("x1", [0.5, 1.5]), 1.0]), np.array([3.0, t.pick("y2", [-1.0, 2.0])])
    first, second = att + a, att + b
    speed = t.real("speed", 0.1, 5)

    def fresh():
        if kind == "wavy":
            return t.mod(M + "dynamics.wavy_attractor_dynamics").WavyLinearDynamics(attractor_position=1.0 * att, maximum_velocity=speed)
        if kind == "circular":
            return t.mod(M + "dynamics.circular_dynamics").SimpleCircularDynamics(pose=st.Pose(1.0 * att, 0.0), radius=2.0, maximum_velocity=speed)
        if kind == "circular3":
            return t.mod(M + "dynamics.circular_dynamics").SimpleCircularDynamics(pose=st.Pose(1.0 * att, st.Rotation.from_euler("x", 0)), radius=2.0, maximum_velocity=speed)
        if kind == "rotation":
            return t.mod(M + "dynamics.circular_dynamics").CircularRotationDynamics(radius=2.0, constant_velocity=speed)
        if kind == "path":
            m = t.mod(M + "dynamics.segmented_dynamics")
            return m.create_segment_from_points([np.array([5.0, -5.0]), np.array([5.0, 5.0])])
        if kind == "spiral":
            m = t.mod(M + "dynamics.spiral_dynamics")
            turning = types.SimpleNamespace(evaluate=lambda position: np.array([0.5, 0.0]))
            return m.SpiralingAttractorDynamics3D(st.Pose(1.0 * att), np.array([0.0, 1.0, 0.0]), turning, speed)
        if kind == "constant":
            return t.mod(M + "dynamics.constant_value").ConstantValueWithSequence(velocity=speed * np.array([0.6, 0.8]))
        m = t.mod(M + "dynamics.locally_rotated_linear_dynamics")
        return m.LocallyRotatedFromObtacle(Plane(t, np.array([1.0, 0.0]), att[0] - 3.0, (1.5, 3.0)), 1.0 * att, speed * np.array([0.6, 0.8]))

    repeatable(t, fresh, lambda o, x: [o.evaluate(x)], [first], [second])


@harness([VR + "VectorRotationXd.rotate", VR + "VectorRotationXd.inverse_rotate", VR + "VectorRotationSequence.rotate_weighted"],
         "dim 2, 3; rotations by any angle below 170 degrees, any vectors", cases=[(2, "one"), (3, "one"), (2, "sequence"), (3, "sequence")])
def rotations(t, case):
    dim, kind = case
    np = t.np
    vr = t.mod(M + "vector_rotation")
    u = t.unit("turn", 2)
    t.assume(u[0] >= -0.98)
    t.assume(u[1] >= 0.1)
    e, f = np.zeros(dim), np.zeros(dim)
    e[0] = 1.0
    f[:2] = u
    v, w = t.vec("v", dim, -5, 5), t.vec("w", dim, -5, 5)
    if kind == "one":
        repeatable(t, lambda: vr.VectorRotationXd.from_directions(1.0 * e, 1.0 * f),
                   lambda o, x: [o.rotate(x), o.rotate(x, 0.5), o.inverse_rotate(x), 1.0 * o.base, 1.0 * np.array([o.rotation_angle])], [v], [w])
    else:
        g = np.zeros(dim)
        g[:2] = u[0] * u[0] - u[1] * u[1], 2 * u[0] * u[1]
        repeatable(t, lambda: vr.VectorRotationSequence.create_from_vector_array(np.array([e, f, g]).T),
                   lambda o, x, weights: [o.rotate_weighted(x, weights=weights), o.get_end_vector(), 1.0 * o.rotation_angles],
                   [v, np.array([1.0, 0.0])], [w, np.array([1.0, 1.0])])


@harness([VR + "VectorRotationTree.get_weighted_mean", VR + "VectorRotationTree.reduce_weighted_to_sequence", VR + "VectorRotationTree.rotate_weighted"],
         "dim 2; root, a, b in line or as branches; full weight on one and then on another of them", cases=["line", "branches"])
def trees(t, kind):
    np = t.np
    vr = t.mod(M + "vector_rotation")
    u, w = t.unit("u", 2), t.unit("w", 2)
    for x in (u, w):
        t.assume(x[0] >= -0.9)
        t.assume(x[1] >= 0.1)
    e = np.array([1.0, 0.0])
    last = np.array([u[0] * w[0] - u[1] * w[1], u[0] * w[1] + u[1] * w[0]]) if kind == "line" else w
    one, other = t.pick("nodes", [(0, 1), (1, 2), (2, 0), (2, 1)])

    def fresh():
        tree = vr.VectorRotationTree(root_idx=0, root_direction=1.0 * e)
        tree.add_node(node_id=1, parent_id=0, direction=1.0 * u)
        tree.add_node(node_id=2, parent_id=1 if kind == "line" else 0, direction=1.0 * last)
        return tree

    def weights(i):
        out = np.zeros(3)
        out[i] = 1.0
        return out

    def call(tree, x):
        own = [i for i in range(3) if bool(x[i] > 0)]
        return [tree.get_weighted_mean(node_list=own, weights=[1.0]), tree.get_weighted_mean(node_list=[0, 1, 2], weights=x), tree.reduce_weighted_to_sequence(node_list=[0, 1, 2], weights=x).get_end_vector()]

    repeatable(t, fresh, call, [weights(one)], [weights(other)])


class Star:
    """disc"""

    def __init__(self, t, center, radius):
        self.t, self.radius = t, radius
        self.pose = t.mod("vartools.states").Pose(center, None)

    center_position = property(lambda self: self.pose.position)
    global_reference_point = property(lambda self: self.pose.position)

    def get_reference_point(self, in_global_frame=False):
        return self.pose.position if in_global_frame else 0 * self.pose.position

    def get_local_radius(self, position, in_global_frame=False):
        return self.radius

    def get_gamma(self, position, in_global_frame=False, in_obstacle_frame=None):
        g = in_global_frame if in_obstacle_frame is None else not in_obstacle_frame
        p = position - self.pose.position if g else position
        return self.t.la.norm(p) / self.radius


@harness([PR + "_get_position_after_deflating_obstacle", PR + "_get_position_after_inflating_obstacle",
          PR + "_get_folded_position_opposite_kernel_point", PR + "_get_unfolded_position_opposite_kernel_point"],
         "dim 2; disc of any radius at the origin or elsewhere, any two positions outside; in the frame of the obstacle or not",
         cases=[(k, f) for k in ("deflating_obstacle", "inflating_obstacle", "folded", "unfolded") for f in (True, False)], exact_roots=True)
def projections(t, case):
    kind, local = case
    np = t.np
    m = t.mod(M + "dynamics.projected_rotation_dynamics")
    center = np.zeros(2) if local else t.vec("center", 2, -5, 5)
    radius = t.real("radius", 0.1, 1)
    rel = np.array([0.0, -2.0])
    u = np.array(t.pick("u", [[1.0, 0.0], [-0.6, 0.8]]))
    w = np.array([0.6, 0.8])
    r1, r2 = (t.pick("r1", [1.5, 4.0]), t.pick("r2", [1.2, 3.0])) if kind == "unfolded" else (t.real("r1", 1.1, 5), t.real("r2", 1.1, 5))
    first, second = center + r1 * u, center + r2 * w

    def fresh():
        return m.ProjectedRotationDynamics(attractor_position=center + rel, obstacle=Star(t, 1.0 * center, radius), initial_dynamics=None)

    if kind.endswith("folded"):
        name = f"_get_{kind}_position_opposite_kernel_point"
        repeatable(t, fresh, lambda o, x, att: [getattr(o, name)(x, att, in_obstacle_frame=local)], [first, center + rel], [second, center + rel])
    else:
        name = f"_get_position_after_{kind}"
        repeatable(t, fresh, lambda o, x: [getattr(o, name)(x, in_obstacle_frame=local)], [first], [second])


NEAR = [((1.01, 2.0), (1.04, 2.0)), ((1.0, 2.0), (1.0, 2.0004)), ((1.0, 2.0), (2.0, 1.0)), ((1.0, 2.0), (1.0, -2.0)), ((3.0, 1.0), (1.0, 3.0))]


class Pull(Constant):
    """to the origin, turning with the distance"""

    def __init__(self, t, k):
        self.t, self.k, self.dimension = t, k, 2
        self.attractor_position = t.np.zeros(2)

    def evaluate(self, position):
        return self.k * self.t.np.array([-position[0] - 0.5 * position[1], -position[1]])


class Sides:
    """half-plane x < -1: distance values, normal and reference direction change with the position"""
    is_boundary = False
    tail_effect = True

    def __init__(self, t):
        self.t, self.center_position = t, t.np.array([-3.0, 0.0])
        self.global_reference_point = self.center_position

    def get_gamma(self, position, in_global_frame=False, in_obstacle_frame=None):
        return 0.5 * (position[0] + 3.0) + 0.01 * position[1] * position[1]

    def get_normal_direction(self, position, in_global_frame=False, in_obstacle_frame=None):
        return self.t.np.array([1.0, 0.0])

    def get_reference_direction(self, position, in_global_frame=False, in_obstacle_frame=None):
        d = self.center_position - position
        return d / self.t.la.norm(d)


@harness([N + "base_avoider.py:BaseAvoider.evaluate", RA + "RotationalAvoider.evaluate", RA + "RotationalAvoider.compute_obstacle_gamma",
          D + "wavy_attractor_dynamics.py:WavyLinearDynamics.evaluate",
          D + "circular_dynamics.py:SimpleCircularDynamics.evaluate", NL + "SingularityConvergenceDynamics.evaluate"],
         "dim 2; pairs of positions that are close, of the same norm or mirrored; any speed", cases=["base", "avoider", "wavy", "circular", "nonlinear"])
def positions_alike(t, kind):
    np = t.np
    a, b = t.pick("positions", NEAR)
    k = t.real("speed", 0.1, 5)
    st = t.mod("vartools.states")

    def fresh():
        if kind == "base":
            class Avoider(t.mod(M + "base_avoider").BaseAvoider):
                def avoid(self, position, initial_velocity, obstacle_list):
                    return 2.0 * initial_velocity - position
            return Avoider(Pull(t, k), [])
        if kind == "avoider":
            return t.mod(M + "avoidance.rotational_avoider").RotationalAvoider(
                initial_dynamics=Pull(t, k), obstacle_environment=Environment([Sides(t)]), convergence_system=Pull(t, 1.0))
        if kind == "wavy":
            return t.mod(M + "dynamics.wavy_attractor_dynamics").WavyLinearDynamics(attractor_position=np.zeros(2), maximum_velocity=k)
        if kind == "circular":
            return t.mod(M + "dynamics.circular_dynamics").SimpleCircularDynamics(pose=st.Pose(np.zeros(2), 0.0), radius=2.0, maximum_velocity=k)
        return t.mod(M + "nonlinear_rotation_avoider").SingularityConvergenceDynamics(
            initial_dynamics=Pull(t, k), obstacle_environment=Environment([Sides(t)]), obstacle_convergence=Towards(t))

    repeatable(t, fresh, lambda o, x: [o.evaluate(x)], [np.array(a)], [np.array(b)])


@harness([N + "base_avoider.py:BaseAvoider.evaluate"], "dim 2; 0-1 obstacles, any two positions, dynamics that change with the position", cases=[0, 1])
def base_avoider(t, n):
    m = t.mod(M + "base_avoider")
    a, b = two_positions(t)
    k = t.real("speed", 0.1, 5)
    obstacles = planes(t, n)

    class Avoider(m.BaseAvoider):
        def avoid(self, position, initial_velocity, obstacle_list):
            for o in obstacle_list:
                initial_velocity = initial_velocity + o.get_gamma(position, in_global_frame=True) * o.n
            return initial_velocity - position

    repeatable(t, lambda: Avoider(Field(t, k), obstacles()), lambda o, x: [o.evaluate(x)], [a], [b])


@harness([N + "multivariant_gaussian.py:MultiVariantGaussian.__init__", N + "multivariant_gaussian.py:MultiVariantGaussian.evaluate",
          N + "multivariant_gaussian.py:MultiVariantGaussian.evaluate_derivative"],
         "dim 1, 2; any mean, any diagonal covariance, any two positions", cases=[1, 2])
def gaussians(t, dim):
    np = t.np
    m = t.mod(M + "multivariant_gaussian")
    mean, S = t.vec("mean", dim, -5, 5), np.diag(t.vec("S", dim, 0.2, 4))
    a, b = mean + t.vec("a", dim, -3, 3), mean + t.vec("b", dim, -3, 3)
    given = 1.0 * mean, 1.0 * S
    repeatable(t, lambda: m.MultiVariantGaussian(mean, S), lambda o, x: [np.array([o.evaluate(x)]), o.evaluate_derivative(x)], [a], [b])
    t.close("mean is kept", mean, given[0])
    t.close("covariance is kept", S, given[1])


@harness([N + "gmm_learner/math_tools.py:rk4", N + "gmm_learner/math_tools.py:rk4_pos_vel", N + "gmm_learner/math_tools.py:mag_linear_maximum"],
         "dim 2; any two positions, velocities, vectors; linear dynamics of any gain, any time step", cases=["rk4", "rk4_pos_vel", "maximum"])
def numerics(t, kind):
    np = t.np
    m = t.mod(M + "gmm_learner.math_tools")
    a, b = t.vec("a", 2, -3, 3), t.vec("b", 2, -3, 3)
    gain, step = t.real("gain", 0.1, 2), t.real("step", 0.01, 0.5)
    if kind == "rk4":
        repeatable(t, lambda: None, lambda o, x: [m.rk4(step, x, lambda p: -gain * p)], [a], [b])
    elif kind == "rk4_pos_vel":
        v, w = t.vec("v", 2, -3, 3), t.vec("w", 2, -3, 3)
        repeatable(t, lambda: None, lambda o, x, vel: list(m.rk4_pos_vel(step, x, vel, lambda p: -gain * p[:2] + p[2:])), [a, v], [b, w])
    else:
        f, g = t.unit("f", 2), t.unit("g", 2)
        r, s = t.real("r", 0.1, 5), t.real("s", 0.1, 5)
        X, Y = np.array([r * f, s * g]).T, np.array([s * g, s * f]).T
        repeatable(t, lambda: None, lambda o, x: [m.mag_linear_maximum(x, k=gain, maxMag=2.0)], [X], [Y])


class Clusters:
    def __init__(self, centers):
        self.cluster_centers_ = centers
        self.n_clusters = centers.shape[0]


@harness([N + "kmeans_learner/kmeans_obstacle.py:KMeansObstacle." + f for f in ("get_point_on_surface", "get_gamma", "get_normal_direction")],
         "2 clusters (dim 2) of any centers and radius; any two positions inside or outside, towards the other cluster or along the boundary; both frames",
         cases=[(k, g) for k in ("surface", "gamma", "normal") for g in (True, False)])
def regions(t, case):
    kind, glob = case
    np = t.np
    m = t.mod(M + "kmeans_learner.kmeans_obstacle")
    c = t.vec("c", 2, -5, 5)
    R, h = t.real("R", 1.0, 5), t.pick("h", [0.8, 2.0])
    away = np.array([h, 0.0])
    u, w = np.array([0.6, 0.8]), np.array([-0.28, 0.96])
    r1, r2 = t.real("r1", 0.3, 8), t.real("r2", 0.3, 8)
    start = c if glob else 0 * c
    a, b = start + r1 * u, start + r2 * w

    def fresh():
        return m.KMeansObstacle(kmeans=Clusters(np.array([c, c + 2 * away])), radius=R, index=0)

    def call(o, x):
        if kind == "surface":
            return [o.get_point_on_surface(x, in_global_frame=glob)]
        if kind == "gamma":
            return [np.array([o.get_gamma(x, in_global_frame=glob)])]
        return [o.get_normal_direction(x, in_global_frame=glob)]

    repeatable(t, fresh, call, [a], [b])


@harness([PR + f for f in ("evaluate_convergence_around_obstacle", "evaluate_convergence_sequence_around_obstacle", "evaluate_rotation_position_to_transform",
                           "evaluate_projected_weight", "get_base_convergence")],
         "dim 2; two discs, asked for one and then for the other (or the same); any speed, positions on a grid; any share of the obstacle",
         cases=["around", "sequence", "rotation", "weight", "base"], exact_roots=True)
def convergence_of_obstacles(t, kind):
    np = t.np
    m = t.mod(M + "dynamics.projected_rotation_dynamics")
    radius = t.real("radius", 0.1, 1)
    k = t.real("speed", 0.1, 5)
    discs = [Star(t, np.array([3.0, 4.0]), radius), Star(t, np.array([-4.0, 3.0]), radius)]
    a, b = np.array([6.0, 0.0]), np.array([0.0, t.pick("y", [6.0, -7.0])])
    one, other = t.pick("obstacles", [(0.0, 1.0), (1.0, 0.0), (1.0, 1.0)])
    share = t.pick("share", [0.0, 0.5, 1.0])

    class Field(Pull):
        def evaluate(self, position):
            return -self.k * position

    def fresh():
        o = m.ProjectedRotationDynamics(attractor_position=np.zeros(2), initial_dynamics=Field(t, k))
        o.evaluate_projected_weight = lambda position, obstacle: share if bool(position[0] > 1) else 1.0 - 0.5 * share
        return o

    def call(o, x, which):
        obs = discs[1 if bool(which[0] > 0.5) else 0]
        if kind == "around":
            return [o.evaluate_convergence_around_obstacle(x, obs)]
        if kind == "sequence":
            s = o.evaluate_convergence_sequence_around_obstacle(x, obs, None)
            return [s.get_end_vector(), 1.0 * s.basis_array[:, 0, 0]]
        if kind == "rotation":
            r = o.evaluate_rotation_position_to_transform(x, obs)
            return [1.0 * r.base, np.array([r.rotation_angle])]
        if kind == "weight":
            o.get_projected_position = lambda position: o.obstacle.center_position + np.array([1.25 * position[0], 1.0 + position[1]])
            return [np.array([m.ProjectedRotationDynamics.evaluate_projected_weight(o, x, obs)])]
        return [o.get_base_convergence(x)]

    repeatable(t, fresh, call, [a, np.array([one])], [b, np.array([other])])


@harness([N + "gmm_learner/learner/directional_gmm.py:DirectionalGMM." + f for f in ("transform_initial_to_normalized", "transform_normalized_to_initial",
          "get_mean_yx", "get_mixing_weights", "get_gaussian_probability", "_predict")],
         "2 components (1 input, 1 output, any mean, variance and coupling), any two samples; normalised by any mean and scale, or not",
         cases=["normalise", "denormalise", "crop", "mean", "weights", "density", "predict"], timeout=30)
def learned_model(t, kind):
    np = t.np
    m = t.mod(M + "gmm_learner.learner.directional_gmm")
    means, w = t.mat("means", 2, 2, -3, 3), t.vec("w", 2, 0.1, 1)
    cov = np.zeros((2, 2, 2))
    for k in range(2):
        cov[k, 0, 0], cov[k, 1, 1] = t.real(f"S{k}", 0.2, 4), 4.0
        cov[k, 0, 1] = cov[k, 1, 0] = t.real(f"C{k}", -0.4, 0.4)
    offset, scale = t.vec("offset", 4, -3, 3), t.vec("scale", 4, 0.1, 3)
    fin, fout = np.arange(1), np.array([1])
    scaled = kind.endswith("normalise") and t.boolean("scaled")
    rows = 4 if kind == "crop" else 1
    a, b = np.array([t.vec("a", rows, -3, 3)]), np.array([t.vec("b", rows, -3, 3)])
    given = [1.0 * v for v in (means, w, cov, offset, scale)]

    def fresh():
        L = m.DirectionalGMM(dim_space=2)
        L.dpgmm = types.SimpleNamespace(weights_=w, means_=means, covariances_=cov, covariance_type="full")
        L.dim_gmm = 2
        L.pos_attractor = None
        L.mean_x, L.scale_x = (offset, scale) if scaled else (None, None)
        if kind != "crop":
            L.crop_vel = None
        if kind == "predict":
            L.get_mixing_weights = lambda X, *a, **k: np.array([[0.25], [0.5]] if bool(X[0, 0] > 0) else [[0.75], [0.25]])
        return L

    def call(o, X):
        return [{"normalise": lambda: o.transform_initial_to_normalized(X, fin), "denormalise": lambda: o.transform_normalized_to_initial(X, fin),
                 "crop": lambda: o.transform_initial_to_normalized(X, np.arange(4)),
                 "mean": lambda: o.get_mean_yx(X, fin, fout), "weights": lambda: o.get_mixing_weights(X, fin, fout),
                 "density": lambda: o.get_gaussian_probability(X, feat_in=fin), "predict": lambda: o._predict(X)}[kind]()]

    repeatable(t, fresh, call, [a], [b])
    for label, old, new in zip(("means", "weights", "covariances", "offset", "scale"), given, (means, w, cov, offset, scale)):
        t.close(label + " are kept", new, old)


class Block:
    """part of a composed obstacle, its distance value is linear in the local position"""

    def __init__(self, pose, slope):
        self.pose, self.slope = pose, slope

    def get_gamma(self, position, in_global_frame=False):
        if in_global_frame:
            position = self.pose.transform_position_to_relative(position)
        return 1.5 + position @ self.slope

    def set_reference_point(self, position, in_global_frame=False):
        self.reference = position


@harness([N + "multi_obstacle.py:MultiObstacle.get_gamma", N + "multi_obstacle.py:MultiObstacle.get_gamma_except_components", N + "multi_obstacle.py:MultiObstacle.get_pose",
          N + "multi_obstacle.py:MultiObstacle.update_pose"],
         "2 parts (dim 2) of any distance values, any pose and two positions in both frames; left where it is, or moved away and back again in between", cases=[(g, moved) for g in (True, False) for moved in (False, True)])
def composed_obstacles(t, case):
    glob, moved = case
    np = t.np
    st = t.mod("vartools.states")
    m = t.mod(M + "multi_obstacle")
    p, q = t.vec("p", 2, -5, 5), t.vec("q", 2, -5, 5)
    slopes = t.mat("slopes", 2, 2, -2, 2)
    a, b = t.vec("a", 2, -5, 5), t.vec("b", 2, -5, 5)
    angle = t.pick("angle", [0.0, 0.5 * t.math.pi])

    def fresh():
        o = m.MultiObstacle(st.Pose(1.0 * p, angle))
        o.set_root(Block(st.Pose(np.zeros(2), 0.0), slopes[0]))
        o.add_component(Block(st.Pose(np.array([1.0, 0.0]), 0.0), slopes[1]), parent_ind=0, reference_position=np.array([0.5, 0.0]))
        return o

    def call(o, x):
        if moved:
            o.update_pose(st.Pose(1.0 * q, angle))
            o.get_gamma(x, in_global_frame=glob)
            o.update_pose(st.Pose(1.0 * p, angle))
        o.get_pose().position[...] = q
        return [np.array([o.get_gamma(x, in_global_frame=glob), o.get_gamma_except_components(x, [0], in_global_frame=glob)]), 1.0 * o.pose.position]

    repeatable(t, fresh, call, [a], [b])
