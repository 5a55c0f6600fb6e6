"""C12 attractor-type dynamics: wavy, locally rotated, deviated, spiralling, constant."""
from checks.helpers import alike
from symx.harness import harness

D = "nonlinear_avoidance/dynamics/"
M = "nonlinear_avoidance.dynamics."
WA = D + "wavy_attractor_dynamics.py:WavyLinearDynamics."
LR = D + "locally_rotated_linear_dynamics.py:LocallyRotatedFromObtacle."
SA = D + "spiral_dynamics.py:SpiralingAttractorDynamics3D."
ND = D + "nonlinear_deviation.py:"
SQ = D + "sequenced_dynamics.py:evaluate_dynamics_sequence"


@harness([WA + "evaluate", WA + "get_rotation_matrix"],
         "any attractor, position within 20, stretch factor in [0.1, 10], deviation limit in [0, pi/2[, velocity limit", cases=[None])
def wavy(t):
    wd = t.mod(M + "wavy_attractor_dynamics")
    att, u, r = t.vec("att", 2, -10, 10), t.unit("u", 2), t.real("r", 0.01, 20)
    vmax, limit = t.real("vmax", 0.1, 5), t.real("deviation", 0, 1.57)
    stretch = t.real("stretch", 0.1, 10)
    ds = wd.WavyLinearDynamics(attractor_position=att, maximum_deviation=limit, distance_strech_factor=stretch, maximum_velocity=vmax)
    v = ds.evaluate(att + r * u)
    speed = min(r, vmax) if not t.symbolic else t.np.minimum(r, vmax)
    t.close("speed", t.np.dot(v, v), speed * speed, 1e-3)
    angle = t.math.sin(r * stretch) * limit
    t.close("towards", -t.np.dot(v, u), speed * t.math.cos(angle), 1e-4)
    t.close("side", v[0] * u[1] - v[1] * u[0], speed * t.math.sin(angle), 1e-4)
    t.check("approaches", -t.np.dot(v, u) > 0)


@harness([WA + "evaluate"], "any attractor", cases=[None])
def wavy_rests(t):
    wd = t.mod(M + "wavy_attractor_dynamics")
    att = t.vec("att", 2, -10, 10)
    ds = wd.WavyLinearDynamics(attractor_position=att)
    t.close("zero", ds.evaluate(1.0 * att), t.np.zeros(2))
    t.raises("two-dimensional", NotImplementedError, lambda: wd.WavyLinearDynamics(attractor_position=t.np.zeros(3)))


class Round:
    def __init__(self, center, gamma):
        self.center_position, self.gamma = center, gamma

    def get_gamma(self, position, in_global_frame=False):
        return self.gamma if in_global_frame else self.gamma + 1.5


def rotated(t, dim, gamma, vmax, turn=None, **kw):
    """dynamics with an obstacle seen from the attractor along the first axis, rotating by the angle of (c, s)"""
    lr = t.mod(M + "locally_rotated_linear_dynamics")
    m = t.rot("B", dim) if dim == 2 else t.np.eye(3)[:, t.pick("frame", ([2, 0, 1], [0, 1, 2]))]
    att = t.vec("att", dim, -10, 10)
    q = t.unit("turn", 2) if turn is None else turn  # reference velocity in the plane of the first two axes
    t.assume(q[0] >= -0.99)
    t.assume(q[0] <= 0.999)
    ref = q[0] * m[:, 0] + q[1] * m[:, 1]
    obs = Round(att - t.real("distance", 0.1, 10) * m[:, 0], gamma)
    ds = lr.LocallyRotatedFromObtacle(obs, att, vmax * ref, **kw)
    return ds, m, att, q, ref, obs


@harness([LR + "__init__", LR + "evaluate"], "dim 2, 3 (3D: obstacle along x or z); any attractor, obstacle and reference velocity; at the obstacle's center", cases=[2, 3], timeout=20)
def reference_velocity_at_obstacle(t, dim):
    vmax, gamma = t.real("vmax", 0.1, 5), t.real("gamma", 0, 1)
    ds, m, att, q, ref, obs = rotated(t, dim, gamma, vmax)
    v = ds.evaluate(obs.center_position)
    d = t.np.linalg.norm(att - obs.center_position)
    t.close("direction", v, t.np.minimum(d, vmax) * ref, 1e-3)


@harness([LR + "evaluate"], "dim 2; any position within 170 degrees of the obstacle at any distance value up to the limit of full "
         "influence", cases=[None], timeout=20)
def full_rotation_close_by(t):
    vmax, low, gamma = t.real("vmax", 0.1, 5), t.real("min_gamma", 1, 3), t.real("gamma", 0, 3)
    t.assume(gamma <= low)
    ds, m, att, q, ref, obs = rotated(t, 2, gamma, vmax, min_gamma=low)
    u, r = t.unit("u", 2), t.real("r", 0.05, 20)
    t.assume(u[0] >= -0.98)
    t.assume(u[0] <= 0.999)
    dir_ = u[0] * m[:, 0] + u[1] * m[:, 1]
    side = u[0] * m[:, 1] - u[1] * m[:, 0]
    v = ds.evaluate(att - r * dir_)
    speed = t.np.minimum(r, vmax)
    t.close("turned", t.np.dot(v, dir_), speed * q[0], 2e-3)
    t.close("turned-side", t.np.dot(v, side), speed * q[1], 2e-3)


@harness([LR + "evaluate"], "dim 2, 3; any position beyond the limit of influence", cases=[2, 3], timeout=20)
def no_rotation_far_away(t, dim):
    vmax, high, gamma = t.real("vmax", 0.1, 5), t.real("max_gamma", 2, 20), t.real("gamma", 2, 1e3)
    t.assume(gamma >= high)
    ds, m, att, q, ref, obs = rotated(t, dim, gamma, vmax, max_gamma=high)
    u, r = t.unit("u", dim), t.real("r", 0.05, 20)
    t.assume(t.np.dot(u, m[:, 0]) >= -0.98)
    t.assume(t.np.dot(u, m[:, 0]) <= 0.999)
    v = ds.evaluate(att - r * u)
    t.close("linear", v, t.np.minimum(r, vmax) * u, 1e-3)


@harness([LR + "evaluate"], "dim 2; position at 0, 90 or any angle up to 154 degrees from the obstacle, any two gamma between and outside of the limits",
         cases=[1.0, 0.0, "any", "falls"], timeout=20)
def share_of_rotation(t, c):
    """the rotation (recorded by a stand-in) is applied by a share in [0, 1] that, towards the obstacle, only falls with the distance from it"""
    lr = t.mod(M + "locally_rotated_linear_dynamics")
    att, vmax = t.vec("att", 2, -10, 10), t.real("vmax", 0.1, 5)
    low, high = (1, 10) if c == "falls" else (t.real("min_gamma", 1, 3), t.real("max_gamma", 4, 20))
    obs = Round(att - t.np.array([2.0, 0.0]), None)
    ds = lr.LocallyRotatedFromObtacle(obs, att, vmax * t.np.array([0.0, 1.0]), low, high)
    own, shares = ds.rotation, []
    r = t.real("r", 0.05, 20)
    if c == "any":
        to = t.unit("to", 2)
        t.assume(to[0] >= -0.9)
        t.assume(to[0] <= 0.99)
    else:
        to = t.np.array([0.0, 1.0] if c == 0.0 else [1.0, 0.0])
    turned = t.unit("turned", 2)

    class Local:
        def rotate(self, direction, rot_factor=1):
            t.close("rotated", direction, to, 1e-6)
            shares.append(rot_factor)
            return turned

    class Global:
        def rotate_vector_rotation(self, rotation):
            t.check("own-rotation", rotation is own)
            return Local()

    class Rotation:
        @classmethod
        def from_directions(cls, a, b):
            t.close("from-obstacle", a, t.np.array([1.0, 0.0]), 1e-6)
            t.close("to-attractor", b, to, 1e-6)
            return Global()

    g0 = t.real("gamma", 0, 30)
    g1 = t.real("gamma", 0, 30)
    t.assume(g0 < g1)
    old, lr.VectorRotationXd = lr.VectorRotationXd, Rotation
    try:
        out = []
        for g in (g0, g1) if c == "falls" else (g0,):
            obs.gamma = g
            n = len(shares)
            v = ds.evaluate(att - r * to)
            if len(shares) == n:
                t.check("no-influence", g >= high)
                t.close("linear", v, t.np.minimum(r, vmax) * to, 1e-4)
                out.append(0.0)
            else:
                t.close("speed", v, t.np.minimum(r, vmax) * turned, 1e-4)
                w = shares[-1]
                out.append(w)
                if c == "falls":
                    continue
                w = t.red(w)
                t.check("share", (w >= -1e-9) & (w <= 1 + 1e-9))
                t.check("not-more-than-by-distance", (g < low) | (w * (high - low) <= high - g + 1e-6))
                t.check("full", (g > low) | (abs(w - 1) <= 1e-9))
        if c == "falls":
            t.check("falls", out[1] <= out[0] + 1e-9)
    finally:
        lr.VectorRotationXd = old


@harness([LR + "__init__", LR + "evaluate"], "any obstacle", cases=[0, 1, 2, 3])
def rotation_exceptions(t, case):
    lr = t.mod(M + "locally_rotated_linear_dynamics")
    att, gamma = t.vec("att", 2, -10, 10), t.real("gamma", 0, 100)
    if case == 0:
        t.raises("zero-reference", ValueError, lambda: lr.LocallyRotatedFromObtacle(Round(att + 1.0, gamma), att, t.np.zeros(2)))
        return
    if case == 1:
        ds = lr.LocallyRotatedFromObtacle(Round(att + t.np.array([2.0, 1.0]), gamma), att, t.np.array([1.0, 0.0]))
        t.close("rests", ds.evaluate(1.0 * att), t.np.zeros(2))
        return
    u, r = t.unit("u", 2), t.real("r", 0.05, 20)
    if case == 2:
        ds = lr.LocallyRotatedFromObtacle(Round(1.0 * att, gamma), att, t.np.array([2.0, 0.0]))
    else:  # on the other side of the attractor
        t.assume(gamma > 1)
        u = t.np.array([-1.0, 0.0])
        ds = lr.LocallyRotatedFromObtacle(Round(att - t.np.array([3.0, 0.0]), gamma), att, t.np.array([0.0, 2.0]))
    t.close("no-deviation", ds.evaluate(att - r * u), t.np.minimum(r, 2.0) * u, 1e-4)


class Circular:
    def __init__(self, value):
        self.value, self.seen = value, []

    def evaluate(self, position):
        self.seen.append(position)
        return self.value


@harness([SA + "evaluate"], "any attractor, position, rotating velocity along one of the axes, and speed", cases=[None], timeout=20)
def spiral_to_attractor(t):
    sp, st = t.mod(M + "spiral_dynamics"), t.mod("vartools.states")
    att, u, r, rot = t.vec("att", 3, -10, 10), t.unit("u", 3), t.real("r", 0.1, 10), t.real("rot", -5, 5) * t.np.array(t.pick("axis", ([1.0, 0.0], [0.0, 1.0])))
    speed = t.real("speed", 0.1, 5)
    circ = Circular(rot)
    ds = sp.SpiralingAttractorDynamics3D(st.Pose(att), t.np.array([0.0, 1.0, 0.0]), circ, speed)
    below = t.boolean("below")
    t.assume(u[1] >= 0.01 if below else u[1] <= -0.01)
    pos = att - r * u
    v = ds.evaluate(pos)
    t.close("speed", t.np.dot(v, v), speed * speed, 1e-3)
    up = t.red(v[1])
    t.check("approaches", up > 0 if below else up < 0)
    t.close("plane", t.np.array([circ.seen[0][0], circ.seen[0][1]]), t.np.array([pos[0], pos[2]]))


@harness([SA + "evaluate", SA + "attractor_position"], "any attractor moved to any place", cases=[None])
def spiral_rests(t):
    sp, st = t.mod(M + "spiral_dynamics"), t.mod("vartools.states")
    ds = sp.SpiralingAttractorDynamics3D(st.Pose(t.np.zeros(3)), t.np.array([0.0, 1.0, 0.0]), Circular(t.np.zeros(2)), 1.0)
    att = t.vec("att", 3, -10, 10)
    ds.attractor_position = att
    t.close("moved", ds.attractor_position, att)
    t.close("zero", ds.evaluate(1.0 * att), t.np.zeros(3))


class Learned:
    """any regressor: its prediction is an arbitrary vector"""

    def __init__(self, value):
        self.value = value

    def predict(self, X):
        return self.value.reshape(1, -1)

    def fit(self, X, y):
        self.X, self.y = X, y


@harness([ND + "DeviationOfConstantFlow.evaluate", ND + "DeviationOfConstantFlow.evaluate_deviation"],
         "dim 2, 3; any reference velocity of length in [0.1, 5] and any predicted deviation", cases=[2, 3], timeout=20)
def deviation_stays_along_reference(t, dim):
    nd = t.mod(M + "nonlinear_deviation")
    if dim == 2:
        base = t.rot("B", 2)
        ref, k = base[:, 0], t.real("k", 0.1, 5)
        dev = t.vec("dev", 1, -20, 20)
    else:
        ref, k = t.np.array(t.pick("axis", ([0.0, 0.0, 1.0], [1.0, 0.0, 0.0]))), t.real("k", 0.1, 5)
        dev = t.real("angle", 0, 20) * t.unit("dev", 2)
    ds = nd.DeviationOfConstantFlow(k * ref, Learned(dev))
    v = ds.evaluate(t.vec("pos", dim, -10, 10))
    t.close("speed", t.np.dot(v, v), k * k, 1e-3)
    t.check("along", t.np.dot(v, ref) > 0)
    d = ds.evaluate_deviation(t.np.zeros(dim))
    t.le("limited", t.np.dot(d, d), (0.991 * 1.570797) ** 2)
    small = t.np.dot(dev, dev) <= 1.55 ** 2
    if t.decide(small):
        t.close("kept", d, dev)
        t.close("cosine", t.np.dot(v, ref), k * t.math.cos(t.np.linalg.norm(dev)), 1e-3)
    t.close("reference", ds.get_lyapunov_gradient_direction(t.np.zeros(dim)), k * ref, 1e-6)
    t.close("convergence", ds.evaluate_convergence_velocity(t.np.zeros(dim)), k * ref, 1e-6)


@harness([ND + "DeviationOfConstantFlow.fit_from_velocities", ND + "DeviationOfConstantFlow.fit",
          ND + "DeviationOfConstantFlow._clean_input_data", ND + "DeviationOfConstantFlow.evaluate"],
         "dim 2: any velocity within 81 degrees of the reference, any lengths", cases=[None], timeout=20)
def deviation_reproduces_training(t):
    nd = t.mod(M + "nonlinear_deviation")
    base = t.rot("B", 2)
    k, n = t.real("k", 0.1, 5), t.real("n", 0.1, 5)
    u = t.unit("u", 2)
    t.assume(u[0] >= 0.15)
    reg = Learned(None)
    ds = nd.DeviationOfConstantFlow(k * base[:, 0], reg)
    ds.fit_from_velocities(t.np.array([[1.0, 2.0], [3.0, 4.0]]), t.np.array([n * (u[0] * base[:, 0] + u[1] * base[:, 1]), base[:, 0]]))
    t.check("shape", reg.y.shape == (2, 1))
    reg.value = reg.y[0]
    t.close("reproduced", ds.evaluate(t.np.zeros(2)), k * (u[0] * base[:, 0] + u[1] * base[:, 1]), 2e-3)
    reg.value = reg.y[1]
    t.close("reference", ds.evaluate(t.np.zeros(2)), k * base[:, 0], 2e-3)


@harness([ND + "DeviationOfConstantFlow.fit"], "inconsistent shapes", cases=[None])
def deviation_rejects(t):
    nd = t.mod(M + "nonlinear_deviation")
    ds = nd.DeviationOfConstantFlow(t.np.array([1.0, 0.0]), Learned(None))
    t.raises("samples", ValueError, lambda: ds.fit(t.np.zeros((3, 2)), t.np.zeros((2, 1))))
    t.raises("features", ValueError, lambda: ds.fit(t.np.zeros((3, 2)), t.np.zeros((3, 2))))


def perpendicular(t, predictions, att):
    nd = t.mod(M + "nonlinear_deviation")
    ds = nd.PerpendicularDeviatoinOfLinearDS(att, Learned(t.np.zeros(1)))
    ds.fit_from_velocities(att + t.np.array([[1.0, 1.0], [-1.0, 1.0], [1.0, -1.0], [-1.0, -1.0]]),
                           t.np.array([[-1.0, -1.0], [1.0, -1.0], [-1.0, 1.0], [1.0, 1.0]]))
    for d in range(2):
        for i in range(2):
            ds.regressors[d][i].value = predictions[d][i]
    return ds


@harness([ND + "PerpendicularDeviatoinOfLinearDS.evaluate", ND + "PerpendicularDeviatoinOfLinearDS.get_weights",
          ND + "PerpendicularDeviatoinOfLinearDS.get_velocity_factor"],
         "any attractor, position on any half-axis, any predictions, slow-down distance and velocity limit", cases=[0, 1, 2, 3], timeout=20)
def perpendicular_on_axes(t, case):
    """on an axis only the prediction of that axis counts, limited to below a right angle"""
    att = t.vec("att", 2, -5, 5)
    p = t.np.array([[t.vec("p", 1, -20, 20) for _ in range(2)] for _ in range(2)])
    ds = perpendicular(t, p, att)
    ds.prox_distance, ds.max_velocity = prox, vmax = t.real("prox", 0.1, 5), t.real("vmax", 0.1, 5)
    d, i = case // 2, case % 2
    r = t.real("r", 0.01, 20)
    axis = t.np.zeros(2)
    axis[d] = 1.0 if i else -1.0
    v = ds.evaluate(att + r * axis)
    speed = t.np.minimum(1.0, r / prox) * vmax
    t.close("speed", t.np.dot(v, v), speed * speed, 1e-3)
    t.check("approaches", t.np.dot(v, axis) < 0)
    a = p[d][i][0]
    if t.decide(abs(a) <= 1.53):
        t.close("deviation", -t.np.dot(v, axis), speed * t.math.cos(a), 2e-3)
        t.close("deviation-side", axis[1] * v[0] - axis[0] * v[1], speed * t.math.sin(a), 2e-3)


@harness([ND + "PerpendicularDeviatoinOfLinearDS.evaluate"], "any attractor, position and predictions", cases=[None], timeout=20)
def perpendicular_speed(t):
    att = t.vec("att", 2, -5, 5)
    p = t.np.array([[t.vec("p", 1, -1.5, 1.5) for _ in range(2)] for _ in range(2)])
    ds = perpendicular(t, p, att)
    u, r = t.unit("u", 2), t.real("r", 0.05, 20)
    sx, sy = t.pick("sx", (1.0, -1.0)), t.pick("sy", (1.0, -1.0))
    t.assume(u[0] * sx >= 0.01)
    t.assume(u[1] * sy >= 0.01)
    v = ds.evaluate(att + r * u)
    t.close("speed", t.np.dot(v, v), t.np.minimum(1.0, r) ** 2, 1e-3)
    w = ds.get_weights(r * u)
    t.close("weights", w * (u[0] * sx + u[1] * sy), t.np.array([u[0] * sx, u[1] * sy]), 1e-6)
    t.close("weights-sum", w[0] + w[1], 1.0)


@harness([ND + "PerpendicularDeviatoinOfLinearDS.evaluate_convergence_velocity",
          ND + "PerpendicularDeviatoinOfLinearDS.evaluate", ND + "PerpendicularDeviatoinOfLinearDS.get_lyapunov_gradient_direction"],
         "any attractor, position, slow-down distance and velocity limit", cases=[None])
def perpendicular_convergence(t):
    att, u, r = t.vec("att", 2, -5, 5), t.unit("u", 2), t.real("r", 0.01, 20)
    ds = perpendicular(t, t.np.zeros((2, 2, 1)), att)
    ds.prox_distance, ds.max_velocity = prox, vmax = t.real("prox", 0.1, 5), t.real("vmax", 0.1, 5)
    t.close("convergence", ds.evaluate_convergence_velocity(att - r * u), t.np.minimum(1.0, r / prox) * vmax * u, 1e-4)
    t.close("gradient", ds.get_lyapunov_gradient_direction(att - r * u), u, 1e-5)
    for f in (ds.evaluate, ds.evaluate_convergence_velocity, ds.get_lyapunov_gradient_direction):
        t.close("rests", f(1.0 * att), t.np.zeros(2))


@harness([ND + "ConstantRegressor.predict"], "1-3 samples, 1-2 outputs of any value", cases=[(1, 1), (3, 1), (2, 2)])
def constant_regressor(t, case):
    n, m = case
    value = t.vec("v", m, -10, 10)
    out = t.mod(M + "nonlinear_deviation").ConstantRegressor(value).predict(t.np.zeros((n, 3)))
    t.check("shape", out.shape == (n, m))
    for i in range(n):
        t.close("value", out[i], value)


@harness([ND + "MultiOutputSVR.fit", ND + "MultiOutputSVR.predict"], "3 samples, 2 outputs; any exact learner per output", cases=[None])
def multi_output(t):
    nd = t.mod(M + "nonlinear_deviation")

    class One:
        def __init__(self, **k):
            self.k = k

        def fit(self, X, y):
            self.y = y

        def predict(self, X):
            return self.k["factor"] * self.y

    old, nd.SVR = nd.SVR, One
    try:
        f, y = t.real("factor", -3, 3), t.mat("y", 3, 2, -10, 10)
        reg = nd.MultiOutputSVR(factor=f)
        reg.fit(t.np.zeros((3, 4)), y)
        t.close("columns", reg.predict(t.np.zeros((3, 4))), f * y)
        t.check("features", reg.n_features_in_ == 4 and reg.n_features_out_ == 2)
    finally:
        nd.SVR = old


class Plain:
    def __init__(self, value):
        self.value = value

    def evaluate(self, position):
        return self.value


@harness([SQ], "dim 2, 3; any position, any pair of base and final velocity up to ~172 degrees apart", cases=[(2, "default"), (2, "attractor"), (3, "attractor"), (2, "own")], timeout=20)
def sequence_ends_in_velocity(t, case):
    dim, kind = case
    sd = t.mod(M + "sequenced_dynamics")
    v, w, c, s = t.unit_pair("v", dim, -0.99, 0.999)
    k, n = t.real("k", 0.1, 5), t.real("n", 0.1, 5)
    pos = t.vec("pos", dim, -5, 5)
    ds = Plain(k * w)
    default = None
    if kind == "default":
        default = Plain(n * v)
        ds.attractor_position = pos + w  # not used
    elif kind == "attractor":
        ds.attractor_position = pos + n * v
    else:
        v = w = t.unit("own", 2)
        ds = Plain(k * w)
    seq = sd.evaluate_dynamics_sequence(pos, ds, default)
    t.close("end", seq.get_end_vector(), w, 1e-3)
    t.close("start", seq.root, v, 1e-3) if hasattr(seq, "root") else None


@harness([SQ], "any position; zero base or final velocity; dynamics that already give a sequence", cases=[0, 1, 2, 3])
def sequence_special(t, case):
    sd = t.mod(M + "sequenced_dynamics")
    pos, v = t.vec("pos", 2, -5, 5), t.real("k", 0.1, 3) * t.unit("v", 2)
    ds = Plain(t.np.zeros(2) if case == 0 else v)
    if case == 3:
        token = object()
        ds.evaluate_dynamics_sequence = lambda position: token if alike(position, pos) else None
        t.check("own-sequence", sd.evaluate_dynamics_sequence(pos, ds, Plain(v)) is token)
        return
    if case == 1:
        ds.attractor_position = 1.0 * pos
    out = sd.evaluate_dynamics_sequence(pos, ds, Plain(t.np.zeros(2)) if case == 2 else None)
    t.check("none", out is None)


@harness([D + "constant_value.py:ConstantValueWithSequence.evaluate",
          D + "constant_value.py:ConstantValueWithSequence.evaluate_dynamics_sequence"], "dim 2, 3; any velocity", cases=[2, 3])
def constant_value(t, dim):
    cv = t.mod(M + "constant_value")
    u, k = t.unit("u", dim), t.real("k", 0.1, 10)
    ds = cv.ConstantValueWithSequence(k * u)
    t.close("value", ds.evaluate(t.vec("pos", dim, -5, 5)), k * u)
    seq = ds.evaluate_dynamics_sequence(t.vec("pos", dim, -5, 5))
    t.close("end", seq.get_end_vector(), u, 1e-3)
