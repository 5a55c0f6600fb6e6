"""C11 path following along segments."""
from symx.harness import harness

SD = "nonlinear_avoidance/dynamics/segmented_dynamics.py:"
MOD = "nonlinear_avoidance.dynamics.segmented_dynamics"


@harness([SD + "DynamicsSegment.get_distance"],
         "any segment of length in [0.1, 10] (3D: along z), any position within 20 and any other point of the segment", cases=[2, 3])
def segment_distance(t, dim):
    sd = t.mod(MOD)
    m = t.ortho_pair("R", dim) if dim == 2 else t.np.eye(3)[:, [2, 0]]
    start, length = t.vec("start", dim, -10, 10), t.real("length", 0.1, 10)
    seg = sd.DynamicsSegment(start, start + length * m[:, 0])
    t.close("direction", seg.direction, m[:, 0], 1e-4)
    t.close("length", seg.length, length)
    x, y = t.real("x", -20, 20), t.real("y", 0, 20)
    d = seg.get_distance(start + x * m[:, 0] + y * m[:, 1])
    k = t.real("k", 0, 1) * length
    t.check("smallest", d * d <= (x - k) ** 2 + y ** 2 + 1e-6)
    near = 0 if t.decide(x < 0) else (length if t.decide(x > length) else x)
    t.close("reached", d * d, (x - near) ** 2 + y ** 2, 1e-3)
    t.check("non-negative", d >= 0)


@harness([SD + "DynamicsSegment.evaluate"], "dim 2, 3; any segment, any position within 20, any perpendicular factor", cases=[2, 3])
def segment_following(t, dim):
    sd = t.mod(MOD)
    m = t.rot("R", dim)
    start, length = t.vec("start", dim, -10, 10), t.real("length", 0.1, 10)
    seg = sd.DynamicsSegment(start, start + length * m[:, 0])
    seg.perpendicular_factor = f = t.real("factor", 0.1, 10)
    x, y = t.real("x", -20, 20), t.real("y", -20, 20)
    v = seg.evaluate(start + x * m[:, 0] + y * m[:, 1])
    t.close("unit", t.np.dot(v, v), 1.0)
    va, vp = t.np.dot(v, m[:, 0]), t.np.dot(v, m[:, 1])
    t.check("advances", t.red(va) > 0)
    t.close("approaches", vp, -f * y * va, 1e-3)
    if dim == 3:
        t.close("in-plane", t.np.dot(v, m[:, 2]), 0.0)


@harness([SD + "DynamicsSegment.__post_init__", SD + "create_segment_from_points"], "any repeated point", cases=[0, 1])
def degenerate_segment(t, case):
    sd = t.mod(MOD)
    p = t.vec("p", 2, -10, 10)
    if case == 0:
        t.raises("rejected", ValueError, lambda: sd.DynamicsSegment(p, 1.0 * p))
    else:
        t.raises("rejected", ValueError, lambda: sd.create_segment_from_points([p + t.np.array([1.0, 0.0]), p, 1.0 * p]))


class Piece:
    """segment with a given distance and local direction"""

    def __init__(self, t, distance, direction, local=None, end=None):
        self.distance, self.direction, self.local = distance, direction, local
        self.end = t.np.zeros(2) if end is None else end

    def get_distance(self, position):
        return self.distance

    def evaluate(self, position):
        return self.local


@harness([SD + "WavyPathFollowing.get_weights"],
         "1-3 segments at any distances in [0, 100], any last direction (3 segments: along x), any position seen from the attractor", cases=[1, 2, 3])
def path_weights(t, n):
    sd = t.mod(MOD)
    last, side = t.np.array([1.0, 0.0]) if n == 3 else t.unit("last", 2), t.unit("pos", 2)
    ds_ = [t.real("d", 0, 100) for _ in range(n)]
    w = sd.WavyPathFollowing([Piece(t, d, last) for d in ds_]).get_weights(-2.0 * side)
    t.check("one-more-for-attractor", w.shape == (n + 1,))
    for i in range(n + 1):
        t.check("non-negative", w[i] >= 0)
    t.close("share", sum(w[i] for i in range(n + 1)), 1.0)
    for i in range(n):
        for j in range(n):
            if i < j:
                t.check("closer-counts-more", (ds_[i] > ds_[j]) | (w[i] >= w[j] - 1e-9))
        others = sum((1.0 * w[j] for j in range(n + 1) if j != i), 0.0)
        if n == 1:
            t.check("all-on-path", (ds_[i] != 0) | (others == 0))
        if i == 0 and n > 1:
            on = ds_[0] == 0
            for j in range(1, n):
                on = on & (ds_[j] > 0)
            t.check("all-on-path", (~on if t.symbolic and not isinstance(on, bool) else not on) | (others <= 1e-9))
    back = t.np.dot(side, last)
    gone = (back == -1) & (ds_[0] > 0)
    for d in ds_[1:]:
        gone = gone & (d > 0)
    t.check("overshoot-to-attractor", (~gone if t.symbolic else not gone) | (w[n] >= 1 - 1e-6))


@harness([SD + "WavyPathFollowing.get_weights"], "1-3 segments at any distances of at least 10, any last direction, any position", cases=[1, 2, 3])
def far_from_path(t, n):
    sd = t.mod(MOD)
    last, side = t.np.array([1.0, 0.0]), t.unit("pos", 2)
    inv = [t.real("d", 0.0001, 0.1) for _ in range(n)]
    w = sd.WavyPathFollowing([Piece(t, 1 / d, last) for d in inv]).get_weights(-2.0 * side)
    for i in range(n):
        t.le("own", w[i], 9 * inv[i] * inv[i], 1e-6)
        t.lemma("small", w[i] <= 0.0901)
    t.lemma("rest", abs(w[n] + sum(w[i] for i in range(n)) - 1) <= 1e-6)
    t.check("far-away-to-attractor", w[n] >= 1 - 0.091 * n)


@harness([SD + "WavyPathFollowing.evaluate_magnitude"], "any attractor, position, limits", cases=[None])
def path_speed(t):
    sd = t.mod(MOD)
    end = t.vec("end", 2, -10, 10)
    ds = sd.WavyPathFollowing([Piece(t, 1.0, t.np.array([1.0, 0.0]), end=end)])
    ds.maximum_velocity, ds.slowdown_distance = vmax, slow = t.real("vmax", 0.1, 5), t.real("slow", 0.1, 5)
    u, r = t.unit("u", 2), t.real("r", 0, 20)
    m = ds.evaluate_magnitude(end + r * u)
    t.check("range", (m >= 0) & (m <= vmax + 1e-9))
    t.check("full", (r <= slow) | (m == vmax if t.symbolic else abs(m - vmax) < 1e-9))
    t.check("slows", (r > slow) | (abs(m * slow - r * vmax) <= 1e-5))


@harness([SD + "WavyPathFollowing.evaluate"], "any attractor", cases=[1, 2])
def rests_at_end(t, n):
    sd = t.mod(MOD)
    m = t.rot("R", 2)
    pts = [t.np.array([0.0, 0.0]), 4.0 * m[:, 0], 4.0 * m[:, 0] + 4.0 * m[:, 1]][-n - 1:]
    ds = sd.create_segment_from_points(pts, margin=0.5)
    v = ds.evaluate(1.0 * ds.attractor_position)
    t.check("vector", t.np.array(v).shape == (2,))
    t.close("zero", v, t.np.zeros(2))


@harness([SD + "create_segment_from_points"], "3 points: corner of any position and orientation, margin in [0, 0.9]", cases=[None])
def segments_from_points(t):
    sd = t.mod(MOD)
    m, p, g = t.rot("R", 2), t.vec("p", 2, -10, 10), t.real("margin", 0, 0.9)
    a, b = t.real("a", 2, 10), t.real("b", 2, 10)
    pts = [p, p + a * m[:, 0], p + a * m[:, 0] - b * m[:, 1]]
    ds = sd.create_segment_from_points(pts, margin=g)
    t.check("number", ds.n_segments == 2)
    t.close("start", ds.segments[0].start, p + g * m[:, 0], 1e-3)
    t.close("corner-before", ds.segments[0].end, pts[1] - g * m[:, 0], 1e-3)
    t.close("corner-after", ds.segments[1].start, pts[1] - g * m[:, 1], 1e-3)
    t.close("attractor", ds.attractor_position, pts[2] + g * m[:, 1], 1e-3)
    t.close("direction", ds.segments[1].direction, -m[:, 1], 1e-3)
    t.close("global", ds.evaluate_global_dynamics(ds.attractor_position - 2.0 * m[:, 0]), m[:, 0], 1e-3)
    t.close("global-end", ds.evaluate_global_dynamics(ds.attractor_position), t.np.zeros(2))


@harness([SD + "WavyPathFollowing.evaluate", SD + "WavyPathFollowing.evaluate_dynamics_sequence"],
         "1-2 segments, all of the weight on one segment or on the attractor, any local direction within ~172 degrees", timeout=20,
         cases=[(1, 0), (1, 1), (2, 0), (2, 1), (2, 2)])
def follows_weighted_segment(t, case):
    """with all weight on one of them, that direction is followed at the set speed"""
    sd = t.mod(MOD)
    n, k = case
    end = t.np.array([1.0, 2.0])
    dirs = ([t.np.array([0.0, 1.0]), t.np.array([1.0, 0.0])])[-n:]
    u = t.unit("u", 2)
    perp = t.np.array([[0.0, -1.0], [1.0, 0.0]])
    which = min(k, n - 1)
    t.assume(u[0] >= -0.99)
    t.assume(u[0] <= 0.999)
    local = [1.0 * d for d in dirs]
    local[which] = u[0] * dirs[which] + u[1] * (perp @ dirs[which])
    r = t.real("r", 0.1, 10)
    pos = end - r * t.np.array([0.0, 1.0])
    ds = sd.WavyPathFollowing([Piece(t, 1.0, d, e, end) for d, e in zip(dirs, local)])
    w = t.np.zeros(n + 1)
    w[k] = 1.0
    ds.get_weights = lambda position: w
    v = ds.evaluate(pos)
    want = local[k] if k < n else t.np.array([0.0, 1.0])
    t.close("direction", v, ds.evaluate_magnitude(pos) * want, 5e-3)


@harness([SD + "WavyPathFollowing.evaluate", SD + "WavyPathFollowing.evaluate_dynamics_sequence"],
         "1-2 perpendicular segments, any share of the weight between two of segments and attractor", timeout=20,
         cases=[(1, (0, 1)), (2, (0, 1)), (2, (1, 2)), (2, (0, 2))])
def keeps_speed(t, case):
    sd = t.mod(MOD)
    n, (i, j) = case
    end = t.np.array([1.0, 2.0])
    dirs = [t.np.array([0.0, 1.0]), t.np.array([1.0, 0.0])][-n:]
    local = [t.np.array([-1.0, 0.0]), t.np.array([0.0, -1.0])][-n:]
    r = t.real("r", 0.1, 10)
    pos = end - r * t.np.array([0.0, 1.0])
    ds = sd.WavyPathFollowing([Piece(t, 1.0, d, e, end) for d, e in zip(dirs, local)])
    w = t.np.zeros(n + 1)
    a = t.real("a", 0, 1)
    w[i] = a
    w[j] = 1 - a
    ds.get_weights = lambda position: w
    v = ds.evaluate(pos)
    m = ds.evaluate_magnitude(pos)
    t.close("speed", t.np.dot(v, v), m * m, 1e-2)
