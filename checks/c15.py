"""C15 learned regions: cells of a clustering as obstacles, their hierarchy and the motion within."""
import types

from symx.harness import harness

K = "nonlinear_avoidance/kmeans_learner/"
KO = K + "kmeans_obstacle.py:KMeansObstacle."
KL = K + "kmeans_motion_learner.py:KMeansMotionLearner."
M = "nonlinear_avoidance.kmeans_learner."


class Clusters:
    """stand-in of the fitted clustering"""

    def __init__(self, centers, labels=None):
        self.cluster_centers_ = centers
        self.n_clusters = centers.shape[0]
        self.labels_ = labels

    def predict(self, X):
        import numpy
        return numpy.zeros(X.shape[0], dtype=int)


def cell(t, n, dim=2, first=0, free=False, lo=-10, hi=10):
    """cell `first` of n clusters: center c; the others lie at c + 2 h_i n_i"""
    np = t.np
    c = t.vec("c", dim, lo, hi)
    R = t.real("R", 0.1, 5)
    normals, h = [], []
    for i in range(n - 1):
        if i == 0:
            e = np.zeros(dim)
            e[t.pick("axis", list(range(dim)))] = 1.0 if t.boolean("positive") else -1.0
            normals.append(e)
        elif free:
            normals.append(t.unit(f"n{i}", dim))
        else:
            normals.append(np.array(t.pick(f"n{i}", [[0.0, 1.0], [-1.0, 0.0], [0.28, 0.96], [-0.96, 0.28]]) + [0.0] * (dim - 2)))
        h.append(t.real(f"h{i}", 0.05, 10))
    others = [c + 2 * h[i] * normals[i] for i in range(n - 1)]
    rows = others[:first] + [c] + others[first:]
    obs = t.mod(M + "kmeans_obstacle").KMeansObstacle(kmeans=Clusters(np.array(rows)), radius=R, index=first)
    return obs, c, R, normals, h


@harness([KO + "get_point_on_surface", KO + "__init__"], "2-3 clusters (dim 2), 2 (dim 3): any centers, radius and direction; both frames",
         cases=[(2, 2, True), (2, 2, False), (2, 3, True), (3, 2, False)], thorough_cases=[(2, 3, False), (3, 2, True), (3, 3, True), (2, 3, True, True)], timeout=30, max_paths=1500)
def surface_point(t, case):
    dim, n, glob = case[:3]
    free = len(case) > 3
    obs, c, R, normals, h = cell(t, n, dim, free=free)
    u, r = t.unit("u", dim), t.real("r", 0.01, 10)
    p = c + r * u if glob else r * u
    keep = 1.0 * p
    q = obs.get_point_on_surface(p, in_global_frame=glob)
    rel = q - c if glob else q
    s = rel @ u
    t.close("on the ray", rel, s * u)
    t.check("away from the center", s > 0)
    t.le("within the radius", s, R)
    for i, (m, d) in enumerate(zip(normals, h)):
        t.le(f"closer to its own center than to {i}", s * (u @ m), d)
    t.check("on a delimitation", any(bool(abs(s * (u @ m) - d) < 1e-6) for m, d in zip(normals, h)) or bool(abs(s - R) < 1e-6))
    t.close("input kept", p, keep)


def on_ray(t, n, s, dim=2, first=0, bind=0):
    """cell whose surface in direction u is at distance s, on plane `bind` - 1 or on the circle (0)"""
    np = t.np
    c = t.vec("c", dim, -10, 10)
    e = np.array([1.0] + [0.0] * (dim - 1))
    normals = [e] + [np.array(x) for x in ([0.0, 1.0], [-1.0, 0.0])[:n - 2]]
    u = t.unit("u", dim)
    R = s if bind == 0 else t.real("R", 0.1, 5)
    t.assume(s <= R)
    h = []
    for i in range(n - 1):
        p = u @ normals[i]
        if bind == i + 1:
            t.assume(p >= 0.02)
            h.append(s * p)
        else:
            h.append(t.real(f"h{i}", 0.05, 10))
            t.assume(s * p <= h[i] - (1e-4 if bind else 0))
        t.assume(h[i] >= 0.05)
    others = [c + 2 * h[i] * normals[i] for i in range(n - 1)]
    rows = others[:first] + [c] + others[first:]
    obs = t.mod(M + "kmeans_obstacle").KMeansObstacle(kmeans=Clusters(np.array(rows)), radius=R, index=first)
    obs.get_point_on_surface = lambda position, in_global_frame=False: c + s * u if in_global_frame else s * u
    return obs, c, u, s, R, normals, h


RAYS = [(2, 0), (2, 1), (3, 0), (3, 1), (3, 2)]


def distances(t, inside):
    """distance of the position, of the surface, and of the position mirrored to the outside"""
    if inside:
        r, k = t.real("r", 0.02, 5), t.real("k", 1.01, 20)
        t.assume(r * k >= 0.1)
        return r, r * k, r * k * k
    s, f = t.real("s", 0.1, 5), t.real("f", 1.01, 5)
    return f * s, s, f * s


def violated(t, u, P, s, R, normals, h):
    """distances to the delimitations that are violated at distance P along u; none is more than P - s"""
    out = []
    for i in range(len(h) + 1):
        if i and not t.decide(2 * h[i - 1] < 2 * R):
            continue  # too far to touch
        d = P - R if i == 0 else P * (u @ normals[i - 1]) - h[i - 1]
        if t.decide(d > 0):
            t.hint(d <= P - s)
            t.hint(d * d <= d * (P - s))
            out.append(d)
    X = P - s
    D, Q = sum(out), sum(d * d for d in out)
    t.derive(out + [X], lambda *a: [d * d <= d * a[-1] for d in a[:-1]], lambda *a: sum(d * d for d in a[:-1]) <= sum(a[:-1]) * a[-1])
    return D, Q


@harness([KO + "get_gamma", KO + "_get_normal_distances"], "2-3 clusters on a grid (dim 2) of any spacing and radius, any position strictly inside or outside; the delimitation hit is the "
         "circle or any plane", cases=[r + (i,) for r in RAYS for i in (True, False)], timeout=30, resolve=True)
def inside_and_outside(t, case):
    n, bind, inside = case
    r, s, P = distances(t, inside)
    obs, c, u, s, R, normals, h = on_ray(t, n, s, bind=bind)
    D, Q = violated(t, u, P, s, R, normals, h)
    g = obs.get_gamma(c + r * u, in_global_frame=True, ind_transparent=-1)
    t.hint_equal(g * r * D, P * D - Q)
    if inside:
        t.derive([g, r, P, D, Q, s], lambda g, r, P, D, Q, s: [g * r * D == P * D - Q, Q <= D * (P - s), D > 0, r > 0, s > r], lambda g, r, P, D, Q, s: g > 1)
        t.check("above one", g > 1)
    else:
        t.derive([g, P, D, Q, s], lambda g, P, D, Q, s: [g * P * D == P * D - Q, Q > 0, D > 0, P > 0], lambda g, P, D, Q, s: g < 1)
        t.derive([g, P, D, Q, s], lambda g, P, D, Q, s: [g * P * D == P * D - Q, Q <= D * (P - s), D > 0, P > 0, s > 0], lambda g, P, D, Q, s: g > 0)
        t.check("below one", g < 1)
        t.check("positive", g > 0)


@harness([KO + "is_inside"], "any value of the distance", cases=[True, False])
def inside_is_above_one(t, glob):
    np = t.np
    obs = t.mod(M + "kmeans_obstacle").KMeansObstacle(kmeans=Clusters(np.array([[1.0, 2.0], [3.0, 2.0]])), radius=1.5, index=0)
    g, x, calls = t.real("g", 0, 5), t.vec("x", 2, -5, 5), []

    def gamma(position, in_global_frame=False, ind_transparent=None):
        calls.append((position, in_global_frame, ind_transparent))
        return g

    obs.get_gamma = gamma
    t.check("inside", bool(obs.is_inside(x, in_global_frame=glob)) == bool(g > 1))
    t.check("no transparent walls", all(i is not None and i < 0 for _, _, i in calls))
    t.check("same frame", all(f == glob for _, f, _ in calls))


@harness([KO + "get_gamma"], "2-3 clusters (dim 2): at the center; on the surface; the local frame", cases=[(2, 0), (2, 1), (3, 1)], resolve=True)
def gamma_limits(t, case):
    n, bind = case
    obs, c, u, s, R, normals, h = on_ray(t, n, t.real("s", 0.1, 5), bind=bind)
    np = t.np
    import sys
    t.close("center", obs.get_gamma(1.0 * c, in_global_frame=True), sys.float_info.max)
    t.close("surface", obs.get_gamma(c + s * u, in_global_frame=True), 1)
    f = t.real("f", 1.01, 5)
    x = f * s * u
    keep = 1.0 * x
    t.close("same in both frames", obs.get_gamma(x), obs.get_gamma(c + f * s * u, in_global_frame=True))
    t.close("input kept", x, keep)


@harness([KO + "get_gamma"], "2 clusters (dim 2), either of them: a single successor; any position strictly inside or outside",
         cases=[r + (i, k) for r in RAYS[:2] for i in (True, False) for k in (0, 1)], timeout=30, resolve=True)
def open_towards_successor(t, case):
    n, bind, inside, first = case
    r, s, P = distances(t, inside)
    obs, c, u, s, R, normals, h = on_ray(t, n, s, bind=bind, first=first)
    for i in range(n - 1):
        t.assume(h[i] < R)
    d = [P - R] + [P * (u @ normals[i]) - h[i] for i in range(n - 1)]
    d = [(i, x) for i, x in enumerate(d) if t.decide(x > 0)]
    gap = [x for i, x in d if i == 1]
    bigger, smaller = [], []
    if gap:
        for i, x in d:
            if i != 1:
                (bigger if t.decide(x > gap[0]) else smaller).append(x)
    closed = obs.get_gamma(c + r * u, in_global_frame=True, ind_transparent=-1)
    obs.successor_index = [1 - first]
    g = obs.get_gamma(c + r * u, in_global_frame=True)
    t.close("explicit index", obs.get_gamma(c + r * u, in_global_frame=True, ind_transparent=1 - first), g)
    if not gap:
        t.close("walls as before", g, closed)
    elif not bigger:
        t.check("free through the gap", g > 1e100)
    else:
        x = gap[0]
        D, N = x + sum(bigger) + sum(smaller), sum(y - x for y in bigger)
        t.hint_equal(closed * r * D, sum(y * (P - y) for y in bigger + smaller + gap))
        t.hint_equal(g * r * D * N, N * sum((y - x) * (P - y) for y in bigger) + D * (D - N) * (P - x))
        for y in bigger + smaller + gap:
            t.hint(y < P)
        k = len(bigger)

        def known(g, closed, r, P, x, *o):
            D, N = x + sum(o), sum(y - x for y in o[:k])
            return [r > 0, x > 0, x < P] + [y < P for y in o] + [y > x for y in o[:k]] + [y > 0 for y in o] + [y <= x for y in o[k:]] + [
                closed * r * D == sum(y * (P - y) for y in o + (x,)),
                g * r * D * N == N * sum((y - x) * (P - y) for y in o[:k]) + D * (D - N) * (P - x)]

        t.derive([g, closed, r, P, x] + bigger + smaller, known, lambda g, closed, *a: g >= closed)
        t.check("more open", g >= closed)


NORMAL = [KO + "get_normal_direction", KO + "_get_normal_distances"]


@harness(NORMAL, "2-3 clusters on a grid (dim 2), any position strictly inside or outside", cases=[r + (i,) for r in RAYS[:3] for i in (True, False)], timeout=20, resolve=True)
def normal(t, case):
    n, bind, inside = case
    np = t.np
    r, s, P = distances(t, inside)
    obs, c, u, s, R, normals, h = on_ray(t, n, s, bind=bind)
    t.assume(u[0] <= 0.999)  # not along the normal of the first plane
    t.assume(u[0] >= -0.999)
    d = [P - R] + [P * (u @ normals[i]) - h[i] for i in range(n - 1)]
    over = [bool(t.decide(x > 0)) and (i == 0 or bool(t.decide(2 * h[i - 1] < 2 * R))) for i, x in enumerate(d)]
    p = c + r * u
    keep = 1.0 * p
    v = obs.get_normal_direction(p, in_global_frame=True)
    t.close("unit", v @ v, 1)
    t.close("input kept", p, keep)
    if sum(over) == 1:
        w = u if over[0] else normals[over.index(True) - 1]
        t.close("of the violated delimitation, inwards", v, -w)
    elif sum(over) == 2 and over[0]:
        w = normals[over.index(True, 1) - 1]
        t.ge("between the ray and the plane", -(v @ u), u @ w)
        if n == 2:
            t.ge("between the plane and the ray", -(v @ w), u @ w)


@harness(NORMAL, "2 clusters (dim 2, 3): the center; a point of the surface on the circle or the plane", cases=[(2, 0), (2, 1), (3, 1)], resolve=True)
def normal_at_limits(t, case):
    dim, bind = case
    np = t.np
    obs, c, u, s, R, normals, h = on_ray(t, 2, t.real("s", 0.1, 5), dim=dim, bind=bind)
    for x, glob in ((1.0 * c, True), (0.0 * c, False)):
        keep = 1.0 * x
        v = obs.get_normal_direction(x, in_global_frame=glob)
        t.close("unit at the center", v @ v, 1)
        t.close("center kept", x, keep)
    v = obs.get_normal_direction(c + s * u, in_global_frame=True)
    if bind:
        t.assume(s <= R - 1e-3)
        t.close("surface on the plane", v, -normals[0])
    else:
        t.assume(s * (u @ normals[0]) <= h[0] - 1e-3)
        t.close("surface on the circle", v, -u)


@harness([KO + "get_reference_direction"], "dim 2, 3: any position and center; both frames", cases=[(2, True), (2, False), (3, True)])
def reference_direction(t, case):
    dim, glob = case
    np = t.np
    obs, c, R, normals, h = cell(t, 2, dim)
    u, r = t.unit("u", dim), t.real("r", 0.01, 10)
    t.close("towards the center", obs.get_reference_direction(c + r * u if glob else r * u, in_global_frame=glob), -u)
    t.close("none at the center", obs.get_reference_direction(1.0 * c if glob else 0.0 * c, in_global_frame=glob), np.zeros(dim))


# ------------------------------------------------------------------ learner

class Attractor:
    pass


def learner(t, centers, labels=None, **data):
    m = t.mod(M + "kmeans_motion_learner")
    ml = m.KMeansMotionLearner()
    ml.kmeans = Clusters(centers, labels)
    ml.data = types.SimpleNamespace(**data)
    if "attractor" in data:
        ml.data.attractor_position = data["attractor"]
    ml.data.dimension = centers.shape[1]
    return ml


def path_of_centers(t, n, dim=2):
    """attractor and centers in the order of the motion (last first), with steps of lengths l along unit u"""
    att = t.vec("att", dim, -5, 5)
    u = [t.unit(f"u{i}", dim) for i in range(n)]
    l = [t.real(f"l{i}", 0.1, 5) for i in range(n)]
    pos, out = att, []
    for i in range(n):
        pos = pos + l[i] * u[i]
        out.append(pos)
    return att, out, u, l


@harness([KL + "_fit_cluster_hierarchy", KL + "get_successors", KL + "get_predecessors", KL + "compute_distances_to_neighbours"],
         "3 clusters (dim 2), in any order along the motion; any centers, attractor and sequence values", cases=[(0, 1, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)],
         thorough_cases=[(0, 1, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0), (0, 2, 1), (1, 0, 2)])
def hierarchy(t, order):
    np = t.np
    att, pos, u, l = path_of_centers(t, 3)
    seq = [t.real(f"seq{i}", 0, 1) for i in range(3)]  # mean value of the cluster at place i
    t.assume(seq[0] >= seq[1] + 0.01)
    t.assume(seq[1] >= seq[2] + 0.01)
    centers, value = [None] * 3, [None] * 3
    for i, k in enumerate(order):
        centers[k], value[k] = pos[i], seq[i]
    e = t.real("spread", 0, 0.5)
    labels = np.array([0, 1, 2, 0, 1, 2])
    ml = learner(t, np.array(centers), labels, attractor=att, sequence_value=np.array([v - e for v in value] + [v + e for v in value]))
    ml._fit_cluster_hierarchy()
    for i, k in enumerate(order):
        node = ml._graph.nodes[k]
        t.check(f"level {i}", node["level"] == i)
        t.close(f"direction {i}", node["direction"], u[i])
        t.check(f"next {i}", [int(j) for j in ml.get_successors(k)] == ([order[i - 1]] if i else []))
        t.check(f"previous {i}", [int(j) for j in ml.get_predecessors(k)] == ([order[i + 1]] if i < 2 else []))
    t.close("distances to the parents", np.sort(ml.distances_parent), np.sort(np.array([2 * l[0], l[1], l[2]])))
    d = ml.compute_distances_to_neighbours()
    for k, x in zip(list(ml._graph.nodes), d):
        t.close("distance to the next", x, l[order.index(int(k))])


@harness([KL + "_fit_region_radius"], "2 clusters, 3 samples (dim 2): any of them, any radius factor and distances", cases=[None])
def region_radius(t):
    np = t.np
    c, far, u = t.vec("c", 2, -5, 5), t.real("far", 0.5, 5), t.unit("u", 2)
    d = [t.real(f"d{i}", 0, 1) for i in range(3)]
    f, p = t.real("factor", 0.1, 2), [t.real(f"p{i}", 0.1, 5) for i in range(2)]
    for x in d:
        t.assume(x <= 0.4 * far)
    v = [(1.0 if t.boolean(f"side{i}") else -1.0) * u for i in range(3)]
    other = c + far * u
    ml = learner(t, np.array([c, other]), position=np.array([c + d[0] * v[0], other + d[1] * v[1], c + d[2] * v[2]]))
    ml.radius_factor, ml.distances_parent = f, np.array(p)
    ml._fit_region_radius()
    R = ml.region_radius_
    for x in d:
        t.ge("covers the samples with margin", R, 2 * f * x)
    for x in p:
        t.ge("reaches the next cluster", R, f * x)
    t.check("no larger than needed", bool(any([bool(R <= 2 * f * x + 1e-6) for x in d] + [bool(R <= f * x + 1e-6) for x in p])))


@harness([KL + "_fit_remove_sparse_clusters"], "6 samples in 3 clusters of different sizes, thresholds on a grid, any prediction for the removed samples", cases=[(1, 2, 3), (0, 3, 3), (1, 1, 4)])
def sparse_clusters(t, sizes):
    np = t.np
    which = t.pick("permutation", [(0, 1, 2), (1, 2, 0), (2, 0, 1)])
    label_of = [which[i] for i, k in enumerate(sizes) for _ in range(k)]
    count = [label_of.count(i) for i in range(3)]
    f = t.pick("factor", [0.2, 0.45, 0.75, 1.2])
    keep = [i for i in range(3) if count[i] >= f * 6 / 3]
    centers, x = t.mat("centers", 3, 2, -5, 5), t.mat("x", 6, 2, -5, 5)
    ml = learner(t, centers, np.array(label_of), position=x, n_samples=6)
    asked = []

    def predict(X):
        out = []
        for row in X:
            asked.append((row, int(t.choice(f"label{len(asked)}", len(keep)))))
            out.append(asked[-1][1])
        import numpy
        return numpy.array(out, dtype=int)

    ml.kmeans.predict = predict
    ml._fit_remove_sparse_clusters(_cluster_removal_factor=f)
    k = ml.kmeans
    t.check("number of clusters", k.n_clusters == len(keep) and k.cluster_centers_.shape[0] == len(keep))
    for i, j in enumerate(keep):
        t.close("centers of the others", k.cluster_centers_[i, :], centers[j, :])
    moved = 0
    for i in range(6):
        now = int(k.labels_[i])
        if label_of[i] in keep:
            t.check("label kept", now < len(keep) and keep[now] == label_of[i])
        else:
            t.close("asked for the removed sample", asked[moved][0], x[i, :])
            t.check("label of the closest", now == asked[moved][1])
            moved += 1
    t.check("nothing else asked", moved == len(asked))


@harness([KL + "_fit_region_obstacles", K + "kmeans_motion_learner.py:create_kmeans_learner_from_learner"], "3 clusters with any centers and radius", cases=[None])
def region_obstacles(t):
    np = t.np
    centers, R = t.mat("centers", 3, 2, -5, 5), t.real("R", 0.1, 5)
    for i in range(3):
        for j in range(i):
            t.assume(centers[i][0] >= centers[j][0] + 0.1)
    ml = learner(t, centers)
    ml.region_radius_ = R
    ml._graph.add_nodes_from([0, 1, 2])
    ml._graph.add_edge(2, 0)
    ml._graph.add_edge(1, 2)
    ml._fit_region_obstacles()
    t.check("one per cluster", len(ml.region_obstacles) == 3)
    for i, o in enumerate(ml.region_obstacles):
        t.close("center", o.center_position, centers[i, :])
        t.close("radius", o.radius, R)
        t.check("boundary", o.is_boundary)
        t.check("successor", list(o.successor_index) == [[], [2], [0]][i])


class Gamma:
    def __init__(self, gamma):
        self.gamma, self.calls = gamma, []

    def get_gamma(self, position, in_global_frame=False, ind_transparent=None):
        self.calls.append((position, in_global_frame, ind_transparent))
        return self.gamma if in_global_frame else self.gamma + 1.5


@harness([KL + "_predict_sequence_weights"], "3 clusters (dim 2): any centers, position, distance value, depth factor and limit; with and without a previous cluster", cases=[0, 1, 2])
def sequence_weights(t, label):
    np = t.np
    u, h = t.unit("u", 2), t.real("h", 0.1, 5)
    c = t.vec("c", 2, -5, 5)
    before = {0: 1, 1: 2, 2: None}[label]
    rows = [c + 20.0 * u] * 3
    rows[label] = c
    if before is not None:
        rows[before] = c + 2 * h * u
    ml = learner(t, np.array(rows))
    ml._graph.add_nodes_from([0, 1, 2])
    ml._graph.add_edge(1, 0)
    ml._graph.add_edge(2, 1)
    gamma, cut, depth = t.real("gamma", 0, 50), t.real("cutoff", 1, 5), t.real("depth", 0.1, 0.9)
    ml.region_obstacles = [Gamma(-1.0) for _ in range(3)]
    ml.region_obstacles[label] = o = Gamma(gamma)
    a, b = t.real("a", -5, 5), t.real("b", -5, 5)  # distance to the border, along the border
    p = c + (h - a) * u + b * np.array([-u[1], u[0]])
    w = ml._predict_sequence_weights(p, label, parent_factor=depth, gamma_cutoff=cut)
    t.close("sum", sum(w[i] for i in range(3)), 1)
    for i in range(3):
        t.ge("non-negative", w[i], 0)
        if i not in (label, before):
            t.close("no part", w[i], 0)
    if before is None:
        t.close("all of it", w[label], 1)
        return
    x = np.maximum(a, 0)
    if t.decide(a >= h * depth):
        t.close("none deep inside", w[before], 0)
    elif t.decide(gamma <= cut):
        t.close("none close to the walls", w[before], 0)
    else:
        t.le("fades with the distance to the border", w[before], 1 - x / (h * depth))
        t.le("fades towards the walls", w[before] * (1 + gamma - cut), gamma - cut)
        t.check("some part", w[before] > 0)
        if t.decide(a <= 0):
            t.close("at the border", w[before] * (1 + gamma - cut), gamma - cut)
    for q, glob, through in o.calls:
        t.close("position", q, p)
        t.check("open towards the previous", glob and through == before)


@harness([KL + "_is_pointing_towards_parent"], "3 clusters on a grid (dim 2), any direction", cases=[0, 1, 2])
def points_to_parent(t, bind):
    np = t.np
    obs, c, u, s, R, normals, h = on_ray(t, 3, t.real("s", 0.1, 5), bind=bind)
    if bind != 1:
        t.assume(s * (u @ normals[0]) <= h[0] - 0.01)
    ml = learner(t, obs.kmeans.cluster_centers_)
    ml.region_obstacles = [obs, None, None]
    t.check("leaves through the border to the parent", bool(ml._is_pointing_towards_parent(u, 0, 1)) == (bind == 1))


@harness([KL + "_enforces_direction_is_towards_parent"], "2 clusters (dim 2): any mean velocity, any range of directions that reach the parent", cases=[True, False], timeout=20)
def direction_is_enforced(t, half):
    np = t.np
    c, n, h = t.vec("c", 2, -5, 5), t.unit("n", 2), t.real("h", 0.1, 5)
    m = np.array([-n[1], n[0]])
    ml = learner(t, np.array([c, c + 2 * h * n]))
    ml._graph.add_node(1, level=0, direction=n)
    ml._graph.add_node(0, level=1, direction=-n)
    ml._graph.add_edge(0, 1)
    limit = t.real("limit", 0, 0.99)
    ml._is_pointing_towards_parent = lambda direction, i, j: bool(direction @ n >= limit)
    k = t.real("k", 0.1, 5)
    if half:  # a velocity that reaches the parent is kept
        q = t.unit("q", 2)
        t.assume(q[0] >= limit)
        v = k * (q[0] * n + q[1] * m)
        t.close("kept", ml._enforces_direction_is_towards_parent(0, v, it_max=1), v / k)
        w = ml._enforces_direction_is_towards_parent(0, np.zeros(2), it_max=1)
        t.check("default without velocity", w @ n >= limit)
    else:
        q = t.unit("q", 2)
        t.assume(q[0] <= limit - 0.01)
        t.assume(q[0] >= -0.98)
        w = ml._enforces_direction_is_towards_parent(0, k * (q[0] * n + q[1] * m), it_max=1)
        t.close("unit", w @ w, 1)
        t.check("reaches the parent", w @ n >= limit)


class Motion:
    def __init__(self, velocity, lyapunov):
        self.velocity, self.lyapunov = velocity, lyapunov

    def evaluate(self, position):
        return self.velocity

    evaluate_without_lyapunov_check = evaluate

    def get_lyapunov_gradient_direction(self, position):
        return self.lyapunov


@harness([KL + "predict", KL + "evaluate", KL + "_predict_outside_of_obstacle"], "3 clusters (dim 2): any motion of the region at the position, any distance value; far outside",
         cases=[0, 1, 2])
def motion_of_the_region(t, label):
    np = t.np
    m = t.mod(M + "kmeans_motion_learner")
    ml = learner(t, np.array([[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]]))
    g, x, got = t.real("gamma", 0, 5), t.vec("x", 2, -5, 5), []
    vel, conv, out = t.mat("vel", 3, 2, -5, 5), t.mat("conv", 3, 2, -5, 5), t.vec("out", 2, -5, 5)
    far = t.vec("far", 2, -5, 5)
    ml.region_obstacles = [Gamma(g if i == label else 0.5) for i in range(3)]
    ml._dynamics = [Motion(vel[i, :], conv[i, :]) for i in range(3)]
    ml._graph.add_nodes_from([0, 1, 2])
    ml.kmeans.predict = lambda X: [label]
    ml.region_radius_ = 0.01
    t.assume(x[0] <= -0.5)
    ml.outside_dynamics = types.SimpleNamespace(evaluate=lambda position: far)

    def avoid(position, initial_velocity, obstacle_list, *a, convergence_velocity=None, **k):
        got.append((position, initial_velocity, list(obstacle_list), convergence_velocity))
        return out

    old = m.obstacle_avoidance_rotational
    m.obstacle_avoidance_rotational = avoid
    try:
        v = ml.evaluate(x)
    finally:
        m.obstacle_avoidance_rotational = old
    if t.decide(g < 1):
        t.close("motion of the outside", v, far)
        return
    t.check("avoided once", len(got) == 1)
    t.close("keeps the region", v, out)
    t.close("position", got[0][0], x)
    t.close("motion of the region", got[0][1], vel[label, :])
    t.close("convergence of the region", got[0][3], conv[label, :])
    t.check("walls of the region", len(got[0][2]) == 1 and got[0][2][0] is ml.region_obstacles[label])


@harness([KL + "predict", KL + "_predict_outside_of_obstacle"], "2 clusters (dim 2): any position further than four radii from the centers, the centers in line with it", cases=[None])
def far_outside(t):
    np = t.np
    c, u, l = t.vec("c", 2, -5, 5), t.unit("u", 2), t.real("l", 0.1, 5)
    R, r = t.real("R", 0.1, 2), t.real("r", 0.1, 40)
    t.assume(r >= 4 * R + 1e-4)
    ml = learner(t, np.array([c, c - l * u]))
    v = t.vec("v", 2, -5, 5)
    ml.region_radius_, ml.region_obstacles = R, [Gamma(0.5), Gamma(0.5)]
    seen = []

    def outside(position):
        seen.append(position)
        return v

    ml.outside_dynamics = types.SimpleNamespace(evaluate=outside)
    x = c + r * u
    t.close("global motion", ml.predict(x), v)
    t.check("evaluated", len(seen) > 0)
    for q in seen:
        t.close("at the position", q, x)


@harness([KL + "predict_averaged_lyapunov"], "2 of 3 clusters (dim 2), any directions within 170 degrees and weights", cases=[(0, 1), (0, 2), (1, 2)], timeout=20)
def averaged_lyapunov(t, used):
    np = t.np
    a, b, c, s = t.unit_pair("d", 2, -0.98, 0.999)
    ml = learner(t, t.mat("centers", 3, 2, -5, 5))
    ml._dynamics = [Motion(None, None)] * 3
    ml._dynamics[used[0]], ml._dynamics[used[1]] = Motion(None, a), Motion(None, b)
    first = t.boolean("first")
    w = [0.0, 0.0, 0.0]
    w[used[0]], w[used[1]] = (1.0, 0.0) if first else (0.0, 1.0)
    ml._predict_sequence_weights = lambda position: np.array(w)
    v = ml.predict_averaged_lyapunov(t.vec("x", 2, -5, 5))
    t.close("the one with the full weight", v, a if first else b)


@harness([KL + "_fit_local_dynamics"], "3 clusters of 6 samples (dim 2), any positions and velocities", cases=[None])
def local_dynamics(t):
    np = t.np
    m = t.mod(M + "kmeans_motion_learner")
    x, v, att = t.mat("x", 6, 2, -5, 5), t.mat("v", 6, 2, 0.1, 5), t.vec("att", 2, -5, 5)
    labels = np.array([2, 0, 1, 1, 2, 0])
    ml = learner(t, t.mat("centers", 3, 2, -5, 5), labels, attractor=att, position=x, velocity=v)
    for k, (i, j) in enumerate(((1, None), (2, 1), (0, 2))):  # motion: 0 -> 2 -> 1
        ml._graph.add_node(i, level=k, direction=np.array([1.0, 0.0]))
        if j is not None:
            ml._graph.add_edge(i, j)
    ml._enforces_direction_is_towards_parent = lambda node, direction: (node, direction)

    class Fitted:
        def __init__(self, regressor=None, **kw):
            self.kw = kw

        def fit_from_velocities(self, position, velocity):
            self.position, self.velocity = position, velocity

    class Attracted(Fitted):
        pass

    old = {k: getattr(m, k) for k in ("PerpendicularDeviatoinOfLinearDS", "DeviationOfConstantFlow", "MultiOutputSVR")}
    try:
        m.PerpendicularDeviatoinOfLinearDS, m.DeviationOfConstantFlow, m.MultiOutputSVR = Attracted, Fitted, lambda **k: None
        ml._fit_local_dynamics()
    finally:
        for k, o in old.items():
            setattr(m, k, o)
    t.check("one each", len(ml._dynamics) == 3)
    t.check("last one is attracted", [isinstance(d, Attracted) for d in ml._dynamics] == [False, True, False])
    t.close("attractor", ml._dynamics[1].kw["attractor_position"], att)
    for i in (0, 2):
        node, d = ml._dynamics[i].kw["reference_velocity"]
        t.check("of the cluster", int(node) == i)
        own = [k for k in range(6) if labels[k] == i]
        t.close("mean velocity", d, sum(v[k, :] for k in own) / 2)
    for i, near in ((0, (0, 2)), (1, (1, 2)), (2, (0, 1, 2))):
        rows = [k for k in range(6) if labels[k] in near]
        t.check("samples", ml._dynamics[i].position.shape[0] == len(rows))
        t.close("fitted to its own and the neighbouring samples", ml._dynamics[i].position, np.array([x[k, :] for k in rows]))
        t.close("with their velocity", ml._dynamics[i].velocity, np.array([v[k, :] for k in rows]))


class Recorded:
    """stand-in of the clustering algorithm: assigns the given labels and keeps the centers it starts from"""

    made = []
    labels = None

    def __init__(self, n_clusters=8, init="k-means++", n_init=1, max_iter=300):
        self.n_clusters, self.init = n_clusters, init
        type(self).made.append(self)

    def fit(self, X):
        self.X = X
        self.labels_ = type(self).labels
        self.cluster_centers_ = self.init
        return self


def clustered(m, labels):
    """replaces the clustering algorithm of module m"""
    old = m.KMeans
    Recorded.made, Recorded.labels = [], labels
    m.KMeans = Recorded
    return old


@harness([KL + "_fit_kmeans"], "6 samples in 3 clusters (dim 2): any positions and clustering with velocities and sequence, both normalisations", cases=[True, False])
def initial_clusters(t, normalized):
    np = t.np
    m = t.mod(M + "kmeans_motion_learner")
    x, X, Y = t.mat("x", 6, 2, -5, 5), t.mat("X", 6, 5, -5, 5), t.mat("Y", 6, 5, -5, 5)
    labels = np.array(t.pick("labels", [[2, 0, 1, 1, 2, 0], [0, 1, 1, 2, 2, 2]]))
    ml = m.KMeansMotionLearner(n_clusters=3)
    ml.data = types.SimpleNamespace(position=x, X=X, dimension=2, get_normalized_data=lambda: Y)
    old = clustered(m, labels)
    try:
        ml._fit_kmeans(normalized) if normalized else ml._fit_kmeans()
    finally:
        m.KMeans = old
    t.check("twice", len(Recorded.made) == 2)
    first, second = Recorded.made
    t.check("clusters", first.n_clusters == 3 and second.n_clusters == 3 and ml.kmeans is second and ml.n_clusters == 3)
    t.close("first with velocity and sequence", first.X, Y if normalized else X)
    t.close("then with the position", second.X, x)
    for i in range(3):
        own = [k for k in range(6) if labels[k] == i]
        t.close("starts at the mean of the cluster", second.init[i, :], sum(x[k, :] for k in own) / len(own))


@harness([KL + "from_centers", KL + "fit", KL + "predict", KL + "_predict_outside_of_obstacle"], "2 clusters in line (dim 2): any centers, attractor and position outside of their reach; "
         "fitted and with given centers", cases=[True, False])
def attracted_from_outside(t, given):
    np = t.np
    m = t.mod(M + "kmeans_motion_learner")
    c, u, l = t.vec("c", 2, -5, 5), t.unit("u", 2), t.real("l", 0.1, 2)
    labels = np.array([0, 0, 1, 1])
    w, k = t.real("w", 0.01, 1), t.real("far", 10, 40)
    n = np.array([-u[1], u[0]])
    centers = np.array([c, c + l * u])
    samples = np.array([c + w * n, c - w * n, c + l * u + w * n, c + l * u - w * n])
    data = types.SimpleNamespace(position=samples, velocity=np.array([u] * 4), X=samples, dimension=2, n_samples=4, sequence_value=np.array([0.0, 0.25, 0.75, 1.0]),
                                 attractor=c + 2 * l * u, attractor_position=c + 2 * l * u)

    class Fitted:
        def __init__(self, **kw):
            pass

        def fit_from_velocities(self, position, velocity):
            pass

    names = ("PerpendicularDeviatoinOfLinearDS", "DeviationOfConstantFlow", "MultiOutputSVR")
    old = {name: getattr(m, name) for name in names}
    old["KMeans"] = clustered(m, labels)
    try:
        m.PerpendicularDeviatoinOfLinearDS = m.DeviationOfConstantFlow = m.MultiOutputSVR = Fitted
        if given:
            ml = m.KMeansMotionLearner.from_centers(centers.T, data)
        else:
            ml = m.KMeansMotionLearner(n_clusters=2)
            ml.fit(data)
    finally:
        for name, o in old.items():
            setattr(m, name, o)
    t.close("centers", ml.kmeans.cluster_centers_, centers)
    ml.kmeans.predict = lambda X: [1]
    ml.region_obstacles = [Gamma(0.5), Gamma(0.5)]
    R = ml.region_radius_
    t.check("reaches the next center", R >= 0.7 * l)
    x = c + l * u + (2 + k) * (l + w) * u
    v = ml.predict(x)
    t.close("straight to the attractor", v[0] * u[1] - v[1] * u[0], 0.0)
    t.check("towards it", v @ u < 0)


@harness([KL + "predict", KL + "predict_averaged_lyapunov", KL + "_predict_initial_direction"],
         "2 of 3 clusters (dim 2) of equal weight with any directions and velocities a quarter turn apart, or of any weights with the same ones",
         cases=[(0, 2, "half"), (2, 1, "half"), (1, 0, "same")])
def motion_between_regions(t, case):
    np = t.np
    m = t.mod(M + "kmeans_motion_learner")
    own, parent, kind = case
    ml = learner(t, np.array([[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]]))
    ml.convergence_radius = t.real("radius", 0.5, 3)
    x, g, out = t.vec("x", 2, -5, 5), t.real("gamma", 1.01, 5), t.vec("out", 2, -5, 5)
    a = t.unit("a", 2)
    k, l = t.vec("speeds", 2, 0.1, 5), t.vec("lengths", 2, 0.1, 5)
    turn = lambda v, s: s * np.array([-v[1], v[0]])
    if kind == "half":
        w = 0.5
        s1, s2 = (1.0 if t.boolean("left") else -1.0), (1.0 if t.boolean("left velocity") else -1.0)
        b = turn(a, s1)
        q = (a + b) / t.math.sqrt(2.0)
        v0, v1 = q, turn(q, s2)
        v = (v0 + v1) / t.math.sqrt(2.0)
    else:
        w = t.real("w", 0.01, 0.99)
        b = q = a
        v0 = v1 = v = t.unit("v", 2)
        t.assume(v0 @ a >= -0.5)
    weights = [0.0] * 3
    weights[own], weights[parent] = w, 1 - w
    ml._predict_sequence_weights = lambda position, cluster_label=None: np.array(weights)
    ml.region_obstacles = [Gamma(g if i == own else 0.5) for i in range(3)]
    moves = [Motion(out, out)] * 3
    moves[own], moves[parent] = Motion(k[0] * v0, a), Motion(k[1] * v1, b)
    ml._dynamics = moves
    ml._graph.add_nodes_from([0, 1, 2])
    ml.kmeans.predict = lambda X: [own]
    got = []

    def avoid(position, initial_velocity, obstacle_list, *a, convergence_velocity=None, **kw):
        got.append((position, initial_velocity, list(obstacle_list), convergence_velocity, kw))
        return out

    old = m.obstacle_avoidance_rotational
    m.obstacle_avoidance_rotational = avoid
    try:
        r = ml.predict(x)
    finally:
        m.obstacle_avoidance_rotational = old
    t.close("keeps the region", r, out)
    t.check("avoided once", len(got) == 1)
    (p, initial, walls, conv, kw), = got
    t.close("position", p, x)
    t.check("walls of the region", len(walls) == 1 and walls[0] is ml.region_obstacles[own])
    for label, d, e in (("converges to the mean", conv, q), ("moves with the mean", initial, v)):
        t.close(label, d[0] * e[1] - d[1] * e[0], 0.0)
        t.check(label + " forward", d @ e > 0)
    if "convergence_radius" in kw:
        t.close("converges by its own share", kw["convergence_radius"], ml.convergence_radius * w)


@harness([KL + "predict", KL + "_predict_outside_of_obstacle"],
         "1-2 clusters of any center and reach (dim 2), position outside of the reach of the first in any direction; motion there straight to its center, "
         "to the side or away; a second cluster far away or nowhere", cases=["on the surface", "near", "straight", "away"])
def pulled_into_the_region(t, kind):
    np = t.np
    m = t.mod(M + "kmeans_motion_learner")
    c, u, R = t.vec("c", 2, -5, 5), t.unit("u", 2), t.real("R", 0.1, 2)
    ratio = {"on the surface": t.real("ratio", 1.0001, 1.029), "near": t.real("ratio", 1.031, 3.99)}.get(kind, t.real("ratio", 1.01, 3.99))
    x = c + ratio * R * u
    centers = [c, c - 40.0 * u] if t.boolean("second") else [c]
    ml = learner(t, np.array(centers))
    ml.region_radius_, ml.region_obstacles, ml.convergence_radius = R, [Gamma(0.5)] * len(centers), t.math.pi
    ml.kmeans.predict = lambda X: [0]
    n = np.array([-u[1], u[0]]) * (1.0 if t.boolean("left") else -1.0)
    speed = t.real("speed", 0.1, 5)
    o = {"straight": -u, "away": u}.get(kind, n)
    asked = []

    def evaluate(position):
        asked.append(position)
        return speed * o

    ml.outside_dynamics = types.SimpleNamespace(evaluate=evaluate)
    v = ml.predict(x)
    for q in asked:
        t.close("asked at the position", q, x)
    if kind == "away":
        t.close("leaves as it is", v, speed * o)
        return
    if kind == "near":
        t.check("turned to the region", v @ u < 0)
        t.check("not behind it", v @ n >= -1e-6)
    else:
        t.close("straight into the region", v[0] * u[1] - v[1] * u[0], 0.0)
        t.check("inwards", v @ u < 0)
