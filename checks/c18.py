"""C18 obstacle learned as a mixture of Gaussians: its ellipses, their hierarchy and how they share the avoidance."""
import types

from symx.harness import harness

N = "nonlinear_avoidance/gmm_obstacle.py:GmmObstacle."
M = "nonlinear_avoidance.gmm_obstacle"


def gmm(t, means, covariances=None, factor=2.0, **kw):
    o = t.mod(M).GmmObstacle(n_gmms=len(means), variance_factor=factor)
    o._gmm = types.SimpleNamespace(means_=t.np.array(means), covariances_=covariances, covariance_type="full", **kw)
    return o


def frame(t, dim, turn=None):
    """orthonormal directions of the axes: any in dim 2, some in dim 3"""
    np = t.np
    if dim == 2:
        c = t.unit("turn", 2) if turn is None else turn
        return np.array([[c[0], -c[1]], [c[1], c[0]]])
    return np.array(t.pick("frame", [[[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], [[0.6, -0.8, 0.0], [0.8, 0.6, 0.0], [0.0, 0.0, 1.0]],
                                     [[0.0, 0.6, -0.8], [1.0, 0.0, 0.0], [0.0, 0.8, 0.6]]]))


def single(t, dim, index=0, factor=None):
    """obstacle whose component `index` has axes R of standard deviation std around m; the others lie elsewhere"""
    np = t.np
    R = frame(t, dim)
    std = t.vec("std", dim, 0.2, 3)
    m = t.vec("m", dim, -5, 5)
    f = factor if factor is not None else t.real("factor", 0.5, 4)
    cov = R @ np.diag(std * std) @ R.T
    means, covs = [np.ones(dim) * 7.0, np.ones(dim) * 8.0], [np.eye(dim) * 100.0, np.eye(dim) * 400.0]
    means.insert(index, m)
    covs.insert(index, cov)
    return gmm(t, means, np.array(covs), f), R, std, m, f


@harness([N + "get_gamma_proportional", N + "get_gamma", N + "project_point_on_surface", N + "get_precision", N + "get_center_position", N + "dimension"],
         "any center, axes, size factor, direction and distance (dim 2: any turn, dim 3: 3 frames), component at any place of the list", cases=[(2, 0), (2, 1), (3, 2)])
def distance_to_component(t, case):
    dim, index = case
    np = t.np
    o, R, std, m, f = single(t, dim, index)
    u, s = t.unit("u", dim), t.real("s", 0.05, 10)
    edge = R @ (f * std * u)
    x = m + s * edge
    keep = 1.0 * x
    t.check("dimension", o.dimension == dim)
    t.close("center", o.get_center_position(index), m)
    g = o.get_gamma_proportional(x, index)
    t.close("in proportion to the ellipse", g, s)
    q = o.project_point_on_surface(x, index)
    t.close("surface point", q, m + edge)
    d = o.get_gamma(x, index)
    rel = x - m
    r = t.la.norm(rel)
    t.close("distance to the surface", (d - 1) * s, r * (s - 1))
    t.close("input is kept", x, keep)
    t.close("center itself", o.get_gamma_proportional(1.0 * m, index), 0)
    t.close("center itself has a value", o.get_gamma(1.0 * m, index), 0)


@harness([N + "get_normal_direction", N + "get_reference_direction"],
         "any center, axes, size factor, direction and distance (dim 2: any turn, dim 3: 3 frames)", cases=[(2, 0), (2, 2), (3, 1)])
def normal_of_component(t, case):
    dim, index = case
    np = t.np
    o, R, std, m, f = single(t, dim, index)
    u, s = t.unit("u", dim), t.real("s", 0.05, 10)
    x = m + R @ (s * f * std * u)
    keep = 1.0 * x
    n = o.get_normal_direction(x, index)
    r = o.get_reference_direction(x, index)
    t.close("unit normal", n @ n, 1)
    t.close("unit reference", r @ r, 1)
    for w in along_surface(t, u):
        t.close("orthogonal to the surface", n @ (R @ (std * w)), 0)
    t.check("outwards", t.red(n @ (x - m)) > 0)
    for i in range(dim):
        t.close("reference from the center", r[i] * t.la.norm(x - m), (x - m)[i])
    t.close("input is kept", x, keep)
    n = o.get_normal_direction(1.0 * m, index)
    r = o.get_reference_direction(1.0 * m, index)
    t.close("unit at the center", n @ n, 1)
    t.close("unit at the center", r @ r, 1)


def along_surface(t, u):
    np = t.np
    if len(u) == 2:
        return [np.array([-u[1], u[0]])]
    return [np.array([-u[1], u[0], 0.0]), np.array([0.0, -u[2], u[1]]), np.array([u[2], 0.0, -u[0]])]


@harness([N + "get_gamma_derivative"], "any center, axes, size factor, direction and distance (dim 2: any turn, dim 3: 3 frames); powers 1, 2, 5 (5: not its side)",
         cases=[(2, 0, 1), (2, 1, 2), (2, 0, 5), (3, 0, 2), (3, 1, 5)])
def gradient_of_component(t, case):
    dim, index, power = case
    o, R, std, m, f = single(t, dim, index)
    u, s = t.unit("u", dim), t.real("s", 0.05, 10)
    x = m + R @ (s * f * std * u)
    d = o.get_gamma_derivative(x, index, float(power))
    for w in along_surface(t, u):
        t.close("orthogonal to the surface", d @ (R @ (std * w)), 0)
    if power < 5:
        t.check("outwards", d @ (x - m) > 0)


class Algebra:
    """numpy.linalg with given eigenvectors"""

    def __init__(self, la, eigh):
        self._la, self.eigh = la, eigh

    def __getattr__(self, name):
        return getattr(self._la, name)


@harness([N + "evaluate_axes_length_and_direction", N + "transform_position_to_unitcircle_frame", N + "transform_position_from_unitcircle_frame"],
         "any center, axes and size factor; dim 2 (any turn) and 3 (3 frames)", cases=[2, 3])
def circle_frame(t, dim):
    np = t.np
    m = t.mod(M)
    o, R, std, c, f = single(t, dim, 1)
    R = R if t.boolean("right-handed") else R @ np.diag([1.0] * (dim - 1) + [-1.0])
    covs, old = o._gmm.covariances_, m.LA

    def eigh(a):
        if t.decide(np.trace(a) > 50):
            return np.array([a[i, i] for i in range(dim)]), np.eye(dim)
        t.close("matrix of the component", a, covs[1])
        return std * std, R

    m.LA = Algebra(old, eigh)
    try:
        o.evaluate_axes_length_and_direction()
    finally:
        m.LA = old
    x = t.vec("x", dim, -5, 5)
    t.close("there and back", o.transform_position_from_unitcircle_frame(o.transform_position_to_unitcircle_frame(x, 1), 1), x)
    t.close("back and there", o.transform_position_to_unitcircle_frame(o.transform_position_from_unitcircle_frame(x, 1), 1), x)
    u, s = t.unit("u", dim), t.real("s", 0, 5)
    q = o.transform_position_to_unitcircle_frame(c + R @ (s * f * std * u), 1)
    t.close("unit diameter at the surface", 2 * q, s * u)


@harness([N + "project_point_on_surface_with_offcenter_point"], "any center, axes, size factor; any inner point on any line, any position on either side (dim 2: any turn, dim 3: 3 frames)", cases=[2, 3])
def surface_from_inner_point(t, dim):
    np = t.np
    o, R, std, m, f = single(t, dim)
    o._axes_directions = np.zeros((dim, dim, 3))
    o._axes_lengths = np.ones((dim, 3))
    o._axes_directions[:, :, 0], o._axes_lengths[:, 0] = R, 2 * f * std
    # position and inner point on a line of direction a at distance h of the center of the circle
    a, b = t.ortho_pair("a", dim).T
    h, w = 0.5 * t.unit("h", 2)
    t.assume(w >= 0.05)
    start = t.real("start", -0.9, 0.9)
    r = t.real("r", 0.05, 10)
    inner = h * b + start * w * a
    pos = inner + r * a
    q = o.project_point_on_surface_with_offcenter_point(o.transform_position_from_unitcircle_frame(pos, 0), o.transform_position_from_unitcircle_frame(inner, 0), 0)
    t.close("surface on the ray", q, o.transform_position_from_unitcircle_frame(h * b + w * a, 0))


def graph(t, parents):
    """hierarchy from the root, whose place in it is the first one"""
    g = t.mod("nonlinear_avoidance.graph_handler").GraphHandler()
    todo = [parents.index(None)]
    g.set_root(todo[0])
    while todo:
        p = todo.pop(0)
        for i, q in enumerate(parents):
            if q == p:
                g.add_element_with_parent(value=i, parent_value=p)
                todo.append(i)
    return g


@harness([N + "evaluate_gamma_weights"], "1-3 components of any distance values and occlusion factors in [0, 1]", cases=[1, 2, 3])
def weights_of_components(t, n):
    o = gmm(t, [t.np.zeros(2)] * n)
    g = [t.real(f"g{i}", 0, 10) for i in range(n)]
    f = t.vec("f", n, 0, 1)
    x = t.vec("x", 2, -5, 5)
    asked = []

    def gamma(position, index):
        asked.append(position)
        return g[index]

    o.get_gamma_proportional = gamma
    o.get_obstacle_occlusion_factor = lambda position: f
    o.evaluate_gamma_weights(x)
    w = o.relative_weights
    for p in asked:
        t.close("at the position", p, x)
    inside = [i for i in range(n) if t.decide(g[i] <= 1)]
    hidden = [i for i in range(n) if t.decide(f[i] == 0)]
    t.close("sum", t.np.sum(w), 1.0 if inside or len(hidden) < n else 0.0)
    for i in range(n):
        t.check("distance value", o.gamma_list[i] == g[i])
        t.ge("not negative", w[i], 0)
        if inside:
            t.close("shared by those it is in", w[i], 1.0 / len(inside) if i in inside else 0.0)
        elif i in hidden:
            t.close("hidden one has none", w[i], 0)
        else:
            for j in range(n):
                t.close("by distance and occlusion", w[i] * f[j] * (g[i] - 1), w[j] * f[i] * (g[j] - 1))


@harness([N + "get_obstacle_occlusion_factor"], "3 components in 4 hierarchies, any distance values at the surface points, any reference points, 4 directions of the parent's center",
         cases=[[None, 0, 0], [None, 0, 1], [1, None, 1], [2, 2, None]], max_paths=3000)
def occlusion(t, parents):
    np = t.np
    ref = t.vec("ref", 2, -5, 5)
    u = np.array([1.0, 0.0])
    r = t.real("r", 0.1, 5)
    root = parents.index(None)
    means = [t.vec(f"m{i}", 2, -5, 5) for i in range(3)]
    kid = [i for i in range(3) if i != root][t.pick("child", [0, 1])]
    p = parents[kid]
    side = t.pick("side", [(1.0, 0.0), (0.6, 0.8), (0.0, 1.0), (-0.6, 0.8), None])
    means[p] = ref + t.real("l", 0.1, 5) * np.array(side) if side is not None else 1.0 * ref
    o = gmm(t, means)
    o.gmm_index_graph = graph(t, parents)
    o._reference_points = np.array([ref] * 3).T
    x = ref + r * u
    g, points, asked = t.real("g", 0.01, 3), {}, []

    def project(position, offcenter_point, index):
        t.close("from the position", position, x)
        t.close("about the reference point", offcenter_point, ref)
        return ("surface", index)

    def gamma(position, index):
        t.check("surface in the parent", position[0] == "surface" and parents[position[1]] == index)
        return g if position[1] == kid else 2.0

    o.project_point_on_surface_with_offcenter_point, o.get_gamma_proportional = project, gamma
    f = o.get_obstacle_occlusion_factor(x)
    for i in range(3):
        t.ge("at least zero", f[i], 0)
        t.le("at most one", f[i], 1)
        if i != kid:
            t.close("not hidden", f[i], 1)
    if side is None or side[0] <= 0 or not t.decide(g < 1):
        t.close("in front, or not covered", f[kid], 1)
    elif side[0] == 1:
        t.close("behind", f[kid], 0)
    else:
        t.check("partly", f[kid] < 1)


@harness([N + "evaluate_hirarchy_and_reference_points"], "1-4 components of any centers (dim 2), any probabilities of each other", cases=[1, 2, 3, 4], max_paths=4000, budget=300)
def hierarchy_of_components(t, n):
    np = t.np
    pts = [[0.0, 0.0], [3.0, 1.0], [1.0, 4.0], [-2.0, 2.0]][:n]
    if n <= 3:
        means = [t.vec(f"m{i}", 2, -5, 5) for i in range(n)]
    else:
        k = t.pick("turn of the list", [0, 1, 2, 3])
        means = [np.array(pts[(i + k) % n]) for i in range(n)]
    asked = []
    P = np.array([[t.real(f"p{i}{j}", 0, 1) for j in range(n)] for i in range(n)])

    def proba(points):
        rows = [[i for i in range(n) if bool(np.all(points[k] == means[i]))][0] for k in range(points.shape[0])]
        return P[rows, :]

    for i in range(n):
        for j in range(i):
            t.assume(means[i][0] - means[j][0] >= 0.1 if n <= 3 else True)
    o = gmm(t, means, predict_proba=proba)
    order, meet = [], {}

    def intersection(indices, **kw):
        i, j = indices
        order.append((i, j))
        meet[i] = np.array([100.0 + i, 100.0 + j])
        return meet[i]

    o.get_intersection_of_ellipses = intersection
    axes = []
    o.evaluate_axes_length_and_direction = lambda: axes.append(1)
    o.evaluate_hirarchy_and_reference_points()
    root, = o.gmm_index_graph.roots
    mid = sum(means[1:], means[0]) / n
    for i in range(n):
        d, e = means[root] - mid, means[i] - mid
        t.le("root is in the middle", d @ d, e @ e)
    t.close("reference of the root", o.get_kernel_point(root), means[root])
    placed = [root]
    t.check("each of the others once", sorted(i for i, _ in order) == [i for i in range(n) if i != root])
    for i, p in order:
        t.check("parent is placed before", p in placed and o.gmm_index_graph.get_parent(i) == p)
        for q in placed:
            t.check("most probable parent", P[i, p] >= P[i, q])
        t.close("reference in the intersection", o.get_kernel_point(i), meet[i])
        placed.append(i)
    if n > 1:
        t.check("axes are known", len(axes) > 0)


@harness([N + "get_root_rotation_direction"], "any root center, position and velocity (dim 2), 3 directions in dim 3; root at any place", cases=[(2, 0), (2, 1), (3, 0)])
def root_direction(t, case):
    dim, root = case
    np = t.np
    o = gmm(t, [np.zeros(dim)] * 2)
    o.gmm_index_graph = graph(t, [None, 0] if root == 0 else [1, None])
    k = t.vec("k", dim, -5, 5)
    o._reference_points = np.zeros((dim, 2))
    o.set_kernel_point(k, root)
    t.close("kernel point", o.get_kernel_point(root), k)
    t.close("other one", o.get_kernel_point(1 - root), np.zeros(dim))
    u = t.unit("u", 2) if dim == 2 else np.array(t.pick("u", [[1.0, 0.0, 0.0], [0.0, -0.6, 0.8], [0.0, 0.0, 1.0]]))
    r, v = t.real("r", 0.01, 5), t.vec("v", dim, -3, 3)
    t.assume(t.np.abs(u @ v) >= 0.001)
    w = o.get_root_rotation_direction(k + r * u, v)
    t.close("velocity is kept at the center", o.get_root_rotation_direction(1.0 * k, v), v)
    if t.decide(u @ v > 0):
        t.close("away: kept", w, v)
    else:
        t.close("towards: around", w, v - (u @ v) * u)


@harness([N + "evalute_weighted_reference_and_normal_offset"], "1 component of any normal less than 87 degrees off its reference; 2 of any weights, each one of 2 references and 2 normals (dim 2)", cases=[1, 2], max_paths=3000, budget=300)
def mean_normal(t, n):
    np = t.np
    m = t.mod(M)
    o = gmm(t, [np.zeros(2)] * n)
    o.gmm_index_graph = graph(t, [None, 0][:n] if n == 1 or t.boolean("first is root") else [1, None])
    root = o.gmm_index_graph.roots[0]
    refs, normals = [], []
    for i in range(n):
        if n == 1:
            r, c = t.unit(f"r{i}", 2), t.unit(f"c{i}", 2)
            t.assume(c[0] >= 0.05)
        else:
            r = np.array(t.pick(f"r{i}", [[1.0, 0.0], [-0.6, 0.8]]))
            c = np.array(t.pick(f"c{i}", [[0.6, 0.8], [0.28, -0.96]]))
        refs.append(r)
        normals.append(c[0] * r + c[1] * np.array([-r[1], r[0]]))
    x = t.vec("x", 2, -5, 5)
    w = t.real("w", 0, 1)
    o.relative_weights = np.array([1.0]) if n == 1 else np.array([w, 1 - w])
    e = refs[0] if n == 1 else np.array([1.0, 0.0])
    seen = []

    def total(null_direction, weights, directions):
        seen.append((null_direction, weights, directions))
        return e

    o.get_reference_direction = lambda position, index: 1.0 * refs[index]
    o.get_normal_direction = lambda position, index: 1.0 * normals[index]
    old = m.get_directional_weighted_sum
    m.get_directional_weighted_sum = total
    try:
        o.evalute_weighted_reference_and_normal_offset(x)
    finally:
        m.get_directional_weighted_sum = old
    (null, weights, dirs), = seen
    t.close("about the root", null, refs[root])
    for i in range(n):
        t.check("weights", weights[i] == o.relative_weights[i])
        if t.decide(o.relative_weights[i] > 0):
            t.close("references", dirs[:, i], refs[i])
    t.close("mean reference", o.mean_reference, e)
    if n == 1:
        t.close("unit normal", o.mean_normal @ o.mean_normal, 1)
    t.ge("not inwards", o.mean_normal @ e, 0)
    if n == 1:
        t.close("normal of the single one", o.mean_normal, normals[0])


@harness([N + "get_intersection_of_ellipses"], "2 components of any centers along an axis or the same; 3 gradients each; 0-2 steps", cases=[0, 1, 2])
def descent_between_components(t, steps):
    np = t.np
    a, d = t.vec("a", 2, -5, 5), t.real("d", 0.1, 5)
    o = gmm(t, [np.zeros(2), a + np.array([d, 0.0]), a])
    grads = {1: np.array(t.pick("g1", [[2.0, 0.0], [0.0, 1.0], [-3.0, 4.0]])), 2: np.array(t.pick("g2", [[-1.0, 0.0], [31.0, 0.0], [3.0, 4.0]]))}
    o.get_gamma_derivative = lambda position, index, power=1: 1.0 * grads[index]
    p = o.get_intersection_of_ellipses([1, 2], it_max=steps)
    mid = a + np.array([0.5 * d, 0.0])
    g = grads[1] + grads[2]
    t.close("down the gradient", (p - mid)[0] * g[1], (p - mid)[1] * g[0])
    t.ge("downwards", (mid - p) @ g, 0)
    if not steps:
        t.close("starts between the centers", p, mid)
    t.close("centers stay", o.get_center_position(2), a)
    t.close("same center", gmm(t, [a, 1.0 * a]).get_intersection_of_ellipses([0, 1], it_max=steps), a)


@harness([N + "transform_to_analytic_ellipses"], "1-2 components of any centers, sizes and axes as numpy gives them (dim 2); dim 3 is refused", cases=[1, 2])
def ellipses_of_components(t, n):
    np = t.np
    m = t.mod(M)
    means = [t.vec(f"m{i}", 2, -5, 5) for i in range(n)]
    o = gmm(t, means)
    dirs, size = [], [t.vec(f"size{i}", 2, 0.1, 5) for i in range(n)]
    for i in range(n):
        c = t.unit(f"c{i}", 2)
        # numpy's eigenvectors of a symmetric 2x2 matrix: a reflection (or the identity)
        dirs.append(np.array([[c[0], c[1]], [c[1], -c[0]]]) if t.boolean(f"reflection{i}") else np.eye(2))
    given = t.boolean("evaluated before")
    calls = []

    def evaluate():
        calls.append(1)
        o._axes_lengths, o._axes_directions = np.array(size).T, np.stack(dirs, axis=2) if hasattr(np, "stack") else None

    o.evaluate_axes_length_and_direction = evaluate
    if given:
        evaluate()
    made = []

    class Oval:
        def __init__(self, center_position=None, orientation=None, axes_length=None, **kw):
            self.c, self.a, self.l = center_position, orientation, axes_length
            made.append(self)

    old = m.Ellipse, m.ObstacleContainer
    m.Ellipse, m.ObstacleContainer = Oval, list
    try:
        c = o.transform_to_analytic_ellipses()
    finally:
        m.Ellipse, m.ObstacleContainer = old
    t.check("one each", list(c) == made and len(made) == n and len(calls) == 1)
    for i, e in enumerate(made):
        t.close("center", e.c, means[i])
        t.close("axes", e.l, size[i])
        u = np.array([t.math.cos(e.a), t.math.sin(e.a)])
        t.close("first axis", u[0] * dirs[i][1, 0], u[1] * dirs[i][0, 0])
    t.raises("flat only", NotImplementedError, lambda: gmm(t, [np.zeros(3)]).transform_to_analytic_ellipses())
