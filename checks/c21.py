"""C21 what is drawn is what was computed: trajectories, fields, ellipses and graphs."""
import types

from checks.helpers import alike
from symx.harness import harness

V = "nonlinear_avoidance/visualization/"
GV = "nonlinear_avoidance/gmm_learner/visualization/gmm_visualization.py:"
LV = "nonlinear_avoidance/gmm_learner/learner/visualizer.py:"
N = "nonlinear_avoidance."


class Patched:
    def __init__(self, module, **names):
        self.module, self.names, self.old = module, names, {}

    def __enter__(self):
        for k, v in self.names.items():
            self.old[k] = getattr(self.module, k)
            self.module.__dict__[k] = v

    def __exit__(self, *a):
        self.module.__dict__.update(self.old)


class Over:
    """an object with some of its names replaced"""

    def __init__(self, real, **names):
        self._real = real
        self.__dict__.update(names)

    def __getattr__(self, name):
        return getattr(self._real, name)


class Axes:
    """records what is drawn"""
    bbox = "bbox"

    def __init__(self):
        self.calls = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def call(*args, **kw):
            self.calls.append((name, args, kw))
            return self

        return call

    def of(self, name):
        return [(args, kw) for n, args, kw in self.calls if n == name]

    def subplots(self, *args, **kw):
        return Axes(), self

    def subplot(self, *args, **kw):
        return self

    def lines(self):
        return [args[:2] for args, _ in self.of("plot")]


Q = V + "plot_qolo.py:"
QM = N + "visualization.plot_qolo"


@harness([Q + "integrate_with_qolo"], "2D; up to 3 steps of any length, any velocities, any attractor and tolerance, or none",
         cases=["attractor", "none", "drawn"], thorough_cases=["plain"])
def robot_follows_the_velocities(t, case):
    np = t.np
    m = t.mod(QM)
    start, dt = t.vec("start", 2, -5, 5), t.real("dt", 0.01, 1)
    steps = 3 if case == "attractor" else 2
    v = [t.vec(f"v{i}", 2, -3, 3) for i in range(steps)]
    asked = []

    def velocity(position):
        asked.append(1.0 * position)
        return v[len(asked) - 1]

    kw = {}
    if case in ("attractor", "drawn"):
        att, tol = t.vec("attractor", 2, -5, 5), t.real("tolerance", 0.01, 1)
        kw = dict(attractor_position=att, tol_conv=tol)
    ax, robot = Axes(), []
    expected = [start]
    for i in range(steps):
        expected.append(expected[-1] + dt * v[i])

    def plot_qolo(position, direction, ax):
        robot.append((position, direction, ax))

    show = case != "drawn" or t.boolean("show")
    with Patched(m, plot_qolo=plot_qolo):
        p = m.integrate_with_qolo(start, velocity, it_max=steps, dt=dt, ax=None if case == "attractor" else ax, show_qolo=show, **kw)
    n = p.shape[1] - 1
    t.check("runs", 1 <= n <= steps and len(asked) == n)
    for i in range(n + 1):
        t.close("euler step", p[:, i], expected[i])
    for i in range(n):
        t.close("velocity where the robot is", asked[i], expected[i])
    if kw:
        close = [t.decide((att - q) @ (att - q) < tol * tol) for q in expected[1:n + 1]]
        t.check("goes on until it is there", not any(close[:-1]))
        t.check("stops when it is there", close[-1] or n == steps)
    else:
        t.check("all steps", n == steps)
    if case == "attractor":
        return
    path, first = ax.lines()[:2]
    for i in range(n + 1):
        t.close("path", np.array([path[0][i], path[1][i]]), expected[i])
    t.check("path is complete", len(path[0]) == n + 1)
    t.close("start", np.array([first[0], first[1]]), start)
    t.check("robot is shown", len(robot) == (1 if show else 0))
    if show:
        t.close("at the end", robot[0][0], expected[n])
        t.close("in its direction", robot[0][1], v[n - 1])
        t.check("there", robot[0][2] is ax)


@harness([Q + "plot_qolo"], "any position and direction; images of 2 x 4 and 3 x 2", cases=[(2, 4), (3, 2)])
def robot_is_where_it_is(t, shape):
    np = t.np
    m = t.mod(QM)
    p, d = t.vec("position", 2, -5, 5), t.unit("direction", 2)
    k = t.real("speed", 0.1, 3)
    t.assume((d[0] >= 0.01) if t.boolean("right") else (d[0] <= -0.01))
    t.assume((d[1] >= 0.01) if t.boolean("up") else (d[1] <= -0.01))
    turned = []

    def rotate(image, angle, **kw):
        turned.append(angle)
        return "rotated"

    ax = Axes()
    with Patched(m, plt=types.SimpleNamespace(imread=lambda path: np.zeros(shape)), ndimage=types.SimpleNamespace(rotate=rotate)):
        m.plot_qolo(p, k * d, ax)
    (args, kw), = ax.of("imshow")
    t.check("turned image", args[0] == "rotated" and len(turned) == 1)
    a = turned[0] * t.math.pi / 180
    t.close("angle", np.array([t.math.cos(a), t.math.sin(a)]), d, 1e-3)
    x0, x1, y0, y1 = kw["extent"]
    t.close("centered", np.array([x0 + x1, y0 + y1]), 2 * p, 1e-3)
    length, width = 1.2, 1.2 * shape[0] / shape[1]
    cx, sx = (d[0] if d[0] > 0 else -d[0]), (d[1] if d[1] > 0 else -d[1])
    t.close("as wide as the turned one", x1 - x0, cx * length + sx * width, 1e-3)
    t.close("as high as the turned one", y1 - y0, sx * length + cx * width, 1e-3)


K = V + "kmean_plotting.py:"
KM = N + "visualization.kmean_plotting"


@harness([K + "get_grid_points"], "any center and extent, 2-3 points per side", cases=[2, 3])
def grid_covers_the_window(t, n):
    m = t.mod(KM)
    x, y, dx, dy = t.real("x", -5, 5), t.real("y", -5, 5), t.real("dx", 0.1, 3), t.real("dy", 0.1, 3)
    g = m.get_grid_points(x, dx, y, dy, n)
    t.check("all points", g.shape == (2, n * n))
    for i in range(n):
        for j in range(n):
            t.close("columns are x", g[0].reshape(n, n)[i, j], x - dx + 2 * dx * j / (n - 1))
            t.close("rows are y", g[1].reshape(n, n)[i, j], y - dy + 2 * dy * i / (n - 1))


class Strip:
    """region to the left of a vertical line"""

    def __init__(self, t, border):
        self.t, self.border = t, border

    center_position = property(lambda self: self.center)

    def is_inside(self, position, in_global_frame=False):
        return bool(position[0] < self.border) if in_global_frame else False

    def get_normal_direction(self, position, in_global_frame=False):
        return field(self.t, position) if in_global_frame else 0 * position


def field(t, x):
    return t.np.array([2.0 * x[1] + 1.0, 3.0 - x[0]])


class Learner:
    def __init__(self, t, regions, local=None):
        self.t, self.region_obstacles, self.drawn = t, regions, []
        self._dynamics = [local]

    def predict(self, position):
        return field(self.t, position)

    evaluate = predict

    def plot_boundaries(self, ax=None, **kw):
        self.drawn.append(ax)


@harness([K + "plot_region_dynamics", K + "plot_global_dynamics", K + "plot_normals", K + "plot_reference_dynamics"],
         "2 x 2 grid in any window; 1-2 regions with any border", cases=["region", "global", "normals", "reference"])
def field_is_drawn_where_it_is(t, kind):
    np = t.np
    m = t.mod(KM)
    x, y = t.real("x", -5, 5), t.real("y", -5, 5)
    dx, dy = t.real("dx", 0.1, 3), t.real("dy", 0.1, 3)
    border = [t.real(f"border{i}", -6, 9) for i in range(2 if kind == "region" else 1)]
    regions = [Strip(t, b) for b in border]
    ax = Axes()
    lim = [x, x + dx], [y, y + dy]
    learner = Learner(t, regions, types.SimpleNamespace(evaluate_convergence_velocity=lambda p: field(t, p)))
    if kind == "region":
        m.plot_region_dynamics(learner, *lim, n_grid=2, ax=ax)
    elif kind == "global":
        m.plot_global_dynamics(learner, *lim, n_grid=2, ax=ax)
    elif kind == "normals":
        m.plot_normals(ax, regions[0], *lim, n_grid=2)
    else:
        m.plot_reference_dynamics(ax, learner, 0, *lim, n_grid=2)
    (args, _), = ax.of("quiver")
    px, py, vx, vy = args[:4]
    t.check("all points", len(px) == len(py) == len(vx) == len(vy) == 4)
    for k in range(4):
        p = np.array([px[k], py[k]])
        t.close("on the grid", p, np.array([x + (k % 2) * dx, y + (k // 2) * dy]))
        if kind == "global" or any(t.decide(p[0] < b) for b in border):
            t.close("value there", np.array([vx[k], vy[k]]), field(t, p))
        else:
            t.close("nothing outside", np.array([vx[k], vy[k]]), np.zeros(2))
    if kind in ("region", "global"):
        t.check("with its boundaries", len(learner.drawn) == 1 and learner.drawn[0] is ax)


@harness([K + "plot_trajectories"], "2 trajectories of up to 2 steps from any starts; any time step and margin", cases=[None])
def trajectories_follow_the_learner(t):
    np = t.np
    m = t.mod(KM)
    starts, dt, margin = t.mat("S", 2, 2, -5, 5), t.real("dt", 0.01, 1), t.real("margin", 0.01, 1)
    v = [[t.vec(f"v{i}{k}", 2, -2, 2) for k in range(2)] for i in range(2)]
    asked = []

    class Flow:
        data = types.SimpleNamespace(start_positions=starts)

        def evaluate(self, position):
            i = 0 if not asked or (len(asked) == 1 and not alike(position, starts[:, 1])) else 1
            asked.append((i, position))
            return v[i][len([a for a in asked if a[0] == i]) - 1]

    t.assume(starts[0, 1] >= 4)
    t.assume(starts[0, 0] <= 1)
    ax = Axes()
    m.plot_trajectories(ax, Flow(), it_max=2, dt=dt, convergence_margin=margin)
    lines = ax.lines()
    t.check("path and start of each", len(lines) == 4)
    for i in range(2):
        (x, y), (sx, sy) = lines[2 * i], lines[2 * i + 1]
        t.close("start", np.array([sx, sy]), starts[:, i])
        p = [starts[:, i], starts[:, i] + dt * v[i][0], starts[:, i] + dt * (v[i][0] + v[i][1])]
        n = len(x) - 1
        still = [t.decide((b - a) @ (b - a) < margin * margin) for a, b in zip(p[:n], p[1:])]
        t.check("until it rests", n >= 1 and not any(still[:-1]) and (still[-1] or n == 2))
        for k in range(n + 1):
            t.close("path", np.array([x[k], y[k]]), p[k])


class Ellipse:
    made = []

    def __init__(self, xy, width, height, angle=0.0, **kw):
        self.xy, self.width, self.height, self.angle, self.kw = xy, width, height, angle, kw
        Ellipse.made.append(self)

    def set_clip_box(self, box):
        pass

    def set_alpha(self, alpha):
        pass


MPL = types.SimpleNamespace(patches=types.SimpleNamespace(Ellipse=Ellipse))


@harness([GV + "draw_gaussians", LV + "LearnerVisualizer.draw_gaussians"],
         "1-2 gaussians of any means and spread along any axes, of all kinds of covariances, in any 2 of 3 dimensions; single colors or columns of rgb",
         cases=[(f, k) for f in ("function", "learner") for k in ("full", "tied", "diag", "spherical")])
def gaussians_are_ellipses(t, case):
    np = t.np
    how, kind = case
    m = t.mod(N + ("gmm_learner.visualization.gmm_visualization" if how == "function" else "gmm_learner.learner.visualizer"))
    n = 2 if kind in ("full", "diag") else 1
    dims = t.pick("dims", [(0, 1), (2, 0)])
    means = t.mat("means", n, 3, -5, 5)
    cov, spread, axes = [], [], []
    for i in range(n):
        s = t.vec(f"spread{i}", 2, 0.01, 4)
        u = t.unit(f"axis{i}", 2)
        if kind == "diag":
            u = np.array([1.0, 0.0])
            s = t.vec(f"var{i}", 3, 0.01, 4)
            cov.append(s)
            s = np.array([s[dims[0]], s[dims[1]]])
        elif kind == "spherical":
            u = np.array([1.0, 0.0])
            cov.append(s[0])
            s = np.array([s[0], s[0]])
        else:
            w = np.array([[u[0], u[1]], [u[1], -u[0]]])
            c = t.mat(f"C{i}", 3, 3, -1, 1)
            part = s[0] * np.outer(w[:, 0], w[:, 0]) + s[1] * np.outer(w[:, 1], w[:, 1])
            for a in range(2):
                for b in range(2):
                    c[dims[a], dims[b]] = part[a, b]
            cov.append(c)
        spread.append(s)
        axes.append(u)
    asked = []

    def eigh(c):
        i = len(asked)
        asked.append(c)
        s, u = spread[i], axes[i]
        if kind == "spherical":
            return s[0] * np.ones(len(c)), np.eye(len(c))
        t.close("covariance", c, s[0] * np.outer(u, u) + s[1] * np.outer([u[1], -u[0]], [u[1], -u[0]]))
        return s, np.array([[u[0], u[1]], [u[1], -u[0]]])

    gmm = types.SimpleNamespace(n_components=n, covariance_type=kind, means_=means, covariances_=cov[0] if kind == "tied" else np.array(cov))
    colors = t.pick("colors", ["names", "rgb"])
    rgb = np.array([[0.1, 0.5], [0.2, 0.6], [0.3, 0.7]])
    ax = Axes()
    Ellipse.made.clear()
    with Patched(m, np=Over(m.np, linalg=Over(m.np.linalg, eigh=eigh)), mpl=MPL):
        kw = dict(colors=rgb if colors == "rgb" else ["red", "blue"])
        if how == "function":
            m.draw_gaussians(gmm, ax, dims, **kw)
        else:
            L = m.LearnerVisualizer()
            L.varX = None
            L.draw_gaussians(gmm, ax, list(dims), **kw)
    made = list(Ellipse.made)
    t.check("one each", len(made) == n and len(ax.of("add_artist")) == n and len(ax.lines()) == n)
    for i, e in enumerate(made):
        c = np.array([means[i, dims[0]], means[i, dims[1]]])
        t.close("center", np.array([e.xy[0], e.xy[1]]), c)
        t.close("mark", np.array([ax.lines()[i][0], ax.lines()[i][1]]), c)
        for w, s in zip((e.width, e.height), spread[i]):
            t.check("positive", w > 0)
            t.close("size", w * w, 8.0 * s, 1e-3)
        a = e.angle * t.math.pi / 180
        if kind != "spherical":
            t.close("along the axis", t.math.cos(a) * axes[i][1], t.math.sin(a) * axes[i][0], 1e-3)
        if colors == "rgb":
            t.close("color", e.kw["color"], rgb[:, i])
        else:
            t.check("color", e.kw["color"] == kw["colors"][i])


@harness([GV + "draw_obstacle_patches"], "1-2 ellipses of any center, axes and orientation; centers marked or not", cases=[(1, True), (2, True), (2, False)])
def obstacles_are_ellipses(t, case):
    np = t.np
    n, centers = case
    m = t.mod(N + "gmm_learner.visualization.gmm_visualization")
    obs = [types.SimpleNamespace(center_position=t.vec(f"c{i}", 2, -5, 5), axes_length=t.vec(f"a{i}", 2, 0.1, 3), orientation=t.real(f"o{i}", -3, 3))
           for i in range(n)]
    k = t.real("scaling", 0.5, 2)
    ax = Axes()
    Ellipse.made.clear()
    with Patched(m, mpl=MPL):
        m.draw_obstacle_patches(obs, ax, plot_centers=centers, axes_scaling=k, **({} if n == 1 else {"colors": ["red", "blue"]}))
    made = list(Ellipse.made)
    t.check("one each", len(made) == n and len(ax.of("add_artist")) == n and len(ax.lines()) == (n if centers else 0))
    for i, (e, o) in enumerate(zip(made, obs)):
        t.close("center", np.array([e.xy[0], e.xy[1]]), o.center_position)
        t.close("size", np.array([e.width, e.height]), 2 * k * o.axes_length)
        t.close("turned", e.angle * t.math.pi, o.orientation * 180)
        t.check("color", n == 1 or e.kw["color"] == ["red", "blue"][i])
        if centers:
            t.close("mark", np.array([ax.lines()[i][0], ax.lines()[i][1]]), o.center_position)


@harness([LV + "plot_graph_and_gaussians"], "3 gaussians at any centers with any end points, any parents and attractor; drawn into given axes or new ones",
         cases=["given", "new"])
def graph_connects_the_parents(t, how):
    np = t.np
    m = t.mod(N + "gmm_learner.learner.visualizer")
    centers, ends, att = t.mat("C", 3, 2, -5, 5), t.mat("E", 2, 3, -5, 5), t.vec("att", 2, -5, 5)
    parents = [t.pick(f"parent{i}", [-1] + [k for k in range(3) if k != i]) for i in range(2)] + [0]
    low, high = t.real("low", -9, -6), t.real("high", 6, 9)
    learner = types.SimpleNamespace(get_xy_lim_plot=lambda: ([low, high], [low - 1, high + 1]), complementary_color_picker=lambda n_colors: ["red"] * n_colors)
    g = types.SimpleNamespace(_Learner=learner, n_gaussians=3, gmm=types.SimpleNamespace(means_=centers), _end_points=ends, pos_attractor=att,
                              get_parent=lambda i: parents[i])
    own, new, drawn = Axes(), Axes(), []
    elsewhere = Axes()

    class Plt:
        """current axes: those created here, else some others"""
        current = elsewhere

        def figure(self, *a, **k):
            self.current = new
            return "figure"

        def subplot(self, *a, **k):
            return self.current

        def plot(self, *a, **k):
            self.current.plot(*a, **k)

    ax = own if how == "given" else new
    with Patched(m, plt=Plt(), draw_gaussians=lambda gmm, ax, *a, **k: drawn.append((gmm, ax))):
        m.plot_graph_and_gaussians(g, ax=own if how == "given" else None)
    t.check("gaussians", len(drawn) == 1 and drawn[0][0] is g.gmm and drawn[0][1] is ax)
    lines = ax.lines()
    t.check("in the axes", len(lines) == 7 and not elsewhere.calls)
    points = [x for x in lines if len(x[0]) == 3]
    t.check("end points", len(points) == 1)
    t.close("end points", np.array([points[0][0], points[0][1]]), ends)
    pairs = [(np.array([x[0], y[0]]), np.array([x[1], y[1]])) for x, y in lines if len(x) == 2]
    t.check("two lines each", len(pairs) == 6)
    for i in range(3):
        a, b = pairs[2 * i]
        t.close("from the end point", a, ends[:, i])
        t.close("to the center", b, centers[i])
        a, b = pairs[2 * i + 1]
        t.close("from the parent", a, att if parents[i] == -1 else centers[parents[i]])
        t.close("to the center", b, centers[i])
    t.close("window", np.array(ax.of("set_xlim")[0][0][0]), np.array([low, high]))
    t.close("window", np.array(ax.of("set_ylim")[0][0][0]), np.array([low - 1, high + 1]))


@harness([LV + "LearnerVisualizer.get_xy_lim_plot"], "3 positions of any values, any margins", cases=[None])
def window_contains_the_data(t):
    m = t.mod(N + "gmm_learner.learner.visualizer")
    L = m.LearnerVisualizer()
    L.pos = t.mat("P", 3, 2, -5, 5)
    mx, my = t.real("mx", 0, 2), t.real("my", 0, 2)
    lim = L.get_xy_lim_plot(margin_x=mx, margin_y=my)
    for d, margin in ((0, mx), (1, my)):
        lo, hi = lim[d]
        for i in range(3):
            t.le("above the lower limit", lo + margin, L.pos[i, d])
            t.le("below the upper limit", L.pos[i, d], hi - margin)
        t.check("not wider", any(t.decide(lo + margin == L.pos[i, d]) for i in range(3)))
        t.check("not wider", any(t.decide(hi - margin == L.pos[i, d]) for i in range(3)))


@harness([LV + "LearnerVisualizer.plot_vectorfield_and_integration", LV + "LearnerVisualizer.plot_relative_direction",
          LV + "LearnerVisualizer.plot_vector_field_weights"],
         "2 x 2 grid in any window; any predictions, weights of 2 gaussians and directions", cases=["field", "weights", "direction"])
def fields_of_the_learner(t, kind):
    np = t.np
    m = t.mod(N + "gmm_learner.learner.visualizer")
    asked = []
    weights, path = t.mat("W", 2, 4, 0, 1), t.mat("T", 2, 2, -5, 5)
    direction = t.mat("D", 4, 1, -3, 3)

    class L(m.LearnerVisualizer):
        n_gaussians = 2

        def predict_array(self, x):
            asked.append(x)
            return np.array([field(t, x[:, i]) for i in range(x.shape[1])]).T

        def integrate_trajectory(self):
            return path.reshape(2, 2, 1)

        def get_mixing_weights(self, X, **kw):
            asked.append(X.T)
            return weights

        def _predict(self, X):
            asked.append(X.T)
            return direction

    learner = L()
    learner.pos = t.mat("P", 2, 2, -5, 5)
    x, y, dx, dy = t.real("x", -5, 5), t.real("y", -5, 5), t.real("dx", 0.1, 3), t.real("dy", 0.1, 3)
    ax = Axes()
    if kind == "field":
        lo, hi = [x, y], [x + dx, y + dy]
        shown = lo, hi
        with Patched(m, plt=ax):
            learner.plot_vectorfield_and_integration(n_grid=2, x_range=[x + 1, x + dx - 1], y_range=[y + 1, y + dy - 1])
    elif kind == "weights":
        colors = np.array([[1.0, 0.0], [0.0, 0.5], [0.25, 1.0]])
        with Patched(m, plt=ax):
            learner.plot_vector_field_weights(n_grid=2, xlim=[x, x + dx], ylim=[y, y + dy], colorlist=colors)
    else:
        learner.plot_vectorfield_and_integration = lambda **kw: None
        with Patched(m, plt=ax):
            learner.plot_relative_direction(n_grid=2, xlim=[x, x + dx], ylim=[y, y + dy])
    grid = [np.array([x + (k % 2) * dx, y + (k // 2) * dy]) for k in range(4)]
    for q in asked:
        for k in range(4):
            t.close("asked on the grid", q[:, k], grid[k])
    if kind in ("field", "weights"):
        (args, _), = ax.of("streamplot")
        for k in range(4):
            i = k // 2, k % 2
            t.close("arrow on the grid", np.array([args[0][i], args[1][i]]), grid[k])
            t.close("arrow of the prediction", np.array([args[2][i], args[3][i]]), field(t, grid[k]))
    if kind == "field":
        for i in range(2):
            t.close("data", np.array([ax.lines()[0][0][i], ax.lines()[0][1][i]]), learner.pos[i])
            t.close("integrated", np.array([ax.lines()[2][0][i], ax.lines()[2][1][i]]), path[:, i])
    elif kind == "weights":
        (args, kw), = ax.of("imshow")
        t.check("upright", kw["origin"] == "lower")
        t.close("window", np.array(kw["extent"]), np.array([x, x + dx, y, y + dy]))
        for k in range(4):
            w = weights[:, k]
            t.close("mixture of the colors", args[0][k // 2, k % 2], 1.0 + w[0] * (colors[:, 0] - 1.0) + w[1] * (colors[:, 1] - 1.0))
    else:
        (args, _), = ax.of("contourf")
        for k in range(4):
            i = k // 2, k % 2
            t.close("on the grid", np.array([args[0][i], args[1][i]]), grid[k])
            t.close("direction there", args[2][i], direction[k, 0])
        (lim, _), = ax.of("clim")
        t.close("symmetric", lim[0], -1.0 * lim[1])
        for k in range(4):
            t.le("within the colors", direction[k, 0], lim[1])
            t.le("within the colors", lim[0], direction[k, 0])


@harness([LV + "LearnerVisualizer.plot_position_data", LV + "plot_position_data"], "2 positions of any values; window given or not", cases=[None])
def data_is_drawn(t):
    np = t.np
    m = t.mod(N + "gmm_learner.learner.visualizer")
    L = m.LearnerVisualizer()
    L.pos = t.mat("P", 2, 2, -5, 5)
    own, new = Axes(), Axes()
    given = t.boolean("window")
    lim = [t.real("x0", -9, 0), t.real("x1", 1, 9)], [t.real("y0", -9, 0), t.real("y1", 1, 9)]
    ax = own if t.boolean("axes") else None
    with Patched(m, plt=new):
        L.plot_position_data(ax=ax, **(dict(x_lim=lim[0], y_lim=lim[1]) if given else {}))
    drawn = new if ax is None else own
    (x, y), = drawn.lines()
    for i in range(2):
        t.close("position", np.array([x[i], y[i]]), L.pos[i])
    t.check("not elsewhere", ax is None or not new.lines())
    if not given:
        lim = L.get_xy_lim_plot()
    for d, name in enumerate(("set_xlim", "set_ylim")):
        t.close("window", np.array(drawn.of(name)[0][0][0]), np.array(lim[d]))


@harness([LV + "plot_obstacle_wall_environment"], "2 rooms with any boundary points, centers, local attractors and end points; window given or not", cases=[True, False])
def rooms_are_cut_out_of_the_wall(t, given):
    np = t.np
    m = t.mod(N + "gmm_learner.learner.visualizer")
    lim = [t.real("x0", -9, 0), t.real("x1", 1, 9)], [t.real("y0", -9, 0), t.real("y1", 1, 9)]
    drawn = []

    class Room:
        def __init__(self, i):
            self.i = i
            self.edge, self.center_position = t.mat(f"B{i}", 2, 3, -5, 5), t.vec(f"c{i}", 2, -5, 5)

        def draw_obstacle(self, **kw):
            drawn.append(self)
            self.boundary_points_global_closed = self.edge

    class Polygon:
        def __init__(self, points, zorder=0, **kw):
            self.points, self.zorder = points, zorder

        def set_color(self, color):
            self.color = color

    rooms = [Room(i) for i in range(2)]
    local, ends, att = t.mat("L", 2, 2, -5, 5), t.mat("E", 2, 2, -5, 5), t.vec("att", 2, -5, 5)
    learner = types.SimpleNamespace(pos=t.mat("P", 2, 2, -5, 5), get_xy_lim_plot=lambda: lim)
    g = types.SimpleNamespace(_Learner=learner, _obstacle_list=rooms, _end_points=ends, pos_attractor=att, get_level_numbers=lambda: [3, 5],
                              _get_local_attractor=lambda it_obs: local[it_obs])
    ax = Axes()
    with Patched(m, plt=types.SimpleNamespace(Polygon=Polygon)):
        m.plot_obstacle_wall_environment(g, ax=ax, plot_local_attractor_construction=True, **(dict(x_lim=lim[0], y_lim=lim[1]) if given else {}))
    patches = [a[0] for a, _ in ax.of("add_patch")]
    t.check("wall and rooms", len(patches) == 3 and drawn == rooms)
    wall = patches[0]
    for d in range(2):
        for corner in wall.points:
            t.check("corner of the window", t.decide(corner[d] == lim[d][0]) or t.decide(corner[d] == lim[d][1]))
    t.close("window", np.array([wall.points[k, 0] for k in range(4)]), np.array([lim[0][0], lim[0][1], lim[0][1], lim[0][0]]))
    t.close("window", np.array([wall.points[k, 1] for k in range(4)]), np.array([lim[1][0], lim[1][0], lim[1][1], lim[1][1]]))
    for r, p in zip(rooms, patches[1:]):
        t.close("room", p.points, r.edge.T)
        t.check("in front of the wall", p.zorder > wall.zorder)
        t.check("not as the wall", bool(np.any(p.color != wall.color)))
    marks = ax.lines()
    for i, r in enumerate(rooms):
        edge, center, star, end, line = marks[5 * i:5 * i + 5]
        t.close("boundary", np.array([edge[0], edge[1]]), r.edge)
        t.close("center", np.array([center[0], center[1]]), r.center_position)
        t.close("local attractor", np.array([star[0], star[1]]), local[i])
        t.close("end point", np.array([end[0], end[1]]), ends[:, i])
        t.close("from the end point to the attractor", np.array([line[0], line[1]]), np.array([ends[:, i], local[i]]).T)
        (args, kw) = ax.of("annotate")[i]
        t.check("level", args[0] == "35"[i])
    t.close("attractor", np.array([marks[10][0], marks[10][1]]), att)
    t.close("data", np.array([marks[11][0], marks[11][1]]), learner.pos.T)
    for d, name in enumerate(("set_xlim", "set_ylim")):
        t.close("limits", np.array(ax.of(name)[0][0][0]), np.array(lim[d]))
