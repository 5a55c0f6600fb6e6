"""C19 learning from demonstrations: what is recorded is what is learned from, and the tree of learned gaussians."""
import itertools
import types

from symx.harness import harness

N = "nonlinear_avoidance."
G = "nonlinear_avoidance/gmm_learner/"
DG = G + "learner/directional_gmm.py:DirectionalGMM."
GP = G + "learner/gpr_directional.py:DirectionalGPR."
SV = G + "learner/svr_directional.py:DirectionalSVR."
LB = G + "learner/base.py:Learner."
GR = G + "graph.py:GraphGMM."
MODULES = {"gmm": "directional_gmm", "gpr": "gpr_directional", "svr": "svr_directional"}
NAMES = {"gmm": "DirectionalGMM", "gpr": "DirectionalGPR", "svr": "DirectionalSVR"}


class Patched:
    def __init__(self, module, **names):
        self.module, self.names, self.old = module, names, {}

    def __enter__(self):
        for k, v in self.names.items():
            self.old[k] = getattr(self.module, k)
            self.module.__dict__[k] = v

    def __exit__(self, *a):
        self.module.__dict__.update(self.old)


class Records:
    """what a mat-file holds: one matrix of positions and velocities per demonstration"""

    def __init__(self, demos):
        self.demos, self.shape = demos, (1, len(demos))

    def __getitem__(self, k):
        assert k[0] == 0
        return self.demos[k[1]]


class Np:
    def __init__(self, np, rows):
        self._np = np
        self.random = types.SimpleNamespace(choice=lambda n, size=None, replace=True: rows)

    def __getattr__(self, name):
        return getattr(self._np, name)


def demonstrations(t, lengths):
    """demonstrations of positions P and velocities V"""
    np = t.np
    demos = []
    for k, n in enumerate(lengths):
        d = np.zeros((4, n))
        for i in range(n):
            d[:2, i] = t.vec(f"p{k}{i}", 2, -5, 5)
            d[2:, i] = t.vec(f"v{k}{i}", 2, -2, 2)
        demos.append(d)
    return demos


def load(t, kind, demos, rows=None, **kw):
    m = t.mod(N + "gmm_learner.learner." + MODULES[kind])
    L = getattr(m, NAMES[kind])(directory_name="here", file_name="these")
    seen, asked = [], []

    def loadmat(name):
        asked.append(name)
        return {"data": Records(demos)}

    def directions_of(directions, positions=None, func_vel_default=None, **rest):
        n = directions.shape[1]
        seen.append([(directions[:, i], positions[:, i], func_vel_default(positions[:, i])) for i in range(n)])
        return t.np.array([[100.0 + i for i in range(n)]])

    io = types.SimpleNamespace(io=types.SimpleNamespace(loadmat=loadmat))
    names = dict(scipy=io, get_angle_space_of_array=directions_of)
    if rows is not None:
        names["np"] = Np(m.np, t.np.array(rows))
    with Patched(m, **names):
        L.load_data_from_mat(**kw)
    t.check("the file", asked == ["here/" + kw.get("file_name", "these")])
    (triples,) = seen
    return L, triples


@harness([DG + "load_data_from_mat", GP + "load_data_from_mat", SV + "load_data_from_mat"],
         "2 demonstrations of 2 and 3 samples, or 1 of 2, of any positions and velocities; attractor from the demonstrations, or any given one",
         cases=[(k, d, g) for k in MODULES for d in ((2, 3), (2,)) for g in (False, True) if k != "gpr" or not g])
def recordings_are_learned_from(t, case):
    kind, lengths, given = case
    np = t.np
    demos = demonstrations(t, lengths)
    for d in demos:
        for i in range(d.shape[1]):
            t.assume(d[2, i] >= 0.1)
    a = t.vec("a", 2, -5, 5)
    L, triples = load(t, kind, demos, **(dict(attractor=a) if given else {}))
    P = [d[:2, i] for d in demos for i in range(d.shape[1])]
    V = [d[2:, i] for d in demos for i in range(d.shape[1])]
    if not given:
        a = sum([d[:2, -1] for d in demos[1:]], demos[0][:2, -1]) / len(demos)
    t.close("attractor", L.pos_attractor, a)
    t.check("all samples", L.pos.shape == (len(P), 2) and L.vel.shape == (len(P), 2) and len(triples) == len(P))
    null = getattr(L.null_ds, "evaluate", L.null_ds)
    for i in range(len(P)):
        t.close("positions", L.pos[i], P[i])
        t.close("velocities", L.vel[i], V[i])
        d, x, n = triples[i]
        t.close("direction of the recorded velocity", d, V[i])
        t.close("at its position", x, P[i])
        t.close("about the default dynamics", n, null(P[i]))
        t.close("features", L.X[i][:2], P[i])
        t.close("target", L.X[i][-1] if kind == "gmm" else L.y[i], 100.0 + i)
        if kind == "gmm" and len(P) == 2:
            s = L.X[i][2:4]
            t.close("in the recorded direction", s[0] * V[i][1], s[1] * V[i][0], 1e-3)
            t.ge("and not opposite", s @ V[i], 0)
            t.le("speed relative to the mean is limited", s @ s, 1.0, 1e-3)
    x = t.vec("x", 2, -5, 5)
    d, n = a - x, null(x)
    t.close("default dynamics leads to the attractor", n[0] * d[1], n[1] * d[0])
    t.ge("and not away", n @ d, 0)


@harness([GP + "load_data_from_mat", SV + "load_data_from_mat"], "2 demonstrations of 2 samples of any positions and velocities, 2 choices of 2-3 samples",
         cases=[(k, r) for k in ("gpr", "svr") for r in ((3, 1), (2, 0, 3))])
def subsample_stays_together(t, case):
    kind, rows = case
    demos = demonstrations(t, (2, 2))
    L, triples = load(t, kind, demos, rows=list(rows), n_samples=len(rows), file_name="others")
    t.check("as many as asked for", L.X.shape == (len(rows), 2) and len(L.y) == len(rows))
    for i, r in enumerate(rows):
        d = demos[r // 2][:, r % 2]
        t.close("features", L.X[i], d[:2])
        t.close("direction", triples[i][0], d[2:])
        t.close("at its position", triples[i][1], d[:2])
        t.close("target", L.y[i], 100.0 + i)


@harness([DG + "load_data_from_mat", GP + "load_data_from_mat", SV + "load_data_from_mat", LB + "predict"],
         "1 demonstration of 2 samples, 2 positions, any velocities up to 150 degrees off the way to its end", cases=list(MODULES), timeout=40)
def perfect_learner_repeats_demonstration(t, kind):
    np = t.np
    m = t.mod(N + "gmm_learner.learner." + MODULES[kind])
    end = np.array(t.pick("end", [[0.0, 0.0], [1.0, -2.0]]))
    r = t.real("r", 0.5, 3)
    u = np.array([0.6, -0.8])
    c = t.unit("c", 2)
    t.assume(c[0] >= -0.8)
    speed = t.real("speed", 0.1, 2)
    v = speed * (c[0] * u + c[1] * np.array([-u[1], u[0]]))
    d = np.zeros((4, 2))
    d[:2, 0], d[2:, 0] = end - r * u, v
    d[:2, 1], d[2:, 1] = end, v
    L = getattr(m, NAMES[kind])(directory_name="here", file_name="these")
    first = []
    original = m.get_angle_space_of_array

    def directions_of(directions, positions=None, func_vel_default=None, **rest):
        a = original(directions=directions[:, :1], positions=positions[:, :1], func_vel_default=func_vel_default, **rest)
        return np.array([[a[0, 0], 0.0]])

    with Patched(m, scipy=types.SimpleNamespace(io=types.SimpleNamespace(loadmat=lambda name: {"data": Records([d])})), get_angle_space_of_array=directions_of):
        L.load_data_from_mat()
    target = L.X[0][-1] if kind == "gmm" else L.y[0]
    L._predict = lambda xx: np.array([[target]])
    w = L.predict(end - r * u)
    t.close("along the recorded velocity", w[0] * v[1], w[1] * v[0], 1e-4)
    t.check("not against it", w @ v > 0)


class Regressor:
    made = []

    def __init__(self, *args, **kw):
        self.args, self.kw, self.data = args, kw, None
        self.support_vectors_ = types.SimpleNamespace(shape=(0, 0))
        Regressor.made.append(self)

    def fit(self, X, y=None):
        self.data = (X, y)
        return self

    def predict(self, X):
        return [x @ x for x in X]


@harness([SV + "fit", SV + "_predict"], "3 samples of any features and targets; any penalty and kernel coefficient, 2 kernels, or the defaults", cases=[False, True])
def support_vectors(t, given):
    np = t.np
    m = t.mod(N + "gmm_learner.learner.svr_directional")
    L = m.DirectionalSVR()
    L.X, L.y = t.mat("X", 3, 2, -5, 5), t.vec("y", 3, -3, 3)
    C, g = t.real("C", 0.1, 100), t.real("gamma", 0.01, 10)
    Regressor.made.clear()
    with Patched(m, SVR=Regressor, time=types.SimpleNamespace(time=lambda: 0.0)):
        L.fit(**(dict(C=C, gamma=g, kernel_type="poly") if given else {}))
    (s,) = Regressor.made
    t.close("features", s.data[0], L.X)
    t.close("targets", s.data[1], L.y)
    if given:
        t.check("parameters", s.kw["C"] == C)
        t.check("parameters", s.kw["gamma"] == g)
        t.check("parameters", s.kw["kernel"] == "poly")
    x = t.mat("x", 2, 2, -5, 5)
    p = L._predict(x)
    t.check("one row each", p.shape == (2, 1))
    for i in range(2):
        t.close("prediction", p[i, 0], x[i] @ x[i])


class Kernel:
    def __init__(self, *args, **kw):
        self.args, self.terms = args + tuple(kw.values()), [self]

    def __add__(self, other):
        k = Kernel()
        k.terms = self.terms + other.terms
        return k


@harness([GP + "fit", GP + "_predict"], "3 samples of any features and targets; any length scales, kernel and noise, or the defaults", cases=[False, True])
def gaussian_process(t, given):
    np = t.np
    m = t.mod(N + "gmm_learner.learner.gpr_directional")
    L = m.DirectionalGPR()
    L.X, L.y = t.mat("X", 3, 2, -5, 5), t.vec("y", 3, -3, 3)
    scale, noise = t.vec("scale", 2, 0.1, 5), t.real("noise", 0.001, 1)
    Regressor.made.clear()

    class Rbf(Kernel):
        pass

    class White(Kernel):
        pass

    class Other(Kernel):
        pass

    with Patched(m, GaussianProcessRegressor=Regressor, RBF=Rbf, WhiteKernel=White, time=types.SimpleNamespace(time=lambda: 0.0)):
        L.fit(**(dict(kernel_parameters=scale, kernel_noise=noise, kernel_type=Other) if given else dict(kernel_type=Rbf)))
    (s,) = Regressor.made
    t.close("features", s.data[0], L.X)
    t.close("targets", s.data[1], L.y)
    k, w = sorted(s.kw["kernel"].terms, key=lambda term: isinstance(term, White))
    t.check("noise", isinstance(w, White))
    if given:
        t.check("kernel", isinstance(k, Other))
        t.close("length scales", k.args[0], scale)
        t.check("noise", w.args[0] == noise)
    else:
        t.close("length scales", k.args[0], np.ones(2))
    x = t.mat("x", 2, 2, -5, 5)
    p = L._predict(x)
    t.check("one row each", p.shape == (2, 1))
    for i in range(2):
        t.close("prediction", p[i, 0], x[i] @ x[i])


@harness([DG + "fit", DG + "regress"], "4 samples of any values in 5 features, 2 ways to split them; 1-2 gaussians", cases=[1, 2])
def mixture_is_of_the_samples(t, n):
    np = t.np
    m = t.mod(N + "gmm_learner.learner.directional_gmm")
    L = m.DirectionalGMM()
    L.X, L.num_samples = t.mat("X", 4, 5, -5, 5), 4
    L.dataset = {"data": Records([np.zeros((4, 2)), np.zeros((4, 2))])}
    train, test = t.pick("split", [([0, 2, 3], [1]), ([3, 1, 0], [2])])
    Regressor.made.clear()
    share = []

    def split(index, test_size):
        share.append(test_size)
        return np.array(train), np.array(test)

    with Patched(m, mixture=types.SimpleNamespace(BayesianGaussianMixture=Regressor), train_test_split=split):
        L.regress(n_gaussian=n, tt_ratio=0.75)
    t.check("share", share == [0.25])
    t.check("as many as asked for", L.dpgmm.kw["n_components"] == n and L.dpgmm.kw["covariance_type"] == "full")
    t.check("of the samples", L.dpgmm.data[0].shape == (3, 5))
    for i, r in enumerate(train):
        t.close("of the samples", L.dpgmm.data[0][i], L.X[r])


def learner(t, base, attractor):
    if not base:
        L = t.mod(N + "gmm_learner.learner.directional_gmm").DirectionalGMM()
    else:
        class Fixed(t.mod(N + "gmm_learner.learner.base").Learner):
            def fit(self):
                pass

            def _predict(self, xx):
                pass

        L = Fixed(null_ds=t.mod("vartools.dynamical_systems").LinearSystem(attractor_position=attractor))
        L.dim = 2
    L.pos_attractor = attractor
    L.null_ds = t.mod("vartools.dynamical_systems").LinearSystem(attractor_position=attractor)
    return L


@harness([LB + "integrate_trajectory", DG + "integrate_trajectory"], "1 start at any place on the way along x to any attractor, constant velocity, 5 steps", cases=[False, True])
def stops_at_attractor(t, base):
    np = t.np
    a = t.vec("a", 2, -5, 5)
    s = t.real("s", 1, 4)
    start = a - np.array([s, 0.0])
    for x in (0.0, 1.0, 2.0, 3.0, 4.0):
        t.assume(t.np.abs(start[0] + x) + t.np.abs(a[1]) >= 0.05)
    L = learner(t, base, a)
    L.predict = lambda x: np.array([1.0, 0.0])
    kw = dict(delta_t=1.0, starting_points=np.array([start]).T)
    T = L.integrate_trajectory(n_steps=5, convergence_margin=0.05, **kw) if base else L.integrate_trajectory(num_steps=5, convergence_err=0.05, **kw)
    here = 1.0 * start
    t.close("start", T[:, 0, 0], start)
    arrived = False
    for k in range(1, 5):
        if not arrived:
            here = here + np.array([1.0, 0.0])
        t.close("goes on until it has arrived, then stays", T[:, k, 0], here)
        gap = s - k
        if k > 1 or base:
            arrived = arrived or t.decide(t.np.abs(gap) < 0.05)


def graph(t, n, attractor=None):
    m = t.mod(N + "gmm_learner.graph")
    learner = types.SimpleNamespace(dpgmm=types.SimpleNamespace(covariances_=t.np.zeros((n, 5, 5)), means_=t.np.zeros((n, 5)), covariance_type="full"),
                                    dim_space=2, pos_attractor=attractor, pos=t.np.zeros((2, 2)), load_data_from_mat=lambda **kw: None, regress=lambda **kw: None)
    with Patched(m, DirectionalGMM=lambda: learner):
        o = m.GraphGMM(file_name="", n_gaussian=n)
    o._convergence_dynamics = []
    return o


@harness([GR + "create_graph_from_gaussians", GR + "_get_assigned_elements", GR + "number_of_branches"],
         "1-3 gaussians of any end points and attractor, any weights of each other; 4 at fixed end points, of any order of preferences; 5 of any first preference", cases=[1, 2, 3, 4, 5], max_paths=6000, budget=400)
def tree_of_gaussians(t, n):
    np = t.np
    a = t.vec("a", 2, -5, 5) if n < 4 else np.zeros(2)
    o = graph(t, n, a)
    ends = [t.vec(f"e{i}", 2, -5, 5) for i in range(n)] if n < 4 else [np.array([float((i - 1) % n), 0.0]) for i in range(n)]
    W = np.array([[t.real(f"w{i}{j}", 0, 1) for j in range(n)] for i in range(n)])
    if n == 4:
        # any order of preference (the one of the root does not matter)
        W[1] = [0.3, 1.0, 0.2, 0.1]
        for i in (0, 2, 3):
            high, low = t.real(f"high{i}", 0.5, 1), t.real(f"low{i}", 0, 0.5)
            t.assume(high - low >= 0.01)
            for j, w in zip(t.pick(f"order{i}", [list(q) for q in itertools.permutations([j for j in range(4) if j != i])]), (high, low + 0.5 * (high - low), low)):
                W[i, j] = w
    if n == 5:
        W[1] = [0.3, 1.0, 0.2, 0.1, 0.4]
        for i in (0, 2, 3, 4):
            W[i] = [0.1, 0.15, 0.2, 0.25, 0.3]
            W[i, t.pick(f"first{i}", [j for j in range(5) if j != i])] = t.real(f"high{i}", 0.5, 1)
    first = [None if n == 1 else max((j for j in range(n) if j != i), key=lambda j: W[i, j]) if n > 3 else None for i in range(n)]
    asked = []

    def weights(X, weight_factor, feat_in, feat_out):
        asked.append((X, feat_in))
        return W.T

    o._Learner.get_mixing_weights = weights
    o.get_end_point = lambda it: ends[it]
    o.create_graph_from_gaussians()
    ((X, feat),) = asked
    t.check("weights of the positions", list(feat) == [0, 1])
    for i in range(n):
        t.close("weights of the end points", X[i], ends[i])
        t.close("end points", o._end_points[:, i], ends[i])
    root = o._graph_root
    for i in range(n):
        d, e = ends[root] - a, ends[i] - a
        t.le("root is closest to the attractor", d @ d, e @ e)
    parent = [int(o.get_parent(i)) for i in range(n)]
    t.check("root has no parent", parent[root] == -1)
    for i in range(n):
        t.check("children", sorted(int(c) for c in o.get_children(i)) == [c for c in range(n) if parent[c] == i])
        seen, j = [], i
        while j != root and j not in seen:
            seen.append(j)
            j = parent[j]
        t.check("leads to the root", j == root)
    for i in range(n):
        seen, j = [], i
        while n > 3 and j != root and j not in seen:
            seen.append(j)
            j = first[j]
        if j == root and i != root and n > 3:
            t.check("hangs on the preferred one", parent[i] == first[i])
    rest = [i for i in range(n) if i != root]
    if n == 2:
        t.check("hangs on the root", parent[rest[0]] == root)
    if n == 3:
        for i, j in (rest, rest[::-1]):
            if t.decide(W[i, root] >= W[i, j]):
                if t.decide(W[i, root] > W[i, j]):
                    t.check("hangs on the preferred one", parent[i] == root)
            elif t.decide(W[j, root] > W[j, i]):
                t.check("hangs on the preferred one", parent[i] == j)
            elif t.decide(W[j, root] < W[j, i]) and t.decide(W[i, root] > W[j, root]):
                t.check("stronger tie to the root", parent[i] == root and parent[j] == i)
    t.check("dead ends", int(o.number_of_branches) == sum(1 for i in range(n) if i not in parent))



class Stub:
    """another module with some names replaced"""

    def __init__(self, base, **names):
        self.__dict__.update(names)
        self._base = base

    def __getattr__(self, name):
        return getattr(self._base, name)


def symmetric(t, name, dim_all=5):
    """covariance of the position as numpy decomposes it: (matrix, axes, deviations)"""
    np = t.np
    c = t.unit(name, 2)
    R = np.array([[c[0], c[1]], [c[1], -c[0]]]) if t.boolean(name + " is turned") else np.eye(2)
    std = t.vec(name + "std", 2, 0.2, 3)
    cov = np.zeros((dim_all, dim_all))
    cov[:2, :2] = R @ np.diag(std * std) @ R.T
    for i in range(2, dim_all):
        cov[i, i] = 1.0
    cov[0, 2] = cov[2, 0] = 0.5
    return cov, R, std


@harness([GR + "get_end_point"], "any center, deviations, axes as numpy gives them, and mean direction (dim 2)", cases=[0, 1], timeout=40)
def end_point_is_downstream(t, it):
    np = t.np
    m = t.mod(N + "gmm_learner.graph")
    o = graph(t, 2)
    cov, R, std = symmetric(t, "c")
    center, angle = t.vec("m", 2, -5, 5), t.real("angle", -3, 3)
    o._Learner.dpgmm.covariances_ = np.array([cov, cov] if it == 0 else [np.eye(5) * 9.0, cov])
    o._Learner.dpgmm.means_[it, :2], o._Learner.dpgmm.means_[it, 2:4], o._Learner.dpgmm.means_[it, 4] = center, [0.7, -0.4], angle
    default = t.vec("default", 2, -2, 2)
    local = t.unit("u", 2)
    u = R @ local

    def evaluate(position):
        t.close("default dynamics at the center", position, center)
        return default

    def inverse(dir_angle_space, null_direction):
        t.close("mean direction", dir_angle_space, np.array([angle]))
        t.close("about the default dynamics", null_direction, default)
        return 1.0 * u

    o._Learner.null_ds = types.SimpleNamespace(evaluate=evaluate)
    np_ = Stub(m.np, linalg=Stub(m.np.linalg, eigh=lambda a: (std * std, R)))
    with Patched(m, get_angle_space_inverse=inverse, np=np_):
        e = o.get_end_point(it)
    d = e - center
    t.close("along the mean velocity", d[0] * u[1], d[1] * u[0])
    t.check("not against it", d @ u > 0)
    q = (R.T @ d) / std
    t.close("on its ellipse", q @ q, 2, 1e-4)


class Place:
    is_boundary = True
    n_obstacles = 0

    def __init__(self, t, center, attractor, gamma):
        self.t, self.center_position, self.attractor, self.gamma, self.asked = t, center, attractor, gamma, []

    def get_gamma(self, position, in_global_frame=False, relative_gamma=True):
        self.t.check("in the global frame", in_global_frame is True)
        self.t.close("of the attractor", position, self.attractor)
        return self.gamma

    def get_intersection_with_surface(self, edge_point, direction, in_global_frame=False):
        self.t.check("in the global frame", in_global_frame is True)
        self.asked.append((edge_point, direction))
        return self.center_position + 100.0

    def get_reference_length(self):
        return 1.0


@harness([GR + "_get_local_attractor", GR + "set_convergence_directions"],
         "3 gaussians in 3 trees, any centers and end points, attractor in any of them or none; dynamics set before or not",
         cases=[(-1, 0, 1), (1, -1, 1), (2, 2, -1)], max_paths=2000)
def each_gaussian_leads_to_its_parent(t, parents):
    np = t.np
    m = t.mod(N + "gmm_learner.graph")
    a = t.vec("a", 2, -5, 5)
    o = graph(t, 3, a)
    g = [t.real(f"g{i}", 0, 2) for i in range(3)]
    places = [Place(t, t.vec(f"m{i}", 2, -5, 5), a, g[i]) for i in range(3)]
    o._obstacle_list, o._parent_array = list(places), np.array(parents)
    o._end_points = t.mat("e", 2, 3, -5, 5)
    n = t.pick("dynamics before", [0, 2, 3])
    o._convergence_dynamics = [None] * n if t.boolean("unset") else [types.SimpleNamespace(attractor_position=np.zeros(2)) for i in range(n)]
    with Patched(m, get_angle_space=lambda direction, null_direction: np.zeros(1)):
        o.set_convergence_directions(types.SimpleNamespace(attractor_position=a))
    t.check("one each", len(o._convergence_dynamics) == 3)
    for i, p in enumerate(places):
        goal = o._convergence_dynamics[i].attractor_position
        if t.decide(g[i] >= 1):
            t.close("to the attractor when it is inside", goal, a)
            continue
        t.close("to the surface", goal, p.center_position + 100.0)
        for edge, direction in p.asked:
            t.close("from the end point", edge, o._end_points[:, i])
            to = (a if parents[i] < 0 else places[parents[i]].center_position) - p.center_position
            t.close("towards the parent", direction[0] * to[1], direction[1] * to[0])
            t.ge("and not away", direction @ to, 0)


@harness([GR + "__init__", GR + "create_learned_boundary", GR + "append", GR + "n_gaussians", GR + "n_components", GR + "evaluate", GR + "predict", GR + "positions",
          GR + "attractor_position", GR + "convergence_attractor", GR + "null_ds"],
         "2 gaussians of any center, deviations and axes as numpy gives them; any size factor, attractor and learned velocity", cases=[None])
def boundary_of_gaussians(t):
    np = t.np
    m = t.mod(N + "gmm_learner.graph")
    parts = [symmetric(t, "c"), (np.diag([4.0, 1.0, 1.0, 1.0, 1.0]), np.eye(2), np.array([2.0, 1.0]))]
    centers = t.mat("m", 2, 2, -5, 5)
    a, v, f = t.vec("a", 2, -5, 5), t.vec("v", 2, -2, 2), t.real("factor", 0.5, 4)
    x = t.vec("x", 2, -5, 5)
    made, calls = [], []

    class Learned:
        dim_space, pos_attractor, convergence_attractor = 2, a, False
        pos, null_ds = np.zeros((7, 2)), "default"

        def load_data_from_mat(self, file_name):
            calls.append(("load", file_name))

        def regress(self, n_gaussian):
            calls.append(("regress", n_gaussian))
            self.dpgmm = types.SimpleNamespace(covariances_=np.array([q[0] for q in parts]), covariance_type="full",
                                               means_=np.array([[centers[i, 0], centers[i, 1], 0.1, 0.2, 0.5] for i in range(2)]))

        def predict(self, position):
            t.close("at the position", position, x)
            return v

    class Oval:
        def __init__(self, center_position, orientation, axes_length, is_boundary=False):
            self.center_position, self.orientation, self.axes_length, self.is_boundary = center_position, orientation, axes_length, is_boundary
            made.append(self)

    def eigh(matrix):
        k = sum(1 for c in calls if c[0] == "eigh")
        calls.append(("eigh", k))
        t.close("matrix of the gaussian", matrix, parts[k][0][:2, :2])
        return parts[k][2] * parts[k][2], parts[k][1]

    graphs = []
    old = m.GraphGMM.create_graph_from_gaussians
    m.GraphGMM.create_graph_from_gaussians = lambda self: graphs.append(len(self._obstacle_list))
    try:
        with Patched(m, DirectionalGMM=Learned, Ellipse=Oval, np=Stub(m.np, linalg=Stub(m.np.linalg, eigh=eigh))):
            o = m.GraphGMM(file_name="these", n_gaussian=2)
            t.check("learned from the file", calls == [("load", "these"), ("regress", 2)])
            o.create_learned_boundary(oversize_factor=f)
    finally:
        m.GraphGMM.create_graph_from_gaussians = old
    t.check("tree of all", graphs == [2])
    t.check("as many", o.n_gaussians == 2 and o.n_components == 2 and len(made) == 2 and o.n_obstacles == 2)
    for i in range(2):
        e = o[i]
        t.check("boundary", e.is_boundary is True)
        t.close("center", e.center_position, centers[i])
        t.close("axes length", e.axes_length, 1.4142135623730951 * f * parts[i][2], 1e-4)
        R = parts[i][1]
        t.close("orientation", np.sin(e.orientation) * R[0, 0], np.cos(e.orientation) * R[1, 0], 1e-4)
    t.close("learned velocity", o.evaluate(x), v)
    t.close("attractor", o.attractor_position, a)
    t.check("samples", o.positions.shape == (7, 2) and o.null_ds == "default")
    o.convergence_attractor = True
    t.check("switch", o._Learner.convergence_attractor is True and o.convergence_attractor is True)
