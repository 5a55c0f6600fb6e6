"""C14 evaluation of trajectories: simulated runs and their metrics."""
import json
import os
import tempfile

from symx.harness import harness

C = "nonlinear_avoidance/comparison/"
M = "nonlinear_avoidance.comparison."
FILES = ["evaluation_trajectories", "evaluation_trajectories_with_std"]


def F(*names):
    return [C + f + ".py:" + n for f in FILES for n in names]


@harness(F("normalize_velocities"), "1-3 columns of dim 2 or 3, any of them zero; both evaluation modules", cases=[(f, d, n) for f in FILES for d, n in ((2, 2), (3, 3))])
def unit_velocities(t, case):
    f, dim, n = case
    np = t.np
    m = t.mod(M + f)
    units, V = [], np.zeros((dim, n))
    for i in range(n):
        if t.boolean(f"moves{i}"):
            u = t.unit(f"u{i}", dim)
            V[:, i] = t.real(f"k{i}", 0.01, 10) * u
            units.append(u)
    if not units:
        t.raises("no velocity", ValueError, lambda: m.normalize_velocities(V))
        return
    U = m.normalize_velocities(V)
    t.check("moving columns only", U.shape == (dim, len(units)))
    for i, u in enumerate(units):
        t.close("direction", U[:, i], u, 1e-4)


@harness(F("mean_squared_error_to_path"), "2 positions at any distance in any direction from any center, any radius; both evaluation modules", cases=FILES)
def error_to_path(t, f):
    np = t.np
    m = t.mod(M + f)
    c, R = t.vec("c", 2, -5, 5), t.real("R", 0.1, 5)
    r = t.vec("r", 2, 0, 10)
    P = np.zeros((2, 2))
    for i in range(2):
        P[:, i] = c + r[i] * t.unit(f"u{i}", 2)
    e = m.mean_squared_error_to_path(P, c, R)
    t.close("mean of the distances", e, (abs(r[0] ** 2 - R ** 2) + abs(r[1] ** 2 - R ** 2)) / 2, 1e-3)
    t.check("not negative", e >= -1e-9)
    on = np.array([c + R * t.unit("v", 2)]).T
    t.close("zero on the path", m.mean_squared_error_to_path(on, c, R), 0.0)


@harness(F("mean_squared_acceleration"), "4-5 positions, dim 2, under any constant acceleration (or none), any time step; any 3 positions; both evaluation modules",
         cases=[(f, n) for f in FILES for n in (4, 5)])
def acceleration(t, case):
    f, n = case
    np = t.np
    m = t.mod(M + f)
    x, v, a, h = t.vec("x", 2, -5, 5), t.vec("v", 2, -2, 2), t.vec("a", 2, -2, 2), t.real("dt", 0.01, 1)
    P = np.zeros((2, n))
    for i in range(n):
        P[:, i] = x + i * h * v + i * i * h * h * a / 2
    t.close("constant acceleration", m.mean_squared_acceleration(P, h), a @ a, 1e-3)
    Q = t.mat("Q", 2, 3, -5, 5)
    d = Q[:, 2] - 2 * Q[:, 1] + Q[:, 0]
    t.close("any positions", m.mean_squared_acceleration(Q, 0.5), (d @ d) * 16, 1e-3)


@harness(F("dot_product_acceleration"), "3-4 positions: any turn between the steps, any step lengths (some steps may rest); both evaluation modules", cases=FILES)
def turning(t, f):
    np = t.np
    m = t.mod(M + f)
    u = [t.unit(f"u{i}", 2) for i in range(2)]
    k = [t.real(f"k{i}", 0.1, 3) for i in range(2)]
    h = t.real("dt", 0.01, 1)
    pause = t.boolean("pause")
    P = [t.vec("x", 2, -5, 5)]
    P.append(P[-1] + k[0] * u[0])
    if pause:
        P.append(1.0 * P[-1])
    P.append(P[-1] + k[1] * u[1])
    t.close("cosine of the turn", m.dot_product_acceleration(np.array(P).T, h), u[0] @ u[1], 1e-4)


@harness(F("mean_squared_velocity_deviation", "dot_product_velocity_deviation"), "2-3 steps, some may rest, of any length in any direction; dynamics of any unit direction at each "
         "position; both evaluation modules", cases=[(f, p) for f in FILES for p in (None, 0, 1)])
def deviation(t, case):
    f, pause = case
    np = t.np
    m = t.mod(M + f)
    h, speed = t.real("dt", 0.01, 1), t.real("speed", 0.1, 5)
    xs = [0.0]
    P = [np.array([0.0, t.real("y", -5, 5)])]
    want = []
    for i in range(2):
        if pause == i:
            P.append(1.0 * P[-1])
            want.append(None)
        u = t.unit(f"u{i}", 2)
        t.assume(u[0] >= 0.1)
        P.append(P[-1] + t.real(f"k{i}", 0.5, 2) * u)
        want.append(u)
    d = [t.unit(f"d{i}", 2) for i in range(2)]

    def field(x):
        return d[0] if bool(x[0] <= 0.01) else d[1]

    T = np.array(P).T
    v = [w for w in want if w is not None]
    e = [v[i] - d[i] for i in range(2)]
    t.close("squared deviation", m.mean_squared_velocity_deviation(T, field, h), (e[0] @ e[0] + e[1] @ e[1]) / 2, 1e-3)
    t.close("mean cosine", m.dot_product_velocity_deviation(T, lambda x: speed * field(x), h), (v[0] @ d[0] + v[1] @ d[1]) / 2, 1e-3)
    # where the dynamics rest there is no direction to agree with
    t.close("mean cosine with rest", m.dot_product_velocity_deviation(T, lambda x: speed * d[0] if bool(x[0] <= 0.01) else 0.0 * d[1], h), (v[0] @ d[0]) / 2, 1e-3)


class Files:
    """numpy with the recorded files given"""

    def __init__(self, np, data):
        self._np, self._data = np, data

    def __getattr__(self, name):
        return getattr(self._np, name)

    def loadtxt(self, file, **k):
        return self._data[os.path.basename(file)]


@harness(F("TrajectoryEvaluator.run"), "2 runs (one of them over the full time) of 3 positions with any values of the metrics; both evaluation modules", cases=FILES)
def summary(t, f):
    np = t.np
    m = t.mod(M + f)
    names = ["mean_squared_error_to_path", "mean_squared_velocity_deviation", "dot_product_velocity_deviation", "mean_squared_acceleration", "dot_product_acceleration"]
    val = t.mat("val", 5, 2, -1, 1)
    data = {"a.csv": np.array([[0.0, 1.0], [1.0, 1.0], [2.0, 1.0], [3.0, 2.0]]), "b.csv": np.array([[0.0, 1.0], [2.0, 1.0], [4.0, 1.0]])}
    steps, args, fields = [], [], []
    old = {k: getattr(m, k) for k in names + ["np"]}
    with tempfile.TemporaryDirectory() as d:
        os.makedirs(os.path.join(d, "data", "runs"))
        with open(os.path.join(d, "comparison_parameters.json"), "w") as o:
            json.dump({"delta_time": 0.5, "it_max": 4}, o)
        for k in data:
            open(os.path.join(d, "data", "runs", k), "w").close()
        try:
            m.np = Files(np, data)
            for i, k in enumerate(names):
                def metric(T, *a, i=i, **kw):
                    if i == 0:
                        args.append(kw)
                    else:
                        steps.append(a[-1])
                    if i in (1, 2):
                        fields.append(a[0])
                    return val[i, 0 if T.shape[1] == 4 else 1]
                setattr(m, k, metric)
            ev = m.TrajectoryEvaluator("runs", data_path=os.path.join(d, "data"))
            ev.run()
        finally:
            for k, v in old.items():
                setattr(m, k, v)
    t.check("runs", ev.n_runs == 2 and ev.n_converged == 1 and ev.n_local_minima == 1)
    t.check("time step", all(s == 0.5 for s in steps))
    t.check("reference circle", all(list(k["center_position"]) == [0, 0] and k["radius"] == 2 for k in args))
    u = t.unit("u", 2)
    v = fields[0](2 * u)
    t.close("reference along the circle", v, np.array([-u[1], u[0]]), 1e-3)
    t.check("same reference for both", len(fields) == 4)
    t.close("same reference", fields[-1](2 * u), v)
    out = [ev.dist_to_path, ev.squared_error_velocity, ev.dotprod_err_velocity, ev.squared_acceleration, ev.dotprod_acceleration]
    for i in range(5):
        t.close(names[i], out[i], (val[i, 0] + val[i, 1]) / 2)
    if f.endswith("std"):
        spread = [ev.dist_to_path_std, ev.squared_error_velocity_std, ev.dotprod_err_velocity_std, ev.squared_acceleration_std, ev.dotprod_acceleration_std]
        for i in range(5):
            t.close(names[i] + " spread", spread[i], abs(val[i, 0] - val[i, 1]) / 2, 1e-3)
        t.close("share of deviation", ev.nics_err_velocity, 0.5 - (val[2, 0] + val[2, 1]) / 4)
        t.close("share of turning", ev.nics_acceleration, 0.5 - (val[4, 0] + val[4, 1]) / 4)


class Frame:
    def __init__(self, columns):
        self.columns = columns
        self.shape = (len(columns[" converged"]), len(columns))

    def __getitem__(self, key):
        if isinstance(key, str):
            return self.columns[key]
        return Frame({k: v[key] for k, v in self.columns.items()})


class Reader:
    def __init__(self, frames):
        self.frames = frames

    def read_csv(self, path):
        return self.frames[os.path.basename(str(path))]


P = C + "evaluation_path_following.py:"


@harness([P + "get_converged", P + "TrajectoryEvaluator.get_converged", P + "TrajectoryEvaluator.run"],
         "2 methods of 3 runs with any values, any combination of converged runs (at least one by both)", cases=[None])
def path_summary(t):
    np = t.np
    m = t.mod(M + "evaluation_path_following")
    frames, conv, vals = {}, [], []
    for k in "ab":
        c = np.array([1 if t.boolean(f"conv{k}{i}") else 0 for i in range(3)])
        v = t.mat(f"val{k}", 3, 3, 0, 1)
        frames[k] = Frame({" converged": c, " distance": v[0], " free_fraction": v[1], " gammas": v[2]})
        conv.append(c)
        vals.append(v)
    both = [i for i in range(3) if conv[0][i] and conv[1][i]]
    t.assume(len(both) > 0)
    old = m.pd
    try:
        m.pd = Reader(frames)
        ev = [m.TrajectoryEvaluator(k) for k in "ab"]
        ind = m.get_converged(ev)
        for e in ev:
            e.run(ind)
    finally:
        m.pd = old
    n = len(both)
    for e, c, v in zip(ev, conv, vals):
        t.check("runs", e.n_runs == 3)
        t.close("share converged", e.frac_converged, sum(int(x) for x in c) / 3)
        t.close("distance", e.distance_mean, sum(v[0][i] for i in both) / n)
        t.close("gamma", e.gammas_mean, sum(v[2][i] for i in both) / n)
        mean = sum(1 - v[1][i] for i in both) / n
        t.close("occupied", e.occupied_mean, mean)
        t.close("occupied spread", e.occupied_std ** 2, sum((1 - v[1][i] - mean) ** 2 for i in both) / n)


S = C + "comparison_multiobstacle_vectorfield.py:"


@harness([S + "integrate_trajectory"], "4 steps of any direction and speed (any of them may be a local minimum; behind any of them may lie an obstacle), any start and time step", cases=[None])
def simulated_run(t):
    np = t.np
    m = t.mod(M + "comparison_multiobstacle_vectorfield")
    x, h = t.vec("x", 2, -5, 5), t.real("dt", 0.01, 1)
    u = [t.unit(f"u{i}", 2) for i in range(3)]
    stop = t.pick("stop", [None, "minimum", "collision"])
    at = t.pick("at", [1, 2, 3]) if stop else None
    calls = []

    def field(p):
        i = len(calls)
        calls.append(p)
        if stop == "minimum" and i + 1 == at:
            return 1e-6 * u[i]
        return t.real(f"k{i}", 0.1, 3) * u[i]

    want = [x]
    for i in range(3):
        want.append(want[-1] + h * u[i])
    if stop == "collision":
        for i in range(3):
            t.assume(u[i][0] >= 0.1)

    def hits(p):
        return stop == "collision" and bool(p[0] >= want[at][0] - 1e-4)

    T = m.integrate_trajectory(start_position=x, evaluate_function=field, it_max=4, delta_time=h, conv_margin=1e-3, collision_functor=hits)
    n = T.shape[1]
    t.check("length", n == 4 if stop is None else (n == at if stop == "collision" else n in (at - 1, at)))
    for i in range(n):
        t.close(f"position {i}", T[:, i], want[i], 1e-4)
    for i, p in enumerate(calls):
        t.close(f"evaluated at {i}", p, want[i], 1e-4)
