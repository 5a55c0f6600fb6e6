"""C13 learned motion: gaussian regression, velocity normalisation, prediction and integration."""
import types

from symx.harness import harness

N = "nonlinear_avoidance."
G = "nonlinear_avoidance/gmm_learner/"
DG = G + "learner/directional_gmm.py:DirectionalGMM."
LB = G + "learner/base.py:Learner."
MV = "nonlinear_avoidance/multivariant_gaussian.py:MultiVariantGaussian."
MT = G + "math_tools.py:"
DS = G + "direction_space.py:"


def covariance(t, name, dim):
    """symmetric, positive definite: B^T B with triangular B"""
    B = t.np.zeros((dim, dim))
    for i in range(dim):
        for j in range(i):
            B[i, j] = t.real(f"{name}{i}{j}", -2, 2)
        B[i, i] = t.real(f"{name}{i}{i}", 0.2, 2)
    return B @ B.T


@harness([MV + "__init__", MV + "evaluate", MV + "evaluate_derivative", MV + "dimension"],
         "dim 1-2 with any covariance with standard deviations in [0.2, 3], dim 3 with any diagonal one; any mean, any position", cases=[1, 2, 3])
def gaussian_and_gradient(t, dim):
    mv = t.mod(N + "multivariant_gaussian")
    mean, d = t.vec("mean", dim, -10, 10), t.vec("d", dim, -5, 5)
    S = covariance(t, "S", dim) if dim < 3 else t.np.diag(t.vec("S", 3, 0.2, 4))
    g = mv.MultiVariantGaussian(mean, S)
    t.check("dimension", g.dimension == dim)
    top, f = g.evaluate(mean), g.evaluate(mean + d)
    t.check("positive", top > 0)
    t.close("a density", top * top * t.la.det(S) * (2 * t.math.pi) ** dim, 1.0)
    t.check("largest at the mean", f <= top * (1 + 1e-9))
    t.close("symmetric", f, g.evaluate(mean - d), 1e-4)
    der = g.evaluate_derivative(mean + d)
    t.close("gradient", S @ der, -f * d, 1e-3)
    t.close("zero gradient at the mean", g.evaluate_derivative(mean), t.np.zeros(dim))


def learner(t, weights, means, cov, dim_space=2, attractor=None, beta_power=5e-2):
    dg = t.mod(N + "gmm_learner.learner.directional_gmm")
    L = dg.DirectionalGMM(dim_space=dim_space, beta_power=beta_power)
    L.dpgmm = types.SimpleNamespace(weights_=t.np.array(weights), means_=means, covariances_=cov, covariance_type="full")
    L.dim_gmm = means.shape[1]
    L.pos_attractor = attractor
    return L


def mixture(t, n, dim, n_in, attractor=None, dim_space=2, beta_power=5e-2):
    """any mixture whose input features are independent of each other"""
    np = t.np
    means = np.zeros((n, dim))
    cov = np.zeros((n, dim, dim))
    w = t.vec("w", n, 0.05, 1)
    for k in range(n):
        means[k] = t.vec(f"m{k}", dim, -3, 3)
        for i in range(dim):
            cov[k, i, i] = t.real(f"S{k}{i}", 0.1, 4)
        for i in range(n_in):
            for j in range(n_in, dim):
                cov[k, i, j] = cov[k, j, i] = t.real(f"C{k}{i}{j}", -1, 1)
    return learner(t, w, means, cov, dim_space, attractor, beta_power)


@harness([DG + "get_mean_yx", DS + "get_mean_yx"], "1 component, any full covariance of 2 inputs and its coupling to 1-2 outputs, any sample", cases=[1, 2])
def conditional_mean(t, dim_out):
    np = t.np
    S = covariance(t, "S", 2)
    C = t.mat("C", dim_out, 2, -2, 2)
    cov = np.zeros((1, 2 + dim_out, 2 + dim_out))
    cov[0, :2, :2], cov[0, 2:, :2], cov[0, :2, 2:], cov[0, 2:, 2:] = S, C, C.T, 9 * np.eye(dim_out)
    mean = t.vec("mean", 2 + dim_out, -5, 5)
    L = learner(t, np.ones(1), np.array([mean]), cov)
    y = t.vec("y", 2, -3, 3)
    X = np.array([mean[:2] + S @ y, mean[:2]])
    mu = L.get_mean_yx(X, feat_in=np.arange(2), feat_out=np.arange(2, 2 + dim_out))
    t.close("regression", mu[:, 0, 0], mean[2:] + C @ y, 1e-3)
    t.close("at the center", mu[:, 1, 0], mean[2:], 1e-4)
    f = t.mod(N + "gmm_learner.direction_space").get_mean_yx(X, L.dpgmm, [0, 1])
    t.close("function agrees", f, mu, 1e-3)


@harness([DG + "get_covariance_out"], "any full covariance of 2 inputs, coupled to 1 output", cases=[None])
def conditional_covariance(t):
    np = t.np
    B = covariance(t, "S", 2)
    y, rest = t.vec("y", 2, -2, 2), t.real("rest", 0.1, 3)
    cov = np.zeros((1, 3, 3))
    C = B @ y
    cov[0, :2, :2], cov[0, 2, :2], cov[0, :2, 2], cov[0, 2, 2] = B, C, C, C @ y + rest
    L = learner(t, np.ones(1), np.zeros((1, 3)), cov)
    out = L.get_covariance_out(feat_in=np.arange(2), feat_out=np.array([2]))
    t.close("schur complement", out[:, :, 0], [[rest]], 1e-3)


@harness([DG + "get_gaussian_probability", DG + "get_mixing_weights", DS + "get_mixing_weights", DS + "get_gaussianProbability"],
         "2 components of any weight, mean and variance in 1-2 inputs; any sample", cases=[(1, False), (1, True), (2, False), (2, True)], timeout=60)
def mixing_weights(t, case):
    dim, normal = case
    np = t.np
    L = mixture(t, 2, dim + 1, dim)
    x = t.vec("x", dim, -5, 5)
    fin = np.arange(dim)
    p = L.get_gaussian_probability(np.array([x]), feat_in=fin)
    for i in range(2):
        t.lemma("density", p[i, 0] > 0)
    b = L.get_mixing_weights(np.array([x]), fin, np.array([dim]), normalize_probability=normal)
    for i in range(2):
        t.check("positive", t.red(b[i, 0]) >= 0)
    t.close("proportional", b[0, 0] * L.dpgmm.weights_[1] * p[1, 0], b[1, 0] * L.dpgmm.weights_[0] * p[0, 0], 1e-6)
    if normal:
        t.close("total", b[0, 0] + b[1, 0], 1.0, 1e-4)
    else:
        t.check("at most one", t.red(b[0, 0] + b[1, 0]) <= 1 + 1e-9)
        w = L.dpgmm.weights_
        top = w[0] if t.decide(w[0] >= w[1]) else w[1]
        s = sum(w[i] * p[i, 0] / top * 4.0 ** dim for i in range(2))
        if t.decide(s <= 1):
            t.close("fades with the density", b[0, 0] + b[1, 0], s, 1e-4)
    t.lemma("some density", L.dpgmm.weights_[0] * p[0, 0] + L.dpgmm.weights_[1] * p[1, 0] > 0)
    f = t.mod(N + "gmm_learner.direction_space").get_mixing_weights(np.array([x]), L.dpgmm, list(range(dim)))
    t.close("function is normalised", f[0, 0] + f[1, 0], 1.0, 1e-4)
    t.close("function agrees", f[0, 0] * L.dpgmm.weights_[1] * p[1, 0], f[1, 0] * L.dpgmm.weights_[0] * p[0, 0], 1e-6)


@harness([DG + "get_mixing_weights", DG + "transform_initial_to_normalized"],
         "2 components of any weight, mean and variance in 1-2 inputs; any sample, mean and scale of the recordings", cases=[1, 2])
def mixing_weights_of_raw_input(t, dim):
    """raw inputs get the weights of the normalised ones"""
    np = t.np
    L = mixture(t, 2, dim + 1, dim)
    L.crop_vel = None
    L.mean_x, L.scale_x = t.vec("offset", dim + 1, -3, 3), t.vec("scale", dim + 1, 0.1, 3)
    asked = []

    def density(X, feat_in=None):
        asked.append(X)
        return np.array([[0.25] * X.shape[0], [0.5] * X.shape[0]])

    L.get_gaussian_probability = density
    x = np.array([t.vec("x", dim, -5, 5)])
    fin, fout = np.arange(dim), np.array([dim])
    L.get_mixing_weights(x, fin, fout, input_needs_normalization=True)
    L.get_mixing_weights(x, fin, fout)
    t.close("normalised", asked[0][0] * L.scale_x[:dim], x[0] - L.mean_x[:dim])
    t.close("as it is", asked[1], x)


@harness([DG + "get_gaussian_probability", DS + "get_gaussianProbability"], "any full covariance of 2 inputs, any ray from the center", cases=[False, True], timeout=60)
def probability_falls_off(t, function):
    np = t.np
    B = np.array([[t.real("a", 0.2, 2), 0.0], [t.real("c", -2, 2), t.real("b", 0.2, 2)]])
    cov = np.zeros((1, 3, 3))
    cov[0, :2, :2], cov[0, 2, 2] = B @ B.T, 1.0
    m = t.vec("mean", 3, -5, 5)
    L = learner(t, np.ones(1), np.array([m]), cov)
    z = t.vec("z", 2, -3, 3)
    k = t.real("k", 0, 1)
    d = B @ z
    X = np.array([m[:2], m[:2] + k * d, m[:2] + d])
    if function:
        p = t.mod(N + "gmm_learner.direction_space").get_gaussianProbability(X, L.dpgmm, [0, 1])[0]
    else:
        p = L.get_gaussian_probability(X, feat_in=np.arange(2))[0]
    q = z @ z
    top = 1 / (2 * t.math.pi * B[0, 0] * B[1, 1])
    for i, e in enumerate([0.0, k * k * q, q]):
        t.close(f"value {i}", p[i], top * t.math.exp(-e), 1e-4)


@harness([DG + "_predict", DG + "get_mean_yx"], "2 components, 1-2 inputs, 2-3 samples; any weights that are positive affine functions of the sample, with and without "
         "convergence to the attractor (then samples on a ray from the attractor), power of the total weight 0, 1", cases=[(1, 2, False, 0), (2, 2, False, 1), (2, 3, False, 0), (2, 2, True, 0), (2, 2, True, 1)], timeout=30)
def samples_are_independent(t, case):
    dim, n, conv, power = case
    np = t.np
    L = mixture(t, 2, dim + 1, dim, np.array([4.0, -4.0]), beta_power=power)
    a, c = t.vec("a", 2, 0.1, 0.2), t.vec("c", 2, 1, 2)
    L.get_mixing_weights = lambda X, feat_in, feat_out: np.array([[a[k] * x[0] + c[k] for x in X] for k in range(2)])
    X = np.array([[4 - t.real(f"r{i}", 0.1, 6), -4.0] if conv else t.vec(f"x{i}", dim, -3, 3) for i in range(n)])
    both = L._predict(X, convergence_attractor=conv)
    for i in range(n):
        one = L._predict(X[i:i + 1], convergence_attractor=conv)
        t.close(f"sample {i}", both[i], one[0], 1e-4)


@harness([DG + "_predict"], "2 components, 1-2 inputs, any sample; power of the total weight 0, 0.05, 1", cases=[(1, 0), (1, 5e-2), (1, 1), (2, 0), (2, 5e-2), (2, 1)], timeout=30)
def prediction_is_weighted_mean(t, case):
    dim, power = case
    np = t.np
    L = mixture(t, 2, dim + 1, dim, beta_power=power)
    X = np.array([t.vec("x", dim, -3, 3)])
    mu = L.get_mean_yx(X, np.arange(dim), np.array([dim]))[0, 0]
    b = L.get_mixing_weights(X, np.arange(dim), np.array([dim]))
    v = L._predict(X)[0, 0]
    s = np.sum(b, axis=0)[0]
    total = s if power == 1 else (1.0 if power == 0 else t.math.pow(s, power))
    t.close("weighted mean", v * s, total * (b[0, 0] * mu[0] + b[1, 0] * mu[1]), 1e-6)


@harness([DS + "regress_gmm"], "2 components, 1-2 inputs, any sample; any input mean and scale; without convergence, and at the attractor", cases=[(1, False), (2, False), (2, True)], timeout=30)
def function_prediction(t, case):
    dim, conv = case
    np = t.np
    att = t.vec("att", 2, -3, 3)
    L = mixture(t, 2, dim + 1, dim, att, beta_power=0)
    ds = t.mod(N + "gmm_learner.direction_space")
    dims = list(range(dim))
    if conv:
        x = np.array([att])
        t.close("null direction at attractor", ds.regress_gmm(x, L.dpgmm, dims, convergence_attractor=True, attractor=att), np.zeros((1, 1)))
        return
    x = np.array([t.vec("x", dim, -3, 3)])
    p = L.get_gaussian_probability(x, np.arange(dim))
    for i in range(2):
        t.lemma("density", p[i, 0] > 0)
    t.lemma("some density", L.dpgmm.weights_[0] * p[0, 0] + L.dpgmm.weights_[1] * p[1, 0] > 0)
    L.beta_power = 0
    mean, var = t.vec("mean", dim + 1, -2, 2), t.vec("var", dim + 1, 0.2, 3)
    mu = L.get_mean_yx(x, np.arange(dim), np.array([dim]))[0, 0]
    w = L.dpgmm.weights_ * p[:, 0]
    y = ds.regress_gmm(mean[:dim] + var[:dim] * x, L.dpgmm, dims, mu=mean, var=var, convergence_attractor=False)
    t.close("weighted mean", (y[0, 0] - mean[dim]) * (w[0] + w[1]), var[dim] * (w @ mu), 1e-4)


@harness([DG + "_predict"], "3 inputs/outputs: 2 components, any attractor, with the position only or with the velocity", cases=[2, 4])
def rests_at_attractor(t, dim_in):
    np = t.np
    att = t.vec("att", 2, -3, 3)
    L = mixture(t, 2, dim_in + 1, dim_in, att)
    x = att if dim_in == 2 else np.hstack((att, np.zeros(2)))
    v = L._predict(np.array([x]), convergence_attractor=True)
    t.close("null direction at attractor", v, np.zeros((1, 1)))


@harness([DG + "transform_initial_to_normalized", DG + "transform_normalized_to_initial"], "2-3 samples of position, velocity and direction; any mean and scale", cases=[2, 3], thorough_cases=[1, 2, 3, 4])
def normalisation_inverts(t, n):
    np = t.np
    L = t.mod(N + "gmm_learner.learner.directional_gmm").DirectionalGMM()
    L.mean_x, L.scale_x, L.crop_vel = t.vec("mean", 5, -3, 3), t.vec("scale", 5, 0.1, 4), None
    ind = np.array([0, 1, 4])
    V = t.mat("V", n, 3, -5, 5)
    U = L.transform_initial_to_normalized(V, dims_ind=ind)
    t.close("back", L.transform_normalized_to_initial(U, dims_ind=ind), V, 1e-3)
    for i in range(n):
        t.close("values", U[i] * L.scale_x[ind], V[i] - L.mean_x[ind], 1e-3)


@harness([DG + "transform_initial_to_normalized"], "any 3-4 samples of position and velocity, or of positions only", cases=[(3, 4), (4, 4), (4, 2)])
def velocity_crop(t, case):
    n, f = case
    np = t.np
    L = t.mod(N + "gmm_learner.learner.directional_gmm").DirectionalGMM()
    V = t.mat("P", n, 2, -5, 5)
    fast = []
    if f == 4:
        W = np.zeros((n, 4))
        W[:, :2] = V
        for i in range(n):
            u, k = t.unit(f"u{i}", 2), t.real(f"k{i}", 0, 5)
            W[i, 2:] = k * u
            fast.append((u, k))
        V = W
    before = np.copy(V)
    U = L.transform_initial_to_normalized(V, dims_ind=np.arange(f))
    t.close("positions unchanged", U[:, :2], before[:, :2])
    t.close("input unchanged", V, before)
    for i, (u, k) in enumerate(fast):
        t.close("speed", U[i, 2:], np.minimum(k, 1.0) * u, 1e-4)


@harness([DG + "normalize_velocity"], "3 samples of any position and velocity", cases=[None])
def velocity_normalisation(t):
    np = t.np
    L = t.mod(N + "gmm_learner.learner.directional_gmm").DirectionalGMM()
    u = [t.unit(f"u{i}", 2) for i in range(3)]
    k = t.vec("k", 3, 0.1, 5)
    X = np.zeros((3, 5))
    X[:, :2], X[:, 4] = t.mat("P", 3, 2, -5, 5), t.vec("dir", 3, -3, 3)
    for i in range(3):
        X[i, 2:4] = k[i] * u[i]
    before = np.copy(X)
    U = L.normalize_velocity(X)
    mean = (k[0] + k[1] + k[2]) / 3
    t.close("input unchanged", X, before)
    for i in range(3):
        t.close("relative speed", U[i, 2:4], np.minimum(k[i] / mean, 1.0) * u[i], 1e-3)
        t.close("rest unchanged", U[i, [0, 1, 4]], before[i, [0, 1, 4]])


def fixed(t, angle_of, dim=2, null=None):
    """learner whose regression is given"""
    base = t.mod(N + "gmm_learner.learner.base")

    class L(base.Learner):
        def fit(self):
            pass

        def _predict(self, xx):
            return t.np.array([angle_of(x) for x in xx])

    out = L(null)
    out.dim = out.dim_space = dim
    return out


class Field:
    def __init__(self, f):
        self.evaluate = f


@harness([LB + "predict", LB + "evaluate"], "any attractor, position and predicted angle in ]-pi, pi[ (dim 2)", cases=[None])
def turned_by_prediction(t):
    np = t.np
    att, u, r = t.vec("att", 2, -5, 5), t.unit("u", 2), t.real("r", 0.1, 10)
    angle = t.real("angle", -3.1, 3.1)
    ds = t.mod("vartools.dynamical_systems").LinearSystem(attractor_position=att)
    L = fixed(t, lambda x: np.array([angle]), 2, ds)
    v = L.predict(att - r * u)
    t.close("unit speed", v @ v, 1.0, 1e-4)
    t.close("along", v @ u, t.math.cos(angle), 1e-4)
    t.close("across", u[0] * v[1] - u[1] * v[0], t.math.sin(angle), 1e-4)
    t.close("evaluate", L.evaluate(att - r * u), v)


@harness([LB + "predict", LB + "predict_array"], "2-3 positions, any angles (dim 2)", cases=[2, 3])
def array_is_pointwise(t, n):
    np = t.np
    ds = t.mod("vartools.dynamical_systems").LinearSystem(attractor_position=np.zeros(2))
    X = np.zeros((2, n))
    for i in range(n):
        X[:, i] = t.real(f"r{i}", 0.1, 10) * t.unit(f"u{i}", 2)
    a, b = t.real("a", -1, 1), t.real("b", -1, 1)
    L = fixed(t, lambda x: np.array([a * x[0] / 10 + b]), 2, ds)
    V = L.predict_array(X)
    for i in range(n):
        t.close(f"column {i}", V[:, i], L.predict(X[:, i]), 1e-4)


@harness([LB + "integrate_trajectory", MT + "rk4"], "2 trajectories of 4 steps from any starting points along any constant velocity (first quadrant), any time step", cases=[None])
def integrates_from_start(t):
    np = t.np
    start, v, h = t.mat("x", 2, 2, 1, 5), t.vec("v", 2, 0, 1), t.real("dt", 0.01, 1)
    L = fixed(t, None)
    L.predict = lambda x: v
    T = L.integrate_trajectory(n_steps=4, delta_t=h, convergence_margin=0.05, starting_points=start)
    t.check("shape", T.shape == (2, 4, 2))
    for i in range(2):
        for j in range(4):
            t.close(f"step {j}", T[:, j, i], start[:, i] + j * h * v, 1e-4)


@harness([DG + "integrate_trajectory"], "2 trajectories of 4 steps from any starting points, any affine velocity, any time step; with and without velocity input", cases=[False, True])
def gmm_integrates_from_start(t, velocity_based):
    np = t.np
    start, v, h = t.mat("x", 2, 2, 1, 5), t.vec("v", 2, 0, 1), t.real("dt", 0.01, 1)
    L = t.mod(N + "gmm_learner.learner.directional_gmm").DirectionalGMM()
    L.predict = lambda x: v if len(x) == 2 else v + 0.5 * x[2:]
    T = L.integrate_trajectory(num_steps=4, delta_t=h, starting_points=start, velocity_based=velocity_based)
    for i in range(2):
        pos, vel = start[:, i], v
        t.close("start", T[:, 0, i], pos)
        for j in range(1, 4):
            if velocity_based and j > 1:
                vel = v + 0.5 * vel
            pos = pos + h * vel
            t.close(f"step {j}", T[:, j, i], pos, 1e-4)


@harness([DG + "integrate_trajectory", LB + "integrate_trajectory"], "start from the recorded demonstrations: any first points", cases=[False, True])
def starts_at_recordings(t, base):
    np = t.np
    L = fixed(t, None) if base else t.mod(N + "gmm_learner.learner.directional_gmm").DirectionalGMM()
    P = t.mat("P", 2, 2, 1, 5)
    data = np.zeros((4, 3))
    rec = []
    for i in range(2):
        d = np.zeros((4, 3))
        d[:2, 0] = P[:, i]
        rec.append(d)

    class Data:
        def __getitem__(self, k):
            return rec[k[1]]

    L.dataset = {"data": Data()}
    v = t.vec("v", 2, 0, 1)
    L.predict = lambda x: v
    if base:
        T = L.integrate_trajectory(n_steps=3, delta_t=0.5, n_trajectories=2)
    else:
        T = L.integrate_trajectory(num_steps=3, delta_t=0.5, nTraj=2)
    for i in range(2):
        for j in range(3):
            t.close(f"step {j}", T[:, j, i], P[:, i] + 0.5 * j * v)


@harness([MT + "rk4", MT + "rk4_pos_vel"], "dim 1-3, any position and time step, any linear dynamics (diagonal) with gain factor", cases=[1, 2, 3])
def fourth_order(t, dim):
    mt = t.mod(N + "gmm_learner.math_tools")
    x, a, off = t.vec("x", dim, -5, 5), t.vec("a", dim, -2, 2), t.vec("off", dim, -1, 1)
    h, k = t.real("dt", 0.001, 1), t.real("k", 0, 2)
    ds = lambda p: a * (p[:dim] - off)
    z = h * k * a
    expect = off + (x - off) * (1 + z + z * z / 2 + z * z * z / 6 + z * z * z * z / 24)
    t.close("rk4", mt.rk4(h, x, ds, k_f=k), expect, 1e-3)
    y, dy = mt.rk4_pos_vel(h, x, t.vec("vel", dim, -1, 1), ds, k_f=k)
    t.close("rk4_pos_vel", y, expect, 1e-3)
    t.close("step", dy, expect - x, 1e-3)


@harness([MT + "mag_linear_maximum"], "1-3 columns of any vectors, any gain and limit", cases=[1, 2, 3])
def limited_magnitude(t, n):
    np = t.np
    mt = t.mod(N + "gmm_learner.math_tools")
    X = np.zeros((2, n))
    r = t.vec("r", n, 0, 10)
    for i in range(n):
        X[:, i] = r[i] * t.unit(f"u{i}", 2)
    k, top = t.real("k", 0, 5), t.real("max", 0.1, 5)
    m = mt.mag_linear_maximum(X, k=k, maxMag=top)
    for i in range(n):
        t.close("magnitude", m[i], np.minimum(k * r[i], top), 1e-4)
