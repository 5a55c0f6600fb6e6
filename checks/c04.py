"""C04 importance weights: never negative, never more than one in total, and all on the obstacles that are touched."""
from symx.harness import harness
from checks.helpers import Component, Constant, Tree, Wall

MO = "nonlinear_avoidance/multi_obstacle_avoider.py"
NL = "nonlinear_avoidance/nonlinear_rotation_avoider.py"
RA = "nonlinear_avoidance/avoidance/rotational_avoider.py"
MOD = "nonlinear_avoidance.multi_obstacle_avoider"


def distances(t, n, lo=0.2, hi=1e3, touch=1.0):
    """n distances: touching ones anywhere in [lo, touch], others clearly above"""
    out = []
    for _ in range(n):
        if t.boolean("touched"):
            out.append((t.real("d", lo, touch), True))
        else:
            out.append((t.real("d", touch + 0.001, hi), False))
    return out


def check_weights(t, w, ds, power_one=True, sum_to_one=False, ordered=True):
    n = len(ds)
    t.check("one-weight-each", len(w) == n)
    total = 0.0
    for x in w:
        t.ge("not-negative", x, 0.0)
        total = total + x
    t.le("total-at-most-one", total, 1.0)
    touched = [i for i in range(n) if ds[i][1]]
    if touched or sum_to_one:
        t.close("all-given", total, 1.0)
    if touched:
        for i in range(n):
            t.close("touched-share" if ds[i][1] else "others-ignored", w[i], 1.0 / len(touched) if ds[i][1] else 0.0)
    elif ordered:
        for i in range(n):
            for j in range(n):
                if i < j and t.decide(ds[i][0] < ds[j][0]):
                    t.ge("closer-weighs-more", w[i], w[j])


@harness([MO + ":compute_gamma_weights"], "1-3 distances in [0.2, 1e3], touching ones (<= 1) anywhere; power 1 and 2",
         cases=[(1, 1), (2, 1), (3, 1), (2, 2)], thorough_cases=[(4, 1), (3, 2)])
def gamma_weights(t, case):
    n, power = case
    m = t.mod(MOD)
    ds = distances(t, n)
    w = m.compute_gamma_weights(t.np.array([d for d, _ in ds]), 1.0, power)
    check_weights(t, w, ds)


@harness([MO + ":MultiObstacleAvoider.compute_weights_from_distances"],
         "1-3 distances in [0.2, 1e3]; normalised and not", cases=[(1, True), (2, True), (3, True), (2, False)],
         thorough_cases=[(4, True), (3, False)])
def weights_from_distances(t, case):
    n, normalize = case
    m = t.mod(MOD)
    ds = distances(t, n)
    w = m.MultiObstacleAvoider.compute_weights_from_distances(t.np.array([d for d, _ in ds]), normalize=normalize)
    if normalize or any(x for _, x in ds):
        check_weights(t, w, ds)
    else:
        for x in w:
            t.ge("not-negative", x, 0.0)


@harness([MO + ":get_limited_weights_to_max_sum"], "1-3 weights in [0, 1), at most one of them equal to 1",
         cases=[1, 2, 3], thorough_cases=[4])
def limited_weights(t, n):
    m = t.mod(MOD)
    full = t.choice("full", n + 1)  # n: none
    w = [1.0 if i == full else t.real("w", 0, 0.999) for i in range(n)]
    total = sum(w, 0.0)
    out, tot = m.get_limited_weights_to_max_sum(list(w))
    t.check("length", len(out) == n)
    s = sum((x for x in out), 0.0)
    for x in out:
        t.ge("not-negative", x, 0.0)
    t.le("at-most-one", s, 1.0)
    t.close("total-reported", s, tot)
    if full < n:
        for i in range(n):
            t.close("only-the-full-one", out[i], 1.0 if i == full else 0.0)
    elif t.decide(total < 1):
        for i in range(n):
            t.close("kept-when-small", out[i], w[i])
    else:
        t.close("used-up", s, 1.0)
        for i in range(n):
            for j in range(n):
                if i != j and t.decide(w[i] > w[j]):
                    t.ge("order-kept", out[i], out[j])


@harness([MO + ":get_limited_weights_to_max_sum"], "2 weights equal to 1", cases=[None])
def limited_weights_two_full(t):
    m = t.mod(MOD)
    out, tot = m.get_limited_weights_to_max_sum([1.0, 1.0])
    t.close("at-most-one", out[0] + out[1], 1.0)


@harness([MO + ":MultiObstacleAvoider.compute_averaged_normal_and_gamma"],
         "2D; 1-2 trees, 1-3 components in total, gammas in [0.2, 1e3], any unit normals (fixed ones for 3)",
         cases=[(1,), (2,), (1, 1), (1, 2)], thorough_cases=[(2, 2)])
def averaged_normal(t, case):
    m = t.mod(MOD)
    n = sum(case)
    ds = distances(t, n)
    if n <= 2:
        normals = [t.unit("n", 2) for _ in range(n)]
    else:
        normals = [t.np.array(x) for x in ([1.0, 0.0], [0.0, 1.0], [-0.6, 0.8], [-1.0, 0.0])[:n]]
    comps = [Component(d, nn, -nn, t.np.zeros(2), t.np.zeros(2)) for (d, _), nn in zip(ds, normals)]
    trees, k = [], 0
    for size in case:
        tree = Tree(*comps[k:k + size])
        tree._obstacle_list = list(comps[k:k + size])
        trees.append(tree)
        k += size
    av = m.MultiObstacleAvoider(obstacle_container=trees, initial_dynamics=Constant(t.np.zeros(2)))
    normal, gamma = av.compute_averaged_normal_and_gamma(t.np.zeros(2))
    for d, _ in ds:
        t.le("smallest-gamma", gamma, d)
    t.check("one-of-them", any(t.decide(gamma == d) for d, _ in ds))
    touched = [i for i in range(n) if ds[i][1]]
    if touched:
        t.close("mean-of-touched", normal, sum((normals[i] for i in touched), t.np.zeros(2)) / len(touched))
    elif n == 1:
        t.close("direction-kept", normal[0] * normals[0][1] - normal[1] * normals[0][0], 0.0)
        t.ge("same-side", t.np.dot(normal, normals[0]), 0.0)
        t.le("not-longer-than-one", t.np.dot(normal, normal), 1.0)
    else:
        # length: the average of unit vectors with total weight <= 1
        for i in range(2):
            t.le("component", normal[i], 1.0)
            t.ge("component", normal[i], -1.0)


class Environment(list):
    n_obstacles = property(len)


@harness([NL + ":SingularityConvergenceDynamics.compute_gamma_weights"],
         "1-3 obstacles with gammas in [0.2, 100]; the cut-off of the avoider is 10", cases=[1, 2, 3])
def nonlinear_weights(t, n):
    m = t.mod("nonlinear_avoidance.nonlinear_rotation_avoider")
    ds = distances(t, n, hi=100)
    w = t.np.array([1.0, 0.0])
    obs = Environment([Wall(d, -w, w) for d, _ in ds])
    av = m.SingularityConvergenceDynamics(initial_dynamics=Constant(t.np.zeros(2)), obstacle_environment=obs,
                                          obstacle_convergence=object())
    ind = av.compute_gamma_weights(t.np.zeros(2))
    weights = av.weights
    t.check("one-weight-each", len(weights) == n)
    touched = any(x for _, x in ds)
    inside = [touched and x or (not touched and t.decide(d < 10)) for d, x in ds]
    if any(inside):
        check_weights(t, weights, ds, sum_to_one=True)
        for i in range(n):
            t.check("selected", bool(ind[i]) == bool(inside[i]))
            if not inside[i]:
                t.close("out-of-range-ignored", weights[i], 0.0)
    else:
        t.check("none-selected", not any(bool(x) for x in ind))
        for x in weights:
            t.close("no-weight", x, 0.0)


@harness([MO + ":MultiObstacleAvoider.compute_gamma_and_weights", RA + ":RotationalAvoider.get_rotation_weight"],
         "2D; tree of 1-3 components at gammas in [0.2, 1e3]; 3 convergence directions; also without smooth continuation", cases=[1, 2, 3, "power"])
def component_weights(t, n):
    m = t.mod(MOD)
    kw = {"smooth_continuation_power": 0.0} if n == "power" else {}
    n = 2 if kw else n
    ds = distances(t, n)
    w = t.np.array([1.0, 0.0])
    comps = [Component(d, -w, t.np.array([0.6, 0.8]), t.np.zeros(2), w) for d, _ in ds]
    conv = t.np.array([0.8, 0.6] if kw else t.pick("conv", [[0.96, 0.28], [0.0, -1.0], [-0.6, 0.8]]))
    av = m.MultiObstacleAvoider(obstacle=Tree(*comps), initial_dynamics=Constant(conv), **kw)
    av._rotation_weights, av._convergence_reference_proximity = [], []
    gammas, weights = av.compute_gamma_and_weights(position=t.np.zeros(2), obstacle=Tree(*comps), base_velocity=conv)
    for i in range(n):
        t.close("gamma", gammas[i], ds[i][0])
    check_weights(t, weights, ds)
    if kw and not any(x for _, x in ds):
        closest = ds[0][0] if t.decide(ds[0][0] <= ds[1][0]) else ds[1][0]
        t.close("inverse-of-the-distance", (weights[0] + weights[1]) * closest, 1.0, 1e-3)


@harness([MO + ":MultiObstacleAvoider.evaluate_occlusion_array", MO + ":MultiObstacleAvoider.compute_single_occlusion_weight"],
         "1-3 occlusion gammas in [0.2, 1e3], at least one above 1", cases=[1, 2, 3])
def occlusion_array(t, n):
    m = t.mod(MOD)
    A = m.MultiObstacleAvoider
    ds = distances(t, n)
    t.assume(not all(x for _, x in ds))
    w = [A.compute_single_occlusion_weight(d) for d, _ in ds]
    for (d, x), y in zip(ds, w):
        t.le("single-at-most-one", y, 1.0)
        if x:
            t.le("occluded-not-positive", y, 0.0)
        else:
            t.ge("visible-positive", y, 0.0)
    out = A.evaluate_occlusion_array(w)
    t.check("length", len(out) == n)
    total = sum((x for x in out), 0.0)
    t.close("total-one", total, 1.0)
    for (d, x), y in zip(ds, out):
        t.ge("not-negative", y, 0.0)
        if x:
            t.close("occluded-ignored", y, 0.0)


@harness([MO + ":MultiObstacleAvoider.evaluate_avoidance_from_sequence", MO + ":get_limited_weights_to_max_sum"],
         "2D; 1-2 trees of 1-2 components (thorough: up to 3 trees); any influence of the components in [0, 1] (at most 1 per tree, at most "
         "one tree at 1), any occlusion weight in [0, 1] of the trees; the tangents themselves are not evaluated",
         cases=[(1,), (2,), (1, 1), (2, 1)], thorough_cases=[(2, 2), (1, 1, 1)])
def shares_of_the_tangents(t, case):
    m = t.mod(MOD)
    inner = [t.np.array([t.real(f"w{i}{k}", 0, 1) for k in range(n)]) for i, n in enumerate(case)]
    occ = [t.real(f"occlusion{i}", 0, 1) if i == 0 else 1.0 for i in range(len(case))]
    for w in inner:
        for x in w:
            t.assume((x == 0) | (x >= 0.001))
    t.assume((occ[0] == 0) | (occ[0] >= 0.01))
    total = [sum((x for x in w), 0.0) * o for w, o in zip(inner, occ)]
    full = t.choice("full", len(case) + 1)
    for i, x in enumerate(total):
        t.assume(x == 1.0 if i == full else x <= 0.999)
    trees = [Tree(*[object() for _ in range(n)]) for n in case]
    seen = {}

    class Recording:
        def __init__(self, *args, **kwargs):
            pass

        def set_root(self, root_idx, direction):
            seen["root"] = root_idx

        def reduce_weighted_to_sequence(self, node_list, weights):
            seen["nodes"], seen["weights"] = list(node_list), list(weights)

    class Initial:
        def get_end_vector(self):
            return t.np.array([1.0, 0.0])

    class Avoider(m.MultiObstacleAvoider):
        def compute_gamma_and_weights(self, obstacle, **kwargs):
            return t.np.ones(len(obstacle)), inner[trees.index(obstacle)]

        def compute_parent_occlusion_weight(self, position, obstacle):
            return occ[trees.index(obstacle)] * t.np.ones(len(obstacle))

        def simple_population_tangent_tree(self, obstacle, obs_idx, obstacle_weights, **kwargs):
            return [(trees.index(obstacle), k) for k in range(len(obstacle)) if t.decide(obstacle_weights[k] > 0)]

    av = Avoider(obstacle_container=trees, initial_dynamics=Constant(t.np.zeros(2)))
    old = m.VectorRotationTree
    m.VectorRotationTree = Recording
    try:
        av.evaluate_avoidance_from_sequence(t.np.zeros(2), Initial())
    finally:
        m.VectorRotationTree = old
    t.check("one-weight-each", len(seen["nodes"]) == len(seen["weights"]) and len(set(seen["nodes"])) == len(seen["nodes"]))
    got = dict(zip(seen["nodes"], seen["weights"]))
    t.check("initial-included", seen["root"] in got)
    rest = got.pop(seen["root"])
    s = 0.0
    for x in got.values():
        t.ge("not-negative", x, 0.0)
        s = s + x
    t.le("total-at-most-one", s, 1.0)
    t.close("rest-to-the-initial", rest, 1.0 - s)
    every = sum(total, 0.0)
    kept = full == len(case) and t.decide(every < 1)
    for i, w in enumerate(inner):
        for k, x in enumerate(w):
            g = got.get((i, k), 0.0)
            if kept:
                t.close("kept-when-small", g, x * occ[i])
            elif full < len(case):
                t.close("only-the-touched-tree", g, x * occ[i] if i == full else 0.0)
            if k:
                t.close("shared-by-influence", g * w[0], got.get((i, 0), 0.0) * x)
    if not kept:
        t.close("nothing-left", rest, 0.0)
