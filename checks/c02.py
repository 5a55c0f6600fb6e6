"""C02 free space: where no obstacle matters, the velocity is exactly the one of the initial dynamics."""
from symx.harness import harness
from checks.helpers import Component, Constant, Sequence, Tree, Wall

RA = "nonlinear_avoidance/avoidance/rotational_avoider.py"
MOD = "nonlinear_avoidance.avoidance.rotational_avoider"
MO = "nonlinear_avoidance/multi_obstacle_avoider.py"
NL = "nonlinear_avoidance/nonlinear_rotation_avoider.py"


def same(t, label, out, vel):
    t.check(label + ":shape", len(out) == len(vel))
    t.close(label, out, vel, 1e-6)


@harness([RA + ":RotationalAvoider.avoid", RA + ":RotationalAvoider.evaluate"],
         "2D and 3D; empty obstacle list, any velocity and position", cases=[2, 3])
def no_obstacles(t, dim):
    m = t.mod(MOD)
    vel = t.vec("v", dim, -10, 10)
    pos = t.vec("p", dim, -10, 10)
    av = m.RotationalAvoider(initial_dynamics=Constant(vel, dim), obstacle_environment=[])
    same(t, "evaluate", av.evaluate(pos), vel)
    same(t, "avoid", av.avoid(pos, initial_velocity=2.0 * vel), 2.0 * vel)
    same(t, "avoid-list", av.avoid(pos, initial_velocity=vel, obstacle_list=[]), vel)


def far_obstacle(t, gamma, k, dim):
    w = t.np.zeros(dim)
    w[0] = 1.0
    return Wall(gamma, -w, w, is_boundary=t.boolean("boundary"), velocity=t.vec("vel-obs", dim, -5, 5))


@harness([RA + ":RotationalAvoider.avoid", RA + ":RotationalAvoider.compute_obstacle_gamma"],
         "2D/3D; 1-3 (moving) obstacles or boundaries, all at or beyond the cut-off distance (any cut-off in [2, 1e6])",
         cases=[(2, 1), (2, 3), (3, 2)])
def all_out_of_range(t, case):
    dim, n = case
    m = t.mod(MOD)
    vel = t.vec("v", dim, -10, 10)
    cut = t.real("cut", 2, 1e6)
    obs = []
    for k in range(n):
        g = t.real("gamma", 2, 1e7)
        t.assume(g >= cut)
        obs.append(far_obstacle(t, g, k, dim))
    av = m.RotationalAvoider(initial_dynamics=Constant(vel, dim), obstacle_environment=obs, cut_off_gamma=cut)
    same(t, "unchanged", av.evaluate(t.np.zeros(dim)), vel)


@harness([RA + ":RotationalAvoider.avoid"],
         "2D/3D; resting initial dynamics, 1-2 resting obstacles at any gamma in [0.2, 1e3]", cases=[(2, 1), (3, 2)])
def rest_stays_rest(t, case):
    dim, n = case
    m = t.mod(MOD)
    w = t.np.zeros(dim)
    w[0] = 1.0
    obs = [Wall(t.real("gamma", 0.2, 1e3), w, -w) for _ in range(n)]
    av = m.RotationalAvoider(initial_dynamics=Constant(t.np.zeros(dim), dim), obstacle_environment=obs)
    same(t, "rest", av.evaluate(t.np.zeros(dim)), t.np.zeros(dim))


class WithMagnitude(Constant):
    def __init__(self, value, magnitude):
        super().__init__(value, len(value))
        self.magnitude = magnitude

    def evaluate_magnitude(self, position):
        return self.magnitude


@harness([MO + ":MultiObstacleAvoider.evaluate_sequence", "nonlinear_avoidance/dynamics/sequenced_dynamics.py:evaluate_dynamics_sequence"],
         "2D/3D; no obstacles; any nonzero velocity, own magnitude or that of the velocity", cases=[2, 3])
def multi_no_obstacles(t, dim):
    m = t.mod("nonlinear_avoidance.multi_obstacle_avoider")
    u = t.unit("v", dim)
    k = t.real("speed", 0.01, 10)
    if t.boolean("own-magnitude"):
        dyn = WithMagnitude(u, k)
    else:
        dyn = Constant(k * u, dim)
    av = m.MultiObstacleAvoider(obstacle_container=[], initial_dynamics=dyn)
    same(t, "unchanged", av.evaluate(t.np.zeros(dim)), k * u)


@harness([MO + ":MultiObstacleAvoider.evaluate_sequence", "nonlinear_avoidance/dynamics/sequenced_dynamics.py:evaluate_dynamics_sequence"],
         "2D/3D; resting initial dynamics, with and without an obstacle", cases=[2, 3])
def multi_rest(t, dim):
    m = t.mod("nonlinear_avoidance.multi_obstacle_avoider")
    w = t.np.zeros(dim)
    w[0] = 1.0
    c = Component(t.real("gamma", 0.2, 100), -w, w, t.np.zeros(dim), w)
    av = m.MultiObstacleAvoider(obstacle_container=[Tree(c)] if t.boolean("obs") else [],
                                initial_dynamics=Constant(t.np.zeros(dim), dim))
    same(t, "rest", av.evaluate(t.np.zeros(dim)), t.np.zeros(dim))


@harness([MO + ":MultiObstacleAvoider.evaluate_sequence", MO + ":MultiObstacleAvoider.compute_gamma_and_weights",
          RA + ":RotationalAvoider.get_rotation_weight", MO + ":MultiObstacleAvoider.evaluate_avoidance_from_sequence"],
         "2D; one obstacle that exerts no influence (infinite gamma); any direction and speed", cases=[None])
def multi_no_influence(t):
    m = t.mod("nonlinear_avoidance.multi_obstacle_avoider")
    w = t.np.array([1.0, 0.0])
    k = t.real("speed", 0.01, 10)
    u = t.unit("v", 2)
    t.assume(u[0] >= -0.99)
    t.assume(u[0] <= 0.99)
    c = Component(t.math.inf, -w, w, 2.0 * w, 3.0 * w)
    c.get_pose = lambda: None
    tree = Tree(c)
    tree.get_pose = lambda: None

    class Avoider(m.MultiObstacleAvoider):
        def compute_convergence_sequence(self, position, initial_sequence):
            return initial_sequence

    av = Avoider(obstacle=tree, initial_dynamics=Constant(k * u))
    same(t, "unchanged", av.evaluate(t.np.zeros(2)), k * u)


@harness([MO + ":MultiObstacleAvoider.evaluate_avoidance_from_sequence", RA + ":RotationalAvoider.get_rotation_weight",
          MO + ":MultiObstacleAvoider._simple_tangent_branch_update", MO + ":get_limited_weights_to_max_sum"],
         "2D; one obstacle at gamma 10, 100 or 1000: the direction turns by at most pi/gamma", cases=[10.0, 100.0, 1000.0])
def influence_fades(t, gamma):
    m = t.mod("nonlinear_avoidance.multi_obstacle_avoider")
    w, p = t.np.array([1.0, 0.0]), t.np.array([0.0, 1.0])
    r = t.unit("ref", 2)
    t.assume(r[0] >= 0.2)
    ref = r[0] * w + r[1] * p
    u = t.unit("conv", 2)
    t.assume(u[0] >= -0.99)
    t.assume(u[0] <= 0.999)
    t.assume(abs(u[0] * r[1] - u[1] * r[0]) >= 0.001)
    c = Component(gamma, -w, ref, t.np.zeros(2), w)
    av = m.MultiObstacleAvoider(obstacle=Tree(c), initial_dynamics=Constant(u))
    out = av.evaluate_avoidance_from_sequence(t.np.zeros(2), Sequence(u)).get_end_vector()
    import math
    t.ge("almost-unchanged", t.np.dot(out, u), math.cos(math.pi / gamma), 1e-4)


class Environment(list):
    n_obstacles = property(len)


class Convergence:
    """convergence dynamics that must not be asked, or that give the direction `value`"""

    def __init__(self, value=None):
        self.value = value

    def evaluate_convergence_around_obstacle(self, position, obstacle):
        return self.value

    def evaluate_projected_weight(self, position, obstacle):
        return 0.0


@harness([NL + ":SingularityConvergenceDynamics.evaluate", NL + ":SingularityConvergenceDynamics.evaluate_weighted_dynamics",
          NL + ":SingularityConvergenceDynamics.compute_gamma_weights", RA + ":RotationalAvoider.avoid"],
         "2D/3D; 0-3 obstacles at gamma >= 10 (its cut-off), any velocity", cases=[(2, 0), (2, 1), (2, 3), (3, 2)])
def nonlinear_out_of_range(t, case):
    dim, n = case
    m = t.mod("nonlinear_avoidance.nonlinear_rotation_avoider")
    u = t.unit("v", dim)
    k = t.real("speed", 0.0, 10)
    w = t.np.zeros(dim)
    w[0] = 1.0
    obs = Environment([Wall(t.real("gamma", 10, 1e7), -w, w) for _ in range(n)])
    av = m.SingularityConvergenceDynamics(initial_dynamics=Constant(k * u, dim), obstacle_environment=obs,
                                          obstacle_convergence=Convergence())
    same(t, "unchanged", av.evaluate(t.np.zeros(dim)), k * u)


@harness([NL + ":SingularityConvergenceDynamics.evaluate_sequence",
          NL + ":SingularityConvergenceDynamics.evaluate_weighted_dynamics_sequence",
          RA + ":RotationalAvoider.avoid_sequence"],
         "2D/3D; no obstacles; any velocity (including rest)", cases=[2, 3])
def nonlinear_sequence_no_obstacles(t, dim):
    m = t.mod("nonlinear_avoidance.nonlinear_rotation_avoider")
    u = t.unit("v", dim)
    k = t.real("speed", 0.0, 10)
    if t.boolean("rest"):
        t.assume(k == 0)
    else:
        t.assume(k >= 0.01)
    av = m.SingularityConvergenceDynamics(initial_dynamics=Constant(k * u, dim), obstacle_environment=Environment(),
                                          obstacle_convergence=Convergence())
    same(t, "unchanged", av.evaluate_sequence(t.np.zeros(dim)), k * u)


@harness(["nonlinear_avoidance/base_avoider.py:BaseAvoider.evaluate", "nonlinear_avoidance/base_avoider.py:BaseAvoider.attractor"],
         "2D and 3D; any dynamics, positions and attractor; 0-2 obstacles", cases=[(2, 0), (2, 2), (3, 1)])
def base_avoider_passes_the_dynamics_on(t, case):
    dim, n = case
    np = t.np
    m = t.mod("nonlinear_avoidance.base_avoider")
    A, b, att = t.mat("A", dim, dim, -2, 2), t.vec("b", dim, -3, 3), t.vec("attractor", dim, -5, 5)
    obstacles = [object() for _ in range(n)]
    asked = []

    class Free:
        attractor = att

        def evaluate(self, position):
            return A @ position + b

    class Avoider(m.BaseAvoider):
        def avoid(self, position, initial_velocity, obstacle_list):
            asked.append((position, initial_velocity, obstacle_list))
            return 2.0 * initial_velocity

    av = Avoider(Free(), obstacles)
    t.close("attractor", av.attractor, att)
    for i in range(2):
        p = t.vec(f"p{i}", dim, -5, 5)
        same(t, "avoided", av.evaluate(1.0 * p), 2.0 * (A @ p + b))
        same(t, "where it is", asked[i][0], p)
        same(t, "dynamics there", asked[i][1], A @ p + b)
        t.check("once each", len(asked) == i + 1)
        t.check("with its obstacles", len(asked[i][2]) == n and all(x is y for x, y in zip(asked[i][2], obstacles)))
    obstacles.append(object())
    av.evaluate(p)
    t.check("with obstacles added later", len(asked[2][2]) == n + 1)
    p += t.vec("step", dim, -1, 1)  # the same array, moved in place
    same(t, "moved in place", av.evaluate(p), 2.0 * (A @ p + b))
