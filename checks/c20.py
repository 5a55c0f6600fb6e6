"""C20 composed obstacles are passed along their tree, and sequences are avoided like velocities."""
from symx.harness import harness
from checks.helpers import Component, Constant, Sequence, Wall, around, elsewhere, frame, not_aligned, side_convergence

MO = "nonlinear_avoidance/multi_obstacle_avoider.py"
MOD = "nonlinear_avoidance.multi_obstacle_avoider"
RA = "nonlinear_avoidance/avoidance/rotational_avoider.py"
RAD = "nonlinear_avoidance.avoidance.rotational_avoider"
NL = "nonlinear_avoidance/nonlinear_rotation_avoider.py"
NLD = "nonlinear_avoidance.nonlinear_rotation_avoider"
VR = "nonlinear_avoidance.vector_rotation"


class Chain:
    """tree of parts given by the parent of each of them"""

    def __init__(self, components, parents):
        self.components, self.parents = components, parents
        self.root_idx = parents.index(None)

    n_components = property(lambda self: len(self.components))

    def __iter__(self):
        return iter(self.components)

    def __len__(self):
        return len(self.components)

    def get_component(self, i):
        return self.components[i]

    def get_parent_idx(self, i):
        return self.parents[i]

    def get_parent(self, i):
        return self.components[self.parents[i]]

    def get_root(self):
        return self.components[self.root_idx]

    def get_gamma(self, position, in_global_frame=True):
        return min(c.gamma for c in self.components)

    def get_pose(self):
        return None


class Part:
    """convex part with one relevant face; its normal and reference tell the point they were asked at"""

    def __init__(self, t, center, face, height, gamma):
        self.t, self.center_position, self.gamma = t, center, gamma
        self.face, self.height = face, height
        self.global_reference_point = center

    def get_reference_point(self, in_global_frame=False):
        return self.center_position if in_global_frame else 0 * self.center_position

    def get_gamma(self, position, in_global_frame=False):
        return self.gamma if in_global_frame else self.gamma + 1.5

    def get_reference_direction(self, position, in_global_frame=False):
        return (self.center_position if in_global_frame else 0 * position) - position

    def get_normal_direction(self, position, in_global_frame=False):
        return position if in_global_frame else position + self.center_position

    def get_intersection_with_surface(self, start, direction, in_global_frame=False):
        """where the line leaves through the face"""
        if not in_global_frame:
            start = start + self.center_position
        return start + direction * ((self.height - self.t.np.dot(start, self.face)) / self.t.np.dot(direction, self.face))


PARENTS = {1: [None], 2: [None, 0], "2r": [1, None], 3: [None, 0, 1], "3r": [1, 2, None], "3m": [2, None, 1]}


def order_of(parents, i):
    out = [i]
    while parents[out[-1]] is not None:
        out.append(parents[out[-1]])
    return out


@harness([MO + ":MultiObstacleAvoider._compute_normal_and_reference_of_branch", MO + ":MultiObstacleAvoider.get_normal_at_distance"],
         "2D; chain of 1-3 convex parts in any listing order, reference point of each within its parent, faces at any "
         "distance in [0.5, 2]; any position inside or outside of the last part", cases=[1, 2, "2r", "3m"], thorough_cases=[3, "3r"])
def branch_leads_to_root(t, kind):
    m = t.mod(MOD)
    parents = PARENTS[kind]
    n = len(parents)
    leaf = next(i for i in range(n) if i not in parents)
    order = order_of(parents, leaf)
    parts = [None] * n
    center = t.np.zeros(2)
    outside = t.boolean("outside")
    u = t.np.array(t.pick("u", [[1.0, 0.0], [0.6, 0.8], [-0.8, 0.6], [0.0, -1.0]]))
    for level, i in enumerate(order):
        if level:
            center = center + t.vec("step%d" % level, 2, -0.2, 0.2)
        parts[i] = Part(t, center, u, t.np.dot(center, u) + t.real("height%d" % level, 0.5, 2.0), 2.0 if outside and not level else 0.5)
    r = t.real("distance", 0.01, 5)
    t.assume((r >= parts[leaf].height + 0.01) if outside else (r <= parts[leaf].height))
    position = r * u
    expected, p = [], position
    for level, i in enumerate(order):
        start = parts[order[max(level - 1, 0)]].center_position
        p = parts[i].get_intersection_with_surface(start, p - start, in_global_frame=True)
        expected.append(p)
    av = m.MultiObstacleAvoider(obstacle=Chain(parts, parents), initial_dynamics=Constant(u))
    tree, normals, references = av._compute_normal_and_reference_of_branch(position, leaf, Chain(parts, parents))
    t.check("from-part-to-root", list(tree) == order)
    for level, i in enumerate(order):
        t.close("normal-at-surface", normals[level], expected[level], 1e-3)
        if level:
            t.close("reference-at-surface", references[level], parts[i].center_position - expected[level], 1e-3)
    t.close("reference-of-part", references[0], -position, 1e-3)


@harness([MO + ":MultiObstacleAvoider.get_normal_at_distance"],
         "2D; box whose normal depends on the point; any position outside of it (then its normal) or inside (that of the surface) along any of 4 directions",
         cases=["outside", "inside"])
def normal_of_boxes_is_that_of_the_position(t, kind):
    m = t.mod(MOD)

    class Box(Part):
        def get_reference_direction(self, position, in_global_frame=False):
            d = self.center_position - position
            return d / t.la.norm(d)

    old, m.Cuboid = m.Cuboid, Box
    try:
        u = t.np.array(t.pick("u", [[1.0, 0.0], [0.6, 0.8], [-0.8, 0.6], [0.0, -1.0]]))
        center, r = t.vec("center", 2, -3, 3), t.real("radius", 0.5, 2)
        box = Box(t, center, u, t.np.dot(center, u) + r, 2.0 if kind == "outside" else 0.5)
        d = t.real("distance", 0.0, 5) if kind == "outside" else -t.real("depth", 0.01, 0.4)
        av = m.MultiObstacleAvoider(obstacle=Chain([box], [None]), initial_dynamics=Constant(u))
        position = box.center_position + (r + d) * u
        t.close("normal-of-position", av._compute_normal_and_reference_of_branch(
            position, 0, Chain([box], [None]))[1][0], position if kind == "outside" else box.center_position + r * u, 1e-3)
        t.raises("no-direction-at-center", ValueError, lambda: av.get_normal_at_distance(box, box.center_position, d))
    finally:
        m.Cuboid = old


class Nodes:
    """records the directions a branch consists of"""

    def __init__(self):
        self.added, self.parent = {}, {}

    def add_node(self, node_id, direction=None, parent_id=None, **kw):
        self.added[node_id], self.parent[node_id] = direction, parent_id


def branch_avoider(t, m, levels, references, normals, tail=True):
    """avoider whose parts have the given references and normals (from the part to the root)"""
    class Avoider(m.MultiObstacleAvoider):
        def _compute_normal_and_reference_of_branch(self, position, comp_id, obstacle_tree, **kw):
            order = order_of(obstacle_tree.parents, comp_id)
            return order, [normals[i] for i in order], [references[i] for i in order]

    return Avoider


def turned_like(t, v, r, side=1):
    """v turned by the rotation of the x-axis onto r (or back)"""
    return t.np.array([v[0] * r[0] - side * v[1] * r[1], side * v[0] * r[1] + v[1] * r[0]])


def turned_references(t, n):
    """references from the root on, each turned relative to the one before by less than 170deg to either side"""
    refs = [t.np.array(t.pick("root", [[1.0, 0.0], [0.0, -1.0], [-0.6, 0.8]]))]
    for i in range(1, n):
        d = t.unit("turn%d" % i, 2)
        t.assume(d[0] >= -0.98)
        t.assume((d[1] >= 0.001) if t.boolean("left%d" % i) else (d[1] <= -0.001))
        refs.append(turned_like(t, refs[-1], d))
    return refs


@harness([MO + ":MultiObstacleAvoider._simple_tangent_branch_update", "nonlinear_avoidance/vector_rotation.py:VectorRotationXd.from_directions",
          "nonlinear_avoidance/vector_rotation.py:VectorRotationXd.rotate"],
         "2D; part at level 1-2 of a tree, any references of all levels, any base direction that leads away from the part "
         "(no tail effect)", cases=[2, 3])
def velocity_keeps_its_angle_to_the_reference(t, n):
    m = t.mod(MOD)
    refs = turned_references(t, n)
    v = t.unit("v", 2)
    expected = turned_like(t, turned_like(t, v, refs[0], -1), refs[-1])
    parts = [Component(1.5, expected, ref, None, None) for ref in refs]
    for p in parts:
        p.tail_effect = False
    parents = [None] + list(range(n - 1))
    av = branch_avoider(t, m, n, refs, [-1.0 * elsewhere(expected)] * (n - 1) + [expected])(obstacle=None, obstacle_container=[], initial_dynamics=Constant(v))
    av._tangent_tree, av._normal_vectors = Nodes(), []
    node = av._simple_tangent_branch_update(t.np.zeros(2), n - 1, v, Chain(parts, parents), 7, convergence_radius=t.math.pi / 2)
    t.check("branch", tuple(node) == (7, n - 1, n - 1) and len(av._tangent_tree.added) == n)
    path = [node]
    while path[-1] in av._tangent_tree.parent:
        path.append(av._tangent_tree.parent[path[-1]])
    t.check("leads-to-base", [tuple(k)[2] for k in path] == list(range(n - 1, -1, -1)) + [-1])
    t.close("turned-with-the-reference", av._tangent_tree.added[node], expected, 1e-3)
    t.check("normal-of-part", len(av._normal_vectors) == 1)
    t.close("normal", av._normal_vectors[0], expected)


@harness([MO + ":MultiObstacleAvoider.evaluate_avoidance_from_sequence", MO + ":MultiObstacleAvoider.compute_gamma_and_weights",
          MO + ":MultiObstacleAvoider.simple_population_tangent_tree",
          MO + ":MultiObstacleAvoider._simple_tangent_branch_update", MO + ":MultiObstacleAvoider.compute_parent_occlusion_weight"],
         "2D; on the surface (gamma 1) of a part at level 1 of a tree of 2, reference within 80deg of its normal, any "
         "direction of the velocity relative to it and any reference of the root (gamma 2)", cases=[True, False])
def on_surface_of_a_child(t, tail):
    m = t.mod(MOD)
    w = t.np.array([1.0, 0.0])
    p = t.np.array([0.0, 1.0])
    ref = t.unit("ref", 2)
    t.assume(ref[0] >= 0.2)
    local = side_convergence(t, w, p)  # after turning
    not_aligned(t, local, ref)
    d = t.np.array(t.pick("turn", [[0.0, 1.0], [0.0, -1.0], [1.0, 0.0]]))
    root_ref, base = turned_like(t, ref, d, -1), turned_like(t, local, d, -1)
    parts = [Component(2.0, -root_ref, root_ref, t.np.zeros(2), w), Component(1.0, -w, ref, t.np.zeros(2), w)]
    parts[1].tail_effect = tail
    tree = Chain(parts, [None, 0])
    av = branch_avoider(t, m, 2, [root_ref, ref], [-root_ref, -w])(obstacle=tree, initial_dynamics=Constant(base))
    out = av.evaluate_avoidance_from_sequence(t.np.zeros(2), Sequence(base)).get_end_vector()
    t.close("unit", t.np.dot(out, out), 1.0, 1e-3)
    t.le("not-into-part", t.np.dot(out, w), 0.0, 1e-4)
    if not tail and t.decide(t.np.dot(local, w) < -0.001):
        t.close("leaving-kept", out, local, 1e-3)


@harness([MO + ":MultiObstacleAvoider._simple_tangent_branch_update", RA + ":RotationalAvoider.get_projected_tangent_from_vectors"],
         "2D; part at level 1 of a tree of 2, convergence radius in ]pi/2, pi[ as used inside of it, reference within 80deg of "
         "the normal, any velocity relative to it that points into it or less than the radius away", cases=[None])
def inside_a_part_leads_out(t):
    m = t.mod(MOD)
    w, p = t.np.array([1.0, 0.0]), t.np.array([0.0, 1.0])
    ref = t.unit("ref", 2)
    t.assume(ref[0] >= 0.2)
    local = side_convergence(t, w, p)
    not_aligned(t, local, ref)
    cr = t.real("cos", -0.95, -0.05)
    t.assume(local[0] - cr >= 0.01)
    d = t.np.array(t.pick("turn", [[0.0, 1.0], [0.0, -1.0]]))
    root_ref, base = turned_like(t, ref, d, -1), turned_like(t, local, d, -1)
    parts = [Component(2.0, -root_ref, root_ref, t.np.zeros(2), w), Component(0.9, -w, ref, t.np.zeros(2), w)]
    av = branch_avoider(t, m, 2, [root_ref, ref], [-root_ref, -w])(obstacle_container=[], initial_dynamics=Constant(base))
    av._tangent_tree, av._normal_vectors = Nodes(), []
    node = av._simple_tangent_branch_update(t.np.zeros(2), 1, base, Chain(parts, [None, 0]), 3, convergence_radius=t.math.acos(cr))
    tree = av._tangent_tree
    out = tree.added[node]
    t.close("unit", t.np.dot(out, out), 1.0, 1e-3)
    t.close("at-radius", t.np.dot(out, w), cr, 1e-3)
    middle = tree.added[tree.parent[node]]
    t.close("over-the-tangent", t.np.dot(middle, w), 0.0, 1e-3)
    if t.decide(local[0] > 0.001):
        t.check("same-side", t.np.dot(out, middle) >= 0)
    t.close("from-the-turned-velocity", tree.added[tree.parent[tree.parent[node]]], local, 1e-3)


class Singular:
    """convergence dynamics towards an attractor; the weights are set by obstacle"""

    def __init__(self, projected):
        self.projected = projected

    def evaluate_projected_weight(self, position, obstacle):
        return obstacle.weight

    def evaluate_rotation_start_to_end(self, start, end, center):
        return self.projected.evaluate_rotation_start_to_end(start, end, center)

    def evaluate_rotation_position_to_transform(self, position, obstacle):
        return self.projected.evaluate_rotation_position_to_transform(position, obstacle)


class Towards:
    """velocity turned by the direction given for the point from the direct way to the attractor"""
    dimension = 2

    def __init__(self, t, attractor, turn):
        self.t, self.attractor_position, self.turn = t, attractor, turn
        self.asked = []

    def evaluate(self, position):
        self.asked.append(position)
        d = self.attractor_position - position
        r = self.turn(position)
        return self.t.np.array([d[0] * r[0] - d[1] * r[1], d[0] * r[1] + d[1] * r[0]])


def part_at(t, point, weight, gamma=3.0):
    c = Component(gamma, point, point, point, point)
    c.weight = weight
    return c


@harness([MO + ":MultiObstacleAvoider.compute_convergence_sequence", MO + ":MultiObstacleAvoider.vector_rotation_reduction",
          "nonlinear_avoidance/dynamics/projected_rotation_dynamics.py:ProjectedRotationDynamics.evaluate_rotation_start_to_end",
          "nonlinear_avoidance/vector_rotation.py:VectorRotationTree.add_node_orientation"],
         "2D; tree of 2-3 parts (in a chain or side by side) around the attractor, all the convergence weight on any one of "
         "them or on none; any velocities at the position and at the root", cases=["none", "root", "child", "grandchild"])
def convergence_through_tree(t, which):
    m = t.mod(MOD)
    P = t.mod("nonlinear_avoidance.dynamics.projected_rotation_dynamics").ProjectedRotationDynamics
    turn, init = t.unit("turn", 2), t.unit("init", 2)
    for u in (turn, init):
        t.assume(u[0] >= -0.95)
        t.assume(abs(u[1]) >= 0.001)
    position = t.np.array([2.0, 0.0])
    points = [[0.0, 1.5], [-1.0, 0.0], [0.0, -0.5]] if which != "child" else [[-1.0, 0.0], [0.0, 1.5], [0.0, 2.0]]
    direct = t.np.array([0.0, -1.0] if which != "child" else [1.0, 0.0])
    points = [t.np.array(q) for q in points]
    attractor = t.vec("attractor", 2, -3, 3)
    frame_ = attractor + 0.0
    position, points = position + frame_, [q + frame_ for q in points]
    dyn = Towards(t, attractor, lambda x: init if t.decide(x[0] - attractor[0] > 1) else turn)
    weights = {"none": (0, 0, 0), "root": (1, 0, 0), "child": (0, 1, 0), "grandchild": (0, 0, 1)}[which]
    parts = [part_at(t, q, float(w)) for q, w in zip(points, weights)]
    tree = Chain(parts, [None, 0, 1])
    default = None
    if t.boolean("default"):
        default = Towards(t, attractor, lambda x: turn)
        dyn.turn = lambda x: init
    av = m.MultiObstacleAvoider(obstacle=tree, initial_dynamics=dyn, default_dynamics=default,
                                convergence_dynamics=Singular(P(attractor_position=attractor, initial_dynamics=dyn)))
    seq = m.evaluate_dynamics_sequence(position, dyn)
    out = av.compute_convergence_sequence(position, seq).get_end_vector()
    if which == "none":
        t.close("initial-kept", out, t.np.array([-init[0], -init[1]]), 1e-3)
    else:
        t.close("direction-of-root", out, turned_like(t, turn, direct), 1e-3)


@harness([MO + ":MultiObstacleAvoider.compute_convergence_sequence", MO + ":MultiObstacleAvoider.compute_tree_weight"],
         "2D; tree of 2 parts which contains the attractor or is close to it (any gamma there), part weights 0 or 1",
         cases=[None])
def attractor_within_tree(t):
    m = t.mod(MOD)
    P = t.mod("nonlinear_avoidance.dynamics.projected_rotation_dynamics").ProjectedRotationDynamics
    turn, init = t.unit("turn", 2), t.unit("init", 2)
    for u in (turn, init):
        t.assume(u[0] >= -0.95)
        t.assume(abs(u[1]) >= 0.001)
    attractor = t.np.zeros(2)
    g = t.real("gamma", 0.1, 1.0)
    dyn = Towards(t, attractor, lambda x: init if t.decide(x[0] > 1) else turn)
    parts = [part_at(t, t.np.array([0.0, 1.5]), t.pick("w0", [0.0, 1.0]), g), part_at(t, t.np.array([-1.0, 0.0]), t.pick("w1", [0.0, 1.0]))]
    av = m.MultiObstacleAvoider(obstacle=Chain(parts, [None, 0]), initial_dynamics=dyn,
                                convergence_dynamics=Singular(P(attractor_position=attractor, initial_dynamics=dyn)))
    position = t.np.array([2.0, 0.0])
    out = av.compute_convergence_sequence(position, m.evaluate_dynamics_sequence(position, dyn)).get_end_vector()
    t.close("initial-kept", out, t.np.array([-init[0], -init[1]]), 1e-3)


@harness([MO + ":MultiObstacleAvoider.create_local_convergence_dynamics", MO + ":MultiObstacleAvoider.create_with_convergence_dynamics",
          NL + ":ConvergenceDynamicsWithoutSingularity.__init__"],
         "2D; dynamics with and without an attractor, with and without reference dynamics", cases=[True, False])
def convergence_dynamics_as_asked(t, attracted):
    m = t.mod(MOD)
    initial, reference = Constant(t.vec("v", 2, -2, 2)), Constant(t.vec("r", 2, -2, 2))
    obstacles = []
    if attracted:
        initial.attractor_position = t.vec("attractor", 2, -3, 3)
        given = reference if t.boolean("given") else None
        av = m.MultiObstacleAvoider.create_with_convergence_dynamics(obstacles, initial, given, convergence_radius=2.0)
        made = av.convergence_dynamics
        t.check("projected", isinstance(made, m.ProjectedRotationDynamics))
        t.close("attractor", made.attractor_position, initial.attractor_position)
        t.check("same-singularity", av.singularity is initial.attractor_position)
    else:
        t.raises("reference-needed", ValueError, lambda: m.MultiObstacleAvoider.create_with_convergence_dynamics(obstacles, initial))
        av = m.MultiObstacleAvoider.create_with_convergence_dynamics(
            obstacle_container=obstacles, initial_dynamics=initial, reference_dynamics=reference, convergence_radius=2.0)
        made = av.convergence_dynamics
        t.close("base-of-reference", made.get_base_convergence(t.np.zeros(2)), reference.value)
        t.check("no-singularity", av.singularity is None)
    t.check("initial", made.initial_dynamics is initial and av.initial_dynamics is initial)
    t.check("container", av.obstacle_container is obstacles and av.obstacle_list is obstacles)
    t.close("arguments-kept", av.convergence_radius, 2.0)
    t.raises("radius-out-of-bound", ValueError, lambda: m.MultiObstacleAvoider(
        obstacle_container=[], initial_dynamics=initial, convergence_radius=t.pick("radius", [1.0, 3.2])))


class Field(Constant):
    """direction depends on the place; sequences start at the base direction"""

    def __init__(self, t, base, at):
        self.t, self.base, self.at = t, base, at
        self.dimension = len(base)

    def evaluate(self, position):
        return self.at(position)

    def evaluate_dynamics_sequence(self, position):
        S = self.t.mod(VR).VectorRotationSequence
        return S.create_from_vector_array(self.t.np.array([self.base, self.at(position)]).T)


@harness([NL + ":ConvergenceDynamicsWithoutSingularity.evaluate_rotation_start_to_end",
          NL + ":ConvergenceDynamicsWithoutSingularity.evaluate_rotation_position_to_transform",
          NL + ":ConvergenceDynamicsWithoutSingularity.evaluate_projected_weight",
          NL + ":ConvergenceDynamicsWithoutSingularity.evaluate_convergence_around_obstacle",
          NL + ":ConvergenceDynamicsWithoutSingularity.evaluate_convergence_sequence_around_obstacle"],
         "2D and 3D; any base direction and field, any gamma", cases=[2, 3])
def no_singularity_no_turn(t, dim):
    m = t.mod(NLD)
    e = t.np.zeros(dim)
    e[0] = 1.0
    base, v = e * t.real("length", 0.1, 5), t.unit("v", dim)
    t.assume(v[0] >= -0.95)
    t.assume(v[0] <= 0.95)
    field = Field(t, base, lambda x: v if t.decide(x[0] > 0.5) else 2.0 * e)
    c = m.ConvergenceDynamicsWithoutSingularity(convergence_dynamics=Constant(base), initial_dynamics=field)
    g = t.real("gamma", 0.1, 50)
    point = t.vec("point", dim, 1, 2)
    obs = Component(g, None, None, None, point)
    w = c.evaluate_projected_weight(t.np.zeros(dim), obs)
    t.check("share", (w >= 0) and (w <= 1))
    if t.decide(g <= 1):
        t.close("full-when-touched", w, 1.0)
    else:
        t.close("inverse-of-distance", w * g, 1.0)
    for k, r in enumerate([c.evaluate_rotation_position_to_transform(t.np.zeros(dim), obs),
                           c.evaluate_rotation_start_to_end(t.np.zeros(dim), point, None)]):
        q = t.vec("q%d" % k, dim, -3, 3)
        t.assume(t.np.dot(q, q) >= 0.01)
        t.close("no-turn", r.rotate(q), q, 1e-3)
        t.close("from-the-base", r.base[:, 0] * t.la.norm(base), base, 1e-3)
    t.close("field-at-reference", c.evaluate_convergence_around_obstacle(t.np.zeros(dim), obs), v)
    t.close("sequence-at-reference", c.evaluate_convergence_sequence_around_obstacle(
        t.np.zeros(dim), obs, None).get_end_vector(), v, 1e-3)
    t.close("base", c.get_base_convergence(point), base)


@harness([MO + ":MultiObstacleAvoider.compute_convergence_sequence", NL + ":ConvergenceDynamicsWithoutSingularity.evaluate_rotation_start_to_end"],
         "2D; tree of 2 parts in a field without attractor, full weight of the root, the child or none; any field directions "
         "at the position, at the root and at the child", cases=["root", "child"])
def convergence_without_attractor(t, which):
    m = t.mod(MOD)
    n = t.mod(NLD)
    base = t.np.array([1.0, 0.0])
    at = [t.unit("at%d" % i, 2) for i in range(3)]
    for u in at:
        t.assume(u[0] >= -0.95)
        t.assume(abs(u[1]) >= 0.001)

    def where(x):
        return at[0] if t.decide(x[0] < 0.5) else (at[1] if t.decide(x[0] < 1.5) else at[2])

    field = Field(t, base, where)
    parts = [part_at(t, t.np.array([1.0 + i, 0.0]), None, 3.0) for i in range(2)]

    class Weighted(n.ConvergenceDynamicsWithoutSingularity):
        def evaluate_projected_weight(self, position, obstacle):
            return 1.0 if obstacle is parts[which == "child"] else 0.0

    default = None
    if t.boolean("default"):
        default = Field(t, base, lambda x: at[1])
    av = m.MultiObstacleAvoider(obstacle=Chain(parts, [None, 0]), initial_dynamics=field, default_dynamics=default,
                                convergence_dynamics=Weighted(convergence_dynamics=Constant(base), initial_dynamics=field))
    position = t.np.zeros(2)
    out = av.compute_convergence_sequence(position, field.evaluate_dynamics_sequence(position)).get_end_vector()
    t.close("direction-of-root", out, at[1], 1e-3)


class Environment(list):
    """list of obstacles as the environment of an avoider"""
    dimension = 2
    n_obstacles = property(len)


def rows(t, *vectors):
    return t.mod(VR).VectorRotationSequence.create_from_vector_array(t.np.array(list(vectors)).T)


def deviating(t, name, e):
    u = t.unit(name, 2)
    t.assume(u[0] >= -0.95)
    t.assume(abs(u[1]) >= 0.001)
    return turned_like(t, u, e)


@harness([RA + ":RotationalAvoider.avoid_sequence", RA + ":RotationalAvoider.get_pseudo_tangent",
          RA + ":RotationalAvoider.get_smooth_continuation_weight", RA + ":RotationalAvoider.compute_normal_tensor"],
         "2D; on the surface (gamma 1 or inside) of an obstacle or boundary, reference within 80deg of the normal, any initial "
         "direction, any convergence direction not aligned with the reference; with or without falling back to the "
         "convergence", cases=[(False, False), (False, True), (True, True)])
def sequence_on_surface(t, case):
    boundary, tail = case
    m = t.mod(RAD)
    w, p = t.np.array([1.0, 0.0]), t.np.array([0.0, 1.0])
    r = t.unit("ref", 2)
    t.assume(r[0] >= 0.2)
    conv = side_convergence(t, w, p)
    not_aligned(t, conv, r)
    init = t.unit("init", 2)
    t.assume(abs(init[1]) >= 0.001)
    ref, normal = (-r, w) if boundary else (r, -w)
    obs = Environment([Wall(1.0 if boundary else t.real("gamma", 0.5, 1.0), normal, ref, boundary)])
    av = m.RotationalAvoider(initial_dynamics=Constant(init), obstacle_environment=obs, tail_rotation=tail)
    base = t.np.array([0.0, 1.0])
    t.assume(abs(conv[0]) >= 0.01)
    t.assume(abs(init[0]) >= 0.01)
    out = av.avoid_sequence(t.np.zeros(2), rows(t, base, init), rows(t, base, conv),
                            convergence_default=t.boolean("default")).get_end_vector()
    t.close("unit", t.np.dot(out, out), 1.0, 1e-3)
    t.le("not-into", t.np.dot(out, w), 0.0, 1e-4)
    if not tail and t.decide(t.np.dot(conv, w) < -0.001):
        t.close("leaving-kept", out, conv, 1e-3)


@harness([RA + ":RotationalAvoider.avoid_sequence"],
         "2D; no obstacles, or 1-2 obstacles which have no importance (far away)", cases=[0, 1, 2])
def sequence_in_free_space(t, n):
    m = t.mod(RAD)
    e = t.np.array([1.0, 0.0])
    init = deviating(t, "init", e)
    conv = deviating(t, "conv", e) if n < 2 else t.np.array([0.0, 1.0])
    obs = Environment(Wall(t.real("gamma%d" % i, 1e3, 1e4), e, -e) for i in range(n))
    old, m.compute_weights = m.compute_weights, lambda g: t.np.zeros(len(g))
    try:
        av = m.RotationalAvoider(initial_dynamics=Constant(init), obstacle_environment=obs)
        out = av.avoid_sequence(t.np.zeros(2), rows(t, e, init), rows(t, e, conv), convergence_default=t.boolean("default"))
        t.close("initial-kept", out.get_end_vector(), init, 1e-3)
    finally:
        m.compute_weights = old


@harness([NL + ":SingularityConvergenceDynamics.evaluate_sequence", RA + ":RotationalAvoider.avoid_sequence",
          NL + ":SingularityConvergenceDynamics.evaluate_weighted_dynamics_sequence"],
         "2D; one obstacle touched, or none at all; dynamics of any speed in [0.1, 10], with or without a speed of their own; "
         "reference within 80deg of the normal", cases=["none", "touched", "rest"])
def sequences_keep_the_speed(t, kind):
    n = t.mod(NLD)
    e = t.np.array([0.0, 1.0])
    w, p = t.np.array([1.0, 0.0]), t.np.array([0.0, 1.0])
    speed = t.real("speed", 0.1, 10)
    init = deviating(t, "init", e)
    own = t.boolean("own-speed")
    field = Field(t, e, lambda x: init * (1.0 if own else speed))
    if own:
        field.evaluate_magnitude = lambda x: 0.0 if kind == "rest" else speed
    elif kind == "rest":
        field.at = lambda x: t.np.zeros(2)
    obs = Environment()
    if kind != "none":
        r = t.unit("ref", 2)
        t.assume(r[0] >= 0.2)
        conv = side_convergence(t, w, p)
        not_aligned(t, conv, r)
        t.assume(abs(conv[0]) >= 0.01)
        obs.append(Wall(1.0, -w, r))
        obs[0].convergence = conv

    class Around:
        def evaluate_projected_weight(self, position, obstacle):
            return 1.0

        def evaluate_convergence_sequence_around_obstacle(self, position, obstacle, initial_sequence):
            return rows(t, e, obstacle.convergence)

    av = n.SingularityConvergenceDynamics(initial_dynamics=field, obstacle_environment=obs, obstacle_convergence=Around())
    out = av.evaluate_sequence(t.np.zeros(2))
    if kind == "rest":
        t.close("rest", out, t.np.zeros(2))
        return
    t.close("speed-kept", t.np.dot(out, out), speed * speed, 1e-2)
    if kind == "none":
        t.close("initial", out, init * speed, 1e-3)
    else:
        t.le("not-into", t.np.dot(out, w), 0.0, 1e-3)



@harness([RA + ":RotationalAvoider.avoid_sequence", RA + ":RotationalAvoider.get_intermediate_convergence_direction"],
         "2D; obstacle touched, convergence radius in ]pi/2, pi[, reference within 80deg of the normal, any convergence "
         "direction into the obstacle", cases=[None])
def sequence_is_repelled_at_radius(t):
    m = t.mod(RAD)
    w, p = t.np.array([1.0, 0.0]), t.np.array([0.0, 1.0])
    r = t.unit("ref", 2)
    t.assume(r[0] >= 0.2)
    conv = side_convergence(t, w, p)
    not_aligned(t, conv, r)
    t.assume(conv[0] >= 0.01)
    cr = t.real("cos", -0.95, -0.05)
    obs = Environment([Wall(1.0, -w, r)])
    av = m.RotationalAvoider(initial_dynamics=Constant(conv), obstacle_environment=obs, convergence_radius=t.math.acos(cr))
    base = t.np.array([0.0, 1.0])
    out = av.avoid_sequence(t.np.zeros(2), rows(t, base, conv), rows(t, base, conv)).get_end_vector()
    t.close("unit", t.np.dot(out, out), 1.0, 1e-3)
    t.close("at-radius", t.np.dot(out, w), cr, 1e-3)


@harness([MO + ":MultiObstacleAvoider.get_tangent_direction", MO + ":MultiObstacleAvoider.evaluate_avoidance_direction",
          MO + ":MultiObstacleAvoider.evaluate_avoidance_sequence", MO + ":MultiObstacleAvoider.populate_tangent_tree",
          MO + ":MultiObstacleAvoider._update_tangent_branch"],
         "2D; on the surface (gamma 1) of the part of a single-part tree, reference within 80deg of the normal, any "
         "velocity not aligned with the reference; or at rest; the same on the child of a root part with any of 4 references",
         cases=["root", "child", "rest"])
def tangent_direction_on_surface(t, kind):
    m = t.mod(MOD)
    w, p = t.np.array([1.0, 0.0]), t.np.array([0.0, 1.0])
    v = p if kind == "child" else side_convergence(t, w, p)
    if kind == "rest":
        av = m.MultiObstacleAvoider(obstacle_container=[], initial_dynamics=Constant(v))
        t.close("rest", av.get_tangent_direction(t.np.zeros(2), t.np.zeros(2)), t.np.zeros(2))
        return
    ref = t.unit("ref", 2)
    t.assume(ref[0] >= 0.2)
    not_aligned(t, v, ref)
    parts = [Component(1.0, -w, ref, t.np.zeros(2), w)]
    refs, normals, parents = [ref], [-w], [None]
    if kind == "child":
        ref = t.np.array(t.pick("child_ref", [[0.6, 0.8], [0.96, -0.28], [0.96, 0.28]]))
        over, v = t.pick("over", [([0.6, 0.8], [0.8, 0.6]), ([0.6, -0.8], [1.0, 0.0]), ([0.6, 0.8], [0.28, 0.96])])
        over, v = t.np.array(over), t.np.array(v)
        parts, refs, normals, parents = [Component(2.0, -over, over, t.np.zeros(2), over)] + parts, [over, ref], [-over, -w], [None, 0]
    tree = Chain(parts, parents)
    given = t.boolean("given")

    class Local:
        def evaluate_convergence_around_obstacle(self, position, obstacle):
            return v

    av = branch_avoider(t, m, 2, refs, normals)(obstacle=tree, initial_dynamics=Constant(v), convergence_dynamics=Local())
    out = av.get_tangent_direction(t.np.zeros(2), v, v if given else None)
    t.close("unit", t.np.dot(out, out), 1.0, 1e-3)
    t.le("not-into-part", t.np.dot(out, w), 0.0, 1e-4)


@harness([MO + ":MultiObstacleAvoider.compute_convergence_sequence", MO + ":MultiObstacleAvoider.compute_tree_weight",
          MO + ":MultiObstacleAvoider.vector_rotation_reduction"],
         "2D; straight dynamics, tree of 1-2 parts with the attractor at gamma in ]1, 3[, full weight of the root or the child; "
         "or partial weight of the child and the attractor far from it", cases=["root", "child", "partial"])
def convergence_shares(t, which):
    m = t.mod(MOD)
    P = t.mod("nonlinear_avoidance.dynamics.projected_rotation_dynamics").ProjectedRotationDynamics
    attractor = t.np.zeros(2)
    dyn = Towards(t, attractor, lambda x: t.np.array([1.0, 0.0]))
    child = t.real("weight", 0.02, 0.98) if which == "partial" else float(which == "child")
    g = 3.0 if which == "partial" else t.real("gamma", 1.01, 3.0)
    parts = [part_at(t, t.np.array([0.0, 1.5]), float(which == "root"), g), part_at(t, t.np.array([0.0, 2.5]), child, 5.0)]
    av = m.MultiObstacleAvoider(obstacle=Chain(parts, [None, 0]), initial_dynamics=dyn,
                                convergence_dynamics=Singular(P(attractor_position=attractor, initial_dynamics=dyn)))
    position = t.np.array([2.0, 0.0])
    out = av.compute_convergence_sequence(position, m.evaluate_dynamics_sequence(position, dyn)).get_end_vector()
    share = child if which == "partial" else (g - 1 if t.decide(g <= 2) else 1.0)
    angle = share * t.math.pi / 2
    t.close("share-of-the-turn", out, t.np.array([-t.math.cos(angle), -t.math.sin(angle)]), 1e-3)


@harness([MO + ":MultiObstacleAvoider.vector_rotation_reduction", "nonlinear_avoidance/vector_rotation.py:VectorRotationTree.from_sequence"],
         "2D; any sequences of 2 directions and any transformation between their roots; weight 0, no transformation, or weight 1",
         cases=["none", "zero", "full"])
def reduction_of_two_sequences(t, kind):
    m = t.mod(MOD)
    base = frame(t)
    d, u = turn_of(t, "between"), turn_of(t, "second")
    if kind == "full":
        base = t.np.eye(2)
        d = t.np.array(t.pick("d", [[0.0, 1.0], [0.6, -0.8], [-0.6, 0.8]]))
        u = t.np.array(t.pick("u", [[0.0, 1.0], [0.6, 0.8], [-0.6, -0.8]]))
    root = t.np.dot(base, d)
    end = t.np.dot(base, t.np.array([d[0] * u[0] - d[1] * u[1], d[1] * u[0] + d[0] * u[1]]))
    first = rows(t, base[:, 0], t.np.dot(base, turn_of(t, "first")))
    second = rows(t, root, end)
    between = t.mod("nonlinear_avoidance.vector_rotation").VectorRotationXd.from_directions(base[:, 0], root)
    if kind == "none":
        out = m.MultiObstacleAvoider.vector_rotation_reduction(first, None, second, t.real("weight", 0, 1))
    else:
        out = m.MultiObstacleAvoider.vector_rotation_reduction(first, between, second, float(kind == "full"))
    t.close("end", out.get_end_vector(), end if kind == "full" else first.get_end_vector(), 2e-3)


def turn_of(t, name):
    u = t.unit(name, 2)
    t.assume(u[0] >= -0.9)
    t.assume((u[1] >= 0.01) if t.boolean(name + "-left") else (u[1] <= -0.01))
    return u
