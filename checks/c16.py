"""C16 composed obstacles: rigid motion of the parts, joints, collision with any part."""
from symx.harness import harness

N = "nonlinear_avoidance/"
M = "nonlinear_avoidance."
MO, MB = N + "multi_obstacle.py:MultiObstacle.", N + "multi_body_human.py:MultiBodyObstacle."


class Part:
    """stand-in of a single obstacle: a distance value that is linear in the local position"""

    def __init__(self, t, name, pose, slope=None):
        self.name, self.pose, self.axes_length, self.reference = name, pose, t.vec("axes_" + name, pose.dimension, 0.1, 5), None
        self.slope, self.level = slope, t.real("level_" + name, -5, 5)
        self.asked = []

    def get_gamma(self, position, in_global_frame=False):
        if in_global_frame:
            position = self.pose.transform_position_to_relative(position)
        self.asked.append(self.pose.transform_position_from_relative(position))
        return self.level if self.slope is None else self.level + position @ self.slope

    def set_reference_point(self, position, in_global_frame=False):
        self.reference = self.pose.transform_position_to_relative(position) if in_global_frame else position

    def get_reference_point(self, in_global_frame=False):
        return self.pose.transform_position_from_relative(self.reference) if in_global_frame else self.reference

    @property
    def position(self):
        return self.pose.position

    @property
    def orientation(self):
        return self.pose.orientation

    @orientation.setter
    def orientation(self, value):
        self.pose.orientation = value


def turn(t, name, dim):
    if dim == 2:
        return t.real(name, -3.1, 3.1)
    return t.mod("vartools.states").Rotation.from_matrix(t.rot3(name))


def any_pose(t, name, dim, turned=True):
    st = t.mod("vartools.states")
    if not turned:
        return st.Pose(t.vec("p_" + name, dim, -5, 5), None)
    return st.Pose(t.vec("p_" + name, dim, -5, 5), turn(t, "o_" + name, dim))


def copy_of(t, pose):
    return t.mod("vartools.states").Pose(1.0 * pose.position, pose.orientation)


def tree(t, dim, n=3, slope=False, turned=True):
    """composed obstacle of n parts in a row and their local poses"""
    base = any_pose(t, "base", dim)
    o = t.mod(M + "multi_obstacle").MultiObstacle(base)
    parts, local, joints = [], [], []
    for i in range(n):
        p = any_pose(t, f"part{i}", dim, turned and i > 0)
        local.append(copy_of(t, p))
        parts.append(Part(t, str(i), p, t.vec(f"slope{i}", dim, -2, 2) if slope else None))
        if i:
            joints.append(t.vec(f"joint{i}", dim, -2, 2))
            o.add_component(parts[i], parent_ind=i - 1, reference_position=joints[-1])
        else:
            o.set_root(parts[0])
    return o, parts, local, joints


@harness([MO + "update_pose", MO + "set_root", MO + "add_component", MO + "get_pose", MO + "get_parent_idx"], "2-3 parts (dim 2, 3) at any local poses, any two poses of the whole",
         cases=[(2, 3), (3, 2)], thorough_cases=[(3, 3)])
def rigid_motion(t, case):
    dim, n = case
    o, parts, local, joints = tree(t, dim, n, turned=dim == 2)
    q = t.vec("q", dim, -3, 3)
    t.check("parts", len(o) == n and o.n_components == n and all(o[i] is parts[i] and o.get_component(i) is parts[i] for i in range(n)))
    t.check("root", o.get_root() is parts[0] and o.get_parent_idx(o.root_idx) is None)
    t.check("parents", all(o.get_parent_idx(i) == i - 1 for i in range(1, n)))
    for k in range(3):
        if k < 2:
            base = o._pose if k == 0 else any_pose(t, "new", dim)
        if k:
            o.update_pose(base)
            t.check("pose", o.pose is base or bool(t.np.all(o.pose.position == base.position)))
        for i in range(n):
            t.close(f"part {i} moves with the whole {k}", parts[i].pose.transform_position_from_relative(q),
                    base.transform_position_from_relative(local[i].transform_position_from_relative(q)))
    for i in range(1, n):
        t.close("joint of the part", parts[i].reference, joints[i - 1])
    pose = o.get_pose()
    pose.position = pose.position + 1.0
    t.close("pose is a copy", o.pose.position, base.position)


@harness([MO + "get_gamma", MO + "is_collision_free", MO + "get_gamma_except_components"], "2-3 parts (dim 2), 2 (dim 3) with any distance values and poses, any position and frame",
         cases=[(2, 3), (3, 2)])
def any_part_collides(t, case):
    dim, n = case
    o, parts, local, joints = tree(t, dim, n, turned=False)
    x = t.vec("x", dim, -5, 5)
    y = o.pose.transform_position_from_relative(x)
    g = [p.level for p in parts]
    low = g[0]
    for v in g[1:]:
        low = v if t.decide(v < low) else low
    t.check("closest part", o.get_gamma(y, in_global_frame=True) == low)
    t.check("local frame", o.get_gamma(x, in_global_frame=False) == low)
    t.check("free of all parts", bool(o.is_collision_free(y)) == bool(low > 1))
    for i in range(n):
        rest = [v for k, v in enumerate(g) if k != i]
        m = rest[0] if len(rest) == 1 else (rest[0] if t.decide(rest[0] < rest[1]) else rest[1])
        t.check("without a part", o.get_gamma_except_components(y, [i]) == m)
        t.check("without a part, local frame", o.get_gamma_except_components(x, [i], in_global_frame=False) == m)
    if n == 3:
        for i in range(3):
            t.check("without two parts", o.get_gamma_except_components(y, [k for k in range(3) if k != i]) == g[i])
    t.raises("no part left", ValueError, lambda: o.get_gamma_except_components(y, list(range(n))))
    for i in range(n):
        t.check("every part is asked", len(parts[i].asked) > 0)
        for z in parts[i].asked:
            t.close("distance at the given position", z, y)


@harness([MO + "get_gamma", MO + "get_gamma_except_components"], "2 turned parts with any linear distance values, any pose, position and frame")
def distance_of_turned_parts(t):
    o, parts, local, joints = tree(t, 2, 2, slope=True)
    x = t.vec("x", 2, -5, 5)
    y = o.pose.transform_position_from_relative(x)
    for i in range(2):
        v = parts[1 - i].get_gamma(y, in_global_frame=True)
        t.close("without a part", o.get_gamma_except_components(y, [i]), v)
        t.close("without a part, local frame", o.get_gamma_except_components(x, [i], in_global_frame=False), v)


@harness([MO + "add_component"], "a second part (dim 2) at any pose, any intersection with the first; none", cases=[True, False])
def joint_is_found(t, found):
    m = t.mod(M + "multi_obstacle")
    o, parts, local, joints = tree(t, 2, 1)
    p = any_pose(t, "new", 2)
    keep, new, seen, J = copy_of(t, p), Part(t, "new", p), [], t.vec("J", 2, -5, 5)

    def meet(a, b):
        seen.append({a: a.pose, b: b.pose})
        return J if found else None

    old = m.get_intersection_of_obstacles
    m.get_intersection_of_obstacles = meet
    try:
        if found:
            o.add_component(new, parent_ind=0)
        else:
            t.raises("no joint", ValueError, lambda: o.add_component(new, parent_ind=0))
    finally:
        m.get_intersection_of_obstacles = old
    q = t.vec("q", 2, -3, 3)
    t.check("asked once", len(seen) == 1 and set(seen[0]) == {new, parts[0]})
    t.close("both at their place", seen[0][new].transform_position_from_relative(q), o.pose.transform_position_from_relative(keep.transform_position_from_relative(q)))
    if found:
        t.close("joint", new.get_reference_point(in_global_frame=True), J)
        t.close("moved", new.pose.transform_position_from_relative(q), o.pose.transform_position_from_relative(keep.transform_position_from_relative(q)))
    else:
        t.check("not added", len(o) == 1 and o.n_components == 1)


@harness([MO + "update_deformation"], "3 parts (dim 2) at any poses, any rate and step that keep a positive size", cases=[None])
def deformation(t):
    o, parts, local, joints = tree(t, 2, 3)
    parts[0].set_reference_point(t.vec("joint0", 2, -2, 2), in_global_frame=False)
    refs, axes = [p.get_reference_point(in_global_frame=True) for p in parts], [p.axes_length for p in parts]
    centers, orient = [p.pose.position for p in parts], [p.pose.rotation_matrix for p in parts]
    o.update_deformation(0.1)
    for i, p in enumerate(parts):
        t.close("rigid by default", p.axes_length, axes[i])
        t.close("center by default", p.pose.position, centers[i])
    o.deformation_rate, dt = t.real("rate", -1, 5), t.real("dt", 0.001, 0.5)
    f = 1 + o.deformation_rate * dt
    c = o.pose.position
    o.update_deformation(dt)
    for i, p in enumerate(parts):
        t.close("size", p.axes_length, f * axes[i])
        t.close("center", p.pose.position, c + f * (centers[i] - c))
        t.close("orientation", p.pose.rotation_matrix, orient[i])
        t.close("joint", p.get_reference_point(in_global_frame=True), c + f * (refs[i] - c))


@harness([MO + "linear_velocity"], "dim 2, 3: any velocity", cases=[2, 3])
def own_velocity(t, dim):
    o, parts, local, joints = tree(t, dim, 1, turned=False)
    t.close("rests by default", o.linear_velocity, t.np.zeros(dim))
    for k in range(2):
        v = t.vec(f"v{k}", dim, -5, 5)
        o.linear_velocity = v
        t.close("velocity", o.linear_velocity, v)
        t.close("twist", o.twist.linear, v)


class Moving:
    def __init__(self, gamma, pose, twist=None, rate=None):
        self.gamma, self.pose, self.twist = gamma, pose, twist
        if rate is not None:
            self.deformation_rate = rate

    def get_gamma(self, position, in_global_frame=False):
        return self.gamma if in_global_frame else self.gamma + 1.5

    def get_pose(self):
        return self.pose


REL = [N + "multi_obstacle_avoider.py:compute_multiobstacle_relative_velocity", N + "multi_obstacle_avoider.py:compute_gamma_weights"]


@harness(REL, "dim 2, 3: an obstacle of any pose, linear and angular velocity and deformation rate, any point on its surface; others at any distance",
         cases=[(2, 0), (2, 1), (3, 0), (3, 1)])
def surface_velocity(t, case):
    dim, others = case
    np = t.np
    m, st = t.mod(M + "multi_obstacle_avoider"), t.mod("vartools.states")
    pose = any_pose(t, "a", dim)
    lin, rate = t.vec("lin", dim, -5, 5), t.real("rate", -1, 1)
    ang = t.real("ang", -5, 5) if dim == 2 else t.vec("ang", 3, -5, 5)
    x = t.vec("x", dim, -5, 5)
    r = x - pose.position
    o = Moving(1.0, pose, st.Twist(lin, ang), rate if t.boolean("deforms") else None)
    env = [o]
    for i in range(others):
        env.insert(t.pick("place", [0, 1]), Moving(t.real(f"gamma{i}", 1.01, 100), any_pose(t, f"b{i}", dim), st.Twist(t.vec("lin2", dim, -5, 5), ang), rate))
    turn = np.array([-ang * r[1], ang * r[0]]) if dim == 2 else np.array([ang[1] * r[2] - ang[2] * r[1], ang[2] * r[0] - ang[0] * r[2], ang[0] * r[1] - ang[1] * r[0]])
    v = m.compute_multiobstacle_relative_velocity(x, env)
    t.close("velocity of the surface", v, lin + turn + (rate * r if hasattr(o, "deformation_rate") else 0.0 * r))


@harness(REL, "2 obstacles (dim 2, 3) at any distance, any linear velocities; resting obstacles", cases=[2, 3])
def velocity_away_from_surface(t, dim):
    np = t.np
    m, st = t.mod(M + "multi_obstacle_avoider"), t.mod("vartools.states")
    x, a = t.vec("x", dim, -5, 5), t.vec("a", dim, -5, 5)
    env = [Moving(t.real(f"gamma{i}", 1.01, 100), any_pose(t, f"a{i}", dim), None) for i in range(2)]
    t.close("rest", m.compute_multiobstacle_relative_velocity(x, env), np.zeros(dim))
    f = [t.real(f"f{i}", 0, 1) for i in range(2)]
    for o, k in zip(env, f):
        o.twist = st.Twist(k * a)
    v = m.compute_multiobstacle_relative_velocity(x, env)
    t.close("direction", v * a[0], v[0] * a)
    t.ge("not backwards", v @ a, 0)
    t.le("not faster", v @ a, (f[0] if t.decide(f[0] > f[1]) else f[1]) * (a @ a))
    for o in env:
        o.twist = st.Twist(a)
    w = m.compute_multiobstacle_relative_velocity(x, env)
    g = [o.gamma for o in env]
    t.assume(g[0] <= 2.0)
    t.close("full next to the obstacle", w, a)


# ------------------------------------------------------------------ bodies

def body(t, dim, parents=(0, 0, 1), spec=None, **kw):
    b = t.mod(M + "multi_body_human").MultiBodyObstacle(**kw)
    b.dimension = dim
    st = t.mod("vartools.states")
    parts, refs = [], []
    for i in range(len(parents) + 1):
        p = st.Pose(t.vec(f"p{i}", dim, -5, 5), turn(t, f"o{i}", dim) if spec is None or spec[i] else (0.0 if dim == 2 else t.mod("vartools.states").Rotation.from_euler("x", 0)))
        parts.append(Part(t, f"n{i}", p))
    return b, parts


def assemble(t, b, parts, parents, ids=None):
    dim, joints = b.dimension, []
    ids = ids or [None] * len(parts)
    b.set_root(parts[0], name="n0", update_id=ids[0])
    for i, k in enumerate(parents, 1):
        own, his = t.vec(f"own{i}", dim, -2, 2), t.vec(f"his{i}", dim, -2, 2)
        joints.append((own, his))
        b.add_component(parts[i], name=f"n{i}", reference_position=own, parent_name=f"n{k}", parent_reference_position=his, update_id=ids[i])
    return joints


def joined(t, parts, parents, joints, tag=""):
    for i, k in enumerate(parents, 1):
        own, his = joints[i - 1]
        t.close(f"joint {i}{tag}", parts[i].pose.transform_position_from_relative(own), parts[k].pose.transform_position_from_relative(his))


SHAPES = [(0, 0, 0), (0, 0, 1), (0, 1, 1), (0, 1, 2)]


@harness([MB + "update", MB + "align_obstacle_tree", MB + "align_position_with_parent", MB + "set_root", MB + "add_component"],
         "4 parts (dim 2) in any tree, 3 (dim 3), all of any pose and joints", cases=[(2, s) for s in SHAPES] + [(3, (0, 1)), (3, (0, 0))])
def joints_are_kept(t, case):
    dim, parents = case
    b, parts = body(t, dim, parents)
    joints = assemble(t, b, parts, parents)
    root, orient = 1.0 * parts[0].pose.position, [p.pose.rotation_matrix for p in parts]
    b.update()
    joined(t, parts, parents, joints)
    t.close("root stays", parts[0].pose.position, root)
    for p, o in zip(parts, orient):
        t.close("orientation kept", p.pose.rotation_matrix, o)
    i = t.pick("turned", list(range(len(parts))))
    if dim == 2:
        parts[i].orientation = turn(t, "again", dim)
    else:
        parts[i].pose.position = t.vec("again", 3, -5, 5)
    b.update()
    joined(t, parts, parents, joints, " again")


@harness([MB + "get_obstacle_id_from_name", MB + "get_obstacle_id_from_optitrackid", MB + "get_name", MB + "get_parent_idx", MB + "get_update_id", MB + "optitrack_indeces", MB + "get_gamma"],
         "4 parts (dim 3) in any tree, any distance values", cases=SHAPES)
def body_links(t, parents):
    b, parts = body(t, 3, parents, spec=[False] * 4)
    ids = t.pick("ids", [(7, 3, 11, 5), (None, 2, 0, 9), (4, None, None, 1)])
    assemble(t, b, parts, parents, ids)
    t.check("root", b.get_root() is parts[0] and b.get_pose() is parts[0].pose and b.get_parent_idx(0) is None)
    for i in range(4):
        t.check("part", b[i] is parts[i] and b.get_component(i) is parts[i])
        t.check("name", b.get_name(i) == f"n{i}" and b.get_obstacle_id_from_name(f"n{i}") == i)
        t.check("tracked", b.get_update_id(i) == ids[i] and b.optitrack_indeces[i] == (-1 if ids[i] is None else ids[i]))
        if ids[i] is not None:
            t.check("found", b.get_obstacle_id_from_optitrackid(ids[i]) == i)
        if i:
            t.check("parent", b.get_parent_idx(i) == parents[i - 1])
    x = t.vec("x", 3, -5, 5)
    g = b.get_gamma(x)
    for p in parts:
        t.le("not further than any part", g, p.level)
        t.check("every part is asked", len(p.asked) > 0)
        for z in p.asked:
            t.close("distance at the given position", z, x)
    t.check("of one part", any(bool(g == p.level) for p in parts))


class Filter:
    def __init__(self, *a, **k):
        self.value = None

    def run_once(self, value):
        self.value = value

    position = orientation = rotation = property(lambda self: self.value)


class Tracked:
    def __init__(self, messages):
        self.messages = messages

    def get_messages(self):
        return self.messages


@harness([MB + "update", MB + "update_using_optitrack", MB + "update_orientation_based_on_position", MB + "align_position_with_parent"],
         "3 parts (dim 3): the second measured at any position, the third following; with and without the frame of a robot", cases=[(False, True), (False, False), (True, True)])
def measured_limb(t, case):
    robot, chain = case
    np = t.np
    m, st = t.mod(M + "multi_body_human"), t.mod("vartools.states")
    old = m.PositionFilter, m.SimpleOrientationFilter
    m.PositionFilter = m.SimpleOrientationFilter = Filter
    try:
        parents = (0, 1) if chain else (0, 0)
        kw = {}
        if robot:
            class Robot:
                optitrack_id = 99
                pose = st.Pose(t.vec("robot", 3, -5, 5), st.Rotation.from_euler("z", t.math.pi * 0.5))

                def publish_robot_transform(self):
                    pass

            kw["robot"] = Robot()
        b, parts = body(t, 3, parents, spec=[False] * 3, **kw)
        joints = assemble(t, b, parts, parents, (None, 5, None))
        if robot:  # keep it small
            for k in (0, 1):
                for v in joints[k]:
                    t.assume(v[0] >= 0)
        up = t.boolean("up")
        d, r = t.unit("d", 3), t.real("r", 0.1, 3)
        t.assume(d[2] >= 0.05 if up else d[2] <= -0.05)
        t.assume(d[2] >= -0.95)
        J = parts[0].pose.transform_position_from_relative(joints[0][1])
        x = J + r * d
        if robot:
            x = b.robot.pose.transform_position_from_relative(x)
        b.pose_updater = Tracked([m.RigidBody(5, x, st.Rotation.from_euler("x", 0)), m.RigidBody(17, 0.0 * x, st.Rotation.from_euler("x", 0))])
        b.update()
        joined(t, parts, parents, joints)
        t.close("turned to the measured direction", parts[1].pose.rotation_matrix @ np.array([0.0, 0.0, 1.0]), d)
        t.close("others follow their parent", parts[2].pose.rotation_matrix, parts[1 if chain else 0].pose.rotation_matrix)
    finally:
        m.PositionFilter, m.SimpleOrientationFilter = old


@harness([N + "multi_body_human.py:transform_from_multibodyobstacle_to_multiobstacle"], "4 parts (dim 2) in any tree, any poses, joints and base pose", cases=SHAPES)
def body_as_composed_obstacle(t, parents):
    m = t.mod(M + "multi_body_human")
    b, parts = body(t, 2, parents)
    joints = assemble(t, b, parts, parents)
    keep = [copy_of(t, p.pose) for p in parts]
    base = any_pose(t, "base", 2) if t.boolean("placed") else None
    o = m.transform_from_multibodyobstacle_to_multiobstacle(b, base) if base is not None else m.transform_from_multibodyobstacle_to_multiobstacle(b)
    t.check("parts", o.n_components == 4 and all(o[i] is parts[i] for i in range(4)))
    t.check("parents", o.get_parent_idx(0) is None and all(o.get_parent_idx(i) == k for i, k in enumerate(parents, 1)))
    q = t.vec("q", 2, -3, 3)
    for i in range(4):
        x = keep[i].transform_position_from_relative(q)
        t.close("place", parts[i].pose.transform_position_from_relative(q), x if base is None else base.transform_position_from_relative(x))
        if i:
            t.close("joint", parts[i].reference, joints[i - 1][0])


# ------------------------------------------------------------------ arch, container, ellipses

class Box(Part):
    def __init__(self, axes_length, pose, **kw):
        self.axes_length, self.pose, self.reference, self.kw, self.asked = axes_length, pose, None, kw, []


@harness([N + "arch_obstacle.py:create_arch_obstacle", N + "arch_obstacle.py:BlockArchObstacle.__init__", N + "arch_obstacle.py:BlockArchObstacle.add_component",
          N + "arch_obstacle.py:BlockArchObstacle.set_root"], "any wall width and axes that leave an opening, any pose", cases=[True, False])
def arch(t, factory):
    m = t.mod(M + "arch_obstacle")
    np = t.np
    w, a, pose = t.real("wall", 0.05, 2), t.vec("axes", 2, 0.2, 10), any_pose(t, "base", 2)
    t.assume(w <= 0.5 * a[0] - 0.01)
    t.assume(w <= 0.5 * a[1] - 0.01)
    margin = t.real("margin", 0, 1)
    old = m.Cuboid
    m.Cuboid = Box
    try:
        o = (m.create_arch_obstacle if factory else m.BlockArchObstacle)(w, a, pose, margin_absolut=margin)
    finally:
        m.Cuboid = old
    t.check("three walls", o.n_components == 3 and len(list(o)) == 3)
    t.check("root", o.root_idx == 0 and o.get_parent_idx(0) is None and o.get_parent_idx(1) == 0 and o.get_parent_idx(2) == 0)
    place = [pose.transform_position_to_relative(p.pose.position) for p in o]
    for p in o:
        t.close("margin", p.kw["margin_absolut"], margin)
        t.close("turned with the arch", p.pose.rotation_matrix, pose.rotation_matrix)
    size = [p.axes_length for p in o]
    t.close("wall in the middle", place[0], np.zeros(2))
    t.close("size of the wall", size[0], np.array([w, a[1]]))
    for i, s in ((1, 1.0), (2, -1.0)):
        t.close("size of the arm", size[i], np.array([a[0], w]))
        t.close("flush with the wall", place[i][0] - 0.5 * a[0], -0.5 * w)
        t.close("flush with its end", s * place[i][1] + 0.5 * w, 0.5 * a[1])
        ref = o[i].get_reference_point(in_global_frame=False)
        at = pose.transform_position_to_relative(o[i].get_reference_point(in_global_frame=True))
        for d in range(2):
            t.le("joint in the arm", abs(ref[d]), 0.5 * size[i][d])
            t.le("joint in the wall", abs(at[d]), 0.5 * size[0][d])


@harness([N + "arch_obstacle.py:BlockArchObstacle.get_gamma", N + "arch_obstacle.py:BlockArchObstacle.get_gamma_except_components", N + "arch_obstacle.py:BlockArchObstacle.is_collision_free"],
         "any pose, position and distance values of the walls", cases=[None])
def arch_gamma(t):
    m = t.mod(M + "arch_obstacle")
    pose = any_pose(t, "base", 2)
    old = m.Cuboid
    m.Cuboid = Box
    try:
        o = m.BlockArchObstacle(1.0, t.np.array([4.0, 5.0]), pose)
    finally:
        m.Cuboid = old
    for i, p in enumerate(o):
        p.slope, p.level = t.vec(f"slope{i}", 2, -2, 2), t.real(f"level{i}", -5, 5)
    x = t.vec("x", 2, -5, 5)
    y = pose.transform_position_from_relative(x)
    g = [p.get_gamma(y, in_global_frame=True) for p in o]
    low = g[0]
    for v in g[1:]:
        low = v if t.decide(v < low) else low
    t.close("closest wall", o.get_gamma(y), low)
    t.close("local frame", o.get_gamma(x, in_global_frame=False), low)
    t.check("free", bool(o.is_collision_free(y)) == bool(low > 1))
    t.close("without two", o.get_gamma_except_components(x, [0, 2], in_global_frame=False), g[1])


@harness([N + "multi_obstacle_container.py:MultiObstacleContainer.get_gamma", N + "multi_obstacle_container.py:MultiObstacleContainer.is_collision_free"],
         "3 composed obstacles of any distance values", cases=[None])
def container(t):
    c = t.mod(M + "multi_obstacle_container").MultiObstacleContainer()
    class Whole(Moving):
        def is_collision_free(self, position):
            return self.gamma > 1

    trees = [Whole(t.real(f"g{i}", 0, 5), None) for i in range(3)]
    for i, o in enumerate(trees):
        c.append(o)
        t.check("length", len(c) == i + 1)
    t.check("order", [o for o in c] == trees and all(c.get_tree(i) is o and c.get_obstacle_tree(i) is o for i, o in enumerate(trees)))
    x = t.vec("x", 2, -5, 5)
    g = c.get_gamma(x)
    for o in trees:
        t.le("not further than any", g, o.gamma)
    t.check("of one", any(bool(g == o.gamma) for o in trees))
    t.check("free of all", bool(c.is_collision_free(x)) == bool(g > 1))


@harness([N + "multi_ellipse_obstacle.py:MultiEllipseObstacle.get_gamma", N + "multi_ellipse_obstacle.py:MultiEllipseObstacle.is_inside"], "3 ellipses of any distance values", cases=[None])
def ellipses(t):
    o = t.mod(M + "multi_ellipse_obstacle").MultiEllipseObstacle()
    parts = [Moving(t.real(f"g{i}", 0, 5), None) for i in range(3)]
    for p in parts:
        o.append(p)
    x = t.vec("x", 2, -5, 5)
    g = o.get_gamma(x)
    for p in parts:
        t.le("not further than any", g, p.gamma)
    t.check("of one", any(bool(g == p.gamma) for p in parts))
    t.check("inside of any", bool(o.is_inside(x)) == bool(g <= 1))


@harness([N + "geometry.py:get_intersection_of_obstacles"], "the joint of an ellipse and another obstacle in any order, any outline of the overlap; none", cases=[True, False])
def intersection(t, first):
    np = t.np
    m = t.mod(M + "geometry")

    class Coords:
        def __init__(self, xy):
            self.exterior = self.coords = self
            self.xy = xy

    empty = t.boolean("empty")
    xy = np.zeros((2, 0)) if empty else t.mat("xy", 2, 4, -5, 5)

    class Shape:
        def __init__(self, of):
            self.of = of

        def intersection(self, other):
            pairs.append((self.of, other.of))
            return Coords(xy)

    pairs = []

    class Other:
        shape = None

        def create_shape(self):
            self.shape = Shape(self)

    class Oval(m.EllipseWithAxes):
        def __init__(self):
            pass

    def outline(e):
        if not isinstance(e, Oval):
            raise NotImplementedError()
        return Shape(e)

    a, b = Oval(), Other()
    old = m.create_shapely_ellipse
    m.create_shapely_ellipse = outline
    try:
        p = m.get_intersection_of_obstacles(*((a, b) if first else (b, a)))
    finally:
        m.create_shapely_ellipse = old
    t.check("of both", len(pairs) == 1 and set(pairs[0]) == {a, b})
    if empty:
        t.check("none", p is None)
    else:
        t.close("middle of the outline", p, sum(xy[:, i] for i in range(4)) / 4)
