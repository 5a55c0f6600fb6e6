"""Obstacles and frames shared by the checks (stand-ins for what the code gets from its companion packages)."""


NORMALS = ([1.0, 0.0], [0.0, -1.0])


def elsewhere(direction):
    """another direction"""
    import numpy
    return numpy.array([-direction[1], direction[0]] + list(direction[2:]))


def alike(a, b):
    """the same values, be it the array itself or a copy"""
    return a is b or (len(a) == len(b) and all(bool(abs(p - q) < 1e-9) for p, q in zip(a, b)))


def owner(t, items, value, of):
    """the item with this very value, else the only one with an equal value"""
    for o in items:
        if of(o) is value:
            return o
    own = [o for o in items if alike(of(o), value)]
    t.assume(len(own) < 2)
    return own[0] if own else None


class Wall:
    """Obstacle as seen by the avoider: distance value, outward normal, reference direction."""

    def __init__(self, gamma, normal, reference, is_boundary=False, velocity=None):
        self.gamma, self.normal, self.reference = gamma, normal, reference
        self.is_boundary = is_boundary
        if velocity is not None:
            self.get_velocity_at_position = lambda position: velocity

    at = (0.0, 0.0)  # where the values hold (None: everywhere)

    def here(self, position, in_global_frame):
        """the values are those of the global position; taken as a local one it is somewhere else"""
        return in_global_frame and (self.at is None or all(bool(abs(a - b) < 1e-9) for a, b in zip(position, self.at)))

    def get_gamma(self, position, in_global_frame=False, in_obstacle_frame=None):
        return self.gamma if self.here(position, in_global_frame if in_obstacle_frame is None else not in_obstacle_frame) else self.gamma + 1.5

    def get_normal_direction(self, position, in_global_frame=False, in_obstacle_frame=None):
        return self.normal if self.here(position, in_global_frame if in_obstacle_frame is None else not in_obstacle_frame) else elsewhere(self.normal)

    def get_reference_direction(self, position, in_global_frame=False, in_obstacle_frame=None):
        return self.reference if self.here(position, in_global_frame if in_obstacle_frame is None else not in_obstacle_frame) else elsewhere(self.reference)


class Constant:
    def __init__(self, value, dimension=2):
        self.value, self.dimension = value, dimension

    def evaluate(self, position):
        return self.value


def frame(t, name="f"):
    return t.rot(name, 2)


def around(t, base, name, lo=-1.0, hi=1.0):
    """arbitrary unit vector in the frame: c * base0 + s * base1"""
    u = t.unit(name, 2)
    t.assume(u[0] >= lo)
    t.assume(u[0] <= hi)
    return u[0] * base[:, 0] + u[1] * base[:, 1], u


def moving(t, conv):
    """velocity of any length that is not (anti-)parallel to conv"""
    vu = t.unit("vel", 2)
    t.assume(vu[0] >= -0.99)
    t.assume(vu[0] <= 0.999)
    k = t.real("speed", 0.1, 10)
    return k * (vu[0] * conv + vu[1] * t.np.array([-conv[1], conv[0]])), k


def surface_setup(t, is_boundary):
    """wall direction w (unit, towards the obstacle) and the obstacle on whose surface the agent is"""
    w = t.np.array(t.pick("wall", NORMALS))
    p = t.np.array([-w[1], w[0]])
    r = t.unit("ref", 2)
    t.assume(r[0] >= 0.2)
    ref = r[0] * w + r[1] * p  # towards the wall
    if is_boundary:
        normal = -w if t.boolean("normal-inward") else w
        ref = -ref
    else:
        normal = -w
    return w, p, normal, ref


def side_convergence(t, w, p):
    u = t.unit("conv", 2)
    t.assume(u[0] >= -0.99)
    t.assume(u[0] <= 0.999)
    side = 1.0 if t.boolean("left") else -1.0
    t.assume(u[1] * side >= 0)
    return u[0] * w + u[1] * p


class Component(Wall):
    """component of a tree whose surface point and normal are given"""
    tail_effect = True

    def __init__(self, gamma, normal, reference, surface, center):
        super().__init__(gamma, normal, reference)
        self.surface, self.center_position = surface, center
        self.global_reference_point = center

    def get_reference_point(self, in_global_frame=False):
        return self.global_reference_point if in_global_frame else 0 * self.global_reference_point

    def get_intersection_with_surface(self, position, direction, in_global_frame=False):
        return self.surface if in_global_frame else self.surface - self.center_position


class Tree:
    """hierarchy obstacle: component 0 is the root, all others are its children"""
    root_idx = 0

    def __init__(self, *components):
        self.components = components

    n_components = property(lambda self: len(self.components))

    def __iter__(self):
        return iter(self.components)

    def __len__(self):
        return len(self.components)

    def get_component(self, i):
        return self.components[i]

    def get_parent_idx(self, i):
        return None if i == 0 else 0

    def get_root(self):
        return self.components[0]

    def get_gamma(self, position, in_global_frame=True):
        return min(c.gamma for c in self.components)


class Sequence:
    def __init__(self, v):
        self.v = v

    def get_end_vector(self):
        return self.v


def not_aligned(t, conv, ref):
    t.assume(abs(conv[0] * ref[1] - conv[1] * ref[0]) >= 0.001)
