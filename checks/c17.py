"""C17 walls that can be entered: hulls around rooms, containers of boundaries, and the ways through them."""
from symx.harness import harness
from checks.helpers import alike, elsewhere, owner

N = "nonlinear_avoidance/"
M = "nonlinear_avoidance."
H = N + "multi_hull_and_obstacle.py:"
HO = H + "MultiHullAndObstacle."


class Space:
    """stand-in of an obstacle or room: distance value above one in its free space; records what it is asked"""

    def __init__(self, t, name, dim=2, gamma=None, center=None, axes=None, boundary=True):
        self.t, self.name, self.dimension, self.is_boundary = t, name, dim, boundary
        self.gamma = gamma if gamma is not None else t.real("gamma_" + name, 0, 10)
        self.center_position = center if center is not None else t.np.zeros(dim)
        self.axes_length = axes
        self.asked, self.directions = [], []

    def get_gamma(self, position, in_global_frame=False):
        if in_global_frame:
            self.asked.append(position)
        return self.gamma if in_global_frame else self.gamma + 1.5

    def is_inside(self, position, in_global_frame=False):
        if in_global_frame:
            self.asked.append(position)
        return (self.gamma if in_global_frame else self.gamma + 1.5) < 1

    def get_point_on_surface(self, position, in_global_frame=False):
        return ("surface", self.name, position)


def hull_of(t, gammas=None, dim=2, n=2, placed=True, **kw):
    st = t.mod("vartools.states")
    rooms = [Space(t, f"room{i}", dim) for i in range(n)]
    outer = Space(t, "outer", dim, boundary=False)
    args = {}
    if placed:
        args = {"center_position": t.vec("place", dim, -5, 5)}
        if dim == 2:
            args["orientation"] = t.real("turn", -3.1, 3.1)
    h = t.mod(M + "multi_hull_and_obstacle").MultiHullAndObstacle(inner_obstacles=rooms, outer_obstacle=outer, **args)
    return h, rooms, outer


def links(t, h, rooms, edges=(), entrances=()):
    """the graph of passages: (room, room, distance, point) and (room, distance, point)"""
    import networkx as nx
    h._graph = nx.Graph()
    h._graph.add_nodes_from(rooms)
    for i, j, d, p in edges:
        h._graph.add_edge(rooms[i], rooms[j], distance=d, intersection=p)
    for k, (i, d, p) in enumerate(entrances):
        h._graph.add_edge(k, rooms[i], distance=d, intersection=p)
    h._entrance_counter = len(entrances)


def asked_at(t, label, spaces, p):
    for s in spaces:
        for q in s.asked:
            t.close(label, q, p)


@harness([HO + "is_inside", HO + "__init__"], "hull with 0-2 rooms of any distance values, any pose of the hull, both frames", cases=[(2, 0), (2, 1), (2, 2), (3, 2)])
def in_the_wall(t, case):
    dim, n = case
    h, rooms, outer = hull_of(t, dim=dim, n=n)
    x = t.vec("x", dim, -5, 5)
    y = h.transform_relative2global(x)
    free = any([bool(o.gamma >= 1) for o in rooms + [outer]])
    t.check("collides unless in any free space", bool(h.is_inside(y)) == (not free))
    t.check("same in the local frame", bool(h.is_inside(x, in_global_frame=False)) == (not free))
    asked_at(t, "at the position", rooms + [outer], x)
    t.check("elements", h.n_elements == n + 1 and h.dimension == dim and len(h.all_obstacles) == n + 1 and h.all_obstacles[h._indices_outer] is outer
            and all(h.all_obstacles[k] is rooms[k] for k in h._indices_inner))


@harness([HO + "_evaluate_weights", N + "_base_multiobstacle.py:BaseMulitObstacle._evaluate_weights"], "1-3 free spaces of any distance values", cases=[1, 2, 3])
def weights_of_spaces(t, n):
    if t.boolean("hull"):
        h, rooms, outer = hull_of(t, n=n - 1)
        spaces = rooms + [outer]
    else:
        spaces = [Space(t, f"s{i}") for i in range(n)]

        class Multi(t.mod(M + "_base_multiobstacle").BaseMulitObstacle):
            n_elements, all_obstacles = n, spaces

        h = Multi()
    x = t.vec("x", 2, -5, 5)
    h._evaluate_weights(x)
    w, g = h.weights, h.gamma_list
    asked_at(t, "at the position", spaces, x)
    t.check("one weight each", len(w) == n and len(g) == n)
    free = any([bool(o.gamma > 1) for o in spaces])
    t.close("sum", t.np.sum(w), 1.0 if free else 0.0)
    for i, o in enumerate(spaces):
        t.check("distance value", g[i] == o.gamma)
        t.ge("not negative", w[i], 0)
        t.check("weight iff in its free space", bool(w[i] > 0) == bool(o.gamma > 1))
        for j in range(i):
            if t.decide(o.gamma > spaces[j].gamma):
                t.ge("further inside counts more", w[i], w[j])


@harness([HO + "set_attractor", HO + "get_attractor", HO + "_evaluate_weights"], "2 rooms of any distance values, any pose and attractor, both frames; also after another attractor", cases=[True, False])
def attractor_of_hull(t, glob):
    h, rooms, outer = hull_of(t)
    links(t, h, rooms)
    x = t.vec("x", 2, -5, 5)
    if t.boolean("again"):
        keep = [o.gamma for o in rooms + [outer]]
        for o in rooms + [outer]:
            o.gamma = 5.0
        h.set_attractor(t.vec("old", 2, -5, 5), in_global_frame=False)
        for o, g in zip(rooms + [outer], keep):
            o.gamma, o.asked = g, []
    if glob:
        h.set_attractor(h.transform_relative2global(x), in_global_frame=True)
    else:
        h.set_attractor(x)
    asked_at(t, "at the attractor", rooms + [outer], x)
    nodes = [h._graph.nodes[r] for r in rooms]
    flags = [h._attractor_is_outside] + [n["contains_attractor"] for n in nodes]
    local = [h._local_outside_attractor] + [n["local_attractor"] for n in nodes]
    spaces = [outer] + rooms
    t.check("in some space", any(flags))
    free = [bool(o.gamma >= 1) for o in spaces]
    for o, f, a, fr in zip(spaces, flags, local, free):
        t.check("known iff it contains the attractor", (a is not None) == bool(f))
        if a is not None:
            t.close("attractor", a, x)
        if any(free):
            t.check("contains the attractor iff it is free there", bool(f) == fr)
        elif f:
            for q in spaces:
                t.ge("closest space", o.gamma, q.gamma)
    t.close("attractor of the hull", h.get_attractor(), x)


POINTS = {(0, 1): [0.0, 1.0], (1, 2): [1.0, 0.0], (0, 2): [3.0, 4.0]}
WAYS = [[(0, 1), (1, 2)], [(0, 1), (1, 2), (0, 2)], [(0, 1), (0, 2)]]


def goes_to(t, label, local, name, point):
    t.check(label, local is not None and local[0] == "surface" and local[1] == name and bool(t.np.all(local[2] == point)))


@harness([HO + "update_shortest_attractor_path", HO + "_assign_local_attractors_along_path"], "3 rooms with 2-3 passages of any length, the attractor in one or two of them, and in a room that is not "
         "connected; the way of the second planned before or not", cases=[0, 1, 2])
def way_to_room(t, way):
    apart, planned = t.pick("setting", [(False, False), (True, False), (False, True)])
    h, rooms, outer = hull_of(t, n=4 if apart else 3, placed=False)
    d = {e: t.real(f"d{e[0]}{e[1]}", 0.01, 10) for e in WAYS[way]}
    links(t, h, rooms, [(i, j, d[i, j], t.np.array(POINTS[i, j])) for i, j in WAYS[way]])
    goals = t.pick("goals", [(2,), (1, 2)])
    a = t.vec("a", 2, -5, 5)
    for i, r in enumerate(rooms):
        h._graph.nodes[r]["contains_attractor"] = i in goals or i == 3
        h._graph.nodes[r]["local_attractor"] = a if i in goals or i == 3 else (7.0 * a if planned and i == 1 else None)
    h._attractor_is_outside = False
    h.update_shortest_attractor_path(rooms[0])
    ways = []  # (length, rooms)
    for g in goals:
        for mid in [(), (1,), (2,)]:
            w = (0,) + mid + (g,)
            if len(set(w)) == len(w) and all(tuple(sorted(e)) in d for e in zip(w, w[1:])):
                ways.append((sum((d[tuple(sorted(e))] for e in zip(w, w[1:])), 0.0), w))
    local = h._graph.nodes[rooms[0]]["local_attractor"]
    t.check("leads on", local is not None and local[1] == "room0")
    fits = []
    for length, w in ways:
        e = tuple(sorted(w[:2]))
        if list(local[2]) == POINTS[e]:
            fits.append((length, w))
    t.check("through a passage", len(fits) > 0)
    best = fits[0][0]
    for length, _ in fits[1:]:
        best = length if t.decide(length < best) else best
    for length, _ in ways:
        t.le("shortest way", best, length)
    for i in goals:
        t.check("goal keeps the attractor", bool(t.np.all(h._graph.nodes[rooms[i]]["local_attractor"] == a)))
    if planned and 1 not in goals:
        t.close("plan is kept", h._graph.nodes[rooms[1]]["local_attractor"], 7.0 * a)
    elif 1 not in goals and h._graph.nodes[rooms[1]]["local_attractor"] is not None:
        nxt = h._graph.nodes[rooms[1]]["local_attractor"]
        t.check("next room leads on to the goal", nxt[1] == "room1" and list(nxt[2]) == (POINTS[1, 2] if (1, 2) in d else POINTS[0, 1]))


@harness([HO + "update_shortest_attractor_path", HO + "_assign_local_attractors_along_path", H + "get_property_of_node_edge"],
         "2 rooms in a row, entrances of any place on an axis at each, attractor outside; another room with an entrance that "
         "is not connected", cases=[False, True])
def way_out(t, also_inside):
    apart = t.boolean("apart")
    h, rooms, outer = hull_of(t, n=3 if apart else 2, placed=False)
    np = t.np
    d01, e0, e1 = t.real("d01", 0.01, 10), t.real("e0", 0.01, 10), t.real("e1", 0.01, 10)
    p0, p1 = np.array([t.real("p0", 0.01, 10), 0.0]), np.array([0.0, t.real("p1", 0.01, 10)])
    links(t, h, rooms, [(0, 1, d01, np.array([3.0, 4.0]))], [(0, e0, p0), (1, e1, p1)] + [(2, 0.001, np.zeros(2))] * apart)
    for i, r in enumerate(rooms):
        h._graph.nodes[r].update(contains_attractor=also_inside and i == 1, local_attractor=np.zeros(2) if also_inside and i == 1 else None)
    h._attractor_is_outside, h._local_outside_attractor = True, np.zeros(2)
    h.update_shortest_attractor_path(rooms[0])
    local = h._graph.nodes[rooms[0]]["local_attractor"]
    ways = {"entrance": e0 + p0[0], "room": d01 if also_inside else d01 + e1 + p1[1]}
    t.check("of the room", local[1] == "room0")
    out = bool(np.all(local[2] == p0))
    if not out:
        goes_to(t, "through the other room", local, "room0", np.array([3.0, 4.0]))
    t.le("shortest way", ways["entrance" if out else "room"], ways["room" if out else "entrance"])
    if not out and not also_inside:
        goes_to(t, "out of the other room", h._graph.nodes[rooms[1]]["local_attractor"], "room1", p1)
    t.close("attractor outside is kept", h._local_outside_attractor, np.zeros(2))


@harness([HO + "update_shortest_attractor_path_starting_from_outside", HO + "_assign_local_attractors_along_path", H + "get_property_of_node_edge"],
         "2 rooms in a row, two entrances of any place on an axis at the same or different rooms, attractor in the second and in a "
         "room that is not connected", cases=[(0, 1), (1, 0), (0, 0)])
def way_in(t, at):
    h, rooms, outer = hull_of(t, n=3 if t.boolean("apart") else 2, placed=False)
    np = t.np
    d01, e = t.real("d01", 0.01, 10), [t.real(f"e{i}", 0.01, 10) for i in range(2)]
    p = [np.array([t.real("p0", 0.01, 10), 0.0]), np.array([0.0, t.real("p1", 0.01, 10)])]
    links(t, h, rooms, [(0, 1, d01, np.array([3.0, 4.0]))], [(at[k], e[k], p[k]) for k in range(2)])
    a = t.vec("a", 2, -5, 5)
    for i, r in enumerate(rooms):
        h._graph.nodes[r].update(contains_attractor=i >= 1, local_attractor=a if i >= 1 else None)
    h._attractor_is_outside, h._local_outside_attractor = False, None
    h.update_shortest_attractor_path_starting_from_outside(np.zeros(2))
    local = h._local_outside_attractor
    length = [t.np.sum(p[k]) + e[k] + (d01 if at[k] == 0 else 0.0) for k in range(2)]
    t.check("on the outside", local is not None and local[1] == "outer")
    k = 0 if bool(np.all(local[2] == p[0])) else 1
    goes_to(t, "an entrance", local, "outer", p[k])
    t.le("shortest way", length[k], length[1 - k])
    if at[k] == 0:
        goes_to(t, "on to the goal", h._graph.nodes[rooms[0]]["local_attractor"], "room0", np.array([3.0, 4.0]))
    t.check("goal keeps the attractor", bool(np.all(h._graph.nodes[rooms[1]]["local_attractor"] == a)))


@harness([HO + "evaluate_hirarchy_and_reference_points", HO + "_update_intersections_with_outer_obstacle"],
         "2 rooms of any size, apart along an axis, in an outer obstacle of any size; any points found by the descent; any pose", cases=[None])
def passages(t):
    m = t.mod(M + "multi_hull_and_obstacle")
    np = t.np
    h, rooms, outer = hull_of(t)
    dist = t.real("dist", 0, 6)
    outer.axes_length, outer.center_position = t.vec("outer_axes", 2, 0.1, 10), np.zeros(2)
    for i, r in enumerate(rooms):
        r.axes_length = t.vec(f"axes{i}", 2, 0.1, 5)
        r.center_position = np.array([dist, 0.0]) if i else np.zeros(2)
    q = [np.array([float(3 * i), 4.0 + i]) for i in range(3)]
    free, calls = {}, []

    def descent(obstacles, factors=None, powers=None, **kw):
        k = {frozenset([rooms[0], outer]): 0, frozenset([rooms[1], outer]): 1}.get(frozenset(obstacles), 2)
        calls.append((k, list(obstacles), list(factors), list(powers)))
        for o in obstacles:
            free[k, o.name] = t.boolean(f"free{k}{o.name}")
            o.free_at = getattr(o, "free_at", {})
            o.free_at[tuple(q[k])] = free[k, o.name]
        return q[k]

    for o in rooms + [outer]:
        def inside(position, in_global_frame=False, o=o):
            return not (in_global_frame and o.free_at[tuple(float(v) for v in position)])

        o.is_inside = inside
    old = m.gamma_normal_gradient_descent
    m.gamma_normal_gradient_descent = descent
    try:
        h.evaluate_hirarchy_and_reference_points()
    finally:
        m.gamma_normal_gradient_descent = old
    for k, obs, f, pw in calls:
        for o, s in zip(obs, f):
            t.check("descends into the free space", s == (-1 if o.is_boundary else 1))
    g, count = h._graph, 0
    tried = {c[0] for c in calls}
    for i, r in enumerate(rooms):
        doors = [k for k in range(h._entrance_counter) if g.has_edge(k, r)]
        if i in tried:
            ok = free[i, r.name] and free[i, "outer"]
            t.check("entrance iff free on both sides", len(doors) == int(ok))
        else:
            t.check("no entrance", not doors)
            t.le("room does not reach out", r.center_position[0] + 0.5 * r.axes_length[0], 0.5 * outer.axes_length[0])
        for k in doors:
            count += 1
            e = g.edges[k, r]
            t.close("entrance", e["intersection"], q[i])
            t.close("distance", e["distance"] * e["distance"], (q[i] - r.center_position) @ (q[i] - r.center_position))
            t.check("one room per entrance", g.degree(k) == 1)
    t.check("entrances", h._entrance_counter == count and g.number_of_nodes() == 2 + count)
    if 2 in tried:
        ok = free[2, "room0"] and free[2, "room1"]
        t.check("passage iff free on both sides", g.has_edge(*rooms) == ok)
        if ok:
            e = g.edges[rooms[0], rooms[1]]
            t.close("passage", e["intersection"], q[2])
            d0, d1 = t.la.norm(q[2] - rooms[0].center_position), t.la.norm(q[2] - rooms[1].center_position)
            t.close("length", e["distance"], d0 + d1)
    else:
        t.check("no passage", not g.has_edge(*rooms))
        t.ge("rooms apart", dist, 0.5 * (rooms[0].axes_length[0] + rooms[1].axes_length[0]))


class Tangible(Space):
    def __init__(self, t, normal, reference, boundary, **kw):
        super().__init__(t, "w", boundary=boundary, **kw)
        self.normal, self.reference = normal, reference

    def get_normal_direction(self, position, in_global_frame=False):
        return self.normal if in_global_frame else elsewhere(self.normal)

    def get_reference_direction(self, position, in_global_frame=False):
        return self.reference if in_global_frame else elsewhere(self.reference)


@harness([HO + "_get_local_dynamics"], "a room or the outside (dim 2): 3 normals, 3 reference directions to each, any position, attractor, distance value and speed limit",
         cases=[(True, True), (False, True), (True, False), (False, False)])
def motion_in_a_space(t, case):
    room, surface = case
    np = t.np
    m = t.mod(M + "multi_hull_and_obstacle")
    h, rooms, outer = hull_of(t, n=1, placed=False)
    n = np.array(t.pick("normal", [[1.0, 0.0], [0.0, -1.0], [0.6, 0.8]]))
    tan = np.array([-n[1], n[0]])
    c = t.pick("ref", [(1.0, 0.0), (0.8, 0.6), (0.8, -0.6)])
    ref = c[0] * n + c[1] * tan
    o = Tangible(t, n, ref, room, gamma=1.0)
    links(t, h, rooms)
    import networkx as nx
    if room:
        h.inner_obstacles = [o]
        h._graph = nx.Graph()
        h._graph.add_node(o)
    else:
        h.outer_obstacle = o
    x, aside, ahead = t.vec("x", 2, -5, 5), t.real("aside", 0.001, 10), t.real("ahead", -10, 10)
    side = 1.0 if t.boolean("side") else -1.0
    lin = ahead * ref + side * aside * tan
    t.assume(lin[0] * lin[0] + lin[1] * lin[1] > 0)
    a = x + lin
    if room:
        h._graph.nodes[o]["local_attractor"] = a
        h._local_outside_attractor = None
    else:
        h._local_outside_attractor = a
    limit = t.real("limit", 0.1, 5)
    key = o if room else None
    e, seen = t.unit("e", 2), []
    gamma = 1.0 if surface else t.real("gamma", 1.01, 100)
    real = m.get_directional_weighted_sum

    def direction(null_direction, weights, directions, **kw):
        seen.append((null_direction, weights, directions))
        return real(null_direction, weights, directions, **kw) if surface else e

    m.get_directional_weighted_sum = direction
    try:
        v = h._get_local_dynamics(x, gamma=gamma, obs_hash=key, max_velocity=limit)
    finally:
        m.get_directional_weighted_sum = real
    if surface:
        t.close("along the surface", v @ n, 0)
        t.check("to the side of the attractor", (v @ tan) * side > 0)
    else:
        (null, w, dirs), = seen
        t.close("weights", t.np.sum(w), 1.0)
        t.assume(ahead != 0)
        counts = 0
        for i in range(2):
            t.ge("weight", w[i], 0)
            d = dirs[:, i]
            if bool(d[0] * lin[1] - d[1] * lin[0] == 0):
                t.check("towards the attractor", d @ lin > 0)
                t.close("counts more further away", w[i] * gamma, gamma - 1)
                counts += 1
            else:
                t.close("along the surface", d @ n, 0)
                t.check("to the side of the attractor", (d @ tan) * side > 0)
        t.check("one of each", counts == 1)
        t.close("direction", v[0] * e[1], v[1] * e[0])
        t.ge("not backwards", v @ e, 0)
    if t.decide(lin @ lin > limit * limit):
        t.close("limited", v @ v, limit * limit)
    else:
        t.close("speed is the distance", v @ v, lin @ lin)


@harness([HO + "evaluate", HO + "_evaluate_weights"], "1-2 rooms and the outside of any distance values, velocities of any length in 2-3 directions each, any pose, both frames",
         cases=[(True, 1), (False, 1), (True, 2), (False, 2)], max_paths=4000, budget=300)
def motion_in_a_hull(t, case):
    glob, n = case
    np = t.np
    h, rooms, outer = hull_of(t, n=n)
    links(t, h, rooms)
    spaces = rooms + [outer]
    x = t.vec("x", 2, -5, 5)
    y = h.transform_relative2global(x) if glob else x
    free = [o for o in spaces if t.decide(o.gamma > 1)]
    dirs = {o: np.array(t.pick("dir" + o.name, [[1.0, 0.0], [0.6, 0.8], [0.0, -1.0]][:4 - n]) if o in free else [0.0, 1.0]) for o in spaces}
    vel = {o: t.real("speed" + o.name, 0.1, 3) * dirs[o] for o in spaces}
    asked = []

    def local(position, gamma, obs_hash=None, **kw):
        o = outer if obs_hash is None else obs_hash
        asked.append((o, position, gamma))
        return vel[o]

    h._get_local_dynamics = local
    for r in rooms:
        h._graph.nodes[r]["local_attractor"] = np.zeros(2)
    h._local_outside_attractor = np.zeros(2)
    v = h.evaluate(y, in_global_frame=glob)
    t.check("spaces around the position", {o for o, _, _ in asked} == set(free) and len(asked) == len(free))
    for o, p, g in asked:
        t.close("position", p, x)
        t.check("distance value", g == o.gamma)
    asked_at(t, "at the position", spaces, x)
    if glob:
        v = h.transform_global2relative_dir(v)
    if not free:
        t.close("rest in the wall", v, np.zeros(2))
        return
    if len(free) == 1:
        t.close("velocity of the space", v, vel[free[0]])
        return
    mean = sum(((o.gamma - 1) * vel[o] for o in free), np.zeros(2))
    t.close("direction", v[0] * mean[1], v[1] * mean[0])
    if n == 1:
        t.check("not backwards", v @ mean > 0)


@harness([HO + "evaluate", HO + "_evaluate_weights"], "2 rooms and the outside of any distance values, the way through each planned before or not; any pose, both frames", cases=[True, False])
def way_is_planned(t, glob):
    np = t.np
    h, rooms, outer = hull_of(t)
    links(t, h, rooms)
    spaces = rooms + [outer]
    x = t.vec("x", 2, -5, 5)
    y = h.transform_relative2global(x) if glob else x
    free = [o for o in spaces if t.decide(o.gamma > 1)]
    known = [o for o in spaces if t.boolean("known" + o.name)]
    planned = []

    def plan(o, p=None):
        planned.append((o, p))
        if o is outer:
            h._local_outside_attractor = np.zeros(2)
        else:
            h._graph.nodes[o]["local_attractor"] = np.zeros(2)

    def local(position, gamma, obs_hash=None, **kw):
        o = outer if obs_hash is None else obs_hash
        t.check("planned before", o in known or any(q is o for q, _ in planned))
        return np.array([1.0, 0.0])

    h._get_local_dynamics = local
    h.update_shortest_attractor_path = plan
    h.update_shortest_attractor_path_starting_from_outside = lambda p: plan(outer, p)
    for r in rooms:
        h._graph.nodes[r]["local_attractor"] = np.ones(2) if r in known else None
    h._local_outside_attractor = np.ones(2) if outer in known else None
    h.evaluate(y, in_global_frame=glob)
    for o in spaces:
        t.check("planned once where needed", sum(q is o for q, _ in planned) == int(o in free and o not in known))
    for o, p in planned:
        if p is not None:
            t.close("from the position", p, x)


@harness([H + "get_boundary_intersection_weight"], "any distance values at the position and its projection, any positive power", cases=[None])
def weight_of_entrance(t):
    m = t.mod(M + "multi_hull_and_obstacle")
    x, y = t.np.array([1.0, 2.0]), t.np.array([3.0, 5.0])

    class Room(Space):
        def get_gamma(self, position, in_global_frame=False):
            return projected if bool(t.np.all(position == y)) else self.gamma

        def get_point_on_surface(self, position, in_global_frame=False):
            t.check("of the position", bool(t.np.all(position == x)) and in_global_frame)
            return y

    projected = t.real("projected", 0, 10)
    room, outer = Room(t, "room"), Room(t, "outer", boundary=False)
    w = m.get_boundary_intersection_weight(x, room, outer, power_factor=t.real("power", 0.1, 4))
    t.ge("at least zero", w, 0)
    t.le("at most one", w, 1)
    if not t.decide(room.gamma > 1) or not t.decide(outer.gamma < 1):
        t.check("none outside of the room or the obstacle", w == 0)
    elif t.decide(projected <= 1):
        t.check("full where the room does not reach out", w == 1)
    else:
        t.check("none of this", w > 0)


@harness([H + "MultiRotationalContainer.set_attractor", H + "MultiRotationalContainer.set_dynamics", H + "MultiRotationalContainer.evaluate"], "1-3 hulls of any velocity, added before or after the dynamics, any attractors", cases=[1, 2, 3])
def container_of_hulls(t, n):
    m = t.mod(M + "multi_hull_and_obstacle")

    class Hull:
        def __init__(self, i):
            self.v, self.log = t.vec(f"v{i}", 2, -5, 5), []

        def evaluate_hirarchy_and_reference_points(self):
            self.log.append("hierarchy")

        def set_attractor(self, position, in_global_frame=False):
            self.log.append((position, in_global_frame))

        def evaluate(self, position, in_global_frame=True):
            self.log.append(("at", position, in_global_frame))
            return self.v

    class Dynamics:
        attractor_position = t.vec("a", 2, -5, 5)

    c = m.MultiRotationalContainer()
    hulls = [Hull(i) for i in range(n)]
    late = t.pick("added after the dynamics", list(range(n + 1)))
    for o in hulls[:n - late]:
        c.append(o)
    c.set_dynamics(Dynamics)
    for o in hulls[n - late:]:
        c.append(o)
    if late:
        c.set_dynamics(Dynamics)
    for o in hulls:
        t.check("hierarchy first", o.log[0] == "hierarchy" and o.log[1][1])
        t.close("attractor", o.log[-1][0], Dynamics.attractor_position)
    b = t.vec("b", 2, -5, 5)
    t.assume((b - Dynamics.attractor_position)[0] >= 1)
    c.set_attractor(b)
    for o in hulls:
        t.close("new attractor", [e for e in o.log if e != "hierarchy"][-1][0], b)
    x = t.vec("x", 2, -5, 5)
    v = c.evaluate(x)
    t.close("mean", n * v, sum((o.v for o in hulls), t.np.zeros(2)))
    for o in hulls:
        t.close("at the position", o.log[-1][1], x)
        t.check("in the global frame", o.log[-1][2] is True)


class Block:
    def __init__(self, axes_length, center_position, is_boundary=False, **kw):
        self.axes_length, self.center_position, self.is_boundary = axes_length, center_position, is_boundary
        self.dimension = len(axes_length)


@harness([H + "create_u_shape_obstacle"], "any length, height and width of the walls that leave an opening", cases=[None])
def u_shape(t):
    m = t.mod(M + "multi_hull_and_obstacle")
    L, D, w = t.real("length", 0.2, 10), t.real("height", 0.2, 10), t.real("width", 0.01, 3)
    t.assume(2 * w <= L - 0.01)
    t.assume(w <= D - 0.01)
    old = m.Cuboid
    m.Cuboid = Block
    try:
        o = m.create_u_shape_obstacle(L, D, w)
    finally:
        m.Cuboid = old
    out, room = o.outer_obstacle, o.inner_obstacles[0]
    t.check("one room", len(o.inner_obstacles) == 1 and room.is_boundary and not out.is_boundary)
    t.close("size", out.axes_length, t.np.array([L, D]))
    lo = [b.center_position - 0.5 * b.axes_length for b in (out, room)]
    hi = [b.center_position + 0.5 * b.axes_length for b in (out, room)]
    t.close("wall on the left", lo[1][0] - lo[0][0], w)
    t.close("wall on the right", hi[0][0] - hi[1][0], w)
    t.close("wall at the bottom", lo[1][1] - lo[0][1], w)
    t.check("open at the top", hi[1][1] > hi[0][1])


# ------------------------------------------------------------------ containers of boundaries

def boundaries(t, tree, gammas=False):
    c = t.mod(M + "multiboundary_container").MultiBoundaryContainer()
    obs = [Space(t, str(i), gamma=None if gammas else 1.0) for i in range(len(tree))]
    for i, p in enumerate(tree):
        c.append(obs[i])
    for i, p in enumerate(tree):
        if p is not None:
            c.extend_graph(child=i, parent=p)
    return c, obs


TREES = [(None, 0, 1, 2), (None, 0, 0, 1), (1, None, 1, 0), (2, 0, None, 2), (None, 0, None, 2), (3, 0, 1, None)]
BC = N + "multiboundary_container.py:MultiBoundaryContainer."


@harness([BC + "append", BC + "extend_graph", BC + "get_root", BC + "get_level_numbers", BC + "is_collision_free", BC + "get_boundary_list", BC + "get_boundary_ind"],
         "4 boundaries in any of 6 forests, any distance values", cases=TREES)
def tree_of_boundaries(t, tree):
    c, obs = boundaries(t, tree, gammas=True)
    n = len(tree)

    def depth(i):
        return 0 if tree[i] is None else 1 + depth(tree[i])

    roots = [i for i in range(n) if tree[i] is None]
    t.check("parents", all(c.get_parent(i) == (-1 if tree[i] is None else tree[i]) for i in range(n)))
    t.check("children", all(sorted(c.get_children(i)) == [k for k in range(n) if tree[k] == i] for i in range(n)))
    t.check("root", c.get_root() in roots and list(c.get_root(return_multi_values=True)) == roots)
    t.check("levels", list(c.get_level_numbers()) == [depth(i) for i in range(n)])
    k = t.pick("obstacle", [None, 0, 2])
    for i in range(n):
        obs[i].is_boundary = i != k
    t.check("boundaries", [bool(b) for b in c.get_boundary_ind()] == [i != k for i in range(n)] and c.get_boundary_list() == [o for i, o in enumerate(obs) if i != k])
    x = t.vec("x", 2, -5, 5)
    t.check("free in any of the rooms", bool(c.is_collision_free(x)) == any([bool(o.gamma > 1) for o in obs]))
    chain = t.mod(M + "multiboundary_container").MultiBoundaryContainer()
    for i in range(n):
        chain.append(obs[i], parent=-1) if i else chain.append(obs[i])
    t.check("chain", [chain.get_parent(i) for i in range(n)] == [-1, 0, 1, 2] and list(chain.get_level_numbers()) == [0, 1, 2, 3])


@harness([BC + "__delitem__"], "4 boundaries in any of 6 forests, any of them removed, two in a row", cases=TREES)
def removed_boundary(t, tree):
    c, obs = boundaries(t, tree)
    parent = {o: (obs[tree[i]] if tree[i] is not None else None) for i, o in enumerate(obs)}
    for k in range(2):
        i = t.pick("removed", list(range(4 - k)))
        gone = obs.pop(i)
        del c[i]
        parent = {o: (None if p is gone else p) for o, p in parent.items() if o is not gone}
        n = len(obs)
        t.check("others stay", len(c) == n and [o for o in c] == obs)
        t.check("in step", len(c._parent_array) == len(c._children_list) == len(c._parent_intersection_point) == len(c._convergence_dynamics) == n)
        t.check("parents", all((None if c.get_parent(j) < 0 else c[c.get_parent(j)]) is parent[o] for j, o in enumerate(obs)))
        t.check("children", all(sorted(c.get_children(j)) == [q for q in range(n) if parent[obs[q]] is o] for j, o in enumerate(obs)))


@harness([BC + "update_intersection_graph", BC + "get_parent_intersection", BC + "get_convergence_boundary_point"], "4 boundaries in any of 6 forests, any intersections", cases=TREES)
def meeting_points(t, tree):
    c, obs = boundaries(t, tree)
    pts = {}

    def meet(it_obs1, it_obs2):
        k = frozenset([it_obs1, it_obs2])
        if k not in pts:
            pts[k] = t.vec("p" + "".join(map(str, sorted(k))), 2, -5, 5)
        return pts[k]

    c._get_intersection = meet
    a = t.vec("a", 2, -5, 5)
    c.update_intersection_graph(attractor_position=a)
    t.close("attractor", c._attractor_position, a)
    for i, p in enumerate(tree):
        q = c.get_parent_intersection(i)
        if p is None:
            t.check("none at the root", q is None)
            continue
        t.check("with the parent", frozenset([i, p]) in pts)
        t.close("with the parent", q, pts[frozenset([i, p])])
        for child in (True, False):
            o, log = obs[i if child else p], []
            o.center_position = t.vec("center", 2, -5, 5)

            def surface(direction, in_global_frame=False):
                log.append((direction, in_global_frame))
                return "point"

            o.get_intersection_with_surface = surface
            r = c.get_convergence_boundary_point(it_child=i, project_on_child=child, it_parent=None if child else p)
            t.check("on the surface", r == "point" and log[0][1] is True)
            t.close("towards the intersection", log[0][0], q - o.center_position)
        t.raises("parent needed", ValueError, lambda: c.get_convergence_boundary_point(it_child=i, project_on_child=False))


class Outline:
    """points of a shape under the transforms applied to it"""

    def __init__(self, points):
        self.points = points

    def buffer(self, radius):
        return Outline([[radius * x, radius * y] for x, y in self.points])


@harness([N + "geometry.py:create_shapely_ellipse", N + "multiboundary_container.py:create_shapely_ellipse"], "any size, margin, orientation and center", cases=["geometry", "multiboundary_container"])
def outline_of_ellipse(t, where):
    np = t.np
    m = t.mod(M + where)
    u = t.unit("u", 2)

    class Affine:
        @staticmethod
        def scale(s, xfact=1.0, yfact=1.0, **kw):
            return Outline([[xfact * x, yfact * y] for x, y in s.points])

        @staticmethod
        def rotate(s, angle, **kw):
            a = angle * t.math.pi / 180
            c, d = t.math.cos(a), t.math.sin(a)
            return Outline([[c * x - d * y, d * x + c * y] for x, y in s.points])

        @staticmethod
        def translate(s, xoff=0.0, yoff=0.0, **kw):
            return Outline([[x + xoff, y + yoff] for x, y in s.points])

    class Oval(m.Ellipse):
        def __init__(self):
            self.pose, self.margin_absolut = t.mod("vartools.states").Pose(t.vec("center", 2, -5, 5), t.real("turn", -3, 3)), t.real("margin", 0, 1)
            self._axes_length = t.vec("axes", 2, 0.1, 5)

    o = Oval()
    old = m.affinity, m.Point
    m.affinity, m.Point = Affine, lambda origin: Outline([[u[0], u[1]]])
    try:
        s = m.create_shapely_ellipse(o)
    finally:
        m.affinity, m.Point = old
    x, y = s.points[0]
    p = o.pose.transform_position_to_relative(np.array([x, y]))
    for i in range(2):
        t.close("outline", p[i], u[i] * (o.axes_length[i] + o.margin_absolut))


RC = N + "rotation_container.py:RotationContainer."


@harness([RC + "set_convergence_directions", RC + "get_convergence_direction", RC + "get_intersection_position"],
         "2 obstacles of any center and dynamics; given convergence dynamics; with and without attractor", cases=["given", "attractor", "none"])
def convergence_of_obstacles(t, case):
    np = t.np
    m = t.mod(M + "rotation_container")
    c = m.RotationContainer()
    kinds = {}

    class Made:
        def __init__(self, kind, **kw):
            self.kind, self.kw = kind, kw
            if "attractor_position" in kw:
                self.attractor_position = kw["attractor_position"]

        def evaluate(self, position):
            return (self, position)

    att = np.zeros(2) if t.boolean("origin") else t.vec("att", 2, -5, 5)
    obs, vel = [], {}
    for i in range(2):
        o = Space(t, str(i), gamma=1.0)
        how = t.pick("where", ["at", "ahead", "aside"])
        u, r = t.unit(f"u{i}", 2), t.real(f"r{i}", 0.1, 5)
        if how == "at" and case == "attractor":
            o.center_position, v = 1.0 * att, np.zeros(2)
        else:
            o.center_position = att - r * u
            k = t.real(f"k{i}", 0.1, 3)
            if how == "at":
                v = np.zeros(2)
            elif how == "ahead":
                v = k * u
            else:
                a = t.unit(f"a{i}", 2)
                t.assume(a[0] <= 0.9)
                v = k * (a[0] * u + a[1] * np.array([-u[1], u[0]]))
        o.how, o.v, o.size = how, v, t.real(f"size{i}", 0.1, 5)
        o.get_characteristic_length = lambda o=o: o.size
        obs.append(o)
        c.append(o)

    class Flow:
        attractor_position = att if case == "attractor" else None

        def evaluate(self, position):
            o = owner(t, obs, position, lambda o: o.center_position)
            if o is None:
                t.fail("evaluated at the obstacle")
            return o.v

    names = ("ConstantValue", "LinearSystem", "LocallyRotated", "get_angle_space")
    old = [getattr(m, n) for n in names]
    for n in names[:3]:
        setattr(m, n, lambda kind=n, **kw: Made(kind, **kw))
    m.get_angle_space = lambda direction, null_direction=None, **kw: (direction, null_direction)
    try:
        if case == "given":
            same = Made("given")
            c.set_convergence_directions(converging_dynamics=same)
        else:
            c.set_convergence_directions(Flow())
    finally:
        for n, f in zip(names, old):
            setattr(m, n, f)
    x = t.vec("x", 2, -5, 5)
    for i, o in enumerate(obs):
        d, p = c.get_convergence_direction(x, it_obs=i)
        t.check("at the position", alike(p, x))
        if case == "given":
            t.check("given dynamics", d is same)
        elif case == "none":
            if o.how == "at":
                t.check("to the center", d.kind == "LinearSystem" and bool(np.all(d.attractor_position == o.center_position)))
            else:
                t.check("constant", d.kind == "ConstantValue")
                t.close("flow at the center", d.kw["velocity"], o.v)
        else:
            t.close("same attractor", d.attractor_position, att)
            t.close("meeting point", c.get_intersection_position(i), att)
            if o.how != "aside":
                # straight: linear, or locally rotated by nothing
                t.check("straight", d.kind == "LinearSystem" or (o.how == "ahead" and d.kind == "LocallyRotated"))
            else:
                t.check("rotated", d.kind == "LocallyRotated")
            if d.kind == "LocallyRotated":
                t.close("from the direction of the flow", d.kw["max_rotation"][0], o.v)
                t.close("to the attractor", d.kw["max_rotation"][1], att - o.center_position)
                t.close("around the obstacle", d.kw["influence_pose"].position, o.center_position)
                t.check("as far as it reaches", d.kw["influence_radius"] == o.size)


MH = N + "multihull_convergence.py:"


@harness([MH + "get_weight_gamma_for_hulls"], "2-3 distance values of any value", cases=[2, 3])
def weights_of_hulls(t, n):
    g = t.vec("g", n, 0, 10)
    keep = 1.0 * g
    w = t.mod(M + "multihull_convergence").get_weight_gamma_for_hulls(g)
    free = any([bool(v > 1) for v in g])
    t.close("sum", t.np.sum(w), 1.0 if free else 0.0)
    for i in range(n):
        t.check("input kept", g[i] == keep[i])
        t.ge("not negative", w[i], 0)
        t.check("weight iff inside", bool(w[i] > 0) == bool(keep[i] > 1))


class Room2(Space):
    def get_intersection_with_surface(self, direction, in_global_frame=False):
        self.directions.append(direction)
        return self.projection


@harness([MH + "get_desired_radius"], "3 rooms, the middle one (a child with a child) evaluated: any distance values, 4 directions of the position and 3 of each intersection at any distance",
         cases=[(-1, 0), (-1, 1), (0, 1)], max_paths=2000)
def radius_of_room(t, case):
    """case: index of the parent's intersection and of the child's"""
    np = t.np
    m = t.mod(M + "multihull_convergence")
    up, down = case[0] >= 0, case[1] > 0
    rooms = [Room2(t, str(i)) for i in range(3)]
    c = t.vec("c", 2, -5, 5)
    u, r = np.array(t.pick("u", [[1.0, 0.0], [0.0, 1.0], [-1.0, 0.0], [0.6, 0.8]])), t.real("r", 0.1, 5)
    x = c + r * u
    ways = {}
    for k in ([0] if up else []) + ([1] if down else []):
        d, l = np.array(t.pick(f"d{k}", [[1.0, 0.0], [0.0, -1.0], [0.6, 0.8]])), t.real(f"l{k}", 0.1, 5)
        ways[k] = (c + l * d, d)

    class Rooms(list):
        def get_parent(self, it):
            return (0 if up else -1) if it == 1 else -1

        def get_children(self, it):
            return [2] if it == 1 and down else []

        def get_parent_intersection(self, it_child):
            return ways[0 if it_child == 1 else 1][0]

    rooms[1].center_position, rooms[1].projection = c, t.vec("p", 2, -5, 5)
    gamma = float(t.pick("gamma", [0, 1, 2, 5]))
    rad = m.get_desired_radius(x, gamma, 1, Rooms(rooms))
    full = t.math.pi * 2 ** (-gamma)
    t.ge("not negative", rad, 0)
    t.le("at most that of a wall", rad, full)
    for i in (0, 2):
        asked_at(t, "distance at the surface", [rooms[i]], rooms[1].projection)
    t.close("surface towards the position", rooms[1].directions[0][0] * u[1], rooms[1].directions[0][1] * u[0])
    if not ways or not any([bool(rooms[i].gamma > 1) for i in (0, 2)]):
        t.close("wall", rad, full)


@harness([MH + "get_desired_radius"], "3 rooms, the middle one with a passage to the last: position straight towards the passage or away from it", cases=["passage", "wall"])
def radius_at_passage(t, case):
    m = t.mod(M + "multihull_convergence")
    rooms = [Room2(t, str(i)) for i in range(3)]
    c, u, r, l = t.vec("c", 2, -5, 5), t.unit("u", 2), t.real("r", 0.1, 5), t.real("l", 0.1, 5)
    rooms[1].center_position, rooms[1].projection = c, t.vec("p", 2, -5, 5)
    t.assume(rooms[2].gamma >= 1.1)

    class Rooms(list):
        get_parent = lambda self, it: 0 if it == 2 else -1
        get_children = lambda self, it: [2] if it == 1 else []
        get_parent_intersection = lambda self, it_child: c + l * u

    gamma = t.real("gamma", 0, 10)
    full = t.math.pi * 2 ** (-gamma)
    rad = m.get_desired_radius(c + r * u if case == "passage" else c - r * u, gamma, 1, Rooms(rooms))
    if case == "passage":
        t.close("open", rad, 0)
    else:
        t.check("closed, but less than a wall", rad > 0)
        t.check("less than a wall", rad < full)


@harness([MH + "multihull_attraction", MH + "get_weight_gamma_for_hulls"], "2 rooms of any distance values, any velocity; the direction of each room is any unit vector", cases=[None])
def attraction_of_hulls(t):
    np = t.np
    m = t.mod(M + "multihull_convergence")
    rooms = [Tangible(t, t.unit(f"n{i}", 2), t.unit(f"r{i}", 2), True) for i in range(2)]
    for i, o in enumerate(rooms):
        o.gamma, o.conv, o.out = t.real(f"g{i}", 0, 100), t.vec(f"conv{i}", 2, 0.1, 1), t.unit(f"out{i}", 2)

    class Rooms(list):
        def get_convergence_direction(self, position, it_obs):
            return self[it_obs].conv

    calls, sums, e = [], [], t.unit("e", 2)

    class Avoider:
        def directional_convergence_summing(self, convergence_vector, reference_vector, base, gamma, nonlinear_velocity=None, convergence_radius=None):
            calls.append((convergence_vector, reference_vector, base, gamma, nonlinear_velocity, convergence_radius))
            return owner(t, rooms, convergence_vector, lambda o: o.conv).out

    def direction(null_direction, weights, directions, **kw):
        sums.append((weights, directions))
        return e

    env = Rooms(rooms)
    x, v = t.vec("x", 2, -5, 5), t.real("speed", 0.1, 5) * t.unit("v", 2)
    old = m.RotationalAvoider, m.get_directional_weighted_sum, m.get_desired_radius
    m.RotationalAvoider, m.get_directional_weighted_sum = Avoider, direction
    m.get_desired_radius = lambda position, gamma_value, it_obs, obstacle_list, **kw: ("radius", it_obs, gamma_value)
    try:
        w = m.multihull_attraction(x, v, env)
        t.close("no rooms", m.multihull_attraction(x, v, Rooms()), v)
    finally:
        m.RotationalAvoider, m.get_directional_weighted_sum, m.get_desired_radius = old
    inside = [o for o in rooms if t.decide(o.gamma > 1)]
    if not inside:
        t.close("outside of all rooms", w, v)
        return
    t.close("speed is kept", w @ w, v @ v)
    t.close("direction", w[0] * e[1], w[1] * e[0])
    t.check("of the rooms around", len(calls) == len(inside) and all(alike(c[0], o.conv) for c, o in zip(calls, inside)))
    for (conv, ref, base, g, nl, rad), o in zip(calls, inside):
        t.check("distance value", g == o.gamma)
        t.close("velocity", nl, v)
        t.close("reference away from the wall", ref, -1.0 * o.reference)
        t.close("base along the normal", base[:, 0], o.normal)
        t.check("radius", rad[0] == "radius" and env[rad[1]] is o and bool(rad[2] == o.gamma))
    (ws, ds), = sums
    t.close("weights", np.sum(ws), 1.0)
    for k, o in enumerate(inside):
        t.close("direction of the room", ds[:, k], o.out)
        t.ge("weight", ws[k], 0)
        t.close("by the distance value", ws[k] * sum((q.gamma - 1 for q in inside), 0.0), o.gamma - 1)


U = N + "utils.py:"


@harness([U + "gamma_normal_gradient_descent"], "2 spaces of any center and distance value with constant normals, given or default factors and powers, 1-3 steps", cases=[1, 2, 3])
def descent_between_spaces(t, steps):
    np = t.np
    m = t.mod(M + "utils")
    axis = np.array(t.pick("axis", [[1.0, 0.0], [0.6, 0.8]]))
    spaces = [Tangible(t, axis, axis, False), Tangible(t, -1.0 * axis, axis, False)]
    for i, o in enumerate(spaces):
        o.center_position, o.gamma = t.vec(f"c{i}", 2, -5, 5), t.real(f"gamma{i}", 0.3, 3)
    keep = [1.0 * o.center_position for o in spaces]
    given = t.boolean("given")
    power = float(t.pick("power", [-2, 1])) if given else 2.0
    factor = t.pick("factor", [-1.0, 1.0]) if given else 1.0
    args = {"factors": [factor, factor], "powers": [power, power]} if given else {}
    p = m.gamma_normal_gradient_descent(spaces, it_max=steps, **args)
    start = 0.5 * (keep[0] + keep[1])
    for o, k in zip(spaces, keep):
        t.close("spaces stay", o.center_position, k)
    t.close("along the normals", (p - start)[0] * axis[1], (p - start)[1] * axis[0])
    moved = (p - start) @ axis
    pull = factor * (spaces[0].gamma ** power - spaces[1].gamma ** power)
    t.le("no further than the steps", moved * moved, (0.1 * steps * pull) ** 2)
    if t.decide(pull >= 0.1):
        t.check("with the stronger one", moved > 0)
    elif t.decide(pull <= -0.1):
        t.check("with the stronger one", moved < 0)
    else:
        t.close("stays where they balance", p, start)


@harness([U + "get_orthonormal_spanning_basis"], "any two unit vectors in dim 2 and 3, also the same or opposite ones", cases=[2, 3])
def spanning_basis(t, dim):
    np = t.np
    f = t.mod(M + "utils").get_orthonormal_spanning_basis
    v, w = t.ortho_pair("v", dim).T
    case = t.pick("case", ["any", "same", "opposite"])
    if case == "any":
        c = t.unit("c", 2)
        t.assume(t.np.abs(c[1]) >= 0.01)
        q = c[0] * v + c[1] * w
    else:
        q = 1.0 * v if case == "same" else -1.0 * v
        if dim == 3:
            v = np.array(t.pick("axis", [[1.0, 0.0, 0.0], [0.0, 0.0, 1.0], [0.0, 0.6, 0.8], [0.6, 0.0, -0.8]]))
            q = 1.0 * v if case == "same" else -1.0 * v
    b = f(v, q)
    t.check("shape", b.shape == (dim, 2))
    t.close("orthonormal", b.T @ b, np.eye(2))
    t.close("first is kept", b[:, 0], v)
    t.close("spans the second", b @ (b.T @ q), q)
    if case == "any":
        t.check("on its side", b[:, 1] @ q > 0)


@harness([U + "project_point_onto_ray"], "any ray (also of equal points) and any point in dim 2 and 3", cases=[2, 3])
def onto_ray(t, dim):
    np = t.np
    f = t.mod(M + "utils").project_point_onto_ray
    a, d, o = t.vec("a", dim, -5, 5), *t.ortho_pair("d", dim).T
    l, along, aside = t.real("l", 0.01, 5), t.real("along", -5, 5), t.real("aside", -5, 5)
    ray = np.vstack((a, a + l * d)).T
    q = f(a + along * d + aside * o, ray)
    t.close("nearest point", q, a + along * d if t.decide(along > 0) else a)
    t.close("ray without direction", f(a + along * d, np.vstack((a, a)).T), a)
