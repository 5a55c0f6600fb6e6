"""C08 hierarchy bookkeeping: parent / child / root relations stay consistent under every history."""
from symx.harness import harness

GH = "nonlinear_avoidance/graph_handler.py"


def consistent(t, els, tag):
    for i, e in enumerate(els):
        for c in e.children:
            t.check(tag + ":child-points-back", c.parent is e)
        if e.parent is not None:
            t.check(tag + ":listed-once-by-parent", sum(1 for c in e.parent.children if c is e) == 1)
        t.check(tag + ":listed-by-nobody-else",
                all(all(c is not e for c in p.children) for p in els if p is not e.parent))
        t.check(tag + ":count", e.number_of_children == len(e.children))


def tree_ops(t, els, n_ops):
    n = len(els)
    for k in range(n_ops):
        a = t.int_("a", 0, n - 1)
        b = t.int_("b", 0, n - 1)
        t.assume(a != b)
        a, b = int(a), int(b)
        # no cycles: b must not be below a
        x, ok = els[b], True
        while x is not None:
            if x is els[a]:
                ok = False
                break
            x = x.parent
        t.assume(ok)
        if t.boolean("by-parent"):
            els[b].add_child(els[a])
        else:
            els[a].set_parent(els[b])
        t.check("parent-set", els[a].parent is els[b])


@harness([GH + ":GraphElement.add_child", GH + ":GraphElement.set_parent"],
         "3 elements, any 2 (re)parenting operations, symbolic operands (thorough: 3 operations)",
         cases=[(3, 2)], thorough_cases=[(3, 3), (4, 2)], max_paths=3000)
def element_relations(t, case):
    gh = t.mod("nonlinear_avoidance.graph_handler")
    equal_values = t.boolean("equal-values")
    els = [gh.GraphElement(0 if equal_values else i) for i in range(case[0])]
    tree_ops(t, els, case[1])
    consistent(t, els, "after")


@harness([GH + ":BasicGraphHandler.add_element_with_parent", GH + ":BasicGraphHandler.delete_element",
          GH + ":GraphElement.expel"],
         "root and 3 further elements under symbolic parents (or none); any element deleted", cases=[None])
def basic_handler(t):
    gh = t.mod("nonlinear_avoidance.graph_handler")
    g = gh.BasicGraphHandler()
    equal_values = t.boolean("equal-values")
    g.root = 0
    els = [g.root]
    for i in (1, 2, 3):
        p = els[int(t.int_("p", 0, i - 1))] if i == 1 or not t.boolean("no-parent") else None
        v = 0 if equal_values else i
        g.add_element_with_parent(v, p)
        els = list(g._graph)
        t.check("value", els[-1].value == v)
        t.check("parent", els[-1].parent is p)
    consistent(t, els, "built")
    k = int(t.int_("k", 0, 3))
    dead = els[k]
    kids = list(dead.children)
    g.delete_element(dead)
    rest = list(g._graph)
    t.check("removed", len(rest) == 3 and all(e is not dead for e in rest))
    t.check("unlinked", all(all(c is not dead for c in e.children) for e in rest))
    t.check("orphans", all(c.parent is None for c in kids))
    consistent(t, rest, "deleted")


def handler_consistent(t, g, vals, parents, tag):
    for i, v in enumerate(vals):
        got = g.get_parent(v)
        if parents[i] is None:
            t.check(tag + ":no-parent", got is None)
        else:
            t.check(tag + ":parent", got is not None and got == vals[parents[i]])
        want = [j for j in range(len(vals)) if parents[j] == i]
        ch = g.get_children(v)
        t.check(tag + ":n-children", len(ch) == len(want))
        for j in want:
            t.check(tag + ":child-listed", sum(1 for c in ch if bool(c == vals[j])) == 1)
    roots = [i for i in range(len(vals)) if parents[i] is None]
    t.check(tag + ":root-indices", sorted(g.get_root_indices()) == roots)
    rr = g.roots
    t.check(tag + ":roots", len(rr) == len(roots) and all(bool(r == vals[i]) for r, i in zip(rr, roots)))


def descending(t, g, vals, parents):
    order = g.get_nodes_hirarchy_descending()
    pos = []
    for v in vals:
        hit = [k for k, o in enumerate(order) if bool(o == v)]
        t.check("each-node-once", len(hit) == 1)
        pos.append(hit[0] if hit else -1)
    t.check("no-extra", len(order) == len(vals))
    for i, p in enumerate(parents):
        if p is not None:
            t.check("parent-before-child", pos[p] < pos[i])


@harness([GH + ":GraphHandler.set_root", GH + ":GraphHandler.add_element_with_parent", GH + ":GraphHandler.get_parent",
          GH + ":GraphHandler.get_children", GH + ":GraphHandler.get_nodes_hirarchy_descending"],
         "3 nodes with arbitrary distinct (symbolic) integer ids under symbolic parents (thorough: 4)", cases=[3],
         thorough_cases=[4], max_paths=3000)
def handler_built_by_adding(t, n):
    gh = t.mod("nonlinear_avoidance.graph_handler")
    g = gh.GraphHandler()
    vals, parents = [], []
    for i in range(n):
        v = t.int_("id", 0, 9)
        for w in vals:
            t.assume(v != w)
        vals.append(v)
    g.set_root(vals[0])
    parents.append(None)
    for i in range(1, n):
        p = int(t.int_("p", 0, i - 1))
        g.add_element_with_parent(vals[i], vals[p])
        parents.append(p)
    t.check("n", g.n_nodes == n)
    handler_consistent(t, g, vals, parents, "added")
    descending(t, g, vals, parents)


@harness([GH + ":GraphHandler.set_parent_of_element", GH + ":GraphHandler.get_root_indices", GH + ":GraphHandler.roots"],
         "4 nodes; 3 symbolic (re)parenting operations", cases=[None], max_paths=3000)
def handler_reparenting(t):
    gh = t.mod("nonlinear_avoidance.graph_handler")
    n = 4
    g = gh.GraphHandler(n_nodes=n)
    parents = [None] * n
    for k in range(3):
        a = int(t.int_("a", 1, n - 1))
        b = int(t.int_("b", 0, n - 2))
        t.assume(b < a)
        g.set_parent_of_element(a, b)
        parents[a] = b
    handler_consistent(t, g, list(range(n)), parents, "set")
    descending(t, g, list(range(n)), parents)


class Obs:
    def __init__(self, i):
        self.i = i
        self.dimension = 2


@harness(["nonlinear_avoidance/multiboundary_container.py:MultiBoundaryContainer.append",
          "nonlinear_avoidance/multiboundary_container.py:MultiBoundaryContainer.extend_graph",
          "nonlinear_avoidance/multiboundary_container.py:MultiBoundaryContainer.get_level_numbers",
          "nonlinear_avoidance/multiboundary_container.py:MultiBoundaryContainer.get_root"],
         "4 boundaries under symbolic parents (thorough: 5)", cases=[4], thorough_cases=[5])
def boundary_hierarchy(t, n):
    m = t.mod("nonlinear_avoidance.multiboundary_container")
    c = m.MultiBoundaryContainer()
    obs = [Obs(i) for i in range(n)]
    parents = [-1]
    c.append(obs[0])
    level = [0]
    for i in range(1, n):
        p = t.int_("p", -1, i - 1)
        if p == i - 1 and t.boolean("shortcut"):
            c.append(obs[i], parent=-1)
        else:
            c.append(obs[i])
            if p >= 0:
                c.extend_graph(child=i, parent=int(p))
        p = int(p)
        parents.append(p)
        level.append(0 if p < 0 else level[p] + 1)
    t.check("length", len(c) == n)
    lv = c.get_level_numbers()
    for i in range(n):
        t.check("parent", int(c.get_parent(i)) == parents[i])
        t.check("children", sorted(int(k) for k in c.get_children(i)) == [j for j in range(n) if parents[j] == i])
        t.check("level", int(lv[i]) == level[i])
        t.check("no-intersection-yet", c.get_parent_intersection(i) is None)
    roots = [int(k) for k in c.get_root(return_multi_values=True)]
    t.check("roots", roots == [i for i in range(n) if parents[i] < 0])
    t.check("root", int(c.get_root()) == 0)


@harness(["nonlinear_avoidance/rotation_container.py:RotationContainer.append",
          "nonlinear_avoidance/rotation_container.py:RotationContainer.__delitem__",
          "nonlinear_avoidance/rotation_container.py:RotationContainer.__setitem__"],
         "4 obstacles, any one deleted, any one replaced", cases=[None])
def rotation_container_in_step(t):
    m = t.mod("nonlinear_avoidance.rotation_container")
    c = m.RotationContainer()
    obs = [Obs(i) for i in range(4)]
    for i, o in enumerate(obs):
        c.append(o)
        t.check("length", len(c) == i + 1)
    for i in range(4):
        c._convergence_dynamics[i] = ("dyn", i)
    k = int(t.int_("k", 0, 3))
    del c[k]
    left = [i for i in range(4) if i != k]
    t.check("deleted", [o.i for o in c] == left)
    t.check("dynamics-follow", list(c._convergence_dynamics) == [("dyn", i) for i in left])
    j = int(t.int_("j", 0, 2))
    new = Obs(9)
    c[j] = new
    t.check("replaced", c[j] is new and len(c) == 3)
    t.check("dynamics-reset", c._convergence_dynamics[j] is None)
    t.check("others-kept", all(c._convergence_dynamics[i] == ("dyn", left[i]) for i in range(3) if i != j))


@harness(["nonlinear_avoidance/multi_ellipse_obstacle.py:MultiEllipseObstacle.set_root",
          "nonlinear_avoidance/multi_ellipse_obstacle.py:MultiEllipseObstacle.set_parent"],
         "3 components, any root, any child-parent assignment; surface intersection replaced by a fixed point",
         cases=[None])
def composed_obstacle_links(t):
    m = t.mod("nonlinear_avoidance.multi_ellipse_obstacle")
    old = m.get_intersection_of_obstacles
    touch = t.vec("touch", 2, -3, 3)
    m.get_intersection_of_obstacles = lambda a, b: touch
    try:
        class Part:
            dimension = 2

            def set_reference_point(self, p, in_global_frame=False):
                self.ref, self.ref_global = p, in_global_frame

        ob = m.MultiEllipseObstacle()
        for i in range(3):
            ob.append(Part())
        r = int(t.int_("r", 0, 2))
        ob.set_root(r)
        t.check("root", ob.root_idx == r)
        t.raises("second-root", NotImplementedError, lambda: ob.set_root((r + 1) % 3))
        t.check("root-kept", ob.root_idx == r)
        t.check("root-has-no-parent", ob.get_parent_idx(r) is None or ob.get_parent_idx(r) < 0)
        t.raises("root-gets-no-parent", NotImplementedError, lambda: ob.set_parent(r, (r + 1) % 3))
        a = int(t.int_("a", 0, 2))
        b = int(t.int_("b", 0, 2))
        t.assume(a != r and a != b)
        ob.set_parent(a, b)
        t.check("parent", ob.get_parent_idx(a) == b)
        t.check("child", ob._children_list[b] == [a])
        t.check("reference-frame", ob.get_component(a).ref_global is True)
        t.close("reference-in-both", ob.get_component(a).ref, touch)
        t.raises("second-parent", NotImplementedError, lambda: ob.set_parent(a, r))
        t.check("parent-kept", ob.get_parent_idx(a) == b)
        t.check("listed-once", sum(l.count(a) for l in ob._children_list) == 1)
    finally:
        m.get_intersection_of_obstacles = old
