"""C07 rotation sequences and rotation trees."""
from symx.harness import harness

VR = "nonlinear_avoidance/vector_rotation.py"
MOD = "nonlinear_avoidance.vector_rotation"


def rot_step(t, v, n, name, lo=-0.9, hi=0.9):
    """unit vector at a symbolic angle (sin>=0) from v in the plane (v, n)."""
    cs = t.unit(name, 2)
    t.assume(cs[1] >= 0.1)
    t.mark_nonneg(cs[1])
    return cs[0] * v + cs[1] * n, cs


def chain(t, dim, n, fixed=False):
    """n+1 unit vectors, each neither parallel nor antiparallel to its predecessor."""
    if dim == 2:
        v = t.np.array([1.0, 0.0]) if fixed else t.unit("v", 2)
        out = [v]
        for i in range(n):
            s = 1.0 if t.boolean(f"turn{i}") else -1.0
            p = t.np.array([-v[1] * s, v[0] * s])
            v, _ = rot_step(t, v, p, f"c{i}")
            out.append(v)
        return out
    R = t.np.eye(3)  # fixed frame: all functions involved commute with rotations only if they are correct
    v = R[:, 0]
    out = [v]
    b = [R[:, 1], R[:, 2]]
    for i in range(n):
        if i == 0:
            nrm = b[0]
        else:
            d = t.unit(f"d{i}", 2)
            nrm = d[0] * b[0] + d[1] * b[1]
        w, cs = rot_step(t, v, nrm, f"c{i}")
        # frame transported along the rotation (v -> w)
        m = -cs[1] * v + cs[0] * nrm
        other = t.np.cross(w, m)
        v, b = w, [m, other]
        out.append(v)
    return out


@harness([VR + ":VectorRotationSequence.create_from_vector_array", VR + ":VectorRotationSequence.get_end_vector",
          VR + ":VectorRotationSequence.rotate_weighted", VR + ":VectorRotationSequence.rotate"],
         "dim 2: 1-3 rotations, dim 3: 1-2 rotations (first vector fixed); steps not (anti)parallel (sin>=0.1)",
         cases=[(2, 1), (2, 2), (3, 1), (3, 2)], thorough_cases=[(2, 3)])
def full_weight_reaches_each_vector(t, case):
    dim, n = case
    vr = t.mod(MOD)
    vs = chain(t, dim, n)
    ks = [t.real(f"k{i}", 0.1, 10) for i in range(n + 1)]
    seq = vr.VectorRotationSequence.create_from_vector_array(t.np.array([k * v for k, v in zip(ks, vs)]).T)
    t.check("n_rotations", seq.n_rotations == n)
    t.close("end", seq.get_end_vector(), vs[-1], 2e-3)
    for i in range(n):
        B = seq.basis_array[:, i, :]
        t.close("orthonormal", B.T @ B, t.np.eye(2))
        w = t.np.zeros(n)
        w[i] = 1.0
        t.close("reach", seq.rotate_weighted(vs[0], weights=w), vs[i + 1], 2e-3)
    t.close("rotate-full", seq.rotate(vs[0]), vs[-1], 2e-3)


@harness([VR + ":VectorRotationSequence.rotate_weighted"],
         "dim 2: 2 rotations; any weights in [0,1]; steps not (anti)parallel", cases=[(2, 2), (2, 1)],
         thorough_cases=[(3, 1)])
def weighted_rotation_is_isometry(t, case):
    dim, n = case
    vr = t.mod(MOD)
    vs = chain(t, dim, n, fixed=n > 1)
    seq = vr.VectorRotationSequence.create_from_vector_array(t.np.array(vs).T)
    w = t.np.array([t.real(f"w{i}", 0, 1) for i in range(n)])
    k = t.real("k", 0.1, 10)
    out = seq.rotate_weighted(k * vs[0], weights=w)
    t.close("norm", t.np.dot(out, out), k * k, 1e-2)
    if dim == 2:
        # planar: the applied angle is the sum of angle_i * (w_i + ... + w_n)
        sg = [1.0 if vs[i][0] * vs[i + 1][1] - vs[i][1] * vs[i + 1][0] > 0 else -1.0 for i in range(n)]
        ang = sum(sg[i] * seq.rotation_angles[i] * sum(w[i:]) for i in range(n))
        v = vs[0]
        c, s = t.math.cos(ang), t.math.sin(ang)
        t.close("angle", out, k * t.np.array([c * v[0] - s * v[1], s * v[0] + c * v[1]]), 1e-2)


@harness([VR + ":VectorRotationSequence.create_from_vector_array"], "dim 2,3; length-2 sequences", cases=[2, 3])
def sequence_rejects_bad_input(t, dim):
    vr = t.mod(MOD)
    v = t.np.eye(dim)[:, t.choice("axis", dim)]
    k = t.real("k", 0.1, 10)
    t.raises("zero-vector", ValueError,
             lambda: vr.VectorRotationSequence.create_from_vector_array(t.np.array([k * v, 0.0 * v]).T))
    t.raises("antiparallel", ValueError,
             lambda: vr.VectorRotationSequence.create_from_vector_array(t.np.array([v, -k * v]).T))


@harness([VR + ":VectorRotationSequence.push_root_from_base_and_angle",
          VR + ":VectorRotationSequence.append_from_base_and_angle"], "dim 2; one extra rotation at either end",
         cases=[2])
def sequence_extension(t, dim):
    vr = t.mod(MOD)
    vs = chain(t, dim, 2)
    A = vr.VectorRotationXd.from_directions(vs[0], vs[1])
    B = vr.VectorRotationXd.from_directions(vs[1], vs[2])
    s1 = vr.VectorRotationSequence.create_from_vector_array(t.np.array(vs[:2]).T)
    s1.append_from_base_and_angle(B.base, B.rotation_angle)
    t.check("n", s1.n_rotations == 2)
    t.close("append-end", s1.get_end_vector(), vs[2], 2e-3)
    t.close("append-rotate", s1.rotate(vs[0]), vs[2], 2e-3)
    s2 = vr.VectorRotationSequence.create_from_vector_array(t.np.array(vs[1:]).T)
    s2.push_root_from_base_and_angle(A.base, A.rotation_angle)
    t.close("push-start", s2.basis_array[:, 0, 0], vs[0])
    t.close("push-rotate", s2.rotate(vs[0]), vs[2], 2e-3)


@harness([VR + ":VectorRotationSequence.rotate_weighted", VR + ":VectorRotationSequence.rotate"],
         "dim 3: turns of arbitrary angle (sin>=0.1) out of the plane of the previous one; any share of the whole sequence, or of "
         "the second of its rotations; every partial rotation starts where the previous one ended", cases=["whole", "second", "third"])
def partial_rotations_connect(t, case):
    vr = t.mod(MOD)
    x, y, z = t.np.eye(3)
    (c0, s0), (c1, s1) = [t.unit(f"c{i}", 2) for i in range(2)]
    for s in (s0, s1):
        t.assume(s >= 0.1)
        t.mark_nonneg(s)
    flip = 1.0 if t.boolean("flip") else -1.0
    v1 = c0 * x + s0 * y
    v2 = c1 * v1 + s1 * flip * z
    f = t.real("f", 0.05, 1)
    seq = [x, v1, v2]
    if case == "third":
        seq = [v1] + [v1 * 0.0 + y * c0 - x * s0] + [z * flip]  # quarter turns
        seq = [seq[0], seq[1], seq[2], -seq[0]]
        R = vr.VectorRotationSequence.create_from_vector_array(t.np.array(seq).T)
        # the third rotation (towards -v0) and the second are partly applied, the first is fully applied
        out = R.rotate_weighted(seq[0], weights=t.np.array([1 - f, 0.0, f]))
        c, s = t.math.cos(f * t.math.pi / 2), t.math.sin(f * t.math.pi / 2)
        mid = c * seq[1] + s * seq[2]
        t.close("end", out, c * mid + s * seq[3], 5e-3)
        return
    R = vr.VectorRotationSequence.create_from_vector_array(t.np.array(seq).T)
    a0, a1 = R.rotation_angles
    if case == "whole":
        out = R.rotate(x, rot_factor=f)
        e0 = f
    else:
        out = R.rotate_weighted(x, weights=t.np.array([1 - f, f]))
        e0 = 1.0
    u1 = t.math.cos(e0 * a0) * x + t.math.sin(e0 * a0) * y
    t.close("end", out, t.math.cos(f * a1) * u1 + t.math.sin(f * a1) * flip * z, 5e-3)


@harness([VR + ":VectorRotationXd.rotate_sequence"], "dim 2: 2 rotations; any share of the rotation", cases=[2])
def rotating_a_sequence(t, dim):
    vr = t.mod(MOD)
    vs = chain(t, dim, 2)
    seq = vr.VectorRotationSequence.create_from_vector_array(t.np.array(vs).T)
    b = t.ortho_pair("b", dim)
    a = t.real("a", -3.14, 3.14)
    r = vr.VectorRotationXd(base=b, rotation_angle=a)
    out = r.rotate_sequence(seq)
    t.close("original-kept", seq.basis_array[:, 0, 0], vs[0])
    t.close("start", out.basis_array[:, 0, 0], r.rotate(vs[0]), 1e-3)
    t.close("end", out.get_end_vector(), r.rotate(vs[2]), 1e-3)
    f = t.real("f", 0, 1)
    t.close("partial-start", r.rotate_sequence(seq, f).basis_array[:, 0, 0], r.rotate(vs[0], f), 1e-3)


def tree3(t, vr, vs, order=0):
    tree = vr.VectorRotationTree(root_idx=0, root_direction=vs[0])
    tree.add_node(node_id=1, parent_id=0, direction=vs[1])
    tree.add_node(node_id=2, parent_id=1, direction=vs[2])
    return tree


@harness([VR + ":VectorRotationTree.get_weighted_mean", VR + ":VectorRotationTree.reduce_weighted_to_sequence",
          VR + ":VectorRotationTree.evaluate_graph_summing", VR + ":VectorRotationTree.update_partial_rotations"],
         "dim 2,3; chain root-a-b; full weight on one node",
         cases=[(2, 0), (2, 1), (2, 2), (3, 0), (3, 1), (3, 2)])
def tree_full_weight_gives_node_direction(t, case):
    dim, k = case
    vr = t.mod(MOD)
    vs = chain(t, dim, 2)
    tree = tree3(t, vr, vs)
    w = [0.0, 0.0, 0.0]
    w[k] = 1.0
    t.close("direction", tree.get_weighted_mean(node_list=[0, 1, 2], weights=w), vs[k], 2e-3)
    seq = tree.reduce_weighted_to_sequence(node_list=[0, 1, 2], weights=w)
    t.close("sequence ends there", seq.get_end_vector(), vs[k], 2e-3)
    t.close("sequence turns the root to it", seq.rotate(vs[0]), vs[k], 2e-3)


@harness([VR + ":VectorRotationTree.get_weighted_mean"],
         "dim 2; root with two children; full weight on one child; node list in either order", cases=[0, 1])
def tree_two_branches(t, k):
    vr = t.mod(MOD)
    v = t.unit("v", 2)
    sg = [1.0 if t.boolean(f"t{i}") else -1.0 for i in range(2)]
    ws = [rot_step(t, v, t.np.array([-v[1] * s, v[0] * s]), f"c{i}")[0] for i, s in enumerate(sg)]
    tree = vr.VectorRotationTree(root_idx=0, root_direction=v)
    tree.add_node(node_id=1, parent_id=0, direction=ws[0])
    tree.add_node(node_id=2, parent_id=0, direction=ws[1])
    w = [0.0, 0.0]
    w[k] = 1.0
    t.close("direction", tree.get_weighted_mean(node_list=[1, 2], weights=w), ws[k], 2e-3)
    t.close("direction-reversed", tree.get_weighted_mean(node_list=[2, 1], weights=w[::-1]), ws[k], 2e-3)


@harness([VR + ":VectorRotationTree.get_weighted_mean"],
         "dim 2; root with two children, weights w and 1-w: direction at the weighted mean angle", cases=[None])
def tree_two_branches_mean_angle(t):
    vr = t.mod(MOD)
    v = t.np.array([1.0, 0.0])
    sg = [1.0, 1.0 if t.boolean("same-side") else -1.0]
    ws, a = [], []
    for i, s in enumerate(sg):
        w_, cs = rot_step(t, v, t.np.array([0.0, s]), f"c{i}")
        ws.append(w_)
        a.append(s * t.math.acos(cs[0]))
    tree = vr.VectorRotationTree(root_idx=0, root_direction=v)
    tree.add_node(node_id=1, parent_id=0, direction=ws[0])
    tree.add_node(node_id=2, parent_id=0, direction=ws[1])
    w = t.real("w", 0.05, 0.95)
    out = tree.get_weighted_mean(node_list=[1, 2], weights=[w, 1 - w])
    m = w * a[0] + (1 - w) * a[1]
    t.assume((m > 0.01) | (m < -0.01))
    t.close("unit", t.np.dot(out, out), 1.0, 1e-3)
    t.close("mean-angle", out, t.np.array([t.math.cos(m), t.math.sin(m)]), 2e-3)


@harness([VR + ":VectorRotationTree.add_node"], "dim 2", cases=[None])
def tree_rejects_bad_nodes(t):
    vr = t.mod(MOD)
    v = t.unit("v", 2)
    tree = vr.VectorRotationTree(root_idx=0, root_direction=v)
    t.raises("zero", ValueError, lambda: tree.add_node(node_id=1, parent_id=0, direction=t.np.zeros(2)))
    tree.add_node(node_id=1, parent_id=0, direction=v)
    t.raises("duplicate", ValueError, lambda: tree.add_node(node_id=1, parent_id=0, direction=v))
    t.raises("no-level", ValueError, lambda: tree.add_node(node_id=5, direction=v))
    t.raises("weights-mismatch", ValueError, lambda: tree.get_weighted_mean(node_list=[0, 1], weights=[1.0]))
    t.raises("sequence-mismatch", ValueError, lambda: tree.reduce_weighted_to_sequence(node_list=[0, 1], weights=[1.0]))
    deep = vr.VectorRotationTree(root_idx=0, root_direction=v)
    deep.maximum_level = t.pick("limit", [1, 3, 4])
    for i in range(1, deep.maximum_level):
        deep.add_node(node_id=i, parent_id=i - 1, direction=v)
    t.raises("too-deep", ValueError, lambda: deep.add_node(node_id=9, parent_id=deep.maximum_level - 1, direction=v))


@harness([VR + ":VectorRotationTree.add_sequence", VR + ":VectorRotationTree.from_sequence"],
         "dim 2; sequence of 2 rotations", cases=[None])
def tree_from_sequence(t):
    vr = t.mod(MOD)
    vs = chain(t, 2, 2)
    seq = vr.VectorRotationSequence.create_from_vector_array(t.np.array(vs).T)
    tree = vr.VectorRotationTree.from_sequence(root_id=0, node_id=7, sequence=seq)
    t.close("end", tree.get_weighted_mean(node_list=[0, 7], weights=[0.0, 1.0]), vs[2], 2e-3)
    t.close("root", tree.get_weighted_mean(node_list=[0, 7], weights=[1.0, 0.0]), vs[0], 2e-3)


@harness([VR + ":VectorRotationTree.add_sequence"],
         "dim 2; sequence of 1-2 rotations by 90 or 37 degrees added below a root 53 degrees to either side of its first direction, "
         "or the same direction", cases=[1, 2])
def tree_with_sequence_added(t, n):
    """a sequence with its own first direction hangs below any node, one that is said to share it has to"""
    vr = t.mod(MOD)
    vs = [t.np.array([1.0, 0.0])]
    for i in range(n):
        c, s = t.pick(f"step{i}", [(0.0, 1.0), (0.8, -0.6)])
        vs.append(t.np.array([c * vs[-1][0] - s * vs[-1][1], s * vs[-1][0] + c * vs[-1][1]]))
    seq = vr.VectorRotationSequence.create_from_vector_array(t.np.array(vs).T)
    root = t.np.array(t.pick("root", [[0.6, 0.8], [0.6, -0.8]]))
    tree = vr.VectorRotationTree(root_idx=0, root_direction=root)
    t.raises("not-aligned", ValueError, lambda: tree.add_sequence(node_id=5, sequence=seq, parent_id=0))
    tree = vr.VectorRotationTree(root_idx=0, root_direction=root)
    tree.add_sequence(node_id=5, sequence=seq, parent_id=0, common_parent=False)
    t.close("end", tree.get_weighted_mean(node_list=[0, 5], weights=[0.0, 1.0]), vs[-1], 2e-3)
    t.close("root", tree.get_weighted_mean(node_list=[0, 5], weights=[1.0, 0.0]), root, 2e-3)
    out = tree.reduce_weighted_to_sequence(node_list=[0, 5], weights=[0.0, 1.0])
    t.close("first-direction-is-passed", out.basis_array[:, 1, 0], vs[0], 2e-3)


@harness([VR + ":VectorRotationSequence.append_from_direction"], "dim 2,3; one direction appended to one rotation",
         cases=[2, 3])
def appending_a_direction(t, dim):
    vr = t.mod(MOD)
    vs = chain(t, dim, 2)
    k = t.real("k", 0.1, 10)
    seq = vr.VectorRotationSequence.create_from_vector_array(t.np.array(vs[:2]).T)
    seq.append_from_direction(k * vs[2])
    t.check("n", seq.n_rotations == 2)
    t.close("continues", seq.basis_array[:, 1, 0], vs[1], 2e-3)
    t.close("end", seq.get_end_vector(), vs[2], 2e-3)
    t.close("rotate", seq.rotate(vs[0]), vs[2], 2e-3)


@harness([VR + ":VectorRotationXd.rotate_vector_rotation"], "dim 2,3; rotation of a rotation; factor in [0,1]",
         cases=[2, 3])
def rotating_a_rotation(t, dim):
    vr = t.mod(MOD)
    vs = chain(t, dim, 1)
    inner = vr.VectorRotationXd.from_directions(vs[0], vs[1])
    b = t.ortho_pair("b", dim)
    a = t.real("a", -3.14, 3.14)
    r = vr.VectorRotationXd(base=b, rotation_angle=a)
    out = r.rotate_vector_rotation(inner)
    t.close("original-kept", inner.base[:, 0], vs[0])
    t.close("start", out.base[:, 0], r.rotate(vs[0]), 1e-3)
    t.close("plane", out.base[:, 1], r.rotate(inner.base[:, 1]), 1e-3)
    t.close("angle", out.rotation_angle, inner.rotation_angle)
    f = t.real("f", 0, 1)
    t.close("partial", r.rotate_vector_rotation(inner, f).base[:, 0], r.rotate(vs[0], f), 1e-3)


@harness([VR + ":VectorRotationTree.rotate", VR + ":VectorRotationTree.inverse_rotate", VR + ":VectorRotationTree.root"],
         "dim 2; root and one node; full weight on the node; any length", cases=[2])
def tree_rotates_vectors(t, dim):
    vr = t.mod(MOD)
    vs = chain(t, dim, 1)
    tree = vr.VectorRotationTree(root_idx=0, root_direction=vs[0])
    tree.add_node(node_id=1, parent_id=0, direction=vs[1])
    k = t.real("k", 0.1, 10)
    t.close("root-to-node", tree.rotate(k * vs[0], [0, 1], [0.0, 1.0]), k * vs[1], 5e-2)
    t.close("node-to-root", tree.inverse_rotate(k * vs[1], [0, 1], [0.0, 1.0]), k * vs[0], 5e-2)


@harness([VR + ":VectorRotationTree.get_parent", VR + ":VectorRotationTree.get_children",
          VR + ":VectorRotationTree.set_direction", VR + ":VectorRotationTree.get_nodes_ascending",
          VR + ":VectorRotationTree.get_all_childs_children"],
         "dim 2; 4 nodes under symbolic parents; direction of any node changed", cases=[None])
def tree_links(t):
    vr = t.mod(MOD)
    dirs = [t.np.array([1.0, 0.0]), t.np.array([0.6, 0.8]), t.np.array([0.0, 1.0]), t.np.array([0.8, -0.6])]
    tree = vr.VectorRotationTree(root_idx="r", root_direction=dirs[0])
    ids, par = ["r"], [None]
    for i in (1, 2, 3):
        p = int(t.int_(f"p{i}", 0, i - 1))
        ids.append(i)
        par.append(ids[p])
        tree.add_node(node_id=i, parent_id=ids[p], direction=dirs[i])
    for i in (1, 2, 3):
        t.check("parent", tree.get_parent(ids[i]) == par[i])
    for x in ids:
        t.check("children", list(tree.get_children(x)) == [ids[i] for i in range(4) if par[i] == x])
    order = tree.get_nodes_ascending()
    t.check("each-once", len(order) == 4 and set(order) == set(ids))
    for i in (1, 2, 3):
        t.check("parent-first", order.index(par[i]) < order.index(ids[i]))
    for x in ids:
        want = []
        for i in (1, 2, 3):
            up = par[i]
            while up is not None and up != x:
                up = par[ids.index(up)]
            if up == x:
                want.append(ids[i])
        t.check("descendants", sorted(tree.get_all_childs_children(x)) == want)
    t.close("root-direction", tree.root["direction"], dirs[0])
    # overwriting a direction takes effect in the mean
    k = int(t.int_("k", 1, 3))
    new = t.np.array([0.28, 0.96])
    tree.set_direction(k, new)
    w = [0.0] * 4
    w[k] = 1.0
    t.close("new-direction", tree.get_weighted_mean(node_list=ids, weights=w), new, 2e-3)


@harness([VR + ":VectorRotationTree.get_weighted_mean", VR + ":VectorRotationTree.update_partial_rotations",
          VR + ":VectorRotationTree.evaluate_graph_summing"],
         "dim 2; root with a branch of two nodes and a branch of one node; any weights w and 1-w on the two ends; "
         "(first vector fixed; steps with sin>=0.1), or on the two nodes next to the root", cases=[0, 1, 2])
def tree_branches_of_different_depth(t, case):
    vr = t.mod(MOD)
    v = t.np.array([1.0, 0.0])
    a, d = [], []
    for i, s in enumerate([1.0, 1.0, -1.0] if case else [1.0, 1.0, 1.0]):
        par = [v, d[0] if d else None, v][i]
        w_, cs = rot_step(t, par, s * t.np.array([-par[1], par[0]]), f"c{i}")
        d.append(w_)
        a.append(s * t.math.acos(cs[0]))
    tree = vr.VectorRotationTree(root_idx=0, root_direction=v)
    tree.add_node(node_id=1, parent_id=0, direction=d[0])
    tree.add_node(node_id=2, parent_id=1, direction=d[1])
    tree.add_node(node_id=3, parent_id=0, direction=d[2])
    w = t.real("w", 0.05, 0.95)
    m1 = w * a[0] + (1 - w) * a[2]
    t.assume((m1 > 0.01) | (m1 < -0.01))
    if case == 2:
        seq, m = tree.reduce_weighted_to_sequence(node_list=[1, 2, 3], weights=[w, 0.0, 1 - w]), m1
    else:
        seq, m = tree.reduce_weighted_to_sequence(node_list=[2, 3], weights=[w, 1 - w]), m1 + w * a[1]
    out = seq.get_end_vector()
    t.close("sequence turns the root to its end", seq.rotate(v), out, 2e-3)
    t.close("unit", t.np.dot(out, out), 1.0, 1e-3)
    t.close("mean-angle", out, t.np.array([t.math.cos(m), t.math.sin(m)]), 5e-3)
