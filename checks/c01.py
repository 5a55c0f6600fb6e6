"""C01 nothing penetrates: on the surface of an obstacle the modulated velocity has no component into it."""
from symx.harness import harness
from checks.helpers import (Component, Constant, Sequence, Tree, Wall, around, frame, moving, not_aligned,
                            side_convergence, surface_setup)

RA = "nonlinear_avoidance/avoidance/rotational_avoider.py"
MOD = "nonlinear_avoidance.avoidance.rotational_avoider"


@harness([RA + ":RotationalAvoider.get_tangent_convergence_direction"],
         "2D and 3D directions; reference angle strictly inside the radius, radius in [pi/2, pi]", cases=[1, 2])
def tangent_lies_on_radius(t, dim):
    m = t.mod(MOD)
    r = t.real("r", 1.5, 3.15)
    ref = t.vec("ref", dim, -3.2, 3.2)
    conv = t.vec("conv", dim, -3.2, 3.2)
    t.assume(t.np.dot(ref, ref) <= 0.95 * r * r)
    d = conv - ref
    t.assume(t.np.dot(d, d) >= 1e-4)
    out = m.RotationalAvoider.get_tangent_convergence_direction(
        dir_convergence=conv, dir_reference=ref, convergence_radius=r)
    t.close("on-radius", t.np.dot(out, out), r * r, 1e-3)
    t.ge("towards-convergence", t.np.dot(out - ref, d), 0.0)


@harness([RA + ":RotationalAvoider.get_tangent_convergence_direction"], "1 and 2 angles; aligned directions",
         cases=[1, 2])
def tangent_of_aligned_directions(t, dim):
    m = t.mod(MOD)
    r = t.real("r", 1.5, 3.15)
    ref = t.vec("ref", dim, -1.5, 1.5)
    out = m.RotationalAvoider.get_tangent_convergence_direction(
        dir_convergence=ref + 0.0, dir_reference=ref, convergence_radius=r)
    t.close("on-radius", t.np.dot(out, out), r * r, 1e-3)


@harness([RA + ":RotationalAvoider.get_pseudo_tangent"], "2D; any frame, reference within 80deg of the inward normal",
         cases=[False, True])
def pseudo_tangent_leaves_surface(t, tail):
    m = t.mod(MOD)
    av = m.RotationalAvoider(initial_dynamics=Constant(t.np.zeros(2)), obstacle_environment=[], tail_rotation=tail)
    base = frame(t)
    ref, _ = around(t, base, "ref", lo=0.2)
    conv, u = around(t, base, "conv", lo=-0.99, hi=0.999)
    out = av.get_pseudo_tangent(vector_convergence=conv, vector_reference=ref, base=base)
    t.close("unit", t.np.dot(out, out), 1.0, 1e-3)
    t.le("not-inward", t.np.dot(out, base[:, 0]), 0.0)
    if not tail and t.decide(u[0] <= -0.001):
        t.close("already-leaving-kept", out, conv)


@harness([RA + ":RotationalAvoider.directional_convergence_summing", RA + ":RotationalAvoider.get_pseudo_tangent",
          RA + ":RotationalAvoider.get_smooth_continuation_weight"],
         "2D; on the surface with inward normal e0; reference within 80deg of it, any convergence and any nonlinear "
         "direction that are not (nearly) parallel to each other or to the normal", cases=[1.0, 0.5])
def summing_on_surface(t, gamma):
    m = t.mod(MOD)
    av = m.RotationalAvoider(initial_dynamics=Constant(t.np.zeros(2)), obstacle_environment=[])
    base = t.np.eye(2)
    ref, _ = around(t, base, "ref", lo=0.2)
    conv, u = around(t, base, "conv", lo=-0.99, hi=0.999)
    side = 1.0 if t.boolean("left") else -1.0
    t.assume(u[1] * side >= 0)
    vu = t.unit("vel", 2)
    t.assume(vu[0] >= -0.99)
    t.assume(vu[0] <= 0.999)
    vel = vu[0] * conv + vu[1] * t.np.array([-conv[1], conv[0]])
    out = av.directional_convergence_summing(convergence_vector=conv, reference_vector=ref, base=base, gamma=gamma,
                                             nonlinear_velocity=vel)
    t.close("unit", t.np.dot(out, out), 1.0, 1e-3)
    t.le("not-inward", t.np.dot(out, base[:, 0]), 0.0)


@harness([RA + ":RotationalAvoider.get_pseudo_tangent"], "3D; reference direction = inward normal e0 (sphere), "
         "any convergence direction", cases=[None])
def pseudo_tangent_leaves_sphere_3d(t):
    m = t.mod(MOD)
    av = m.RotationalAvoider(initial_dynamics=Constant(t.np.zeros(3), 3), obstacle_environment=[])
    base = t.np.eye(3)
    conv = t.unit("conv", 3)
    t.assume(conv[0] >= -0.99)
    t.assume(conv[0] <= 0.99)
    out = av.get_pseudo_tangent(vector_convergence=conv, vector_reference=base[:, 0], base=base)
    t.close("unit", t.np.dot(out, out), 1.0, 1e-3)
    t.le("not-inward", t.np.dot(out, base[:, 0]), 0.0)
    if t.decide(conv[0] > 0):
        # the tangent lies in the plane of the normal and the convergence direction, on its side
        n = conv[1] * out[2] - conv[2] * out[1]
        t.close("same-plane", n, 0.0, 1e-3)
        t.ge("same-side", conv[1] * out[1] + conv[2] * out[2], 0.0)


@harness([RA + ":RotationalAvoider.avoid", RA + ":RotationalAvoider.directional_convergence_summing",
          RA + ":RotationalAvoider.compute_obstacle_gamma", RA + ":RotationalAvoider.compute_normal_tensor",
          RA + ":RotationalAvoider._limit_magnitude", RA + ":RotationalAvoider.compute_safe_magnitude"],
         "2D; one obstacle or boundary at gamma 1 (inside the obstacle also below 1), any reference within 80deg of the "
         "normal, any velocity of speed [0.1,10] and convergence direction, both surface modes",
         cases=[(False, True), (False, False), (True, True), (True, False)])
def avoid_on_surface(t, case):
    is_boundary, sticky = case
    m = t.mod(MOD)
    w, p, normal, ref = surface_setup(t, is_boundary)
    conv = side_convergence(t, w, p)
    vel, k = moving(t, conv)
    gamma = 1.0 if is_boundary or t.boolean("exact") else t.real("gamma", 0.2, 1.0)
    av = m.RotationalAvoider(initial_dynamics=Constant(vel), obstacle_environment=[Wall(gamma, normal, ref, is_boundary)])
    out = av.avoid(position=t.np.zeros(2), initial_velocity=vel, convergence_velocity=conv, sticky_surface=sticky)
    t.le("not-into-wall", t.np.dot(out, w), 0.0, 1e-3)
    t.le("not-faster", t.np.dot(out, out), k * k, 1e-3)


@harness([RA + ":RotationalAvoider.avoid", RA + ":RotationalAvoider.compute_normal_tensor"],
         "2D; two obstacles in either order, one touched, the other at gamma 1.5 or out of range", cases=[1.5, 1e8])
def avoid_on_surface_among_others(t, gamma_other):
    m = t.mod(MOD)
    w, p = t.np.array([0.0, -1.0]), t.np.array([1.0, 0.0])
    touched = Wall(1.0, -w, w)
    other = Wall(gamma_other, t.np.array([1.0, 0.0]), t.np.array([-1.0, 0.0]))
    obs = [touched, other] if t.boolean("first") else [other, touched]
    if gamma_other > 100:
        conv = side_convergence(t, w, p)
        vel, k = moving(t, conv)
    else:
        # straight towards the other one (whose own modulation is then the identity)
        conv = t.np.array([-1.0, 0.0])
        vel, k = moving(t, conv)
        ref = t.unit("ref", 2)
        t.assume(ref[0] >= 0.2)
        touched.reference = ref[0] * w + ref[1] * p
    av = m.RotationalAvoider(initial_dynamics=Constant(vel), obstacle_environment=obs,
                             convergence_system=Constant(conv))
    sticky = t.boolean("sticky")
    out = av.avoid(position=t.np.zeros(2), initial_velocity=vel, sticky_surface=sticky)
    t.le("not-into-wall", t.np.dot(out, w), 0.0, 1e-3)
    t.le("not-faster", t.np.dot(out, out), k * k, 1e-3)


@harness([RA + ":RotationalAvoider.get_intermediate_convergence_direction", RA + ":RotationalAvoider.get_tangent_convergence_direction"],
         "2D; reference within 80deg of the inward normal, any convergence direction into the obstacle, convergence radius in "
         "[pi/2, pi[", cases=[None])
def intermediate_direction_is_tangential(t):
    """directions beyond the tangent are reached over the tangent on the side of the convergence"""
    m = t.mod(MOD)
    base = frame(t)
    w, p = base[:, 0], base[:, 1]
    ref = t.unit("ref", 2)
    t.assume(ref[0] >= 0.2)
    c = t.unit("conv", 2)
    t.assume(c[0] >= 0.01)
    cross = ref[0] * c[1] - ref[1] * c[0]
    left = t.boolean("left")
    t.assume((cross >= 0.01) if left else (cross <= -0.01))
    av = m.RotationalAvoider(initial_dynamics=Constant(w), obstacle_environment=[],
                             convergence_radius=t.math.acos(t.real("cos", -0.95, 0.0)))
    out = av.get_intermediate_convergence_direction(vector_convergence=c[0] * w + c[1] * p,
                                                    vector_reference=ref[0] * w + ref[1] * p, base=base)
    t.close("tangential", t.np.dot(out, w), 0.0, 1e-3)
    t.close("on-the-side", t.np.dot(out, p), 1.0 if left else -1.0, 1e-3)


MO = "nonlinear_avoidance/multi_obstacle_avoider.py"


@harness([RA + ":RotationalAvoider.get_projected_tangent_from_vectors"],
         "2D; inward normal, reference within 80deg of it, any initial direction; radius pi/2 or any in [pi/2, pi]",
         cases=["tangent", "radius"])
def projected_tangent(t, mode):
    m = t.mod(MOD)
    base = frame(t)
    w, p = base[:, 0], base[:, 1]
    ref = t.unit("ref", 2)
    t.assume(ref[0] >= 0.2)
    u = t.unit("init", 2)
    t.assume(u[0] >= -0.99)
    t.assume(u[0] <= 0.99)
    t.assume(abs(u[0] * ref[1] - u[1] * ref[0]) >= 0.001)
    kw, r = {}, t.math.pi * 0.5
    if mode == "radius":
        cr = t.real("cos", -0.99, -0.05)
        r = t.math.acos(cr)
        kw = {"convergence_radius": r}
        t.assume(u[0] - cr >= 0.01)
    v = u[0] * w + u[1] * p
    out = m.RotationalAvoider.get_projected_tangent_from_vectors(v, normal=-w, reference=ref[0] * w + ref[1] * p, **kw)
    t.close("unit", t.np.dot(out, out), 1.0, 1e-3)
    t.close("at-radius", t.np.dot(out, w), t.math.cos(r), 1e-3)


@harness([MO + ":MultiObstacleAvoider.evaluate_avoidance_from_sequence", MO + ":MultiObstacleAvoider.compute_gamma_and_weights",
          MO + ":MultiObstacleAvoider.simple_population_tangent_tree",
          MO + ":MultiObstacleAvoider._simple_tangent_branch_update"],
         "2D; single-component obstacle at gamma 1, reference within 80deg of the normal, any convergence direction not "
         "aligned with the reference", cases=[True, False])
def multi_avoider_on_surface(t, tail):
    m = t.mod("nonlinear_avoidance.multi_obstacle_avoider")
    w, p, normal, ref = surface_setup(t, False)
    conv = side_convergence(t, w, p)
    not_aligned(t, conv, ref)
    c = Component(1.0, normal, ref, t.np.zeros(2), w)
    c.tail_effect = tail
    av = m.MultiObstacleAvoider(obstacle=Tree(c), initial_dynamics=Constant(conv))
    out = av.evaluate_avoidance_from_sequence(t.np.zeros(2), Sequence(conv)).get_end_vector()
    t.close("unit", t.np.dot(out, out), 1.0, 1e-3)
    t.le("not-into-wall", t.np.dot(out, w), 0.0)
    if not tail and t.decide(t.np.dot(conv, w) < -0.001):
        t.close("leaving-kept", out, conv)


@harness([MO + ":MultiObstacleAvoider.evaluate_sequence", RA + ":RotationalAvoider.compute_safe_scaling",
          MO + ":MultiObstacleAvoider.slowfactor_from_convergence"],
         "2D; single-component obstacle at gamma 1, any reference within 80deg of the normal, any convergence direction, "
         "speed in [0.1,10]", cases=[None])
def multi_avoider_velocity_on_surface(t):
    m = t.mod("nonlinear_avoidance.multi_obstacle_avoider")
    w, p, normal, ref = surface_setup(t, False)
    conv = side_convergence(t, w, p)
    k = t.real("speed", 0.1, 10)
    c = Component(1.0, normal, ref, t.np.zeros(2), w)
    c.get_pose = lambda: None
    tree = Tree(c)
    tree.get_pose = lambda: None

    class Avoider(m.MultiObstacleAvoider):
        def compute_convergence_sequence(self, position, initial_sequence):
            return Sequence(conv)

    av = Avoider(obstacle=tree, initial_dynamics=Constant(k * p))
    out = av.evaluate_sequence(t.np.zeros(2))
    t.le("not-into-wall", t.np.dot(out, w), 0.0, 0.02)
    t.le("not-faster", t.np.dot(out, out), k * k, 1e-2)
