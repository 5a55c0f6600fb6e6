def define(prop, N):
    RA, MO, NL = N + "avoidance/rotational_avoider.py", N + "multi_obstacle_avoider.py", N + "nonlinear_rotation_avoider.py"
    prop("C01", "Nothing penetrates: on an obstacle's surface the modulated velocity never points into it",
         "At the surface of an obstacle or boundary (gamma 1, or inside an obstacle) the direction returned by the rotational "
         "and multi-obstacle avoiders has no component into the obstacle, for whatever initial velocity and convergence "
         "direction, also when other obstacles are near or out of range. The tangent the avoiders rotate towards lies exactly "
         "on the convergence radius, in the plane of reference and convergence direction and on the side of the latter. "
         "Directions that already leave are kept when there is no tail effect.",
         ["inputs", "configurations"], "every velocity, convergence direction and reference within 80 degrees of the normal, "
         "touching one obstacle (2D; tangents also 3D)",
         "the tests check a handful of positions around fixed ellipses; the guarantee is about every direction on every surface",
         [RA, MO],
         [("RotationalAvoider.avoid / get_pseudo_tangent / get_tangent_convergence_direction", RA),
          ("RotationalAvoider.get_projected_tangent_from_vectors", RA),
          ("MultiObstacleAvoider.evaluate_avoidance_from_sequence / evaluate_sequence", MO)],
         design="Out of scope: the exact saddle (convergence exactly along the reference direction, where any tangent is "
                "right and only the scaled velocity is guaranteed) and concave corners between several touched obstacles.")
    prop("C02", "Free space is untouched: without obstacles in range the initial velocity is returned",
         "With no obstacles, or with all of them at or beyond the cut-off distance (moving or not), every avoider returns "
         "exactly the velocity of the initial dynamics, including its magnitude; resting dynamics stay at rest near resting "
         "obstacles; and the direction changes by at most pi/gamma at distance gamma.",
         ["inputs", "configurations"], "every velocity, cut-off in [2, 1e6] and any 1-3 distances beyond it; 2D and 3D",
         "tests look at single far positions; the cut-off comparison and magnitudes are real-valued inputs",
         [RA, MO, NL],
         [("RotationalAvoider.avoid", RA), ("MultiObstacleAvoider.evaluate_sequence", MO),
          ("SingularityConvergenceDynamics.evaluate / evaluate_sequence / evaluate_weighted_dynamics", NL)])
    prop("C03", "Avoidance never speeds up: the speed stays within that of the initial dynamics and drops to zero head-on",
         "Around obstacles the modulated speed, relative to that they move with, never exceeds the initial speed and the velocity is only scaled, "
         "never reversed. Velocities that leave an obstacle are not slowed by its proximity, closer means slower, and heading into "
         "a touched obstacle stops. Slow-down factors are always within [0, 1], the stopping one reached exactly when heading "
         "for the reference point of an obstacle with full weight.",
         ["inputs"], "every unit direction, averaged normal of length <= 1, gamma in [0.2, 1e3], speed in [0, 10], 1-3 obstacles",
         "tests compare a few magnitudes; a factor outside [0, 1] or NaN shows up only at particular distances and angles",
         [RA, MO],
         [("RotationalAvoider.compute_safe_scaling / compute_safe_magnitude / _limit_magnitude", RA),
          ("MultiObstacleAvoider.slowfactor_from_convergence / evaluate_sequence", MO)])
    prop("C04", "Importance weights are a proper share: non-negative, at most one in total, all on touched obstacles",
         "The weights that distribute influence over obstacles and components are never negative, never add up to more than "
         "one, go entirely and evenly to the touched obstacles as soon as one is touched, keep the order of distances "
         "otherwise, and are zero for obstacles out of range. Weights with a total below one are kept as they are, larger "
         "ones are reduced to one with a full weight taking all. The averaged normal uses the same share and reports the "
         "smallest gamma.",
         ["inputs"], "every 1-3 distances in [0.2, 1e3], 1-3 weights in [0, 1], any unit normals",
         "tests use one or two hand-picked distance lists",
         [MO, NL],
         [("compute_gamma_weights / get_limited_weights_to_max_sum", MO),
          ("MultiObstacleAvoider.compute_weights_from_distances / compute_averaged_normal_and_gamma / "
           "compute_gamma_and_weights / evaluate_occlusion_array", MO),
          ("SingularityConvergenceDynamics.compute_gamma_weights", NL)],
         design="Known finding: two full weights given to `get_limited_weights_to_max_sum` add up to two.")
    prop("C05", "Smoothing weights interpolate between free motion and full avoidance",
         "The rotation, continuation, convergence, occlusion and repulsion weights lie in [0, 1], are full on the surface and "
         "fade at least with the inverse distance; an obstacle around the attractor loses its convergence weight linearly; "
         "a component loses weight as far as its own parent hides its surface, all of it straight behind it; the convergence radius grows from its "
         "set value at the surface to pi at the repulsion limit, beyond which the way is straight out. At weight zero the initial direction and at weight one the "
         "convergence direction of the obstacle the weight belongs to are returned; around several obstacles each one is "
         "avoided with its own convergence direction.",
         ["inputs"], "every gamma in [0, 1e3], reference within 80 degrees of the normal, convergence direction, weight and "
         "radius in [pi/2, pi]; 1-3 obstacles",
         "the weights are continuous functions of angles and distances with several branches; tests touch few of them",
         [RA, MO, NL],
         [("RotationalAvoider.get_rotation_weight / get_smooth_continuation_weight / _get_projected_velocity", RA),
          ("MultiObstacleAvoider.compute_tree_weight / compute_parent_occlusion_weight / compute_convergence_radiuses / "
           "compute_convergence_sequence", MO),
          ("SingularityConvergenceDynamics.evaluate_weighted_dynamics / _sequence, get_convergence_weight", NL)])
    prop("C06", "Rotating a direction is an exact, invertible, length-preserving rotation",
         "A rotation built from two directions turns the first onto the second within the plane they span, preserves "
         "lengths and everything orthogonal to that plane, a fraction of it turns by that fraction of the angle, and the "
         "inverse rotation undoes it. Parallel directions give a rotation that leaves every vector unchanged, and the zero "
         "vector stays zero. Blending two vectors by weight returns the first at weight 0, the second at weight 1, and has "
         "the linearly interpolated length in between.",
         ["inputs"], "every non-antiparallel pair of directions of any length, every rotated vector, angle, fraction and "
         "blending weight, in 2 and 3 dimensions",
         "the tests rotate a few axis-aligned vectors (and do not run without the missing companion packages)",
         [N + "vector_rotation.py"],
         [("rotate_direction / rotate_array", N + "vector_rotation.py"),
          ("VectorRotationXd.from_directions / rotate / inverse_rotate / inv", N + "vector_rotation.py"),
          ("directional_vector_addition", N + "vector_rotation.py")])
    prop("C07", "Rotation sequences and trees reach their stored directions exactly",
         "A sequence of rotations built from a list of directions turns the first direction onto the i-th one when all "
         "weight is on the i-th rotation, and any weighted rotation preserves lengths. In a tree of directions, full weight "
         "on one node returns that node's direction, and splitting the weight over two branches returns a unit direction at "
         "the weighted mean angle. A partial rotation starts where the previous one ended, so that sequence and chain tree "
         "agree. Zero, antiparallel, duplicate or parentless entries are rejected with an error.",
         ["inputs", "configurations"], "every list of up to 4 pairwise non-antiparallel directions (2D) or 3 (3D), of any "
         "length, every weight distribution, chain and two-branch trees",
         "the tests check single hand-picked chains; weights, lengths and geometry are unbounded real inputs",
         [N + "vector_rotation.py"],
         [("VectorRotationSequence", N + "vector_rotation.py"), ("VectorRotationTree", N + "vector_rotation.py")])
    prop("C08", "Parent, child and root links of composed obstacles stay consistent",
         "After any sequence of adding, re-parenting, replacing and removing elements, every element is listed exactly once "
         "among the children of its parent and nowhere else, parentless elements are exactly the roots, and top-down "
         "traversal yields each element once, after its parent. Removing or replacing an obstacle in a container keeps its "
         "per-obstacle dynamics aligned with the remaining obstacles. A component that already is the root or already has a "
         "parent is never silently re-linked.",
         ["histories", "inputs"], "every history of up to 3 link operations on up to 4 elements with arbitrary operands",
         "the one running test adds a single child; ordering and re-linking histories are combinatorial",
         [N + "graph_handler.py", N + "multiboundary_container.py", N + "rotation_container.py",
          N + "multi_ellipse_obstacle.py"],
         [("GraphElement / BasicGraphHandler / GraphHandler", N + "graph_handler.py"),
          ("MultiBoundaryContainer", N + "multiboundary_container.py"),
          ("RotationContainer", N + "rotation_container.py"),
          ("MultiEllipseObstacle.set_root / set_parent", N + "multi_ellipse_obstacle.py")])
    DY = N + "dynamics/"
    CD, SP, PR, SD = DY + "circular_dynamics.py", DY + "spiral_dynamics.py", DY + "projected_rotation_dynamics.py", DY + "segmented_dynamics.py"
    prop("C09", "Limit-cycle dynamics circulate on, and are drawn to, their circle at the set speed",
         "Circular dynamics of any pose turn counter-clockwise (or as configured) around their center everywhere, move inwards "
         "outside of the circle and outwards inside, and in 3D also towards its plane; on the circle they are exactly "
         "tangential. The speed is the maximum velocity, slowing linearly to rest at the center. The rotation weight lies in "
         "]0, 2[, grows with the radius and is one on the circle. Spiralling dynamics keep their speed and advance along their "
         "direction while circling around its axis.",
         ["inputs", "configurations"], "every pose and radius in [0.1, 5], every point within 10 (20 for rotation dynamics), 2D and 3D",
         "the tests evaluate a few fixed points of centered, axis-aligned circles",
         [CD, SP],
         [("SimpleCircularDynamics / CircularRotationDynamics / DynamicDynamics.evaluate", CD), ("SpiralingDynamics3D", SP)],
         design="`DynamicDynamics.update_base` is not called by the code and ends in a breakpoint: not covered.")
    prop("C10", "The projection around an obstacle is reversible and its convergence direction blends field and obstacle",
         "Shrinking and inflating an obstacle are inverse to each other outside of it; folding the space opposite to the "
         "attractor and unfolding it returns the position, and keeps the reference point. Positions or attractors inside the "
         "obstacle are not projected; projected points stay outside. The projection weight is one at the surface, fades with "
         "both distances and never leaves [0, 1]. The convergence direction has the length of the initial velocity, equals the "
         "field at the obstacle on its surface, the initial one far away, and is turned by the remaining share in between.",
         ["inputs", "configurations"], "every position, obstacle pose and elliptic size within about 20 units; folding for 2-3 axis-aligned attractor "
         "directions at any position up to 168 degrees",
         "the tests compare a few positions around one or two obstacles",
         [PR],
         [("ProjectedRotationDynamics (deflation, folding, projection, weight, convergence)", PR)],
         design="Not covered: `get_projected_gamma` and `compute_obstacle_convergence_sequence` refer to attributes and "
                "signatures that do not exist (unused).")
    prop("C11", "Path following stays with its segments, shares weight properly and stops at the end",
         "A segment's distance is the smallest distance to any of its points; its motion is a unit direction that advances "
         "along the segment and returns to it. Weights over segments and attractor are non-negative, add up to one, go fully to "
         "touched segments, prefer closer ones, and go to the attractor far from the path and when it was overshot. With all "
         "weight on one segment its motion is followed, any share keeps the set speed, which falls linearly to zero at the end. "
         "Degenerate segments are rejected.",
         ["inputs"], "every segment of length in [0.1, 10] in 2D (axis-aligned in 3D), every position within 20, 1-3 segments at any distances",
         "the test of the module checks four positions of one path",
         [SD],
         [("DynamicsSegment", SD), ("WavyPathFollowing", SD), ("create_segment_from_points", SD)])
    prop("C12", "Attractor dynamics stop at the attractor, keep their set speed and never deviate beyond their limit",
         "Wavy, locally rotated, learned-deviation and attractor-spiral dynamics are zero at their attractor, have the speed "
         "they are set to, and deviate from the direct direction by at most their limit, so that they keep approaching for "
         "whatever output the learned regressor gives. Close to its obstacle the local rotation is applied in full, beyond the "
         "outer limit not at all, and in between by a share in [0, 1]; an obstacle at the attractor has no effect. Sequences "
         "built from dynamics start at the base direction, end in the velocity and do not exist for zero vectors.",
         ["inputs", "configurations"], "every attractor, position within 20, reference direction within ~170 degrees, predicted deviation, limit and speed",
         "the tests evaluate single positions; predictions, limits and poses are unbounded real inputs",
         [DY + "wavy_attractor_dynamics.py", DY + "locally_rotated_linear_dynamics.py", DY + "nonlinear_deviation.py", SP,
          DY + "sequenced_dynamics.py", DY + "constant_value.py"],
         [("WavyLinearDynamics", DY + "wavy_attractor_dynamics.py"),
          ("LocallyRotatedFromObtacle", DY + "locally_rotated_linear_dynamics.py"),
          ("DeviationOfConstantFlow / PerpendicularDeviatoinOfLinearDS / regressors", DY + "nonlinear_deviation.py"),
          ("SpiralingAttractorDynamics3D", SP), ("evaluate_dynamics_sequence", DY + "sequenced_dynamics.py"),
          ("ConstantValueWithSequence", DY + "constant_value.py")],
         design="Not covered: `ObstacleRotatedDynamics` (work in progress: returns before its averaging is used) and the "
                "fitting inside scikit-learn, which is replaced by an arbitrary regressor.")
    LE, CO = N + "gmm_learner/learner/", N + "comparison/"
    prop("C13", "Learned motions follow the mixture model: conditional means, shared weights, rest at the attractor",
         "Gaussians take their largest value at their mean, fall off in every direction, and the derivative is the gradient of "
         "the value. The conditional mean and covariance of a component are those of its joint covariance. Mixing weights are "
         "non-negative and proportional to the prior times the probability of the component, and add up to one at most (exactly one "
         "where they are normalised). A prediction is the weighted mean "
         "of the conditional means, is at rest at the attractor, and the prediction of one sample is independent of the others. "
         "Normalising and undoing it returns the data; velocities are scaled as set. A predicted angle turns the direction to the "
         "attractor by this angle; evaluation of many positions equals that of each one. Trajectories start at the given (or "
         "recorded) starting points and advance with the time step; Runge-Kutta is exact to fourth order.",
         ["inputs", "configurations"], "1-2 components of 1-2 inputs, any full covariance, 2-3 samples of any value, 4 time steps",
         "the tests fit one recorded motion; the mixture there is whatever the fit returned",
         [LE + "directional_gmm.py", LE + "base.py", N + "gmm_learner/direction_space.py", N + "multivariant_gaussian.py", N + "gmm_learner/math_tools.py"],
         [("MultiVariantGaussian", N + "multivariant_gaussian.py"), ("DirectionalGMM / GaussianMixture regression", LE + "directional_gmm.py"),
          ("LearnerBase.predict / integrate_trajectory", LE + "base.py"), ("rk4, mag_linear_maximum", N + "gmm_learner/math_tools.py")],
         design="The fitting inside scikit-learn is replaced by an arbitrary mixture. Exponentials and powers are uninterpreted "
                "functions with the axioms needed (positivity, monotonicity, exp(a)exp(b)=exp(a+b)).")
    prop("C14", "The comparison metrics measure what they are named after, on every run",
         "Both evaluation modules normalise velocities to unit length (zero stays zero), measure the error to the path by the "
         "distance from the circle on either side, take the acceleration and turning from successive steps, and compare each "
         "velocity to the dynamics at its own position, leaving out steps at rest. The summary reports mean and standard "
         "deviation over the runs of exactly these metrics, and counts runs of full length as converged and shorter ones as local "
         "minima; methods are compared on the runs that all of them completed. A simulated run starts at its start, advances by "
         "the time step along the direction of the velocity, and stops at local minima, collisions and the maximum of steps.",
         ["inputs", "histories"], "2-5 positions or steps of any direction and length, any time step, any radius and center, 2 runs",
         "the comparison has no test that runs here",
         [CO + "evaluation_trajectories.py", CO + "evaluation_trajectories_with_std.py", CO + "evaluation_path_following.py",
          CO + "comparison_multiobstacle_vectorfield.py"],
         [("TrajectoryEvaluator and its metrics", CO + "evaluation_trajectories.py"),
          ("TrajectoryEvaluator and its metrics", CO + "evaluation_trajectories_with_std.py"),
          ("TrajectoryEvaluator, get_converged", CO + "evaluation_path_following.py"),
          ("integrate_trajectory", CO + "comparison_multiobstacle_vectorfield.py")],
         design="Files are replaced by stand-ins that hold symbolic positions; plotting and storing tables is not covered.")
    KM = N + "kmeans_learner/"
    prop("C15", "Regions of a clustered motion are walls with a single gap, chained in the order of the motion",
         "A region is the cell of its cluster cut by the radius: its surface point lies on the ray from the center, on the closest "
         "border, never beyond the radius or in a neighbouring cell; the distance value is above one exactly inside, one on the "
         "surface and largest at the center, and is never lower with the gap towards the next region than with closed walls. "
         "The normal is a unit vector, that of the violated border, on the surface that of the touched one. Queries keep their input. "
         "Clusters are chained in the order of the motion towards the attractor; regions cover all samples and reach the next "
         "cluster; sparse clusters are removed with the remaining labels intact. Sequence weights are non-negative, add up to "
         "one, and only involve the region and the previous one, none deep inside or close to walls. The main direction of a "
         "region leads through the border to the next; a region's motion is kept within its walls, between two regions it is the "
         "mean of both motions in between of them, near a region from outside it leads on into the region, and far from all regions the "
         "global motion towards the attractor is used, also for given centers. Positions are clustered starting from the mean "
         "positions of the clusters found with velocity and sequence.",
         ["inputs"], "2-3 clusters, dim 2 (surface also 3), any position, radius and spacing; borders on a grid for 3 clusters",
         "the k-means tests need scikit-learn and the absent vartools, and look at a handful of points",
         [KM + "kmeans_obstacle.py", KM + "kmeans_motion_learner.py"],
         [("KMeansObstacle", KM + "kmeans_obstacle.py"), ("KMeansMotionLearner", KM + "kmeans_motion_learner.py")],
         design="The fitted clustering is a stand-in that holds symbolic centers and labels; the fit of scikit-learn, the weighting "
                "between three or more regions outside of them and kmeans obstacles that are no boundary (get_gamma returns None) are not covered.")
    prop("C16", "Composed obstacles move as one body, stay joined, and are hit when any of their parts is",
         "The parts of a composed obstacle keep their place relative to it under any motion, and scale about its center when it "
         "deforms, joints included. A joint lies in the overlap of part and parent, at their actual place. The distance value is "
         "that of the closest part (of those not excluded), in either frame; free of a collision means free of all parts of all "
         "obstacles. The limbs of a tracked body stay joined to their parents in any tree; a measured limb points from its joint "
         "to where it was measured, by its own measurement, in the frame of the robot if there is one, and the others follow their "
         "parent. A body turned into a composed obstacle keeps parts, tree and joints. An arch has the outer size asked for, with "
         "both joints inside of both walls. The velocity relative to an obstacle is on its surface that of its surface, and "
         "elsewhere not larger than theirs; a resting environment has none.",
         ["inputs", "histories", "configurations"], "2-4 parts in any tree, dim 2 and 3, any poses, joints and sizes, two motions",
         "the tests check single poses of one composed obstacle and need the absent libraries",
         [N + "multi_obstacle.py", N + "multi_body_human.py", N + "arch_obstacle.py", N + "multi_obstacle_container.py",
          N + "multi_ellipse_obstacle.py", N + "geometry.py", N + "multi_obstacle_avoider.py"],
         [("MultiObstacle", N + "multi_obstacle.py"), ("MultiBodyObstacle", N + "multi_body_human.py"),
          ("create_arch_obstacle / BlockArchObstacle", N + "arch_obstacle.py"), ("MultiObstacleContainer", N + "multi_obstacle_container.py"),
          ("get_intersection_of_obstacles", N + "geometry.py"), ("compute_multiobstacle_relative_velocity", N + "multi_obstacle_avoider.py")],
         design="Parts are stand-ins with symbolic pose, size, joint and distance value; the polygons of shapely are a stand-in with a "
                "symbolic outline. The filters of tracked poses and a tracked root (its height is fixed in the code) are not covered.")
    prop("C17", "A hull that can be entered is left and entered through its passages, on the shortest way, and never through its walls",
         "A hull collides exactly where none of its free spaces (rooms or the outside) is, at any pose. A passage or entrance exists "
         "only where it is free on both sides, and any room that reaches out has one if so. The attractor belongs to the spaces "
         "that contain it (in a wall: to the closest one), and only to those, also after it has moved; every other space leads through the passage of the shortest way to "
         "it. The motion in a space goes along its surface at the surface, to the side of the attractor; its speed is the distance "
         "to the attractor up to a limit; spaces share the motion by how far inside the position is, their weights are not negative "
         "and sum to one. Chained boundaries keep one tree when boundaries are added and removed, meet their parent in the overlap of the "
         "two actual shapes, and open the wall only towards a free neighbour. Hulls attract without changing the speed.",
         ["inputs", "histories", "configurations"], "0-3 rooms with up to 3 passages and 2 entrances; trees of 4 boundaries, 2 removals; dim 2 (collision, utilities: also 3)",
         "the tests check single rooms and need the absent libraries",
         [N + "multi_hull_and_obstacle.py", N + "multiboundary_container.py", N + "multihull_convergence.py", N + "rotation_container.py",
          N + "_base_multiobstacle.py", N + "utils.py", N + "geometry.py"],
         [("MultiHullAndObstacle", N + "multi_hull_and_obstacle.py"), ("MultiRotationalContainer", N + "multi_hull_and_obstacle.py"),
          ("MultiBoundaryContainer", N + "multiboundary_container.py"), ("get_desired_radius / multihull_attraction", N + "multihull_convergence.py"),
          ("RotationContainer.set_convergence_directions", N + "rotation_container.py"), ("gamma_normal_gradient_descent", N + "utils.py")],
         design="Rooms and the outside are stand-ins with any distance value, normal and surface; the graph of passages is the real networkx one "
                "with symbolic lengths. Whether the gradient descent finds an existing passage is not decided (only that what it finds is used "
                "rightly, and its first steps); neither is the drawing.")
    prop("C18", "A GMM obstacle's ellipses are those of its Gaussians, hang in one tree, and share the avoidance by distance",
         "For every mixture, the distance value of a component is the position's in proportion to its ellipse: one on the surface, "
         "more outside, less inside; projections (from the center or from any point inside, e.g. the reference point) are on that ellipse and on "
         "the ray; normals are unit, orthogonal to the surface and outwards, also at the center. The component in the middle is the "
         "root, any other one hangs on the placed one it most probably belongs to, and their reference point is where the two meet. "
         "The weights are not negative and sum to one (unless all are hidden): equal for the components a position is inside of, else "
         "by distance, less for those hidden behind their parent. The mean normal does not point inwards; around the root the velocity is "
         "kept when it leaves and goes around when it does not. The analytic ellipses are the components.",
         ["inputs", "configurations"], "1-4 components; dim 2 (any axes), dim 3 (3 frames)",
         "the tests draw pictures and need the absent libraries",
         [N + "gmm_obstacle.py"], [("GmmObstacle", N + "gmm_obstacle.py")],
         design="The mixture itself (sklearn's fit) is a stand-in with any means and covariances; eigenvalues are given with their "
                "eigenvectors. Whether the descent from between two centers finds a common point of the ellipses is not decided, only its first steps.")
    prop("C19", "What is learned is what was demonstrated, and learned Gaussians hang in one tree that leads to the attractor",
         "For all recordings, every learner trains on all of them (or on the chosen samples, features and targets of the same ones): on "
         "the direction of each recorded velocity about the very default dynamics its predictions are turned from - so a perfect regressor gives "
         "back the demonstrations. The attractor is the mean of all their ends, or the given one, and the default dynamics leads to it. Kernels, "
         "penalties and shares are the ones asked for. Integrated trajectories stop at the attractor and stay there. The tree of Gaussians has the one "
         "which ends closest to the attractor as root; all others reach it, each by the placed Gaussian it most probably leads to, strongest tie first; "
         "each leads to its surface towards its parent, or to the attractor if that is inside; the learned boundary has the Gaussians' axes.",
         ["inputs", "configurations"], "1-2 demonstrations of 2-3 samples; 1-5 Gaussians; dim 2",
         "the one test of it needs the absent libraries, and looks at pictures",
         [LE + "directional_gmm.py", LE + "gpr_directional.py", LE + "svr_directional.py", LE + "base.py", N + "gmm_learner/graph.py"],
         [("DirectionalGMM / DirectionalGPR / DirectionalSVR", LE + "directional_gmm.py"), ("DirectionalGPR", LE + "gpr_directional.py"),
          ("DirectionalSVR", LE + "svr_directional.py"), ("GraphGMM", N + "gmm_learner/graph.py"), ("Learner.integrate_trajectory", LE + "base.py")],
         design="The recordings replace the file, the regressors of sklearn are stand-ins that keep what they are given; the angles of the "
                "directions are decided in one harness, in the others they are opaque. How well sklearn fits is not decided.")
    prop("C20", "A composed obstacle is passed along its tree, and sequences of directions are avoided like velocities",
         "The branch of a component leads from its surface over all of its parents to the root, each left where the way out of the last one's "
         "reference point leaves it. The velocity is turned along it with the reference directions, so that it keeps its angle to them at any depth; "
         "on the surface of any component it does not point into it, is kept where it leaves (no tail effect), and inside leads out at the "
         "convergence radius over the tangent. Through whichever component the convergence is weighted, full weight gives the direction at "
         "the root's reference point and partial weight its share of the turn; none does if the attractor is inside. Without an attractor "
         "the directions start at the base (reference) dynamics and nothing is turned. A sequence of directions at a surface does not point "
         "into it, is the initial one in free space, and has the speed of the dynamics.",
         ["inputs", "configurations"], "chains of 1-3 components in any listing order; 1-2 obstacles; dim 2 (without attractor: also 3)",
         "the tests look at few positions, mostly of single components, and need the absent libraries",
         [N + "multi_obstacle_avoider.py", N + "nonlinear_rotation_avoider.py", N + "avoidance/rotational_avoider.py",
          N + "dynamics/projected_rotation_dynamics.py", N + "vector_rotation.py"],
         [("MultiObstacleAvoider (branches, compute_convergence_sequence)", N + "multi_obstacle_avoider.py"),
          ("ConvergenceDynamicsWithoutSingularity", N + "nonlinear_rotation_avoider.py"),
          ("SingularityConvergenceDynamics.evaluate_sequence", N + "nonlinear_rotation_avoider.py"),
          ("RotationalAvoider.avoid_sequence", N + "avoidance/rotational_avoider.py")],
         design="References of parents are a quarter turn apart where the tangent is decided too, and anything less than 170deg apart in the "
                "harness of the turning itself. Not decided: the detour of the velocity over the tangent inside of a part it already leaves.")
    prop("C21", "What is drawn is what was computed: robots, trajectories, fields, ellipses, graphs and walls are shown where they are",
         "The robot of a demonstration follows the velocities of the avoider with the given time step until the attractor is reached, and is "
         "drawn at its position, turned with its direction. Grids cover the whole window, at any resolution. A field is drawn at the "
         "positions it was evaluated at, only inside of the region where it is valid, with the direction (or its deviation) of the dynamics there; "
         "trajectories start at the given points and follow the learner. A gaussian is drawn as the ellipse of its mean and covariance, an "
         "obstacle as the ellipse of its axes and orientation. The graph connects each center with the end point of its parent; the window "
         "contains all of the data; the walls leave out exactly the rooms. Everything goes into the axes and window given.",
         ["inputs", "configurations"], "2D; up to 3 steps, 3 points per side, 3 gaussians, 2 obstacles or rooms; any values",
         "the repository has no test of the drawing, and a wrong picture raises no error",
         [N + "visualization/plot_qolo.py", N + "visualization/kmean_plotting.py", N + "gmm_learner/visualization/gmm_visualization.py",
          N + "gmm_learner/learner/visualizer.py"],
         [("integrate_with_qolo, plot_qolo", N + "visualization/plot_qolo.py"),
          ("get_grid_points, plot_region_dynamics, plot_trajectories", N + "visualization/kmean_plotting.py"),
          ("draw_gaussians, draw_obstacle_patches", N + "gmm_learner/visualization/gmm_visualization.py"),
          ("LearnerVisualizer", N + "gmm_learner/learner/visualizer.py")],
         design="The axes are stand-ins that record what is drawn where; the library itself is trusted. Not decided: plot_gamma (unfinished: "
                "draws nothing), plot_kmeans, plot_gamma_of_learner, plot_partial_dynamics, the choice of colors, the stretch of ellipses by varX.")
    prop("C22", "Evaluating is repeatable: results depend only on what is asked, not on earlier calls, and what is given is not changed",
         "Velocities, directions, rotations, distances, normals, surface points, projected positions, densities and integration steps are "
         "those of the position (velocity, weights) given: evaluating an object a second time, elsewhere or back at the first position, gives "
         "what a new object gives, also when the caller reuses the same array with other values. Evaluating changes neither the arrays "
         "given nor those given to the constructor, and does not change a result returned earlier.",
         ["inputs", "histories"], "histories of 4 evaluations at 2 positions, dim 2-3, up to 2 obstacles or parts, trees of 3 nodes, mixtures of 2 components",
         "tests build an object and evaluate it once, or call it with fresh arrays; a stale cache or an array modified in place shows only "
         "in a loop that moves the agent",
         [N + "avoidance/rotational_avoider.py", N + "multi_obstacle_avoider.py", N + "nonlinear_rotation_avoider.py", N + "base_avoider.py",
          N + "vector_rotation.py", N + "dynamics/projected_rotation_dynamics.py", N + "dynamics/circular_dynamics.py"],
         [("RotationalAvoider.avoid, evaluate", N + "avoidance/rotational_avoider.py"),
          ("MultiObstacleAvoider.evaluate", N + "multi_obstacle_avoider.py"),
          ("SingularityConvergenceDynamics.evaluate", N + "nonlinear_rotation_avoider.py"),
          ("VectorRotationXd, VectorRotationSequence, VectorRotationTree", N + "vector_rotation.py"),
          ("ProjectedRotationDynamics: inflating, deflating, folding, unfolding", N + "dynamics/projected_rotation_dynamics.py"),
          ("evaluate of all dynamics", N + "dynamics/"),
          ("KMeansObstacle", N + "kmeans_learner/kmeans_obstacle.py"),
          ("MultiVariantGaussian", N + "multivariant_gaussian.py"),
          ("MultiObstacle.get_gamma", N + "multi_obstacle.py"),
          ("DirectionalGMM._predict", N + "gmm_learner/learner/directional_gmm.py")],
         design="Each object is asked at one position, then at another one, then at the second with the array of the first, then at the first again; "
                "the answers are compared with those of a fresh object, for all positions. The harnesses that fold positions or converge around obstacles use exact roots "
                "(exact_roots), as a rounded constant makes a path contradictory.")
    return {}
