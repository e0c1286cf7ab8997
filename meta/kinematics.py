F="crates/multicalc/src/"
K=F+"kinematics/"
PROPS=[
dict(id="C17",title="Kinematic trees: world poses, Jacobians and their inverses match the mechanism",
 st="For every tree of revolute, continuous, prismatic, fixed and (at the root) floating joints, with any origins, anchors, zero offsets and branching, only sound joints are accepted and a refused one changes nothing; each frame's world pose is the composition of the transforms above it; each Jacobian column is the tool twist that rate really produces, in world or tool axes, zero off the chain. The smallest singular value, the kind of singularity, the weighted damped inverse, the null-space projector and the distance between configurations match the same quantities worked out exactly. Non-finite readings, bad weights, unknown tools and states of another model are refused.",
 q="all trees of up to 8 joints with every joint kind, parent choice and (in)valid field, all configurations, in f64 and f32",
 why="Tests check a handful of arms at stored poses, with identity origins; the claim is about every mechanism, branch, anchor, offset and configuration.",
 files=[K+"kinematic_tree.rs",K+"joint.rs",K+"kinematic_tree_state.rs",K+"kinematic_jacobian.rs"],
 mech=[("one forward sweep composing parent, origin and joint transform",K+"kinematic_tree.rs forward_kinematics"),("geometric columns from the moved pose",K+"kinematic_tree.rs geometric_jacobian"),("Gram-matrix SVD for singular value, kind and damped inverse",K+"kinematic_jacobian.rs"),("all validation before the joint is stored",K+"kinematic_tree.rs push")],
 note="Sampled: 68 thousand random mechanisms per quick run; forward kinematics and numeric differentiation redone in double-double, inverses by double-double elimination. Singular kinds judged only where the lost direction is well separated."),
dict(id="C18",title="Inverse kinematics: honest reports, exact steps, best answer within budget",
 st="For every mechanism, target and setting, an inverse-kinematics report is honest: its residuals belong to the configuration it returns, Converged is claimed exactly when both tolerances are met there, iterations stay within the budget and limits are respected when asked. One iteration is the capped, clamped, weighted damped-least-squares step plus the null-space objective; a larger budget never returns a worse configuration, and near, well-conditioned, reachable targets converge. Multi-start counts its attempts, keeps only distinct solutions and returns the closest, and bad inputs are refused.",
 q="all mechanisms of up to 8 joints, targets (reachable, unreachable, singular), start configurations and solver settings, in f64 and f32",
 why="Tests solve a few stored targets on fixed arms; honesty, step shape and best-so-far must hold on every run, including those that stop short.",
 files=[K+"inverse_kinematics.rs",K+"multi_start_inverse_kinematics.rs"],
 mech=[("residual, Jacobian, damped step, cap and clamp in one loop",K+"inverse_kinematics.rs solve"),("best configuration kept",K+"inverse_kinematics.rs solve"),("seeded restarts, deduplication and ranking",K+"multi_start_inverse_kinematics.rs")],
 note="Sampled: residuals recomputed by double-double forward kinematics; single steps recomputed by double-double elimination where well conditioned. Two defects repaired."),
dict(id="C19",title="Planar bases: wheel maps invert each other and odometry follows the exact arc",
 st="For every geometry and wheel motion, forward and inverse wheel maps are the differential-drive equations and undo one another, and bad geometry is refused. One odometry increment moves a pose along the exact constant-twist arc at any turn size, so splitting a tick changes nothing; the odometry process model gives the same pose with a wrapped heading, and differentiating it gives the true Jacobian. The unicycle's derivative is that of the same motion, and integrating it follows the same arc.",
 q="all positive radii and track widths, wheel motions, poses and turns from 1e-12 rad to several revolutions, in f64 and f32",
 why="Tests use a few round numbers; exactness at every turn size (across the small-angle branch) and the Jacobian filters rely on are claims over a continuum.",
 files=[K+"differential_drive.rs",K+"odometry.rs",K+"unicycle.rs"],
 mech=[("to_body / to_wheels maps",K+"differential_drive.rs"),("pose times SE(2) exponential",K+"odometry.rs integrate, OdometryStep")],
 note="Sampled: 150 thousand cases per quick run against double-double arcs with series below 1e-3 rad; Jacobians against double-double differences."),
dict(id="C20",title="Collision queries: true clearances and the true closest pair",
 st="For every pair of spheres and capsules at any size, pose and overlap, the reported clearance is the distance between their spines less the radii, whichever is named first. A query on a posed mechanism reports the smallest clearance over exactly the pairs to be checked - every self pair not excluded and every self-obstacle pair - with a pair that attains it, and is clear at exactly the clearances it meets; with no pair it says so. Full lists and shapes on missing frames are refused.",
 q="all shape pairs over seven orders of magnitude incl. parallel, crossing, coincident and degenerate spines; all queries of up to 5 shapes, 3 obstacles and 4 exclusions on random mechanisms, in f64 and f32",
 why="A missed or wrong clearance is a collision; tests hold a dozen unit-sized scenes, the claim is over all scales, near-parallel spines and every exclusion list.",
 files=[K+"collision.rs"],
 mech=[("clamped closest points between segments",K+"collision.rs closest_points_between_segments"),("all-pairs sweep with exclusions",K+"collision.rs CollisionQuery::check")],
 note="Sampled: segment distance by interior critical point and end projections in double-double, poses from the reference forward kinematics. Near-parallel spines are granted the square-root-of-epsilon loss inherent to the method. One defect repaired."),
dict(id="C21",title="Rigid body: Newton-Euler accelerations and second-order ticks on true rotations",
 st="For every body, attitude, spin and wrench, accelerations are those of Newton and Euler, with the force's turn taken about the balance point and the origin's swing included; the thirteen-number form gives the same derivative for orientations of any length, zeros for no direction, and converts to and from the free-joint state. One tick follows the true motion to second order and keeps the attitude a unit rotation over long runs; free flight keeps momentum and energy to that order. Non-finite values and indefinite inertias are refused.",
 q="all physical bodies (centre of mass off the origin, condition up to 300), states, wrenches and ticks up to a tenth of the body's time scale, in f64 and f32",
 why="Tests check a few symmetric bodies; gyroscopic, offset-mass and half-step mistakes hide unless all terms are exercised together.",
 files=[F+"dynamics/rigid_body.rs"],
 mech=[("accelerations about the balance point then moved to the origin",F+"dynamics/rigid_body.rs accelerations"),("midpoint tick with exponential attitude",F+"dynamics/rigid_body.rs stepped")],
 note="Sampled: Newton-Euler in double-double; ticks against 40 double-double fourth-order substeps."),
]
