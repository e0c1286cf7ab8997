F="crates/multicalc/src/"
SP=F+"spatial/"
PROPS=[
dict(id="C15",title="Quaternions and Lie groups represent the same motions in every form",
 st="For every rotation and rigid motion, planar or spatial, quaternion algebra, rotation vectors, axis-angle, Euler angles, two-vector and direction-pair constructions, matrices, composition, inverse, action, exp, log, adjoints, left and right Jacobians and their inverses, and geodesic interpolation all agree with the same motion worked out exactly, to rounding, from vanishing turns through half turns and beyond; constructors return unit quaternions; angles take the shortest path under the double cover; exp and log undo each other; derivatives carried by dual numbers are finite and equal the group Jacobians, at zero too. Zero or non-finite quaternions and directions, and matrices that are not proper rotations or rigid transforms, are refused.",
 q="all rotations, twists, points, interpolation amounts and magnitudes over f32 and f64",
 why="Small-angle cutoffs, half-turn branches and near-opposite directions occupy slivers of the input space where the formulas cancel; tests sample around them.",
 files=[SP+"quaternion.rs",SP+"lie/so2.rs",SP+"lie/se2.rs",SP+"lie/so3.rs",SP+"lie/se3.rs",SP+"lie/mod.rs",SP+"mod.rs"],
 mech=[("small-angle series and cutoffs",SP+"lie/mod.rs, "+SP+"lie/se2.rs, "+SP+"mod.rs"),("near-antiparallel axis",SP+"quaternion.rs from_two_vectors"),("pivot choice",SP+"quaternion.rs try_from_rotation_matrix"),("acceptance of matrices",SP+"lie/so3.rs try_from_matrix")],
 note="References are double-double quaternions and adjoint series. Three defects found here were repaired."),
dict(id="C16",title="Twists, wrenches, inertias and free-joint states obey spatial algebra",
 st="For every twist, wrench, pose and rigid body, the typed operations equal their 6x6 definitions to rounding: linear-first layout in and out, motion and force cross products, power, change of frame and its inverse (power preserved), inertia about any point, momentum, bias force, kinetic energy, moving and merging bodies. Invalid masses and inertias give exactly the documented error, and a free joint's seven and six numbers round-trip with the orientation scaled to unit length.",
 q="all spatial vectors, poses and physical bodies over f32 and f64",
 why="Sign and block-placement slips cancel in symmetric example bodies and centred masses.",
 files=[SP+"twist.rs",SP+"wrench.rs",SP+"inertia.rs",SP+"free_joint.rs",SP+"lie/se3.rs"],
 mech=[("parallel-axis shift",SP+"inertia.rs inertia_about"),("frame changes",SP+"lie/se3.rs act_*"),("validation",SP+"inertia.rs new")],
 note="Each operation is compared with plain 6x6 matrix algebra in double-double."),
]
