F="crates/multicalc/src/"
C=F+"control/"
M=F+"mapping/"
PROPS=[
dict(id="C22",title="Rotor mixing and rotor lag: exact maps, honest saturation, exact first-order lag",
 st="For every rotor layout of up to eight rotors, the map from thrusts to total thrust and torque is the layout's geometry, and its inverse gives each rotor the least-norm share of the wanted push and turn, held inside the rotor's limits; the result says saturated exactly when a share did not fit, and otherwise reproduces the command. Layouts whose rotors cannot produce all four independently, and bad limits, are refused. Rotor lag moves to its command exactly as a first-order lag does, at any tick, and splitting a tick changes nothing.",
 q="all layouts of 3, 4, 6 and 8 rotors, spins, ratios and limits, wanted wrenches inside and outside reach; all lag constants and ticks, in f64 and f32",
 why="Tests use symmetric quads; mixing mistakes show only on irregular layouts and while saturated.",
 files=[F+"plant/multirotor_mixing.rs",F+"plant/rotor_lag.rs"],
 mech=[("pseudo-inverse of the layout, shares clamped to limits",F+"plant/multirotor_mixing.rs"),("exact exponential step",F+"plant/rotor_lag.rs")],
 note="Sampled: 75 thousand cases per quick run; least-norm solution and exponential in double-double."),
dict(id="C23",title="Grid maps and scans: cells, beams and drawing match plane geometry",
 st="For every grid, pose and resolution, a point lies in the cell whose square contains it, stored values come back from exactly that cell, and points off the map or not numbers are in none. A cast beam stops at the first occupied cell it really enters and reads its true distance, from inside or outside the map; drawn lines cover the cells between their ends and circles have no gaps; both finish in work bounded by the map. A scan's beams cover its arc evenly including both edges, and turning an angle into a beam undoes turning a beam into an angle.",
 q="all grids, origins, resolutions, beams incl. axis-parallel, grazing, corner-hitting and off-map ones, lines and circles with ends anywhere, scans of 2 to 361 beams, in f64 and f32",
 why="Tests place a few beams and shapes by hand; edge-running, off-map and non-finite inputs are where cells are missed or loops run away.",
 files=[M+"occupancy_grid.rs",M+"scan_geometry.rs"],
 mech=[("world to cell by floor",M+"occupancy_grid.rs"),("cell-to-cell walk of a beam",M+"occupancy_grid.rs"),("Bresenham line and midpoint circle clipped to the map",M+"occupancy_grid.rs"),("beam index and angle",M+"scan_geometry.rs")],
 note="Sampled: 85 thousand cases per quick run against a brute-force geometric reference. Five defects repaired."),
dict(id="C24",title="Control laws (PID, LQR, pursuit, attitude, gap following) do what they state",
 st="For every history of updates, gain changes and takeovers, a PID's output is its stated law - derivative on the filtered measurement, integral held only while saturated and pushed deeper, no step on a gain change or takeover - and never leaves its limits. An LQR's gain is the optimal one: following it costs exactly the stated cost-to-go, any other move costs more, and its certificate proves the loop settles; pure pursuit names the arc through its target, the attitude law drives its error energy down at the stated rate and a thrust command points and pushes to give the wanted acceleration. Gap following picks the best-scored open stretch the robot fits through, or stops; bad settings are refused.",
 q="all gains, limits, ticks and histories of up to 60 calls; all stabilisable systems of up to 4 states; all poses, attitudes, rates and scans of 2 to 180 beams, in f64 and f32",
 why="Tests replay a few short histories and symmetric scans; anti-windup, bumpless switching and gap scoring go wrong only in particular sequences and scenes.",
 files=[C+"pid.rs",C+"lqr.rs",C+"pure_pursuit.rs",C+"geometric_attitude.rs",C+"thrust_command.rs",C+"follow_the_gap.rs"],
 mech=[("conditional integration and integral shifting",C+"pid.rs"),("gain from the Riccati solution and Lyapunov certificate",C+"lqr.rs"),("curvature 2*lateral/L^2",C+"pure_pursuit.rs"),("attitude error and torque on rotations",C+"geometric_attitude.rs"),("push direction and heading axes",C+"thrust_command.rs"),("one sweep scoring open stretches",C+"follow_the_gap.rs")],
 note="Sampled: 880 thousand cases per quick run; laws in double-double, LQR against value iteration and simulated cost, attitude law also by differencing the error energy along the true motion."),
dict(id="C25",title="Paths, minimum-snap trajectories and profiles are exact, smooth and optimal",
 st="For every waypoint list, a path's projection is the true closest point with its true distance and arc length, and looking ahead stays on the path, stopping or wrapping at its end as asked, however the path was built. A minimum-snap trajectory passes through every waypoint with the end motions given, joins smoothly up to jerk, and no other such trajectory has less snap, at any time scale. A motion profile is the fastest rest-to-rest move its limits allow and never exceeds them, backs up or overshoots; stretched or synchronised, it takes the same way slower and ends at rest exactly on target at the common time, and bad inputs are refused.",
 q="all paths of up to 8 points (repeated, doubling back, collinear), all plans of up to 5 segments with durations over six decades and any end motion, all limits and displacements across every profile shape, in f64 and f32",
 why="Tests use a few neat paths and limits; optimality, limit-keeping and end-of-move behaviour are claims over a continuum, with a shape per region of it.",
 files=[F+"motion/polyline_path.rs",F+"motion/minimum_snap.rs",F+"motion/motion_profile.rs"],
 mech=[("projection per segment and arc-length walk",F+"motion/polyline_path.rs"),("free-derivative system and per-segment interpolation",F+"motion/minimum_snap.rs plan"),("closed-form seven-phase schedule and time scaling",F+"motion/motion_profile.rs")],
 note="Sampled: 600 thousand cases per quick run; minimum snap against the full stationarity system in double-double, profiles against bisection on the ramp distance. Three defects repaired."),
]
