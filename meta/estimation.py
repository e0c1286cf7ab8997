F="crates/multicalc/src/"
E=F+"estimation/"
G=F+"signal_processing/"
PROPS=[
dict(id="C26",title="Kalman, extended and unscented filters estimate right, with an honest spread",
 st="For every linear system, a Kalman filter's estimate and covariance are those of the optimal estimator given its history, whatever the order of readings; covariances stay symmetric and non-negative. An extended filter takes the same step with the models' exact derivatives, and an unscented one with the sigma-point averages its parameters define (exact on linear models), also across several updates. The stored innovation, its covariance and consistency statistic describe the reading just used, bad input is refused with the filter unchanged, and the motion models move exactly as their equations say.",
 q="all systems of 1 to 5 states and 1 to 3 readings, conditioning over many decades, Joseph and plain updates, histories of up to 14 steps, nonlinear models with angles, all turn rates including near zero, in f64 and f32",
 why="Tests run a couple of benign tracks; wrong spreads, order dependence and lost definiteness show only in particular systems and sequences.",
 files=[E+"kalman_filter.rs",E+"extended_kalman_filter.rs",E+"unscented_kalman_filter.rs",E+"models.rs"],
 mech=[("predict and Joseph-form update",E+"kalman_filter.rs"),("dual-number Jacobians",E+"extended_kalman_filter.rs"),("sigma points redrawn for each update",E+"unscented_kalman_filter.rs"),("closed-form turning motion",E+"models.rs")],
 note="Sampled: 170 thousand cases per quick run against a double-double Kalman step and whole histories. Two defects repaired, one known finding (sigma points across half a turn)."),
dict(id="C30",title="Signal filters: designed response, stability, exact recurrences, true statistics",
 st="For every design accepted, a filter is stable and its frequency response is the one its kind and parameters define (gain at dc, centre and cutoff, half-power edges), and designs that cannot be met are refused. Every output is the difference equation over the actual history, presets and resets reach steady state at once, and chains equal their stages in turn. Conditioning blocks obey their stated laws, window means, medians, extremes and deviations are those of the last readings, and polynomial smoothing reproduces any polynomial it can represent with the least-squares weights and no others.",
 q="all designs with corners and widths over the whole band, orders and sections offered, signals of up to hundreds of samples, window lengths 1 to 31, up to 5 polynomial terms, in f64 and f32",
 why="Tests check a handful of textbook cutoffs; instability and lost rank appear at band edges, long windows and narrow floats.",
 files=[G+f for f in ("biquad.rs","cascade.rs","conditioning.rs","one_pole.rs","savitzky_golay.rs","window.rs")],
 mech=[("cookbook sections with stability refusal",G+"biquad.rs"),("ring-buffer windows",G+"window.rs"),("least-squares convolution weights",G+"savitzky_golay.rs")],
 note="Sampled: 600 thousand cases per quick run vs double-double closed forms. Three defects repaired."),
dict(id="C27",title="Error-state Kalman filter: exact inertial motion, honest corrections and spread",
 st="For every history of inertial readings and corrections, the filter's nominal state moves exactly as a body with those readings moves, its spread is carried by the true slope of that motion, and a correction is the Kalman step on the error followed by folding the error in and moving the spread with it; symmetric, non-negative, the attitude a rotation throughout. Starting guesses from accelerometer and magnetometer point where those say, conditioning on a known direction or position gives the constrained optimum, and errors of simulated flights weigh what the filter says they do. Bad input is refused with the filter unchanged.",
 q="all motions, biases, ticks, noise figures, extra states, sensors of 1 to 6 readings, large and small corrections, order of readings, in f64 and f32",
 why="Tests fly one smooth track; a wrong sign or frame in one block of the error carry only shows while turning with bias error.",
 files=[E+"error_state_kalman_filter.rs"],
 mech=[("motion and error carry of a predict",E+"error_state_kalman_filter.rs"),("update, fold and reset",E+"error_state_kalman_filter.rs")],
 note="Sampled: 50 thousand cases per quick run, each predict and update vs double-double from the filter's own previous state. One known finding: the documented unit of noise densities."),
dict(id="C28",title="Particle filter and localization: weights, picks and moves by the stated laws",
 st="For every cloud, motion, score and draw, each particle moves by the motion plus the drawn kick, its weight is multiplied by the reading's likelihood and normalised, and resampling (all schemes) picks by cumulative weight, keeps every whole share, never picks a weightless particle and leaves even weights; the effective count, mean and spread are those of the weights. The same seed gives the same run, on linear problems the cloud agrees with the exact answer, and the localizer scores scans by its stated beam rules. A reading that fits nothing is refused with the weights kept.",
 q="all weight vectors incl. zeros and extremes, draws incl. 0 and nearly 1, clouds of 1 to 200 particles, four schemes, scans of 2 to 31 beams, in f64 and f32",
 why="Tests check averages over a lucky seed; wrong picks hide in rounding of running totals and in draws of exactly zero.",
 files=[E+"particle_filter.rs",E+"monte_carlo_localizer.rs"],
 mech=[("normalisation in logarithms, resampling schemes",E+"particle_filter.rs"),("beam scoring, motion noise",E+"monte_carlo_localizer.rs")],
 note="Sampled: 60 thousand cases per quick run; draws recorded and replayed in double-double. Two defects repaired."),
dict(id="C29",title="Attitude filters: each tick is the stated correction, settling on the truth",
 st="For every attitude, rates, field directions and gains, a tick of the Mahony and Madgwick filters turns the attitude by the gyro rate less the learned offset plus the stated correction from the sensors' disagreement, keeping it a rotation (Madgwick never walking faster than its rate); readings that give no direction are left out or refused as stated, the filter unchanged on refusal. Held still, attitude and offset converge to the truth from any lean and facing at any dip, at the rate the gains state.",
 q="all attitudes, rates, gains, ticks, field dips, starts incl. upside down, missing and degenerate sensors, runs of hours in f32, in f64 and f32",
 why="Tests settle from one lean with one field; a wrong heading correction shows only at some attitudes and dips.",
 files=[E+"attitude_correction.rs",E+"mahony_filter.rs",E+"madgwick_filter.rs"],
 mech=[("sensor disagreement",E+"attitude_correction.rs"),("proportional and integral correction",E+"mahony_filter.rs"),("gradient step",E+"madgwick_filter.rs")],
 note="Sampled: 60 thousand cases per quick run; tick vs double-double, settling vs its closed form."),
dict(id="C31",title="Random source: the published sequence, uniforms below one, true normals",
 st="For every seed and stream the generator gives exactly the published PCG32 words, a copy goes on identically, and other seeds and streams give other sequences. Uniforms are built from the words bit for bit and lie in [0, 1); normals are the polar method on those uniforms, finite for any words a caller's own source may give. Long runs are uniform, independent and normally spread.",
 q="all seeds and streams, all interleavings of words, uniforms and normals, hostile word sources, runs of 40 thousand draws, in f64 and f32",
 why="Tests compare a few words for one seed; a bias or off-by-one shows in other streams, in interleavings and at the ends of the range.",
 files=[F+"random.rs"],
 mech=[("state step and output permutation",F+"random.rs"),("polar method with a kept second draw",F+"random.rs")],
 note="Sampled: 26 million oracle evaluations per quick run against the algorithm in 128-bit arithmetic."),
]
