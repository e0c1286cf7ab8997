F="crates/multicalc/src/"
S=F+"scalar/"
N=F+"numerical_derivative/"
PROPS=[
dict(id="C06",title="Autodiff scalars obey exact calculus and plain-float semantics everywhere",
 st="For every expression over the Numeric operations, evaluating it on Dual, HyperDual, Jet<K> or any nesting of them gives, beside exactly the plain float's value and branch decisions, the mathematically exact derivatives (first, second, mixed, up to order K) to a few ulps of the propagated error, at every point of differentiability, including negative and signed-zero arguments, kinks (one-sided conventions as documented), integer and real powers, and at domain edges. The documented constants and elementary functions of Numeric agree with the true values, and the trait's defined operations (clamp, min, max, signum, rem, atan2, hypot, powi) mean the same for every implementor.",
 q="all expressions, seeds, evaluation points and nestings over f32 and f64",
 why="Tests differentiate a few literal expressions once; a wrong chain rule visible only with a second-order cross term, a negative base or nested scalars survives them.",
 files=[S+"dual.rs",S+"hyper_dual.rs",S+"jet.rs",S+"numeric.rs",S+"primal.rs"],
 mech=[("chain rules",S+"dual.rs"),("second-order cross terms",S+"hyper_dual.rs"),("series recurrences",S+"jet.rs"),("scalar constants and operations",S+"numeric.rs")],
 note="Random programs and single operations judged against truncated power series in double-double with running error bounds."),
dict(id="C07",title="Derivatives, Jacobians, Hessians, curl, divergence and local models are exact",
 st="For every smooth scalar or vector function and every point, autodiff derivatives of each supported order, mixed partials, Jacobians (stack and heap), Hessians (bitwise symmetric), curl, divergence and linear/quadratic approximations equal the exact ones to rounding with the documented index convention; finite differences equal the documented forward/backward/central quotient, nested with the documented step growth; approximation quality metrics equal their definitions; invalid orders, indices and steps give exactly their documented errors.",
 q="all smooth functions of up to 4 variables, points, index tuples, modes, steps and multipliers",
 why="Index conventions and nesting order are invisible on symmetric sampled functions.",
 files=[N+"autodiff.rs",N+"finite_difference.rs",N+"jacobian.rs",N+"hessian.rs",F+"vector_field/curl.rs",F+"vector_field/divergence.rs",F+"approximation/linear_approximation.rs",F+"approximation/quadratic_approximation.rs"],
 mech=[("seeding of lanes",N+"autodiff.rs"),("recursive quotient",N+"finite_difference.rs"),("row/column placement",N+"jacobian.rs"),("symmetric fill",N+"hessian.rs"),("sums of squares",F+"approximation")],
 note="Random programs; references are directional power series in double-double and the exact stencil of the documented quotient."),
]
PROPS+=[
dict(id="C08",title="Numerical integration computes its documented rule exactly on every domain",
 st="Every Gauss-Legendre/Hermite/Laguerre table of order 1 to 30 holds the true nodes and weights; Gaussian and composite (trapezoidal, Simpson 3/8, Boole) rules over any finite range, any variable order and any nesting sample exactly the documented nodes and return the documented weighted sum to rounding, are exact for polynomials of the promised degree, and converge to the true integral on finite, half-infinite and infinite ranges; pairwise and compensated sums keep their error growth on long sums. Ill-defined limits, zero counts, unsupported orders, out-of-range indices and non-finite samples give exactly the documented error, never a wrong number.",
 q="all rules, orders, counts, limits, variable orders and integrands",
 why="Tests integrate a few functions to loose tolerances; a weight wrong in one order, one residue class of the node index, or one nesting level passes them.",
 files=[F+"numerical_integration/iterative_integration.rs",F+"numerical_integration/gaussian_integration.rs",F+"numerical_integration/integrator.rs",F+"gaussian_tables/legendre.rs",F+"gaussian_tables/hermite.rs",F+"gaussian_tables/laguerre.rs",F+"utils/summation.rs"],
 mech=[("composite weights",F+"numerical_integration/iterative_integration.rs"),("domain classification and transform",F+"numerical_integration/integrator.rs"),("pairwise tree and compensation",F+"utils/summation.rs")],
 note="Integrands return a random value per node they identify, so every weight and node is pinned; tables are re-derived in double-double."),
dict(id="C09",title="Line and flux integrals equal their definitions along every curve",
 st="For every field, curve, parameter range and step count, line integrals return the sum over components of field times displacement along the curve, 2D flux integrals the flow Vx dy - Vy dx across it, partial integrals the single component, with the trapezoidal value on the documented partition to rounding; Green's theorem and path reversal hold on closed and open curves; zero counts, ill-defined limits and out-of-range components give their documented errors.",
 q="all fields, curves, parameter ranges and step counts in two and three dimensions",
 why="The existing tests use one rotational field on the unit circle, for which the wrong flux formula also gives zero.",
 files=[F+"vector_field/line_integral.rs",F+"vector_field/flux_integral.rs"],
 mech=[("component/coordinate pairing",F+"vector_field/line_integral.rs get_partial"),("sign and pairing of the flux",F+"vector_field/flux_integral.rs")],
 note="Tabulated fields and curves identify every node and pairing; two defects found here were repaired. The 3D flux form is held to the definition the test suite pins."),
dict(id="C10",title="Root finders keep their bracket, take true Newton steps and report honest roots",
 st="For every function and bracket, bisection and Brent only ever sample inside the bracket their earlier samples left, never lose the sign change, halve as promised, and return a root inside the bracket whose reported residual is the function there and whose termination reason truly holds; Newton and Newton systems take (damped, when backtracking) the Newton step of the true derivative or Jacobian, never more than the budgeted iterations, and converge from near a regular root. A bracket without sign change, non-finite values, zero slopes and singular Jacobians give exactly the documented errors, and an exhausted budget is reported with the iterations spent.",
 q="all functions, brackets, starts, tolerances, budgets and backtracking settings over f32 and f64",
 why="Tests look at final roots of a few smooth functions; a lost bracket or wrong retained end shows only on functions whose samples arrive in a particular sign order.",
 files=[F+"root_finding/bisection.rs",F+"root_finding/brent.rs",F+"root_finding/newton.rs",F+"root_finding/newton_system.rs"],
 mech=[("bracket replacement",F+"root_finding/bisection.rs"),("safeguards of the interpolated step",F+"root_finding/brent.rs"),("step, backtracking and stop tests",F+"root_finding/newton.rs")],
 note="Instrumented functions record every sample; the recorded sequence is replayed against the solver's specification."),
dict(id="C11",title="Least-squares solvers take true damped steps, never worsen, and report honestly",
 st="For every residual function, start and setting, Levenberg-Marquardt trials are damped steps (J'J + lambda D^2) p = J'r of the true Jacobian with lambda >= 0 and the configured scaling, inside the configured first radius, and the reported point is the best one kept, never worse than the start; Gauss-Newton takes (backtracked) least-squares steps. The report's objective is half the squared residual at the reported point, its evaluation count exact, and its termination reason true; the budget is honoured. Linear problems reach the least-squares optimum (rank-deficient ones the optimal cost), regular zero-residual fits their truth, noisy ones a stationary point. Non-finite values, fewer residuals than parameters, rank deficiency and exhausted patience give the documented errors.",
 q="all residual families, data, starts, tolerances, step bounds, patience, scaling and backtracking settings over f32 and f64",
 why="Tests check the final answer on a handful of classic problems, which a wrong scaling, damping or acceptance rule still reaches.",
 files=[F+"optimization/levenberg_marquardt.rs",F+"optimization/gauss_newton.rs",F+"optimization/trust_region.rs",F+"linear_algebra/qr.rs"],
 mech=[("gain ratio and radius update",F+"optimization/levenberg_marquardt.rs"),("damping search",F+"optimization/trust_region.rs"),("damped triangular solve",F+"linear_algebra/qr.rs DampedLeastSquares"),("backtracking and stop tests",F+"optimization/gauss_newton.rs")],
 note="Every residual evaluation is recorded and replayed against exact Jacobians in double-double. One defect (scaling off was ignored) was repaired."),
]
PROPS+=[
dict(id="C12",title="ODE integrators take true Runge-Kutta steps within tolerance, sampled faithfully",
 st="For every right-hand side, start, direction and setting, RK4 and RK45 advance by exactly their published tableau (to rounding), with the documented number of evaluations; RK45 accepts only steps whose embedded error is within tolerance, chains them without gaps, honours first, minimum and maximum step, growth limit and step budget, ends at the requested time, and its dense output is the cubic Hermite interpolant, so a grid sample equals the step that covers it. Attitude integration stays on unit quaternions and follows the midpoint exponential map, exact for steady rates. Bad spans, unsorted or out-of-range grids, non-finite rates and timesteps give exactly their documented errors.",
 q="all right-hand sides, spans, directions, tolerances, step settings and grids over f32 and f64",
 why="Tests compare end values at loose tolerances, which a low-order tableau slip or a wrong acceptance rule still meets on smooth problems.",
 files=[F+"ode/rk4.rs",F+"ode/rk45.rs",F+"ode/tableau.rs",F+"ode/exponential_map.rs"],
 mech=[("stage sums and error weights",F+"ode/rk45.rs dopri_step"),("acceptance and step control",F+"ode/rk45.rs for_each_step"),("grid cursor and dense output",F+"ode/rk45.rs solve_on_grid"),("midpoint rate",F+"ode/exponential_map.rs")],
 note="Every accepted step is recomputed from an independently written tableau in double-double. Three defects in grid sampling were repaired."),
]
PL=F+"polynomial/"
PROPS+=[
dict(id="C13",title="Polynomial algebra, fitting, piecewise and multivariate forms are exact",
 st="For every coefficient set, evaluation with any number of derivatives, differentiation, integration, arithmetic, shifting, stretching, composition, products and long division (p = q d + r with deg r < deg d) equal the exact polynomial identity to rounding, and a result too long for its output is refused, never truncated. Polynomials built from roots, points, jets, least-squares samples and end conditions satisfy the conditions they were built from. A piecewise curve evaluates, differentiates and integrates on the piece its parameter falls in, clamping at its ends. Multivariate polynomials evaluate, differentiate, integrate, substitute, add, multiply and merge like terms exactly, for every power they can hold. Invalid inputs give exactly the documented errors.",
 q="all coefficients, sizes, points, node sets, spans and term lists over f32 and f64",
 why="A wrong coefficient, binomial or span power in one position hides behind the small symmetric examples of the tests.",
 files=[PL+"polynomial.rs",PL+"construction.rs",PL+"piecewise.rs",PL+"multivariate.rs"],
 mech=[("convolution, synthetic division, Taylor shift",PL+"polynomial.rs"),("divided differences, normalized fit, end-point mapping",PL+"construction.rs"),("piece lookup and clock conversion",PL+"piecewise.rs"),("like-term merging",PL+"multivariate.rs")],
 note="References are rebuilt in double-double from the same coefficients with magnitude-weighted tolerances. One defect (clamped powers) was repaired."),
dict(id="C14",title="Polynomial root finding returns the true real roots, counted and ordered",
 st="For every polynomial of degree 1 to 4 whose coefficient powers stay in the scalar's range, the closed forms return exactly the real roots, ascending and finite, each with a residual at rounding level and, where roots are separated, at the true root; none is invented from a complex pair and none lost to cancellation, symmetry or scale. For every square-free polynomial with well-separated, generic roots the remainder chain counts the real roots in any half-open range exactly and bisection isolates each to the tolerance asked within the halving budget, reporting DidNotConverge with the steps spent otherwise; every root lies within the Cauchy bound. Zero leading coefficients, non-finite coefficients, reversed ranges and bad tolerances give exactly the documented errors.",
 q="all coefficients, scales, offsets, root patterns (real, complex, repeated, clustered), ranges, tolerances and budgets over f32 and f64",
 why="Closed forms cancel or misbranch only in thin slices of coefficient space that example polynomials never visit.",
 files=[PL+"roots.rs"],
 mech=[("cancellation-free branches",PL+"roots.rs quadratic/cubic/quartic"),("sign-change counting and halving",PL+"roots.rs")],
 note="Polynomials are expanded from known roots in double-double. Three defects of the closed forms were repaired; the remainder chain's miscounts on repeated or symmetric roots are recorded as known findings."),
]
