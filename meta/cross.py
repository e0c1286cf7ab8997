F="crates/multicalc/src/"
ALL=[F+"linear_algebra",F+"scalar",F+"numerical_derivative",F+"numerical_integration",F+"root_finding",F+"optimization",F+"ode",F+"polynomial",F+"spatial",F+"kinematics",F+"dynamics",F+"plant",F+"mapping",F+"signal_processing",F+"control",F+"motion",F+"estimation",F+"random.rs",F+"vector_field",F+"approximation",F+"discretization",F+"utils"]
PROPS=[
dict(id="C35",title="No public call panics, whatever it is handed",
 st="For every value of every argument, finite or not, and every sequence of calls, a public function of the library returns a value, None or a typed error and never panics: no index out of bounds, integer overflow, division by zero or failed unwrap. Every error it returns can be formatted. Indexing with [] outside the bounds is the only exception.",
 q="all arguments of the public functions and types across every module at both precisions: ordinary, over many decades, NaN, infinite, subnormal, signed zeros, and counts and indices out of range",
 why="Tests hand over sensible values; a panic needs one particular odd value deep in a chain of calls.",
 files=["README.md"]+ALL,
 mech=[("typed errors instead of panics",F+"error.rs"),("checked sizes and finite tests at entry",F)],
 note="Sampled: 4.7 million short programs per quick run over 118 corners of the API, built with overflow checks and debug assertions. One defect repaired."),
dict(id="C36",title="Every call ends within a bounded amount of work",
 st="Every public call ends after an amount of arithmetic bounded by its sizes and its stated iteration limits, whatever the input: an iteration that cannot converge, a step that cannot shrink, an interval that cannot be split and a search that cannot succeed all end in a result or a typed error. Inputs that are NaN, infinite or wildly scaled do not make any call run on.",
 q="all inputs to every iterative and fixed-work algorithm, above all those on which an iteration stalls, cycles or diverges",
 why="A loop that never ends shows only on the rare input where its exit test never fires; tests use inputs that converge.",
 files=["README.md"]+ALL,
 mech=[("iteration limits",F+"root_finding"),("evaluation limits of adaptive steps",F+"ode/rk45.rs"),("sweep limits of decompositions",F+"linear_algebra")],
 note="Sampled: 0.8 million programs per quick run on a scalar that counts its operations; the budget is eight times the most seen, so constant-factor changes stay quiet."),
dict(id="C37",title="Nothing outside the heap-only types touches the heap",
 st="No public call, at either precision and whatever its arguments, asks the allocator for memory, except the types documented as heap-only: heap-sized grids, Jacobians of runtime size, the particle filter and the localizer on it. A particle filter in steady running, resampling included, asks for nothing more after it is built.",
 q="all calls of the library with its alloc feature on, on ordinary, wild and hostile inputs, error paths included",
 why="A single formatted string or growing vector on one error path breaks the guarantee for bare-metal users and no test looks.",
 files=["README.md"]+ALL+[F+"estimation/particle_filter.rs"],
 mech=[("fixed-capacity storage",F+"linear_algebra/matrix.rs"),("reused scratch buffers",F+"estimation/particle_filter.rs")],
 note="Sampled: 1.6 million programs per quick run under a counting allocator, with a positive control."),
dict(id="C38",title="One algorithm on every scalar: same results, same derivatives, every time",
 st="Every algorithm generic over the scalar gives, on a user's own scalar that computes as f64 does, f64's results bit for bit; at single precision and in the value part of an autodiff scalar, the same results to rounding; and the derivative fed into an input comes out as the true derivative of every output, so no algorithm drops or distorts it on the way. A call depends on its arguments alone: repeated, after other calls or on another thread, it gives the same bits.",
 q="all generic algorithms, all scalars, all inputs varied, all orders of calls and threads",
 why="Tests run each algorithm on one scalar; a branch that strips the derivative, a constant fit for f64 only, or a fast path for one type shows only when the scalars are compared.",
 files=ALL+[F+"scalar/numeric.rs",F+"scalar/primal.rs",F+"scalar/dual.rs"],
 mech=[("the Numeric trait",F+"scalar/numeric.rs"),("values kept apart from derivatives",F+"scalar/primal.rs")],
 tech="runtime monitoring: differential oracle between scalars, runs and threads",
 note="Sampled: 0.58 million programs per quick run; slopes judged against double-double central differences for the programs that do not iterate to a tolerance."),
dict(id="C39",title="An error keeps its cause, from where it arises to what the user reads",
 st="When a step inside an algorithm fails, the caller gets exactly that step's error: a derivative backend's error at whatever call it happens, a decomposition's inside a solver, filter or regulator; a failure that is never reached changes nothing. An error built on another names it as its source, and `?` into the umbrella error loses neither value, text nor source. Every error reads as one line that carries the numbers and names it holds.",
 q="all error values of every family in both crates, all places and moments at which an inner step can fail, all inputs on which it does",
 why="Tests look at one failing call each; an error swallowed, replaced or lost on the n-th inner call, or on one path of an iteration, goes unseen.",
 files=["README.md",F+"error.rs","crates/multicalc-robot-model/src/error.rs",F+"root_finding",F+"optimization",F+"vector_field",F+"approximation",F+"estimation",F+"control"],
 mech=[("conversions, texts and sources of errors",F+"error.rs"),("propagation from backends",F+"optimization"),("model errors","crates/multicalc-robot-model/src/error.rs")],
 tech="runtime monitoring: fault injection with an online checker of what comes out",
 note="Sampled: 1 million cases per quick run, faults injected at every depth an algorithm reaches."),
dict(id="C40",title="An unset option means its documented default; a setting changes what it names",
 st="An object on which an option is left alone behaves, bit for bit, as one told the default its documentation states. Settings may be made in any order and again: only the last value of each counts, and none disturbs another. Every setting makes a difference to some workload, and default values are the documented ones.",
 q="all configurable solvers, integrators, filters, controllers and planners, all subsets, orders and repetitions of their settings, all workloads",
 why="Builder tests set one option once; a setter that also resets another, a constructor that forgets a default, or an option that is stored and never read passes them.",
 files=[F+"root_finding",F+"optimization",F+"ode/rk45.rs",F+"kinematics",F+"control",F+"estimation",F+"numerical_integration",F+"numerical_derivative"],
 mech=[("with_ settings and constructors",F+"kinematics/inverse_kinematics.rs"),("solver defaults",F+"optimization"),("controller settings",F+"control")],
 tech="runtime monitoring: metamorphic oracle over configuration histories",
 note="Sampled: 0.2 million configuration histories per quick run over 26 kinds of object. The start tolerances of Bisection and Brent, and two of inverse kinematics, are not documented and so always set."),
]
