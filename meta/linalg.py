F="crates/multicalc/src/linear_algebra/"
PROPS=[
dict(id="C01",title="Square solves, factorizations, determinants, inverses are backward stable",
 st="For every finite square matrix, LU returns a permutation with PA = LU, unit-lower L with multipliers at most one and pivots above EPSILON times the largest entry, and every solve, matrix solve, determinant and inverse (LU, Cholesky, closed form) has a backward error of a few ulps times dimension. A matrix is rejected as singular, ill-conditioned or not positive definite exactly when it is one to working precision, at any overall scale; a well-conditioned one is never rejected. Cholesky reads only the lower triangle, returns a lower factor with positive diagonal, and refuses indefinite or NaN data.",
 q="all square f64 and f32 matrices (dimension 1 to 8), all right-hand sides, including graded, singular, indefinite and extreme-scale ones",
 why="The tests check a few literal matrices against stored references; the claim is about every matrix, pivot order, scale and near-singular verdict.",
 files=[F+"lu.rs",F+"cholesky.rs",F+"matrix.rs"],
 mech=[("partial pivoting and the smallest-pivot test",F+"lu.rs factor_lu"),("positive radicand test",F+"cholesky.rs cholesky"),("closed-form adjugates and determinant threshold",F+"matrix.rs inverse")],
 note="Every factorization, solve and verdict on ~1M generated matrices per run is judged by an independent double-double oracle with componentwise bounds; assumes the bounds' constants (6n ulps)."),
dict(id="C02",title="Pivoted QR and least squares give true minimizers and honest ranks",
 st="For every finite matrix with at least as many rows as columns, column-pivoted QR satisfies A P = Q R with orthonormal Q, a true permutation and a non-increasing diagonal; the least-squares and damped least-squares solutions satisfy the normal equations to rounding (the residual is orthogonal to the columns); a full-rank system is never refused and a rank-deficient one is reported, at any scale; triangular solves and inverses reproduce their input.",
 q="all tall or square f64 and f32 matrices, right-hand sides and damping diagonals, including graded, rank-deficient and extreme-scale ones",
 why="Tests use a few stored matrices; minimality and the rank verdict are claims about every matrix, pivot order and scale.",
 files=[F+"qr.rs"],mech=[("Householder pivoting and column-norm downdating",F+"qr.rs pivoted_qr"),("damped rotations",F+"qr.rs")],
 note="Factor identities, orthogonality of the residual and rank verdicts judged in double-double on every generated case."),
dict(id="C03",title="SVD, pseudo-inverse and symmetric eigendecomposition are exact to rounding",
 st="The SVD of every finite matrix reproduces it to a few ulps with non-negative non-increasing singular values and orthonormal right factor; rank and pseudo-inverse follow from them (Moore-Penrose conditions); the symmetric eigendecomposition returns orthonormal vectors and every eigenvalue to backward-stable accuracy. All return in bounded sweeps for every finite input and refuse non-finite or asymmetric input.",
 q="all finite f64 and f32 matrices up to 8x8, including rank-deficient, clustered, graded and extreme-scale ones",
 why="Convergence and accuracy over clustered or graded spectra is not something a handful of stored decompositions can show.",
 files=[F+"svd.rs",F+"symmetric_eigendecomposition.rs"],mech=[("one-sided Jacobi sweeps",F+"svd.rs"),("cyclic Jacobi rotations",F+"symmetric_eigendecomposition.rs")],
 note="Reconstruction, orthogonality and reference spectra in double-double; left vectors of zero singular values are a known finding."),
dict(id="C04",title="Vector and matrix algebra and views compute what their definitions say",
 st="Every vector and matrix operation (products, norms, traces, transposes, scaling, outer and cross products, symmetrization, blocks, rows, columns, views, iterators, construction macros, indexing and equality) equals its mathematical definition on every input to a few ulps, entry order is row-major throughout, fallible accessors refuse exactly the out-of-range indices, and identities such as (AB)^T = B^T A^T hold.",
 q="all shapes up to 8 and all finite entries",
 why="An index slip visible only in rectangular or non-symmetric shapes passes square sampled tests.",
 files=[F+"matrix.rs",F+"vector.rs",F+"macros.rs"],mech=[("elementwise and product loops",F+"matrix.rs"),("vector operations",F+"vector.rs")],
 note="Each operation is compared with an independent double-double model for random rectangular shapes."),
dict(id="C05",title="Matrix exponential, discretization, Lyapunov and Riccati solve their equations",
 st="expm, zero-order hold, Van Loan and white-noise discretization return the exact continuous-time result to the accuracy of scaling and squaring for every finite system and timestep, including unstable, stiff, nilpotent and zero systems. The discrete Lyapunov and Riccati solvers return the unique stabilizing solution at any cost scale, and return an error, never a wrong matrix, when there is none (unstable or unreachable systems). Non-finite, asymmetric and invalid-timestep inputs give their documented errors and every call returns.",
 q="all finite systems of dimension 1 to 7, all timesteps and cost scales",
 why="Settling and refusal rules depend on spectral radius and scale; tests sample a few well-scaled systems.",
 files=[F+"expm.rs",F+"lyapunov.rs",F+"riccati.rs","crates/multicalc/src/discretization/mod.rs"],mech=[("scaling exponent and squaring",F+"expm.rs"),("doubling passes and settle test",F+"lyapunov.rs"),("structured doubling and residual check",F+"riccati.rs"),("block exponentials","crates/multicalc/src/discretization")],
 note="Judged against double-double Taylor/doubling references and the direct Riccati recursion; four defects found here were repaired."),
]
