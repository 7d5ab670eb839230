"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})


S = "src/cr/sparse/_src/"
p("P01", "Every linear operator is linear and its adjoint is the true adjoint",
  "For every operator the library can construct, the forward map and the adjoint map are linear and satisfy <A x, y> = <x, A^H y> for all x and y. This holds for every admissible size, axis, offset, mode and data parameter of the constructor; wavelet transforms are meant for orthogonal wavelets, and the dot-product operator for the real inner product.",
  ["inputs", "configurations"], "all x, y; all constructor parameters (sizes, axes, offsets, taps, index sets, complex data)",
  "The tests apply a dot-product test to a handful of fixed small sizes with one random key and mostly real data; sizes, axes, offsets and complex data are never enumerated.",
  [S + "lop/basic.py", S + "lop/calculus.py", S + "lop/conv.py", S + "lop/fft.py", S + "lop/dwt.py", S + "lop/onb.py", S + "lop/tv.py", S + "lop/dot.py", S + "lop/identity.py", S + "lop/block_diag.py", S + "lop/random.py", S + "lop/reshape.py", S + "lop/windowed_op.py"],
  [("operator constructors", "every function of cr.sparse.lop returning an operator"), ("forward/adjoint pair", "the times and trans closures given to each operator")])
p("P02", "Operator algebra combinators act as their mathematical counterparts",
  "Negation, scaling, sums, differences, composition, powers, adjoint, transpose, partial operators, stacking, block-diagonal assembly, Gram and frame operators, and the arithmetic syntax on operators apply exactly the linear map the algebra prescribes, forward and adjoint, for all operand operators and vectors. Wrapping an operator for compilation never changes the map it applies.",
  ["inputs", "programs"], "all operand operators (real or complex, any shape) and all vectors; every combinator and dunder method",
  "Tests compose one or two fixed real matrices and compare single products.",
  [S + "lop/lop.py", S + "lop/block_diag.py", S + "lop/impl.py", S + "lop/util.py"],
  [("combinators", S + "lop/lop.py"), ("arithmetic syntax", "Operator dunder methods in " + S + "lop/lop.py")])
p("P03", "Operators declare the shape and traits of the map they apply",
  "The shape an operator declares is the shape its forward and adjoint maps actually have, for every constructor parameter. A combined operator is declared real, linear, compilable or matrix-capable only when its operands are, and complex data never yields an operator declared real. An operator declared matrix-capable acts on every column of a matrix separately.",
  ["inputs", "configurations"], "all constructor parameters and all combinations of operand traits",
  "Tests look at the shape of a few instances and hardly ever at the traits; solvers choose code paths from them.",
  [S + "lop/lop.py", S + "lop/basic.py", S + "lop/random.py", S + "lop/block_diag.py"],
  [("operator record", "Operator named tuple in " + S + "lop/lop.py"), ("constructors", S + "lop/*.py")])
p("P04", "The residual a solver returns belongs to the solution it returns",
  "In the result of every sparse recovery and least-squares solver that reports a residual, the residual equals the measurements minus the sensing model applied to the returned solution, and every reported residual norm is the norm of that residual, whichever iteration the solver stopped at and whether or not measurements were rescaled internally.",
  ["inputs", "histories"], "all problem data, all stopping iterations, both dense-matrix and operator entry points",
  "Tests check closeness of the solution on easy instances; a stale or inconsistent residual on another stopping path does not change that.",
  [S + "pursuit/mp.py", S + "pursuit/omp.py", S + "pursuit/sp.py", S + "pursuit/cosamp.py", S + "pursuit/iht.py", S + "pursuit/htp.py", S + "opt/cg.py", S + "opt/pcg.py", S + "sls/ista.py", S + "cvx/spgl1.py", S + "cvx/l1ls.py"],
  [("loop-carried solver state", "init/body/cond closures of each solver"), ("result record", "RecoverySolution and per-solver named tuples")])
p("P05", "Every iterative solver stops within its iteration limit and counts honestly",
  "For every iterative solver, the iteration counter starts at its documented value, grows by exactly one per iteration, and no pass of the main loop is started once the caller's (or default) limit is reached, irrespective of convergence (YALL1 performs its iterations in pairs). The number of iterations reported is that counter, and the limit can be attained when no stopping test fires earlier.",
  ["inputs", "histories"], "all inputs including non-converging ones; every exit path",
  "Tests converge long before the limit, so a lost bound or a skewed counter goes unnoticed.",
  [S + "pursuit/", S + "cvx/", S + "sls/", S + "opt/", S + "fom/", S + "cs/cs1bit/", S + "cluster/kmeans.py", S + "block/bsbl.py"],
  [("loop guards", "cond closures / while conditions of each solver"), ("iteration counters", "solver state records")])
p("P06", "Reported operator-application counts equal the applications performed",
  "Whenever a solver reports how many times the forward and adjoint operators were applied, or how often a function and its gradient were evaluated, the numbers equal the applications actually performed along the executed path, from setup through the last iteration.",
  ["inputs", "histories"], "all inputs, all branches inside an iteration (restarts, line-search steps, root finding)",
  "No test compares the counters with real applications.",
  [S + "cvx/spgl1.py", S + "cvx/l1ls.py", S + "cvx/adm/yall1.py", S + "opt/spg.py", S + "sls/lsqr.py"],
  [("n_times / n_trans counters", "solver state and result records")])
p("P07", "Compiled solver variants are the same function as the plain ones",
  "Every compiled variant of a public function is a compilation of the plain function of the same name, and compilation is possible: every parameter that steers Python control flow, array shapes or is not an array is declared compile-time constant, and no traced value reaches such a position. The maps of operators declared jit-safe, and the functions, gradients, projections and prox maps built by the library, can be compiled for all their parameters.",
  ["inputs", "programs"], "all public functions with a compiled variant, all parameters",
  "Tests call some of the compiled variants with default options only.",
  [S + "pursuit/", S + "cvx/", S + "sls/", S + "opt/", S + "cluster/", S + "data/", S + "lop/", S + "dict/", S + "geo/"],
  [("jit wrappers", "jax.jit assignments and decorators"), ("static argument lists", "static_argnums / static_argnames")])
p("P08", "Randomness comes only from the caller's key and no key is used twice",
  "Every function taking a random key is a deterministic function of that key and its other arguments. Within a call no key value is consumed by two random draws, and a key that was split is not used again, so all draws are independent.",
  ["inputs", "programs"], "all keys, all call paths that draw randomness",
  "Tests draw with one or two fixed keys and check shapes; reuse of a key produces plausible but correlated data.",
  [S + "data/synthetic/", S + "dict/simple.py", S + "lop/random.py", S + "lop/util.py", S + "lop/normest.py", S + "cluster/", S + "problems/", S + "tools/", S + "cs/cs1bit/", S + "sls/"],
  [("key consumption", "calls of jax.random.* and of library functions taking a key")])
p("P09", "Library calls leave the caller's data and shared state untouched",
  "No library function modifies an array, list or dictionary passed by the caller or any module-level state, and the operators and functions it returns keep no state between calls, so repeating a call repeats its result. No numeric routine performs input/output on its own; only the reporting facilities (print, plot, analyze functions, trackers, trial runners) do.",
  ["inputs", "histories"], "all library functions, all call sequences",
  "Tests call a function once per fresh input; hidden mutation shows only when inputs are reused.",
  ["src/cr/sparse/"], [("effects", "stores through parameters and globals, I/O calls")])
p("P10", "Indicators and projectors of one set agree",
  "For each convex set offered both as an indicator and as a projector with the same parameters, the two describe the same set: the projector leaves points of the set unchanged, moves every other point onto the set, and the indicator is zero exactly on the set and infinite elsewhere, in exact arithmetic up to the documented tolerances.",
  ["inputs", "configurations"], "all points, all set parameters (radius, centre, bounds, with or without matrix)",
  "Tests check a few points inside and outside; boundary, centre and scaling combinations are open-ended.",
  [S + "opt/indicators/", S + "opt/projectors/"], [("indicator constructors", S + "opt/indicators/*.py"), ("projector constructors", S + "opt/projectors/*.py")])
p("P11", "Smooth functions return the gradient of the value they return",
  "For every smooth function object, the value entry is the documented function, the gradient entry is its derivative, the combined entry returns exactly (gradient, value), and scaled, translated or composed smooth functions obey the chain rule, for all points and parameters.",
  ["inputs", "configurations"], "all points and parameters", "Tests evaluate single points.",
  [S + "opt/smooth/", S + "opt/prox_to_smooth.py"], [("smooth constructors", S + "opt/smooth/*.py"), ("builders and algebra", S + "opt/smooth/smooth.py")])
p("P12", "Proximal operators evaluate the function they minimise",
  "For every proximal operator object, the function entry is the documented function, the combined entry returns the proximal point together with the function value at that very point, proximal steps scale with the step size exactly as the definition requires, and the proximal point satisfies the optimality condition of its function where that has a closed form.",
  ["inputs", "configurations"], "all points, steps and weights", "Tests evaluate single points.",
  [S + "opt/proximal_ops/"], [("prox constructors", S + "opt/proximal_ops/*.py")])
p("P13", "Every code path refers to names, members and signatures that exist",
  "No reachable path of a library function uses an undefined name, a missing module member or record field, or calls a library function with an argument list it does not accept; every name the public modules export resolves to a definition.",
  ["programs", "configurations"], "all functions and all branches of the package", "Branches not exercised by a test are never even name-resolved in Python.",
  ["src/cr/sparse/"], [("whole package", "all modules under src/cr/sparse")])
p("P14", "Catalogue problems are internally consistent",
  "For every test problem in the catalogue, the sensing operator is the composition of its measurement and sparsifying operators, the reconstruction map is the sparsifying operator, the stored measurements are the sensing operator applied to the stored representation whenever one is stored (plus documented noise), and the catalogue's name list and constructors match one to one.",
  ["inputs", "configurations"], "all problems, all keys and all size parameters", "Tests generate each problem once with default sizes.",
  [S + "problems/"], [("problem constructors", S + "problems/prob*.py"), ("catalogue", S + "problems/problems.py")])
p("P15", "Evaluation and analysis functions compute the quantities they are named after",
  "For all inputs, the diagnostic and helper functions a user evaluates results with return the textbook quantity: Gram, frame, coherence, Babel function and frame bounds of a dictionary; supports, errors, norms, SNRs, overlap ratios and success flags of a recovery; the matrix of an operator and of its adjoint, and inner product tests that accept exactly adjoint pairs; hard, soft and half thresholds; cluster sizes, label maps, nearest centroids, new centroids and clustering errors; Laplacians; angles, neighbours and subspace preservation statistics; block partitions; 1-bit measurements; filter kernels; tracked norms and SNRs. Jitted and unjitted forms agree.",
  ["inputs", "configurations"], "all data, real and complex, all sizes, with and without jit",
  "Tests compare a handful of small examples, mostly with symmetric or trivial data.",
  [S + "dict/props.py", S + "ef/performance.py", S + "lop/util.py", S + "geo/", S + "cluster/", S + "vision/kernels.py", S + "pursuit/util.py", S + "tracker.py"],
  [("public functions", "dict props, RecoveryPerformance, lop.to_matrix/dot_test_*, geo thresholds, cluster and ssc utilities, vision kernels")])
p("P16", "Every solver performs the iteration it is named after",
  "For all inputs, each iteration of a solver maps the current state to the next one by the published recurrence of the method it implements, from the documented starting point, and stops under the documented condition: matching pursuit, OMP, CoSaMP, iterative hard thresholding and subspace pursuit; gradient and conjugate gradient methods with and without preconditioner; LSQR with damping; ISTA and FISTA; FOCUSS; interior point l1 regularised least squares; ADMM (YALL1) in all its problem variants; SPGL1 for the Lasso and basis pursuit denoising; projected gradient; block sparse Bayesian learning; accelerated first order methods; k-means and power iterations. The reported solution is the last iterate of that recurrence.",
  ["inputs", "histories", "configurations"], "all operators, data, reachable states and option combinations",
  "Tests check that easy problems are recovered; a wrong step size, missing conjugate, stale variable or loosened stopping rule usually still recovers them.",
  [S + "pursuit/", S + "sls/", S + "cvx/", S + "opt/", S + "fom/", S + "block/", S + "cluster/"],
  [("iteration bodies, start states and loop conditions", "pursuit/*.py, sls/*.py, cvx/**/*.py, opt/*.py, fom/*.py, block/bsbl.py, cluster/kmeans.py")])
p("P17", "Generated dictionaries, bases and test signals have the structure asked for",
  "For every key and size, generators return what their parameters promise: dictionaries with unit norm atoms or the stated scaling, sparse binary matrices with exactly d ones per column, orthonormal random, Hadamard, cosine, Fourier and wavelet bases and their concatenations; sparse and block sparse signals whose non-zero entries are exactly at the returned indices, sorted and distinct, with the stated magnitudes, signs, block normalisation and number of signals; index sets without repetition; points orthogonal to a vector; orthonormal subspace bases, unit points in their subspaces, subspaces at exactly the requested angle; Grassmannian frames by alternate projections.",
  ["inputs", "configurations"], "all keys, sizes, sparsities and options",
  "Tests check shapes, and values for one key.",
  [S + "dict/simple.py", S + "dict/grass.py", S + "data/synthetic/"],
  [("generators", "cr.sparse.dict and cr.sparse.data exports")])
p("P18", "Solvers converge to a minimiser within their tolerance",
  "On every well-posed problem a solver reaches, within its default iteration limit, a point whose optimality gap is below the requested tolerance.",
  ["inputs"], "all well-posed problems", "Tests sample a few problems.",
  [S + "cvx/", S + "sls/", S + "opt/", S + "fom/"], [("stopping rules", "cvx/*.py, sls/*.py")])
p("P19", "Greedy pursuits recover every sufficiently sparse signal",
  "When the dictionary satisfies the coherence or restricted isometry condition of a pursuit, the pursuit returns exactly the planted support and coefficients.",
  ["inputs"], "all dictionaries meeting the condition, all sparse signals", "Tests sample random signals.",
  [S + "pursuit/"], [("solvers", "pursuit/*.py")])
p("P20", "Results stay accurate in finite precision",
  "For every conditioning and scale of the data, single and double precision results stay within the rounding error bounds of the algorithms.",
  ["inputs"], "all data scales and precisions", "Tests use well scaled data.",
  ["src/cr/sparse/"], [("numerical kernels", "all numerical modules")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
