VN = "global value numbering of the type-checked source (abstract terms over real arithmetic, no execution)"
VNOTE = "static: each function is if-converted to one term per output by an abstract interpreter over clang's AST and the term is compared with the documented formula; rounding is out of scope"

CLAIMED = [
 dict(id="C01", title="Dual-number arithmetic carries exact first derivatives",
  statement="For every arithmetic operator and every math function offered on dual numbers, the scalar part equals the plain function of the scalar parts and the infinitesimal part equals the exact first derivative applied to the operands' infinitesimal parts. The documented boundary cases (zero bases of powers, missing-data NaN, ties, zero arguments of norms) give the documented value, zero or non-finite derivative.",
  over=["inputs", "programs"], text="every operand value in the domain, every number of derivative components, every mix of dual and plain operands, nested dual numbers",
  why="The tests compare a handful of sample points with a tolerance; a wrong coefficient in one operand's derivative, one mixed overload or one boundary branch is not sampled. The Jet test suite is not even among the tests that build here.",
  files=["include/ceres/jet.h"], mech=[("operator and function overloads on Jet", "include/ceres/jet.h:240-1330")],
  technique=VN, note=VNOTE),
 dict(id="C02", title="Dual numbers compare, classify and report limits as their scalar part does",
  statement="Every comparison, ordering and classification of dual numbers has exactly the result of the same operation on the scalar parts, for every mix of dual and plain operands, including NaN and infinities. Numeric limits and linear-algebra scalar traits of a dual type report those of its scalar type, with zero infinitesimal part.",
  over=["inputs", "programs"], text="all operand values including NaN, infinities and signed zero; scalar, dual and nested dual operands in either position",
  why="Tests sample a few ordered pairs; a swapped operand or a strict/non-strict mix-up only shows on ties, NaN or one mixed overload.",
  files=["include/ceres/jet.h"], mech=[("comparison operators and classification functions", "include/ceres/jet.h:380-620"), ("std::numeric_limits and Eigen::NumTraits specialisations", "include/ceres/jet.h:1380-1500")],
  technique=VN, note=VNOTE),
 dict(id="C03", title="Robust loss functions return their value and its two exact derivatives",
  statement="Each built-in robust loss returns, for every squared residual and every scale, the documented robustified value together with the exact first and second derivatives of that value. Composed, scaled and replaceable losses give exactly the value and derivatives of the composition, including when no inner loss is given.",
  over=["inputs", "configurations"], text="all non-negative squared residuals on both sides of and at every branch point, all scales, all compositions",
  why="A test can check some points; the second derivative enters the corrected Jacobian and is hardly visible in end results. No loss test builds here.",
  files=["include/ceres/loss_function.h", "internal/ceres/loss_function.cc"], mech=[("Evaluate of every loss class", "internal/ceres/loss_function.cc"), ("wrapper losses", "include/ceres/loss_function.h")],
  technique=VN, note=VNOTE),
 dict(id="C04", title="Rotation representations convert into each other exactly",
  statement="Conversions between angle-axis vectors, unit quaternions in either coefficient order and rotation matrices of any memory layout all denote the same rotation, and rotating a point by any representation gives the same result. This holds for every rotation including the identity, half turns and every branch, touches only the declared storage, and derivatives are exact there too.",
  over=["inputs", "configurations"], text="every rotation (identity, tiny angles, beyond half turns, both quaternion signs), both quaternion coefficient orders, row-major, column-major and strided matrices, plain and dual scalars",
  why="A layout or order mix-up or a wrong branch shows only for particular orders, axes or signs; the rotation test is not among the tests that build here.",
  files=["include/ceres/rotation.h"], mech=[("conversion templates", "include/ceres/rotation.h:380-960"), ("MatrixAdapter and quaternion order tags", "include/ceres/rotation.h:60-130")],
  technique=VN, note=VNOTE),
 dict(id="C05", title="Each of the 24 Euler angle conventions is the rotation its name spells",
  statement="Converting Euler angles to a matrix gives the product of the three axis rotations in the order and frame the convention's name spells. Converting a rotation matrix to Euler angles yields angles that reproduce that matrix, including at gimbal lock, and that lie in the canonical ranges.",
  over=["inputs", "configurations"], text="all angles including gimbal lock and quarter turns, all 24 conventions, row- and column-major matrices",
  why="24 conventions times branches times gimbal lock; tests sample a few and gimbal lock needs exact zeros.",
  files=["include/ceres/rotation.h", "include/ceres/internal/euler_angles.h"], mech=[("EulerAnglesToRotation and RotationMatrixToEulerAngles", "include/ceres/rotation.h:563-690"), ("EulerSystem axis tables and aliases", "include/ceres/internal/euler_angles.h:72-190")],
  technique=VN, note=VNOTE),
 dict(id="C06", title="Manifold operations obey the manifold axioms with exact Jacobians",
  statement="For every manifold the library provides, adding nothing returns the point, Minus inverts Plus in both directions, and points stay on the manifold. Each Jacobian, and the product with it, is the exact derivative of that manifold's own Plus and Minus, including at poles and antipodes. Failure of a constituent operation is reported.",
  over=["inputs", "configurations"], text="every point of each manifold (poles, antipodes, non-unit spheres and line directions), every tangent step within the injectivity radius, every constancy mask of a small block, fixed and dynamic sizes, products of manifolds, automatically differentiated manifolds",
  why="The axioms quantify over all points and steps and have rare branches (poles, zero steps, opposite hemispheres); no manifold test is among the tests that build here.",
  files=["include/ceres/manifold.h", "internal/ceres/manifold.cc", "include/ceres/sphere_manifold.h", "include/ceres/line_manifold.h", "include/ceres/product_manifold.h", "include/ceres/autodiff_manifold.h", "include/ceres/internal/sphere_manifold_functions.h", "include/ceres/internal/householder_vector.h"],
  mech=[("quaternion, subset and Euclidean manifolds", "internal/ceres/manifold.cc"), ("sphere and line manifolds", "include/ceres/internal/sphere_manifold_functions.h"), ("product and autodiff manifolds", "include/ceres/product_manifold.h")],
  technique=VN, note=VNOTE),
 dict(id="C07", title="Cubic and bicubic interpolation equal the cubic convolution spline",
  statement="The cubic and bicubic interpolators return, for every grid and every real query, the cubic convolution spline of the documented neighbouring samples together with its exact partial derivatives, also when queried with dual numbers. Grid lookups return the documented sample for every storage order, interleaving and offset, clamped to the border outside the grid.",
  over=["inputs", "configurations"], text="all grid values, all query points (integers, fractions, outside), one and two data components, row/column major, interleaved or not, non-zero begin offsets",
  why="The interpolation test samples cubic polynomials and does not build here; wrong clamping or one swapped derivative shows only near borders or with multi-component data.",
  files=["include/ceres/cubic_interpolation.h"], mech=[("CubicHermiteSpline, CubicInterpolator, BiCubicInterpolator", "include/ceres/cubic_interpolation.h:60-440"), ("Grid1D and Grid2D", "include/ceres/cubic_interpolation.h:100-440")],
  technique=VN, note=VNOTE),
 dict(id="C08", title="Loss correction preserves the robust gradient and its Gauss-Newton Hessian",
  statement="After a residual block's residuals and Jacobian are corrected for a robust loss, the product of Jacobian and residuals is the gradient of the robustified cost. The Gauss-Newton matrix is the documented second-order approximation with the negative curvature part dropped, also for zero residuals and concave losses.",
  over=["inputs", "configurations"], text="every residual vector including zero, every loss derivative pair, every block shape",
  why="The rare branches (zero residual, negative curvature) change the step only slightly and no corrector test builds here.",
  files=["internal/ceres/corrector.cc", "internal/ceres/corrector.h"], mech=[("Corrector", "internal/ceres/corrector.cc")],
  technique=VN, note=VNOTE),
 dict(id="C09", title="Automatic differentiation wrappers return exact residuals and Jacobians",
  statement="Every automatically differentiated cost or first-order function returns the functor's residuals and the exact partial derivatives in the documented layout, for every subset of requested Jacobian blocks. Failure of the functor is reported, the caller's parameters are left alone and nothing outside the given arrays is touched.",
  over=["inputs", "configurations", "histories"], text="all parameter values, every subset of null Jacobian blocks and a null Jacobian array, fixed and dynamic numbers of residuals, every stride of the dynamic variant, repeated evaluations of one object, small and heap-sized blocks",
  why="The number of stride and null-block combinations is exponential and the tests use a few; of these wrappers only the TinySolver one is tested here.",
  files=["include/ceres/autodiff_cost_function.h", "include/ceres/internal/autodiff.h", "include/ceres/dynamic_autodiff_cost_function.h", "include/ceres/autodiff_first_order_function.h", "include/ceres/tiny_solver_autodiff_function.h", "include/ceres/tiny_solver_cost_function_adapter.h", "include/ceres/internal/variadic_evaluate.h", "include/ceres/internal/parameter_dims.h", "include/ceres/internal/integer_sequence_algorithm.h", "include/ceres/internal/array_selector.h"],
  mech=[("AutoDifferentiate", "include/ceres/internal/autodiff.h:150-340"), ("strided evaluation", "include/ceres/dynamic_autodiff_cost_function.h:128-290"), ("TinySolver wrappers", "include/ceres/tiny_solver_autodiff_function.h")],
  technique=VN, note=VNOTE),
 dict(id="C10", title="Numeric differentiation wrappers compute the documented difference quotients",
  statement="Every numerically differentiated cost or first-order function returns the functor's residuals at the given point and, per requested Jacobian entry, the documented forward, central or adaptive difference quotient with the documented step size, perturbing that coordinate only. It reports failure exactly when an evaluation it needs fails, and never modifies the caller's parameters.",
  over=["inputs", "configurations", "faults"], text="all residual functions (uninterpreted), parameters including zero and tiny ones, all options, every subset of null Jacobian blocks, failure of the functor at the point or at any perturbed point, adaptive tableaux up to four columns",
  why="Tests compare with analytic derivatives at loose tolerance and rarely fail at perturbed points; a wrong step or an ignored failure stays within tolerance.",
  files=["include/ceres/internal/numeric_diff.h", "include/ceres/numeric_diff_cost_function.h", "include/ceres/dynamic_numeric_diff_cost_function.h", "include/ceres/numeric_diff_first_order_function.h", "include/ceres/numeric_diff_options.h"],
  mech=[("EvaluateJacobianColumn and EvaluateRiddersJacobianColumn", "include/ceres/internal/numeric_diff.h:60-420"), ("wrappers", "include/ceres/numeric_diff_cost_function.h:238-285")],
  technique=VN, note=VNOTE),
 dict(id="C11", title="Cost functions built from other cost functions keep values and chain rule",
  statement="Conditioned cost functions, linear priors and functors made from cost functions return exactly the composed residuals and, for every subset of requested Jacobian blocks, the chain-rule Jacobian, and fail exactly when an inner evaluation fails. The gradient checker reports agreement exactly when all evaluations succeed and every residual and tangent-space Jacobian entry agrees within the precision, and stores the documented Jacobians.",
  over=["inputs", "configurations", "faults"], text="all inner functions (uninterpreted), every subset of conditioners and null Jacobian blocks, one wrong Jacobian entry at any place, failure of each inner evaluation, with and without a manifold",
  why="The compositions are tested on a single configuration each, none of which builds here; a layout slip shows only with several blocks or a null one.",
  files=["internal/ceres/conditioned_cost_function.cc", "internal/ceres/normal_prior.cc", "include/ceres/dynamic_cost_function_to_functor.h", "include/ceres/cost_function_to_functor.h", "internal/ceres/gradient_checker.cc", "internal/ceres/is_close.cc"],
  mech=[("ConditionedCostFunction::Evaluate", "internal/ceres/conditioned_cost_function.cc:78-130"), ("chain rule on dual numbers", "include/ceres/dynamic_cost_function_to_functor.h:117-180"), ("GradientChecker::Probe", "internal/ceres/gradient_checker.cc:142-290")],
  technique=VN, note=VNOTE),
 dict(id="C12", title="Small dense kernels compute exact products for every shape and offset",
  statement="Each small matrix-matrix, transposed matrix-matrix and matrix-vector kernel sets, adds to or subtracts from the destination exactly the mathematical product, for every shape, static or dynamic, including those not divisible by the unrolling width. Only the declared block of the destination, at its row and column offset and stride, is written, and only the declared operands are read.",
  over=["inputs", "configurations"], text="all matrix and vector entries (symbolic), all shapes in the enumerated range covering every unrolling remainder, set/add/subtract, block offsets within a larger destination, static and dynamic sizes, all kernel variants",
  why="Unrolled kernels have separate tails for each remainder of each dimension; no test of these kernels builds here and an error in one tail only slightly changes a Schur complement.",
  files=["internal/ceres/small_blas.h", "internal/ceres/small_blas_generic.h"], mech=[("MatrixMatrixMultiply, MatrixTransposeMatrixMultiply, MatrixVectorMultiply, MatrixTransposeVectorMultiply", "internal/ceres/small_blas.h"), ("unrolled inner loops", "internal/ceres/small_blas_generic.h")],
  technique=VN, note=VNOTE),
 dict(id="C13", title="A residual block evaluates to robustified cost and tangent-space Jacobian",
  statement="Evaluating a residual block gives half the robustified squared residual norm as cost, the loss-corrected residuals, and per requested block the loss-corrected product of the Jacobian with the manifold Jacobian, for every subset of requested outputs. Evaluation reports failure exactly when the cost function fails or leaves a requested value unfilled or non-finite.",
  over=["inputs", "configurations", "faults"], text="all residuals, Jacobians, loss values and manifold Jacobians (uninterpreted), every subset of null outputs, manifold or none per block, no loss / loss applied / loss not applied, one missing or non-finite value at every place, scratch of exactly the declared size",
  why="The combinations of manifolds, losses and null outputs are many, the rare ones are used only by special evaluators, and no test of residual blocks builds here.",
  files=["internal/ceres/residual_block.cc", "internal/ceres/residual_block.h", "internal/ceres/residual_block_utils.cc", "internal/ceres/array_utils.cc", "internal/ceres/corrector.cc"], mech=[("ResidualBlock::Evaluate", "internal/ceres/residual_block.cc:60-200"), ("IsEvaluationValid", "internal/ceres/residual_block_utils.cc")],
  technique=VN, note=VNOTE),
 dict(id="C14", title="Program state, bounds, offsets and reduction do what the solver relies on",
  statement="A program's update applies each block's manifold and then projects onto its bounds. Constant blocks keep their value in every state transfer, and the user's memory changes only when the state is explicitly committed. Offsets follow the block order; infeasible constant values and empty bound intervals are reported; reduction removes exactly the constant and unused blocks and adds the removed residuals' cost to the fixed cost.",
  over=["inputs", "configurations", "faults"], text="all states, steps, bounds (set, reset, one-sided, absent) and manifolds (uninterpreted), every subset of constant blocks, blocks with and without manifold including zero-dimensional ones, two block orders, failure of each manifold or residual",
  why="Mistakes show only for particular combinations of constant blocks, manifolds and one-sided bounds; no program or problem test builds here.",
  files=["internal/ceres/program.cc", "internal/ceres/parameter_block.h"], mech=[("Program", "internal/ceres/program.cc:60-450"), ("ParameterBlock", "internal/ceres/parameter_block.h:100-330")],
  technique=VN, note=VNOTE),
 dict(id="C15", title="TinySolver takes documented steps and reports consistent results",
  statement="TinySolver's reported costs, gradient norm, residuals and Jacobian belong to the returned parameters, and a step is taken only when it decreases the cost, also when the objective becomes non-finite. Every step is the damped, Jacobi-scaled Gauss-Newton step with the documented damping update, and the status names a criterion that actually holds at termination. One solver object can be reused for another problem with the same results as a fresh one.",
  over=["inputs", "histories", "configurations"], text="all residuals and Jacobians (uninterpreted), starting points and tolerances, up to five iterations with every accept/reject pattern, fixed and dynamic sizes, fresh and reused objects",
  why="The test solves a few problems to convergence; a wrong damping update or a stale summary field still converges.",
  files=["include/ceres/tiny_solver.h"], mech=[("TinySolver::Solve and Update", "include/ceres/tiny_solver.h:120-380")],
  technique=VN, note=VNOTE),
 dict(id="C16", title="Step quality follows the non-monotonic reference-iterate rule",
  statement="For every history of accepted and rejected steps the reported step quality is the better of the decrease ratios against the current and the reference iterate, with the reference iterate maintained by Algorithm 10.1.2 of Conn, Gould and Toint and the given maximum of consecutive non-monotonic steps. A failed cost evaluation yields the lowest quality.",
  over=["histories", "inputs"], text="all costs and model changes (ties included), every accept/reject sequence of the enumerated length, zero to four allowed non-monotonic steps",
  why="The evaluator is only exercised on one short monotone and one short non-monotone sequence; a stale candidate shows after a particular sequence of accepted increases only.",
  files=["internal/ceres/trust_region_step_evaluator.cc"], mech=[("StepQuality and StepAccepted", "internal/ceres/trust_region_step_evaluator.cc:49-110")],
  technique=VN, note=VNOTE),
 dict(id="C17", title="Trust region strategies compute documented steps, radii and statuses",
  statement="Levenberg-Marquardt and dogleg return the documented step for the current Jacobian, residuals and radius, reusing the previous factorization only after a rejected step, and never declare an unfilled or non-finite linear solution usable. After each accepted, rejected or invalid step the radius and regularization change by the documented rule and never exceed the configured limits.",
  over=["histories", "inputs", "faults"], text="all Jacobians, residuals, options and step qualities, sequences of compute, accept, reject, invalid and new-Jacobian operations, every linear-solver status, unfilled and non-finite solutions, all dogleg cases including the two-dimensional subspace",
  why="No strategy test builds here, and the existing ones take a step or two; most mistakes still converge, only more slowly or beyond the limit.",
  files=["internal/ceres/levenberg_marquardt_strategy.cc", "internal/ceres/dogleg_strategy.cc"], mech=[("LevenbergMarquardtStrategy", "internal/ceres/levenberg_marquardt_strategy.cc"), ("DoglegStrategy", "internal/ceres/dogleg_strategy.cc")],
  technique=VN, note=VNOTE),
 dict(id="C18", title="Compile-time dimensions, traits and index sequences are exact",
  statement="Compile-time sequence sums, scans and removals, parameter dimension offsets, Jet traits (rank, underlying scalar, compatible and promotable operands) and the array and matrix types selected for given sizes are exact for every size. Ill-formed block sizes and operands mixing Jets of different dimension are rejected at compile time.",
  over=["configurations", "inputs"], text="parameter packs of length 0 to 8 with varied entries, nested Jets up to depth 3, cv-qualified and reference operands, fixed, dynamic and bounded array sizes, every mixed-dimension operator",
  why="The existing tests instantiate about a dozen packs; an off-by-one in a scan or a wrongly promotable operand compiles and shows only for other packs.",
  files=["include/ceres/internal/integer_sequence_algorithm.h", "include/ceres/internal/parameter_dims.h", "include/ceres/internal/jet_traits.h", "include/ceres/internal/array_selector.h", "include/ceres/internal/eigen.h", "include/ceres/sized_cost_function.h"],
  mech=[("SumImpl, ExclusiveScanImpl, RemoveValue", "include/ceres/internal/integer_sequence_algorithm.h"), ("ParameterDims", "include/ceres/internal/parameter_dims.h"), ("Jet traits", "include/ceres/internal/jet_traits.h")],
  technique="type-level encoding: static assertions generated from a Python model of each trait, and compile-fail witnesses, decided by the compiler's type checker",
  note="Trusts clang's type checker; packs are enumerated up to length 8, beyond that the recursion is the same template."),
 dict(id="C19", title="PSD matrix inverses and the triangular work enumeration are exact",
  statement="InvertPSDMatrix returns the inverse of every positive definite matrix and, when full rank is not assumed, the Moore-Penrose pseudo-inverse of every positive semidefinite one, for fixed and dynamic sizes. The linear work index maps one-to-one onto the pairs of the upper triangle, diagonal included, for every size and within int range.",
  over=["inputs", "configurations"], text="all symmetric positive (semi)definite matrices of sizes 1 to 5 (symbolic entries), every rank, fixed and dynamic sizes; every work item for n up to 40 (120 thorough), sampled items up to the largest n whose triangle fits an int",
  why="Tests use one 5x5 spectrum and a few n; a dropped scaling or an index folding error at another parity or width leaves pairs unprocessed or processed twice.",
  files=["internal/ceres/invert_psd_matrix.h", "internal/ceres/parallel_utils.cc"], mech=[("InvertPSDMatrix", "internal/ceres/invert_psd_matrix.h:45-80"), ("LinearIndexToUpperTriangularIndex", "internal/ceres/parallel_utils.cc:35-90")],
  technique=VN, note=VNOTE),
 dict(id="C20", title="Trust region minimizer accepts, rejects and terminates as documented",
  statement="The minimizer returns the accepted point with the lowest cost, accepts a step exactly when its documented quality exceeds the minimum relative decrease, and counts and reports every iteration, radius and cost exactly. Each termination type names a criterion that holds, and user callbacks, time and iteration limits stop the loop as documented. Failures of evaluation, step computation or Plus never produce an accepted point or a convergence claim, and the evaluator is told of every new point.",
  over=["inputs", "histories", "faults", "configurations"], text="all costs, residuals, Jacobians, steps and options (uninterpreted), up to four iterations with every accept/reject/invalid pattern reached by sampling, failures of every evaluation and step, callbacks, non-monotonic steps, bounds with line search, inner iterations, Jacobi scaling on and off",
  why="No minimizer test builds here, and the existing ones run a few well-behaved problems to convergence; mistakes in bookkeeping or in fault handling still converge.",
  files=["internal/ceres/trust_region_minimizer.cc", "internal/ceres/minimizer.cc"], mech=[("TrustRegionMinimizer", "internal/ceres/trust_region_minimizer.cc:60-900"), ("Minimizer::RunCallbacks", "internal/ceres/minimizer.cc")],
  technique=VN, note=VNOTE),
dict(id="C21", title="Polynomial roots, minimization and interpolation are exact",
  statement="FindPolynomialRoots returns every real and complex root with its multiplicity, ignoring leading zero coefficients, whichever outputs are requested. Evaluation and differentiation are exact, interpolation reproduces every valid value and gradient of the samples, and minimization returns a point of the interval attaining the smallest value of the polynomial on it.",
  over=["inputs", "configurations"], text="all coefficients (symbolic) of degree 0 to 4 (5 thorough), multiple, zero and complex roots, up to two leading zeros, every subset of outputs; up to three samples with every combination of valid values and gradients; all intervals",
  why="The polynomial tests do not build here and use a few fixed polynomials; special cases (double roots, zero coefficients, null outputs) are separate code paths.",
  files=["internal/ceres/polynomial.cc", "internal/ceres/polynomial.h"], mech=[("FindPolynomialRoots", "internal/ceres/polynomial.cc:180-255"), ("MinimizePolynomial and interpolation", "internal/ceres/polynomial.cc:257-400")],
  technique=VN, note=VNOTE),
dict(id="C22", title="Line searches return only points satisfying their documented conditions",
  statement="Armijo search backtracks by interpolated steps within the contraction limits and succeeds only at a point with sufficient decrease. Wolfe search brackets and zooms as documented and returns a strong-Wolfe point or, when an artificial limit stops it, the best point found with sufficient decrease. Failed or non-finite evaluations never become the result; samples, success flag and counters are exact.",
  over=["inputs", "histories", "faults", "configurations"], text="all costs, gradients, directions, interpolated steps and options (uninterpreted), up to five (Armijo) and four (Wolfe) iterations, failures of Plus and of evaluations at any point, all interpolation types",
  why="The line search has no unit test at all; end-to-end tests pass whichever acceptable step it returns.",
  files=["internal/ceres/line_search.cc", "internal/ceres/line_search.h", "internal/ceres/function_sample.cc"], mech=[("ArmijoLineSearch::DoSearch", "internal/ceres/line_search.cc:281-365"), ("WolfeLineSearch", "internal/ceres/line_search.cc:371-890")],
  technique=VN, note=VNOTE),
dict(id="C23", title="Line search directions follow their documented formulas",
  statement="Steepest descent and the three nonlinear conjugate gradient variants return their documented direction, falling back to the negative gradient when it is not one of sufficient descent. BFGS and L-BFGS return minus the gradient times the inverse Hessian approximation built from exactly the pairs above the secant tolerance (all, or the last max_lbfgs_rank), with the documented initial scaling, and report failure exactly when that is not a descent direction.",
  over=["histories", "inputs", "configurations"], text="all gradients, directions, step sizes and tolerances; sequences of up to four (five thorough) updates with every listed pattern of accepted, negative and below-tolerance curvatures, ranks 1 to 3, scaling on and off",
  why="No test of the directions exists; a wrong or stale pair, scaling or history slot still converges, only slower.",
  files=["internal/ceres/line_search_direction.cc", "internal/ceres/low_rank_inverse_hessian.cc"], mech=[("LineSearchDirection subclasses", "internal/ceres/line_search_direction.cc:44-330"), ("LowRankInverseHessian", "internal/ceres/low_rank_inverse_hessian.cc:76-185")],
  technique=VN, note=VNOTE),
dict(id="C24", title="Line search minimizer steps, restarts and terminates as documented",
  statement="Every iteration takes the direction (or the negative gradient at the start and after a restart), the documented initial step and the point the line search returned; parameters, counters and one summary per iteration are exact, and the options reach the direction and the line search unchanged. Each termination type names a criterion that holds, failures of evaluation, Plus, direction or search end in FAILURE with the last good point kept, and the evaluator is told of every new point.",
  over=["inputs", "histories", "faults", "configurations"], text="all costs, gradients, directions, steps and options (uninterpreted), up to four iterations (six thorough), failures of every evaluation, direction and search, searches that return to where they started, restarts 0 to 2, callbacks",
  why="No test of the line search minimizer builds here; the existing ones run a few well-behaved problems to convergence.",
  files=["internal/ceres/line_search_minimizer.cc", "internal/ceres/minimizer.cc"], mech=[("LineSearchMinimizer::Minimize", "internal/ceres/line_search_minimizer.cc:87-475")],
  technique=VN, note=VNOTE),
dict(id="C25", title="Sparse and dense matrix formats agree with the matrix they represent",
  statement="For triplet, compressed row (plain, lower and upper triangular), block sparse and dense matrices, products with the matrix and its transpose, squared column norms, column scaling, zeroing and dense copies are those of the matrix represented, for every thread count. Conversions, transposes, diagonal constructors, resizing, appending and deleting rows yield a well-formed matrix (row starts, ordered columns, block structure, counts) holding exactly the expected entries, also when operations are chained.",
  over=["inputs", "configurations", "histories"], text="all values (symbolic) over a grid of concrete structures: empty and full rows, structural zeros, repeated triplets, cells out of memory order, one to several row and column blocks; 0 to 5 threads, with spare capacity and without",
  why="The tests of these formats need Abseil and do not build here; they sample a few random structures and rarely chain operations or mix threads with changed structures.",
  files=["internal/ceres/triplet_sparse_matrix.cc", "internal/ceres/compressed_row_sparse_matrix.cc", "internal/ceres/block_sparse_matrix.cc", "internal/ceres/dense_sparse_matrix.cc"], mech=[("BlockSparseMatrix", "internal/ceres/block_sparse_matrix.cc:60-800"), ("CompressedRowSparseMatrix", "internal/ceres/compressed_row_sparse_matrix.cc:45-820"), ("TripletSparseMatrix", "internal/ceres/triplet_sparse_matrix.cc")],
  technique=VN, note=VNOTE),
dict(id="C26", title="Parallel loops run every index exactly once and never deadlock",
  statement="ParallelFor calls the function for every index of the range exactly once, all before it returns and none after, with thread ids in [0, num_threads) never held by two concurrent calls. Nested and concurrent loops on one context finish for every pool size, without unordered conflicting accesses or lost wakeups. The thread pool runs every added task exactly once, in order, before its destructor returns; partitions are contiguous, at most the requested number and of minimal maximal cost.",
  over=["schedules", "inputs", "configurations"], text="ranges with any start, length and minimal block size up to a dozen work blocks, 1 to 5 threads, pools smaller and larger than that, nested and concurrent loops, several schedules of every configuration with vector clocks over every access; partitions of symbolic and extreme cumulative costs",
  why="Races, lost wakeups and double execution need one schedule of many; the tests of the parallel code need Abseil and do not build here.",
  files=["internal/ceres/parallel_for.h", "internal/ceres/parallel_invoke.h", "internal/ceres/parallel_invoke.cc", "internal/ceres/thread_pool.cc", "internal/ceres/concurrent_queue.h", "internal/ceres/partition_range_for_parallel_for.h"], mech=[("ParallelInvoke", "internal/ceres/parallel_invoke.h:60-280"), ("ThreadPool", "internal/ceres/thread_pool.cc:40-130"), ("ConcurrentQueue", "internal/ceres/concurrent_queue.h"), ("PartitionRangeForParallelFor", "internal/ceres/partition_range_for_parallel_for.h")],
  technique=VN, note=VNOTE),
dict(id="C27", title="Schur elimination computes the reduced system of the damped problem exactly",
  statement="For A = [E F], diagonal D and right hand side b, Eliminate computes every present block of the upper triangle of F'F + D_f^2 - F'E (E'E + D_e^2)^-1 E'F and F'b - F'E (E'E + D_e^2)^-1 E'b, and BackSubstitute the matching E variables, for every block structure, static size, number of threads and reduced matrix format, without data races. The Schur complement solvers hand exactly that system, all its nonzero blocks included, to the factorisation or to conjugate gradients, and return its solution completed by back substitution. Structure detection and dispatch choose static sizes that fit.",
  over=["inputs", "configurations", "schedules"], text="block structures with up to six column blocks, rows without E or F blocks, repeated and missing F blocks, rank deficient E blocks, with and without D, first and repeated use, 1 to 3 threads, dense, diagonal and sparse reduced matrices, all solvers; values symbolic; all detected size triples",
  why="The file tests need Abseil and do not build here; a missing lock, buffer clash or rare block pattern shows in a few schedules and structures only.",
  files=["internal/ceres/schur_eliminator.h", "internal/ceres/schur_eliminator_impl.h", "internal/ceres/schur_complement_solver.cc", "internal/ceres/block_random_access_sparse_matrix.cc", "internal/ceres/block_random_access_dense_matrix.cc", "internal/ceres/block_random_access_diagonal_matrix.cc", "internal/ceres/detect_structure.cc", "internal/ceres/invert_psd_matrix.h"], mech=[("SchurEliminator", "internal/ceres/schur_eliminator_impl.h:180-330"), ("SchurEliminatorForOneFBlock", "internal/ceres/schur_eliminator.h:380-600"), ("InitStorage", "internal/ceres/schur_complement_solver.cc:215-300"), ("DetectStructure", "internal/ceres/detect_structure.cc:39")],
  technique=VN, note=VNOTE),
dict(id="C28", title="Iterative Schur: views of E and F, implicit S, preconditioners and solver agree",
  statement="The partitioned views compute y += Ex, Fx, E'x, F'x and the block diagonals of E'E and F'F for every structure, static size and number of threads without data races. The implicit Schur complement gives S x (into a zeroed vector), its right hand side, the power series operator and the back substituted solution of the current matrix, D and b, also after a repeated Init. The iterative solver runs conjugate gradients on that system with the requested preconditioner, start and tolerances, and back substitutes unless it failed.",
  over=["inputs", "configurations", "schedules"], text="block structures with up to five column blocks, rows without E or F blocks, with and without D, first and repeated Init, identity, Jacobi, Schur Jacobi and power series preconditioners, 1 to 3 threads; values symbolic",
  why="Stale blocks after a second Init, a race in one partition or a preconditioner of the undamped matrix still converge on the sampled problems.",
  files=["internal/ceres/partitioned_matrix_view_impl.h", "internal/ceres/implicit_schur_complement.cc", "internal/ceres/iterative_schur_complement_solver.cc", "internal/ceres/power_series_expansion_preconditioner.cc", "internal/ceres/schur_jacobi_preconditioner.cc", "internal/ceres/preconditioner.h"], mech=[("PartitionedMatrixView", "internal/ceres/partitioned_matrix_view_impl.h:45-760"), ("ImplicitSchurComplement", "internal/ceres/implicit_schur_complement.cc:44-280"), ("IterativeSchurComplementSolver", "internal/ceres/iterative_schur_complement_solver.cc:64-160")],
  technique=VN, note=VNOTE),
dict(id="C29", title="Conjugate gradients and CGNR follow their definition, preconditioners theirs",
  statement="Conjugate gradients computes the iterates of the preconditioned method, with the residual recomputed as documented, and stops with the documented outcome and iterate on the documented tolerances, iteration limits and breakdowns, for any operator, preconditioner, right hand side and start. The block Jacobi preconditioners are the inverse of the block diagonal of A'A + D'D, and the subset preconditioner solves with the lower or upper triangle its factorisation asks for of A_s'A_s + D'D, where A_s is the rows from the given row block on, for every format, update and number of threads. CGNR runs conjugate gradients on A'A + D'D and A'b from zero with the requested preconditioner, limits and tolerances.",
  over=["inputs", "configurations", "histories"], text="dimensions up to four, iteration limits, reset periods and tolerances; five block structures, block sparse and compressed row, with and without D, first and repeated update, first row block of the subset, 1 to 3 threads; values symbolic",
  why="A stale residual, an off by one in a limit, or a preconditioner of the wrong rows slows convergence or stops early without failing a test.",
  files=["internal/ceres/conjugate_gradients_solver.h", "internal/ceres/cgnr_solver.cc", "internal/ceres/block_jacobi_preconditioner.cc", "internal/ceres/subset_preconditioner.cc", "internal/ceres/inner_product_computer.cc", "internal/ceres/eigen_vector_ops.h"], mech=[("ConjugateGradientsSolver", "internal/ceres/conjugate_gradients_solver.h:108-300"), ("CgnrSolver", "internal/ceres/cgnr_solver.cc:60-230"), ("BlockCRSJacobiPreconditioner", "internal/ceres/block_jacobi_preconditioner.cc:50-260"), ("SubsetPreconditioner", "internal/ceres/subset_preconditioner.cc:44-110")],
  technique=VN, note=VNOTE),
dict(id="C30", title="Direct linear solvers solve the damped system they are given",
  statement="Every solver that LinearSolver::Create makes for a direct type returns the minimiser of |Ax - b|^2 + |Dx|^2, whatever factorisation it is given, in repeated calls with new values and, for the dynamic solver, new structure, and leaves the Jacobian as it was. k refinement steps are k steps of iterative refinement with the matrix itself. A factorisation that fails is reported as FAILURE or FATAL_ERROR as documented and is not used, and each solver type gets its own solver and its documented replacement when nothing is eliminated.",
  over=["inputs", "configurations", "histories"], text="dense QR, dense normal equations, sparse and dynamic sparse normal equations, Eigen and LAPACK factorisations (routines by model), in double and mixed precision, 0 to 3 refinement steps, five block structures, with and without D, two solves in a row, failures at each stage; values symbolic",
  why="Refinement with the overwritten matrix, a stale pattern or rows of a former damping leave errors that tests at well conditioned points do not notice.",
  files=["internal/ceres/dense_cholesky.cc", "internal/ceres/dense_cholesky.h", "internal/ceres/dense_qr.cc", "internal/ceres/dense_qr_solver.cc", "internal/ceres/dense_normal_cholesky_solver.cc", "internal/ceres/sparse_normal_cholesky_solver.cc", "internal/ceres/dynamic_sparse_normal_cholesky_solver.cc", "internal/ceres/iterative_refiner.cc", "internal/ceres/sparse_cholesky.cc", "internal/ceres/eigensparse.cc", "internal/ceres/linear_solver.cc"], mech=[("DenseIterativeRefiner::Refine", "internal/ceres/iterative_refiner.cc:83"), ("SparseNormalCholeskySolver::SolveImpl", "internal/ceres/sparse_normal_cholesky_solver.cc:59"), ("DenseQRSolver", "internal/ceres/dense_qr_solver.cc:48"), ("RefinedDenseCholesky", "internal/ceres/dense_cholesky.cc:322-360"), ("LinearSolver::Create", "internal/ceres/linear_solver.cc:69")],
  technique=VN, note=VNOTE),
dict(id="C31", title="Evaluators assemble cost, residuals, gradient and Jacobian of the program",
  statement="Evaluator::Evaluate returns half the sum of the (robustified, if asked) squared norms of the residual blocks, their residuals in order, the gradient J'r and the Jacobian J with respect to the tangent spaces of the varying parameter blocks, in whatever combination is asked for, for dense, block sparse, compressed row and dynamic Jacobians, repeated calls and any number of threads; it fails when a residual block, a manifold or a non-finite cost fails, and tells the evaluation callback the point and flags it was called with. CreateJacobian returns a matrix of the documented structure, with the cells of the blocks to eliminate stored first, sorted columns and room for a diagonal, and refuses matrices with more entries than an int counts. Plus updates every parameter block by its own manifold.",
  over=["inputs", "configurations", "histories"], text="programs of up to four parameter and four residual blocks with manifolds, constant blocks, losses and repeated shapes, every number of blocks to eliminate, every combination of outputs, two calls in a row, 1 to 3 threads, failures of each user function; state and values symbolic",
  why="A stale thread-local gradient, a cell at the wrong offset or a column order that differs from the writer's only shows with constant blocks, several threads or repeated calls.",
  files=["internal/ceres/program_evaluator.h", "internal/ceres/evaluator.cc", "internal/ceres/block_jacobian_writer.cc", "internal/ceres/block_evaluate_preparer.cc", "internal/ceres/compressed_row_jacobian_writer.cc", "internal/ceres/dynamic_compressed_row_jacobian_writer.cc", "internal/ceres/dynamic_compressed_row_sparse_matrix.cc", "internal/ceres/dense_jacobian_writer.h", "internal/ceres/scratch_evaluate_preparer.cc", "internal/ceres/program.cc"], mech=[("ProgramEvaluator::Evaluate", "internal/ceres/program_evaluator.h:137-300"), ("BuildJacobianLayout", "internal/ceres/block_jacobian_writer.cc:70"), ("CompressedRowJacobianWriter", "internal/ceres/compressed_row_jacobian_writer.cc:96-250"), ("DynamicCompressedRowSparseMatrix::Finalize", "internal/ceres/dynamic_compressed_row_sparse_matrix.cc:69")],
  technique=VN, note=VNOTE),
dict(id="C32", title="A problem is what the operations on it have made of it, and evaluates as such",
  statement="After any sequence of AddParameterBlock, AddResidualBlock, RemoveResidualBlock, RemoveParameterBlock, SetParameterBlockConstant/Variable, SetManifold and bounds, every query of Problem reports exactly what that history implies, with and without fast removal; removing a parameter block removes the residual blocks that depend on it, and aliasing, size mismatches, duplicates and unknown blocks stop at a CHECK. Cost functions, loss functions and manifolds the problem owns are deleted exactly once, not while still in use, and others never. Problem::Evaluate and EvaluateResidualBlock return cost, residuals, gradient and Jacobian of the blocks asked for in the order given, with other parameter blocks held constant, and leave the problem and the user's memory as they were, also when they fail.",
  over=["inputs", "configurations", "histories"], text="histories of up to 25 operations over four parameter blocks, written out and drawn at random (90 of them, 600 in the thorough check), every choice of fast removal and ownership, every combination of outputs and subsets of blocks; values symbolic",
  why="A stale index after a removal, a cost function deleted with its first user or a block left constant by a failed evaluation shows only after particular sequences of operations.",
  files=["internal/ceres/problem_impl.cc", "internal/ceres/problem_impl.h", "internal/ceres/parameter_block.h", "internal/ceres/residual_block.cc", "internal/ceres/residual_block.h", "internal/ceres/program.cc", "internal/ceres/stl_util.h"], mech=[("ProblemImpl", "internal/ceres/problem_impl.cc:120-905"), ("DeleteBlockInVector", "internal/ceres/problem_impl.cc:388"), ("ParameterBlock", "internal/ceres/parameter_block.h:70")],
  technique=VN, note=VNOTE),
dict(id="C33", title="Orderings are permutations, and the blocks eliminated first are independent",
  statement="OrderedGroups reports the groups, members and sizes that AddElementToGroup, Remove, Reverse and Clear have made. ApplyOrdering and ReorderProgramForSchurTypeLinearSolver permute parameter and residual blocks without losing or repeating any, sort parameter blocks by the user's groups (computing independent first groups when there is only one), put the residual blocks of each eliminated block together and refuse orderings of other blocks and first groups that are not independent sets. ComputeSchurOrdering, ComputeStableSchurOrdering and ComputeRecursiveIndependentSetOrdering compute maximal independent sets that leave constant blocks last; Degree2MaximumSpanningForest returns a spanning forest of degree at most two that takes heavier edges first; and CreateJacobianBlockSparsityTranspose lists, for each residual block, exactly the varying parameter blocks it depends on.",
  over=["inputs", "configurations", "histories"], text="programs of up to 7 parameter blocks (14 for the block sparsity) and 16 residual blocks, graphs of up to 7 vertices, histories of up to 22 operations, drawn at random (24 of each, 120 in the thorough check); all three Schur type solvers",
  why="A first group that is not independent, or a residual block in another block's chunk, silently corrupts the Schur complement for the structures it concerns and no others.",
  files=["internal/ceres/parameter_block_ordering.cc", "internal/ceres/reorder_program.cc", "internal/ceres/graph_algorithms.h", "internal/ceres/graph.h", "include/ceres/ordered_groups.h", "internal/ceres/program.cc"], mech=[("ReorderProgramForSchurTypeLinearSolver", "internal/ceres/reorder_program.cc:468"), ("LexicographicallyOrderResidualBlocks", "internal/ceres/reorder_program.cc:278"), ("StableIndependentSetOrdering", "internal/ceres/graph_algorithms.h:165"), ("OrderedGroups", "include/ceres/ordered_groups.h:55"), ("IsParameterBlockSetIndependent", "internal/ceres/program.cc:417")],
  technique=VN, note=VNOTE),
]
