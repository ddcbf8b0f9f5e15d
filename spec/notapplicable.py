NA = [
 dict(id="C90", title="The minimizer converges to a stationary point",
  statement="With exact derivatives and enough iterations, a solve that reports convergence ends at a point whose gradient is small relative to the requested tolerance.",
  over=["inputs"], text="every twice differentiable problem and start point", why="Convergence depends on the numerical trajectory of every problem; tests sample some.",
  files=["internal/ceres/trust_region_minimizer.cc"], mech=[("trust region loop", "internal/ceres/trust_region_minimizer.cc")],
  reason="Quantifies over the numerical trajectory of the iteration in floating point; no static argument in reach bounds it."),
 dict(id="C91", title="All linear solver back ends solve the same system to the same accuracy",
  statement="For a well conditioned problem every linear solver and preconditioner combination yields the same step within rounding.",
  over=["inputs", "configurations"], text="every well conditioned problem, every back end", why="Needs numerical agreement between third-party factorizations.",
  files=["internal/ceres/linear_solver.cc"], mech=[("factory and back ends", "internal/ceres/linear_solver.cc")],
  reason="Numerical agreement of factorizations, several of them third-party code that is not even present here; not decidable from the source."),
 dict(id="C92", title="Results do not depend on the number of threads beyond rounding",
  statement="Solving with a different number of threads changes results only by rounding.",
  over=["schedules", "configurations"], text="every schedule and thread count", why="Schedules are not controlled by tests.",
  files=["internal/ceres/parallel_for.h"], mech=[("partitioned loops", "internal/ceres/parallel_for.h")],
  reason="Needs floating-point error bounds on reassociated sums; only the race-freedom part is static."),
 dict(id="C93", title="Adaptive numeric differentiation reaches its stated accuracy",
  statement="The adaptive extrapolation method delivers derivatives whose true error is close to the error it estimates.",
  over=["inputs"], text="all smooth functions", why="Depends on the function's higher derivatives and rounding.",
  files=["include/ceres/internal/numeric_diff.h"], mech=[("Ridders extrapolation", "include/ceres/internal/numeric_diff.h")],
  reason="The error of an extrapolation in floating point depends on unknown higher derivatives; no static bound exists."),
 dict(id="C94", title="Solve respects its wall-clock budget",
  statement="A solve returns soon after the configured maximum time has passed.",
  over=["schedules", "inputs"], text="all problems, machines and loads", why="Timing.",
  files=["internal/ceres/trust_region_minimizer.cc"], mech=[("time check", "internal/ceres/trust_region_minimizer.cc")],
  reason="Wall-clock time depends on user callbacks and the machine; the source does not bound it."),
]
