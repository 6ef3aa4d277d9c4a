"""What each check runs: number of seeds of the quick tier, fault kinds, what makes a case non-trivial, assumptions."""
A = ["the simulator's scheduler switches only at instrumented memory accesses, atomics, lock operations and callback boundaries of the code under test; sequentially consistent memory",
     "objectives, gradients and transformations supplied by the harness are deterministic and thread-safe, as the documentation asks of parallel evaluation",
     "a clean batch is evidence over the sampled seeds, not a proof"]
def c(n, faults, nontriv, extra=(), **k): return dict(n=n, faults=faults, nontriv=nontriv, assumptions=A + list(extra), **k)
CHECKS = {
 "C01": c(26000, ["thread interleaving (5 scheduling policies)", "stalled workers"], "the parallel run made more than two context switches inside parallel regions."),
 "C02": c(40000, ["NaN/inf objective values", "thread interleaving", "restarts"], "more than two generations ran."),
 "C03": c(40000, ["NaN/inf objective values", "restarts", "budget exhaustion at arbitrary points"], "the evaluation budget was reached during the run."),
 "C04": c(20000, ["NaN/inf objective values", "thread interleaving"], "more than two generations ran on a bounded problem."),
 "C05": c(30000, ["NaN/inf objective values", "thread interleaving", "restarts"], "more than two generations ran with at least one fixed parameter."),
 "C06": c(26000, ["NaN/inf objective values", "thread interleaving", "restarts"], "more than two generations ran."),
 "C07": c(32000, ["NaN, +inf and -inf objective values, isolated and in bursts"], "at least one faulty value was returned to the optimizer.", ["once the search has wandered beyond 1e15 after an objective unbounded below, finiteness is no longer demanded"]),
 "C08": c(36000, ["changed entropy, wall clock, C library random state, memory contents", "prior optimizations in the process"], "more than one generation ran in both environments."),
 "C09": c(26000, ["thread interleaving", "step interleaving", "nested runs"], "the optimizations really interleaved."),
 "C10": c(44000, ["lost, duplicated, reordered and delayed results", "worker crashes and retries"], "more than one generation was told."),
 "C11": c(40000, ["exceptions thrown by user code at a chosen call of a chosen site", "thread interleaving"], "the exception was thrown."),
 "C12": c(44000, ["failing memory allocations (the k-th, one or several)"], "an allocation failed during the run.", ["the harness's own allocations never fail"]),
 "C13": c(30000, ["cancellation at an arbitrary progress callback", "NaN/inf objective values"], "every case: it is run to its end, under a bound."),
 "C14": c(40000, ["NaN/inf objective values", "switched-off criteria"], "the run returned a final status."),
 "C15": c(24000, ["short writes", "EINTR", "ENOSPC", "EIO", "failing open", "crash between any two writes"], "an I/O fault fired, or the fault-free file was compared line by line.", ["write errors persist once they occur, as on a full or failed disk"]),
 "C16": c(24000, ["NaN/inf objective values"], "more than three generations ran with re-injection on."),
 "C17": c(40000, ["process loss with only a checkpointed solution object surviving", "resume, twice"], "a checkpoint was taken and resumed from."),
 "C19": c(30000, ["wall-clock steps forwards and backwards", "stalls in the objective"], "a clock step fired or time passed in the objective."),
 "C23": c(5600, ["NaN/inf objective values, isolated and in bursts", "exceptions thrown by the objective", "failing memory allocations", "changed entropy, wall clock, memory contents"], "the profile or contour made more than twenty objective calls.", ["the user transformations used for contours are linear: the contour code works in user space and needs their inverse"]),
 "C18": c(5000, ["NaN/inf objective values", "thread interleaving in kernel computation, training and prediction", "restarts"], "a surrogate was trained.", ["surrogates other than the ranking SVM of the repository are not part of the tree"], surr=True),
 "C21": c(20000, ["NaN/inf objective values", "thread interleaving", "lost, duplicated, reordered and delayed results of remote evaluation", "restarts"], "more than two generations ran on the original objective and its values stayed between 1e-60 and 1e60 in size.", ["the transformations act on mantissa and exponent and are exact and strictly increasing on doubles"]),
 "C24": c(32000, ["NaN/inf objective values", "thread interleaving", "lost, duplicated, reordered and delayed results of remote evaluation", "restarts"], "more than two generations were compared with the model.", ["steps are compared while the covariance's condition number keeps rounding below 1e-5", "where the literature allows two readings (path constant of the separable variant, damping of VD) either is accepted, for a whole run"]),
 "C25": c(32000, ["NaN/inf objective values", "thread interleaving", "restarts"], "populations with more than ten degrees of freedom were measured.", ["statistical thresholds at 7.5 standard deviations and beyond"]),
 "C26": c(24000, ["NaN/inf objective values, isolated and in bursts of whole generations", "thread interleaving"], "every case: it is run until it stops.", ["three seeds in a row have to fail"]),
 "C27": c(20000, ["NaN/inf objective values", "cancellation at an arbitrary progress callback", "budget exhaustion at arbitrary points", "thread interleaving"], "at least one restart took place."),
}
