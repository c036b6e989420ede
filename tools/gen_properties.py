#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

IL = "altro/ilqr/ilqr.hpp"; KP = "altro/ilqr/knot_point_function_type.hpp"; AL = "altro/augmented_lagrangian/al_solver.hpp"; TP = "altro/common/threadpool.hpp"
TPC = "altro/common/threadpool.cpp"; TQ = "altro/common/threadsafe_queue.hpp"; TM = "altro/common/timer.cpp"
ST = "altro/common/solver_stats.cpp"; STH = "altro/common/solver_stats.hpp"; CV = "altro/constraints/constraint_values.hpp"
AC = "altro/augmented_lagrangian/al_cost.hpp"; LG = "altro/common/solver_logger.cpp"; OP = "altro/common/solver_options.hpp"

prop("C01", "Multi-threaded solves give exactly the single-threaded result",
 "For any problem whose user functions are deterministic, solving with any number of threads, tasks per thread or (default or custom) assignment of knot points to tasks gives bit for bit the trajectory, status, iteration counts and per-iteration statistics of the single-threaded solve. This holds whatever the interleaving of the worker threads and however long individual user functions stall, including longer than the thread pool's per-task timeout.",
 ["schedules", "configurations", "inputs", "fault_sequences"],
 "every interleaving of worker and caller threads, every thread count / tasks-per-thread / task assignment, every problem size, every pattern of stalls",
 "The tests solve one problem per configuration under whatever schedule the OS happens to produce; a lost, duplicated or reordered block of work only shows under particular interleavings, sizes or stalls.",
 [IL, TP, TPC, TQ], [("work partition into per-task knot intervals", f"{IL} LaunchThreads/DefaultTaskAssignment"), ("submit all tasks then wait for all", f"{IL} UpdateExpansions"), ("per-knot-point storage", "altro/ilqr/knot_point_function_type.hpp")],
 observe=["trajectory, status and statistics after a solve"])
prop("C02", "Parallel solves are free of data races and invalid memory accesses",
 "During a multi-threaded solve of a problem whose user objects are not shared between knot points, no two threads ever access the same memory without synchronisation when one of them writes, and no thread touches memory that has been freed or was never allocated. This holds during solving, when thread or task settings change between solves, and while the solver or its thread pool is stopped or destroyed.",
 ["schedules", "configurations", "histories"],
 "every interleaving of workers and caller, every thread/task configuration and every sequence of solves, reconfigurations and destruction",
 "A race is invisible to a test that does not observe the bad interleaving; the tests run without a race detector and under a handful of schedules.",
 [IL, TP, TPC, TQ, AC, CV], [("disjoint knot intervals per task", f"{IL} UpdateExpansionsBlock"), ("queue hand-off and future completion give happens-before", f"{TQ}, {TPC} Wait"), ("per-knot temporaries", f"{AC} dx_tmp_ etc.")])
prop("C03", "Every submitted task runs exactly once",
 "Every task added to the thread pool, whether before or after the threads are launched, is executed exactly once: never dropped, never run twice, and with its own state, regardless of thread count, interleaving, stopping and relaunching of the threads, or moving the pool between uses. Tasks still queued when the threads are stopped stay queued and run after the next launch.",
 ["schedules", "histories", "configurations", "fault_sequences"],
 "every sequence of add / launch / wait / stop / relaunch / move calls, every thread count, every interleaving, with stalled and throwing tasks",
 "The pool tests use 16 increments with 4 threads in five fixed call sequences; loss or duplication needs a particular interleaving of two pops, or of a pop with a stop.",
 [TP, TPC, TQ], [("single FIFO queue popped under lock", f"{TQ} TryPopHead"), ("worker loop", f"{TPC} WorkerThread")])
prop("C04", "Waiting on the pool is a barrier",
 "When waiting on the thread pool returns without having reported a timeout, every task submitted before the call has finished and all its memory effects are visible to the caller, and when the caller may wait again the pool accepts new tasks with the same guarantee. A wait never blocks longer than the configured timeout for each task it waits for, and never returns early while no task has exceeded its timeout.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving of workers and waiter, every set of task durations and timeouts in simulated time, spurious wake-ups, repeated waits",
 "Timeout behaviour and visibility cannot be tested with real ten-second stalls, and a missing happens-before edge is unobservable on one x86 run.",
 [TP, TPC], [("one future per task, waited with a timeout", f"{TPC} Wait"), ("task completion publishes through the future", f"{TP} AddTask")])
prop("C05", "The thread pool always stops, restarts and is destroyed cleanly",
 "Stopping or destroying the pool always terminates without deadlock, never kills the process, leaves no thread behind, and no task starts or is still running once the stop has returned. Launching after a stop works again, and if the operating system refuses to create a thread the error is reported to the caller and the pool is left stopped, destructible and usable.",
 ["schedules", "histories", "fault_sequences"],
 "every point at which a stop, destruction or move can land relative to queued, starting, running and finished tasks, and every thread-creation failure",
 "Tests stop an idle pool; they never stop one while tasks are in flight under adversarial schedules, and cannot make thread creation fail.",
 [TP, TPC], [("running flag polled by workers, join on stop", f"{TPC} StopThreads/WorkerThread"), ("launch cleanup", f"{TPC} LaunchThreads")])
prop("C06", "The work queue is a linearizable FIFO with an exact size",
 "Under any interleaving of concurrent pushes, pops, emptiness and size queries, the queue behaves like one sequential first-in-first-out queue: each value pushed is popped at most once and by one caller, values come out in push order, and a pop fails only if the queue was empty at some instant during the call. The reported size is never negative or larger than the number of values pushed and not yet popped, clearing empties it, and a moved queue carries its content along.",
 ["schedules", "histories", "inputs"],
 "every interleaving of operations of several producer and consumer threads, every history including clear and move",
 "The queue tests are single-threaded with three operations; linearizability quantifies over all concurrent histories.",
 [TQ], [("two-lock linked queue with dummy node", f"{TQ} Push/TryPopHead/GetTail"), ("atomic element counter", f"{TQ} Size")])
prop("C07", "A failing user function surfaces identically for any thread count",
 "If a user-supplied cost, dynamics or constraint function throws during a solve, the solve reports that failure to the caller by throwing, with any number of threads just as with one, and never hangs, terminates the process or returns a result computed from incomplete work. Once the solve has returned or thrown, no user function is still running or will be run in the background.",
 ["fault_sequences", "schedules", "configurations"],
 "every position (knot point, function, call number) of one or several throwing calls, every thread configuration, every interleaving",
 "No test makes a user function throw; which worker holds the failing block and what the others do meanwhile depends on the schedule.",
 [IL, TP, TPC], [("tasks wrapped in packaged tasks with futures", f"{TP} AddTask"), ("waiting for all tasks in the expansion step", f"{IL} UpdateExpansions")])
prop("C08", "A solve does not depend on the solver's history",
 "Solving again with the same problem, options, initial state and initial guess (for a bare iLQR solver: after resetting its statistics) gives bit for bit the result of a fresh solver, whatever was done with the solver before: solves that converged, hit a limit or were aborted by a failing user function, changed options, penalties reset by the options, and changed thread counts. Setting a new initial state in the problem is honoured by the next solve.",
 ["histories", "fault_sequences", "configurations"],
 "every history of solves, option and thread-count changes, initial-state changes and interrupted solves preceding the observed solve (multipliers reset and initial penalty set by the options; statistics reset for a bare iLQR solver)",
 "Tests solve once per solver object, at most twice with the same settings; leftover state from a particular history shows only in that history.",
 [IL, AL, ST, CV], [("re-initialisation before each solve", f"{IL} SolveSetup/ResetInternalVariables, {AL} Init"), ("statistics reset", f"{ST} Reset"), ("thread pool rebuilt when settings change", f"{IL} LaunchThreads")])
prop("C09", "The returned trajectory is dynamically feasible",
 "When a solve returns, whatever its status, the trajectory starts at the problem's current initial state and every following state is exactly the discrete dynamics applied to the previous state, control, time and time step; the time grid supplied by the user is unchanged. If forward-pass bounds checking is on, no accepted step leaves the configured state and control limits.",
 ["histories", "fault_sequences", "inputs", "configurations"],
 "every way a solve can end (converged, any limit, failing line search, failing regularisation, exceeded bounds, non-finite values), every history and thread configuration",
 "Tests look at converged trajectories of two problems; a candidate that is partly copied, rejected late or belongs to an older gain shows only on unusual exits.",
 [IL], [("closed-loop rollout into a scratch trajectory, copied only on success", f"{IL} RolloutClosedLoop/ForwardPass"), ("time grid copied at setup", f"{IL} SolveSetup")])
prop("C10", "A reported success is honest",
 "If a solve reports that it succeeded, then re-evaluating the user's constraints on the returned trajectory gives a violation below the constraint tolerance in force, and the logged cost decrease and gradient of the last iteration are below their tolerances. The violation the solver reports, in total and constraint by constraint, is that of the returned trajectory, not of a rejected candidate or an earlier solve.",
 ["histories", "fault_sequences", "configurations", "inputs"],
 "every solve history, tolerance and line-search setting, every pattern of rejected candidates, aborted solves and injected failures",
 "Tests check success on problems that converge smoothly; stale status or stale constraint values need a failed line search or an aborted previous solve.",
 [AL, IL, CV, AC], [("constraint values refreshed by cost evaluations", f"{CV} AugLag"), ("convergence test", f"{AL} IsDone, {IL} IsDone")])
prop("C11", "Accepted steps never increase the cost",
 "Within one unconstrained or augmented-Lagrangian inner solve the objective evaluated on the solver's current trajectory never increases from one iteration to the next and never exceeds the cost of the initial rollout, and the logged cost, cost decrease and initial cost equal that independent evaluation. A step that does not decrease the cost, violates the limits or produces non-finite values is not taken.",
 ["histories", "inputs", "fault_sequences", "configurations"],
 "every sequence of iterations, line-search setting, regularisation history and injected non-finite or diverging user function",
 "Tests check the final cost of smooth problems; acceptance errors appear only when candidates are rejected or fail part-way.",
 [IL], [("line search acceptance test", f"{IL} ForwardPass"), ("convergence statistics", f"{IL} UpdateConvergenceStatistics")])
prop("C12", "Every solve terminates within its limits with a truthful status",
 "A solve always returns after at most the configured numbers of inner, outer and total iterations (total limit at least 1), line-search steps and regularisation attempts, even when user functions return non-finite, diverging or indefinite values. The status it reports matches what happened: a limit status only if that limit was reached, a bounds status only if a candidate left the bounds, a regularisation failure whenever the backward pass gave up, and never a status left over from an earlier solve.",
 ["fault_sequences", "histories", "configurations", "inputs"],
 "every limit setting, every sequence of injected non-finite, indefinite or diverging values, every earlier history",
 "Tests never hit most limits and never feed bad numerics; non-termination and stale status need particular failure sequences.",
 [IL, AL], [("iteration counters and limits", f"{IL} IsDone, {AL} IsDone"), ("regularisation growth and fail threshold", f"{IL} BackwardPass")])
prop("C13", "Profile times are exact and consistent under any clock",
 "For every profiled scope, the reported time is the monotonic time spent in it: never negative, unaffected by jumps of the wall clock, accumulated over repeated scopes, attributed to the scope that was enclosing it when it started, and therefore never larger in sum over nested scopes than the enclosing scope. The printed percentages are the ratios of those times for profiles of any length, and an exception leaving profiled scopes leaves the profile consistent.",
 ["histories", "fault_sequences", "inputs"],
 "every nesting and repetition of scopes, scope names, durations from nanoseconds to days, wall-clock jumps forwards and backwards, activation changes between profiles and exceptions",
 "Timing tests need a clock the test controls; the existing ones use real sleeps, are flaky and are not in the stable suite.",
 [TM, "altro/common/timer.hpp", "altro/common/profile_entry.cpp"], [("scope guard objects on a name stack", f"{TM} Start/~Stopwatch"), ("tree built from sorted names", f"{TM} PrintSummary"), ("percentages", "altro/common/profile_entry.cpp CalcStats")])
prop("C14", "Logging, profiling and output failures never affect a solve",
 "Verbosity, profiling, the header frequency, the clock and failures while writing to the standard output or to the profile file change neither the trajectory, status nor statistics of a solve. A profile file that cannot be opened is reported by an exception that leaves the solver usable, no solve leaks a file descriptor or closes the standard output, and the profile of a solver that profiles to a file is completely there once the solver has been destroyed.",
 ["fault_sequences", "configurations", "histories"],
 "every logging/profiling configuration, every open/write/close failure position, every clock behaviour, every sequence of solves switching outputs",
 "Tests never make output fail and never look at descriptors across repeated solves with changing options.",
 [TM, ST, LG, OP], [("profiler output switching", f"{ST} ProfilerOutputToFile, {TM} SetOutput"), ("log level gating", f"{LG} Print")])
prop("C15", "Multipliers and penalties evolve by the augmented-Lagrangian rules",
 "At the end of every outer iteration each multiplier equals the projection onto the dual cone of the old multiplier minus the penalty times the constraint value on the trajectory that iteration returned, so inequality multipliers never have the wrong sign. Each penalty starts at the configured initial value, is multiplied by its scaling factor exactly once per completed outer iteration that continues, and the logged maximum penalty is the true maximum.",
 ["histories", "fault_sequences", "configurations"],
 "every sequence of outer iterations, per-constraint penalty scalings, rejected line searches, resets and warm starts, any thread configuration",
 "Tests check one hand-computed update; a dual update from a stale or rejected candidate needs a specific iteration history.",
 [CV, AC, AL], [("dual update", f"{CV} UpdateDuals"), ("penalty update", f"{CV} UpdatePenalties"), ("outer loop order", f"{AL} Solve")])
prop("C16", "Running out of memory is reported, not fatal",
 "If any single memory allocation fails while tasks are being submitted, threads launched, or a problem solved, the failure reaches the caller as an exception; the process does not crash, hang or terminate, nothing keeps running in the background, and nothing is corrupted. After memory is available again the same object can be used or destroyed and produces correct results.",
 ["fault_sequences", "schedules"],
 "every position of a failing allocation in submission, launch, queue, expansion and solve paths, under every interleaving",
 "Unit tests cannot make the n-th allocation fail on a chosen thread under a chosen schedule.",
 [TP, TPC, TQ, IL, AL], [("strong/basic exception safety of queue and pool", f"{TQ} Push, {TPC} LaunchThreads"), ("task submission in the expansion step", f"{IL} UpdateExpansions")])
prop("C17", "Solve statistics agree with what happened",
 "After every solve the iteration counters equal the number of iterations actually performed, every per-iteration series has the same length consistent with those counters, and each entry (cost, step length, cost decrease, gradient, violation) belongs to the iteration it is filed under. This holds for every way a solve can end, across repeated solves, and independently of the verbosity.",
 ["histories", "configurations", "fault_sequences"],
 "every sequence of solves with changing options, every termination cause including aborted solves",
 "Tests compare a few final counters on converged solves.",
 [ST, STH, IL, AL], [("statistics container", f"{STH} SetData, {ST} NewIteration/Reset"), ("logging calls", f"{IL} UpdateConvergenceStatistics, {AL} UpdateConvergenceStatistics")])
prop("C18", "Every knot point is processed exactly once per expansion",
 "For every number of knot points, thread count (including one per hardware core, whatever the core count reported) and tasks per thread, the default partition is a set of contiguous non-empty or empty blocks covering each knot point exactly once including the terminal one, and each expansion evaluates each knot point's functions exactly once, never concurrently with itself. A valid custom partition is used as given from the next solve on and an invalid one is rejected; each solve uses the number of threads requested when it starts.",
 ["configurations", "schedules", "histories"],
 "every horizon length, thread count, core count, tasks-per-thread, custom assignment, order of changing them between solves, and interleaving",
 "Tests use a few divisible sizes; rounding of the partition fails only for particular combinations and re-assignment only in particular orders.",
 [IL, OP], [("partition computation", f"{IL} DefaultTaskAssignment/SetTaskAssignment"), ("task creation", f"{IL} LaunchThreads")])
prop("C19", "Moved objects behave like the originals",
 "Moving a solver, its statistics, a thread pool or a queue into a new object, or moving a pool or queue over an existing one, at any point between operations yields an object that continues exactly as the original would have, without referring to the original again; the original and the destination stay destructible. Copying or moving a problem definition keeps its horizon, initial state, dynamics, costs and constraints.",
 ["histories", "schedules"],
 "every point between operations at which a move can happen, with queued tasks, previous solves, launched and stopped threads, followed by every further operation",
 "Tests move objects that are barely used and never destroy the original before using the new one.",
 [IL, STH, TPC, TQ, "altro/problem/problem.hpp", AL], [("move constructors", f"{IL}, {TPC}, {TQ}"), ("statistics registry", f"{ST} SetPtr")])
prop("C20", "Independent solvers do not interfere",
 "Two or more solver objects for separate problems used at the same time from different caller threads, each with its own options, threads, logging and profiling, give bit for bit the results each gives when used alone, without data races between them.",
 ["schedules", "configurations"],
 "every interleaving of two or three concurrently solving callers with their worker threads",
 "Tests never run two solvers concurrently; hidden shared state (static buffers, shared defaults) only matters then.",
 [IL, AL, STH, OP, "altro/common/functionbase.cpp"], [("no mutable global state", f"{STH}, {OP}"), ("each solver owns its pool, statistics and timer", f"{IL}")])
# --- pure functions: recorded, not claimed with this technique
prop("C21", "Dynamics integrators and their derivatives are consistent",
 "The discrete-time dynamics produced by the integrators advance the continuous dynamics over the given time and step, and the discrete Jacobian equals the derivative of the discrete dynamics with respect to state and control, for any state, control, time and step.",
 ["inputs"], "every state, control, time and step, every continuous model",
 "Sampled points only.", ["altro/problem/integration.hpp", "altro/problem/discretized_model.hpp", "examples/unicycle.cpp", "examples/triple_integrator.cpp"],
 [("explicit Euler and Runge-Kutta 4", "altro/problem/integration.hpp")])
prop("C22", "Cost and constraint derivatives match their functions",
 "The analytic gradients, Hessians and Jacobians of the shipped cost functions, constraints and of the augmented-Lagrangian terms equal the derivatives of the corresponding values wherever these are differentiable, and the finite-difference checkers accept exactly the correct ones.",
 ["inputs"], "every state, control, multiplier and penalty",
 "Sampled points only.", [CV, AC, "examples/quadratic_cost.cpp", "examples/basic_constraints.hpp", "examples/obstacle_constraints.hpp", "altro/common/functionbase.cpp", "altro/utils/derivative_checker.hpp"],
 [("analytic expansions", f"{CV} AugLagGradient/AugLagHessian"), ("finite-difference checks", "altro/common/functionbase.cpp")])
prop("C23", "Cone projections are true projections",
 "The projection onto each constraint cone returns the nearest point of the cone, is idempotent, pairs correctly with its dual cone, and its Jacobian is a generalised derivative of the projection.",
 ["inputs"], "every vector", "Sampled vectors only.", ["altro/constraints/constraint.hpp"], [("cone definitions", "altro/constraints/constraint.hpp")])
prop("C24", "A problem always is exactly what its accepted definitions made it",
 "After any sequence of setting and replacing dynamics, cost functions, initial states and constraints, singly or as whole vectors, of copying, moving and assigning problems and of building solvers from them, also when memory runs out in the middle of any of these: the problem holds exactly the last accepted definition of every part, an operation that fails changes nothing, a copy is independent of its original, the constraint counts are those of the constraints set, and the problem is reported as fully defined if and only if every knot point has a cost function, every non-terminal knot point has dynamics and the initial state has the size of the first dynamics. Definitions for knot points that do not exist, null dynamics or constraints and constraints without outputs are rejected when made; a problem that is not fully defined or does not fit the solver's compile-time dimensions is rejected when a solver is built from it.",
 ["histories", "fault_sequences"], "every history of definitions, replacements, copies, moves and failed allocations", "Tests set a few partial definitions once each, never replace one, and no allocation fails in them.",
 ["altro/problem/problem.cpp", "altro/problem/problem.hpp", "altro/ilqr/ilqr.hpp", "altro/augmented_lagrangian/al_problem.hpp"],
 [("validation", "altro/problem/problem.cpp IsFullyDefined"), ("definition setters", "altro/problem/problem.hpp SetDynamics/SetCostFunction/SetConstraint/SetInitialState"), ("use by the solvers", "altro/ilqr/ilqr.hpp InitializeFromProblem")])
prop("C25", "The console log shows what the solver records",
 "Printed log rows and headers show the most recently recorded values in the configured columns, order, width, format and verbosity level, coloured by the configured bounds; the header appears at the configured frequency; a level of silent prints nothing; a value is recorded only if the verbosity level includes its entry when it is logged. This holds over any history of logging, printing, reconfiguring, clearing, copying and moving loggers and statistics, and a print that fails because the output is broken or full does not change what later prints show. During a solve the rows are those of the statistics: one row per inner or outer iteration as the level asks for, in order, with the values the statistics report for that iteration.",
 ["histories", "fault_sequences", "configurations"], "every history of log, print, reconfigure, copy and clear operations, every solve, with output failures in between", "Tests print a few rows once and compare nothing with the recorded statistics; no output failure happens in them.",
 ["altro/common/log_entry.cpp", "altro/common/log_entry.hpp", LG, STH],
 [("row and header", "altro/common/solver_logger.cpp Print/PrintHeader/PrintData"), ("colours and widths", "altro/common/log_entry.hpp"), ("statistics feed the logger", "altro/common/solver_stats.hpp Log/PrintLast")])
prop("C26", "Every iteration is the one the algorithm defines",
 "Every iteration of every solve, at any thread count and in any history, is the step that the method defines at the current trajectory, multipliers and penalties: the gains are those of the Riccati recursion over the expansion of dynamics, costs and constraint terms with the regularisation added to the control block and the cost-to-go taken from the unregularised action-value function; the regularisation starts at its configured initial value in every inner solve, grows by the configured rule after every failed factorisation and failed line search and shrinks after every backward pass, within its configured minimum and maximum (or is always zero if it is disabled), and the solve gives up exactly when the configured number of failures at the maximum (or at a value that can no longer grow) is reached; the line search takes the first step length of its sequence whose closed-loop rollout keeps the bounds, lowers the objective and has an improvement ratio within the configured limits, otherwise the trajectory stays unchanged; the reported gradient, improvement ratio and regularisation and the feedback policy available after the solve are those of the iteration; and after each iteration the solve continues, begins a new outer iteration or stops with a particular status exactly as the configured tolerances and limits say.",
 ["inputs", "configurations", "histories", "fault_sequences", "schedules"],
 "every problem, guess, option setting, sequence of iterations with failed factorisations, exceeded bounds and rejected steps, and every interleaving of the expansion tasks",
 "Tests compare two or three intermediate values on one problem; rejected steps, exceeded limits and repeated failures in mid-solve, and the state they leave for the next iteration, are reached only by particular histories.",
 [IL, KP, CV, AL], [("backward pass and regularisation", f"{IL} BackwardPass/IncreaseRegularization/DecreaseRegularization, {KP} CalcGains/CalcCostToGo"), ("line search", f"{IL} ForwardPass/RolloutClosedLoop"), ("stopping rules", f"{IL} IsDone, {AL} IsDone"), ("constraint terms", f"{CV} AugLagGradient/AugLagHessian")])
prop("C27", "Benchmark results are exact under any clock",
 "Benchmarking a function runs it exactly the requested number of times, one call after the other, and every sample is the monotonic time of one call: never negative and unaffected by jumps of the wall clock, whatever else runs at the same time or is benchmarked inside. The reported number of samples, minimum, maximum, mean, median and standard deviation are those of the samples, in the unit asked for, for any number of samples from one, and printing shows these numbers; no samples at all are rejected. If the function fails or memory runs out, the failure reaches the caller and the function is not called again.",
 ["inputs", "fault_sequences", "schedules"], "every number of samples, unit, duration of the calls, wall clock jump, failing call and concurrent or nested benchmark",
 "The two tests use real sleeps and one list of five samples; clock jumps, failing functions and one or no sample never occur.",
 ["altro/utils/benchmarking.hpp"], [("sampling", "altro/utils/benchmarking.hpp Benchmark"), ("statistics", "altro/utils/benchmarking.hpp BenchmarkResults::Calculate")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
