#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text is easy to edit and review)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

CACHE = "dolo/misc/caching.py"
prop("C01", "The on-disk function cache is transparent over every history of calls",
     "A function decorated for on-disk caching returns, for every history of calls, restarts of the program and cache clearings, exactly the value the undecorated function returns for those arguments: two calls that differ in any argument value, type, array shape, position or keyword never share an answer, and functions with different names never share answers. "
     "A call repeated with equal arguments (numbers, strings, tuples, lists, dictionaries, numpy arrays) after its value was stored is answered without running the function again, in the same process and after a restart, whatever the hash seed. "
     "An exception raised by the function reaches the caller, and nothing is remembered for that call.",
     ["histories", "inputs", "configurations"],
     "all histories of calls over several decorated functions with numeric, string, array, container and keyword arguments, interleaved with process restarts under different hash seeds, changes of directory away from and back to the cache, and cache clearing",
     "The two tests call one function twice with one argument pair; aliasing needs two different argument lists, and restarts or hash seeds never occur in a test process.",
     [CACHE], [("on-disk cache decorator: key derivation, lookup, store", CACHE + ": cachedondisk.__call__, hashable")],
     [("entry file", "pickled value of one call", CACHE + ": cachedondisk.__call__")], ["return value", "number of evaluations of the wrapped function"])
prop("C02", "A crash while a cached value is being stored never poisons the disk cache",
     "If the program is killed at any moment while a cached function runs or stores its value, or a cache entry is left truncated or empty by the crash, then after a restart every call returns the value the undecorated function would return and raises no error. "
     "Once a call has completed without a fault after the restart, its entry is usable again: the next equal call does not run the function.",
     ["crash_points", "histories"],
     "every point of file-system activity of every store (before, inside and after each open, write, flush, close and rename), every prefix length of a torn entry, any number of crashes and restarts",
     "No test kills a process or truncates a file; a torn entry only appears when a crash lands inside a write.",
     [CACHE], [("entry write and entry read", CACHE + ": cachedondisk.__call__")],
     [("entry file", "must be either absent, complete, or recognised as unusable", CACHE)], ["return values after restart"])
prop("C03", "Disk errors and concurrent callers never change what a disk-cached call returns",
     "A cached call whose cache reads or writes fail (disk full, permission denied, I/O error, too many open files, read-only or vanished cache directory, short or failing reads) still returns the value of the undecorated function; the failure costs at most a recomputation. "
     "The same holds when several threads or processes call the same cached functions and clear the cache at the same time, and once faults stop the cache works again.",
     ["fault_sequences", "schedules", "histories"],
     "all sequences of injected failures on the file operations behind the cache and all interleavings of two or three callers at file-operation granularity",
     "Tests run one caller on a healthy disk.",
     [CACHE], [("error handling around entry read/write", CACHE + ": cachedondisk.__call__"), ("clear_cache", CACHE + ": clear_cache")],
     None, ["return values", "exceptions seen by callers"])
prop("C04", "The in-memory memoizer is transparent over every history and interleaving",
     "A function memoized in memory returns, for every history of calls and every interleaving of calling threads, exactly what the undecorated function returns for those arguments; calls that differ in any argument value, type, array shape, position or keyword never share an answer. "
     "An equal call made after an earlier one completed does not run the function again, and an exception or interrupt inside the function reaches the caller and leaves nothing remembered for that call.",
     ["histories", "schedules", "inputs"],
     "all histories of calls by one to three threads with numeric, string, array, container and keyword arguments, with failing and interrupted evaluations",
     "The memoizer has no test at all; aliasing needs colliding arguments and interleavings need a scheduler.",
     [CACHE], [("in-memory memoizer", CACHE + ": memoized.__call__, hashable")],
     [("memo table", "argument key to value", CACHE + ": memoized.cache")], ["return value", "number of evaluations"])
prop("C05", "The disk dictionary returns the last value stored, or nothing, across crashes",
     "Over any history of stores and reads with sequence keys, a disk dictionary returns for a key the value of the last completed store of that key, also from a new process, and nothing for a key never stored; different keys (whatever their values, types or array shapes) and dictionaries of different name or directory never share values. "
     "If a store is cut short by a crash or a disk error, a later read of that key returns the previous value, the new value or nothing, never anything else, never raises, and other keys are unaffected; a completed later store is then readable.",
     ["histories", "crash_points", "fault_sequences"],
     "all histories of stores, reads and restarts over several dictionaries, with a crash or disk error at every file operation",
     "The class has no test.",
     [CACHE], [("disk-backed dictionary", CACHE + ": DiskDictionary.__setitem__, DiskDictionary.get")],
     [("entry file", "pickled value of one key", CACHE + ": DiskDictionary.get_filename")], ["get() results"])
prop("C06", "Clearing the cache removes exactly the named function's entries",
     "Clearing the cache for a function name makes every later call of that function evaluate it again once, and leaves the entries of all other functions (also those whose name merely starts or ends alike) usable; clearing without a name does so for all functions. "
     "Clearing never touches any file other than cache entries in the cache directory, whatever the name passed (spaces, quotes, wildcards, path separators, shell metacharacters), and never raises, also when the directory is missing or removals fail.",
     ["histories", "inputs", "fault_sequences"],
     "all histories of cached calls and clearings with ordinary and hostile names, with other files beside and inside the cache directory, and with failing removals",
     "Tests clear once at start-up and look at nothing.",
     [CACHE], [("clear_cache", CACHE + ": clear_cache")], None, ["files in the cache directory and its surroundings", "evaluation counts"])
SIM = "dolo/algos/simulations.py"; PROC = "dolo/numeric/processes.py"; DIST = "dolo/numeric/distribution.py"
prop("C07", "A simulation with a given seed is the same in every run and after any history",
     "Simulating a model with a given seed returns bit-identical results whatever random numbers were drawn before, in the calling code or in earlier simulations, in whatever process, and whatever the clock says; this holds for Markov-chain, autoregressive and independent shocks, discrete or continuous. "
     "Different seeds give different shock paths, and with shocks supplied by the caller or stochastic=False the result does not depend on the seed.",
     ["histories", "configurations"],
     "all prior histories of random draws (numpy and compiled code), simulations, solves and clock readings before a seeded simulation, in one process and in fresh ones, over all process types",
     "No test simulates twice, let alone with other draws in between.",
     [SIM, PROC], [("seed argument of simulate", SIM + ": simulate"), ("random draws", PROC + ": simulate_mc_indices, AR1.simulate, VAR1.simulate; " + DIST + ": draw")],
     [("random generator state", "global numpy generator and the compiled code's generator", PROC)], ["simulated DataArray"])
prop("C08", "Simulated paths obey the decision rule and the model's law of motion",
     "For whatever random numbers are drawn, every path returned by a simulation starts at the given (or calibrated) initial state, its controls at every date are the decision rule at that date's shocks and states, each next state is the model's transition from that date's shocks, states and controls and the next date's shocks, and reported auxiliary variables are the model's definitions at the same date. "
     "All simulated paths and dates are covered, columns carry the name of the variable they hold, and paths do not influence each other. "
     "The shocks reported are those drawn from (or supplied as) the driving process, starting from the given initial shock index or value when there is one.",
     ["inputs", "histories", "configurations"],
     "all random-number streams (arbitrary and adversarial generator states), seeds, sizes, starting points, decision rules and process types, stochastic or not",
     "Tests only check that a simulation runs.",
     [SIM], [("simulation loop", SIM + ": simulate, response"), ("documented timing", "docs/model_api.md; docs/simulation.md")], None, ["simulated DataArray"])
prop("C09", "Simulated Markov chains only make transitions of positive probability",
     "Whatever uniform numbers the generator produces, including extreme ones and chains whose rows sum to one only up to rounding, every simulated chain starts in the requested state, stays inside the state list and only makes transitions with positive probability; reported values are the values of the visited states. "
     "Over long simulated histories the observed transition frequencies agree with the transition matrix, independently across paths, and with stochastic=False the chain stays in its initial state.",
     ["inputs", "histories"],
     "all transition matrices (including zero entries, absorbing states and rounding errors) and all generator states including streams of values next to 0 and 1",
     "No test looks at simulated chains; the dangerous draws have probability about 1e-16.",
     [PROC], [("chain simulation", PROC + ": simulate_markov_chain, simulate_mc_indices, choice, MarkovChain.simulate")], None, ["simulated indices and values"])
prop("C10", "Random draws of shocks follow the process that was declared",
     "Draws from a declared distribution have its law: moments, dispersion, support, point probabilities and component weights match the parameters declared (normal, multivariate normal, uniform, finite, equiprobable, Bernoulli, mixtures and products of these). "
     "Simulated autoregressive processes start at the requested value, satisfy x[t+1] = mean + rho (x[t] - mean) + shock with independent shocks of the declared covariance, and stay on the deterministic path when not stochastic; products concatenate independent components in the declared order.",
     ["inputs", "histories"],
     "all generator states and declared parameters, judged on long seeded histories with error bounds wide enough (more than six standard errors) not to depend on the particular stream",
     "Tests check discretization only, never draws.",
     [PROC, DIST], [("draw", DIST + ": draw methods"), ("simulate", PROC + ": AR1.simulate, VAR1.simulate, ProductProcess.simulate, IIDProcess.simulate")], None, ["drawn arrays"])
MODEL = "dolo/compiler/model.py"
prop("C11", "A recalibrated model always equals a fresh model with that calibration",
     "After any history of parameter and initial-value updates, reads, solves, simulations, failed or interrupted operations, everything the model reports (calibration, domain, exogenous process, grids, residuals, function values) equals what a newly loaded model with the same calibration values reports. "
     "An update is visible to every read that starts after it returns; an update that is interrupted or fails leaves the model consistent, and repeating it takes full effect.",
     ["histories", "crash_points"],
     "all sequences of calibration updates (keyword and dictionary form, numbers and expressions, one or many values) mixed with reads and computations, with an interrupt at any line of any of them",
     "No test updates a calibration after reading it, and none interrupts anything.",
     [MODEL], [("set_calibration / set_changed", MODEL + ": Model.set_calibration, Model.set_changed"), ("cached calibration, domain, exogenous", MODEL + ": Model.calibration, Model.domain, Model.exogenous")],
     [("cached derived data", "must never disagree with the stored calibration", MODEL)], ["model.calibration, domain, exogenous, residuals()"])
prop("C12", "A model shared between threads gives each of them the right answers",
     "When several threads read a shared model's symbols, equations, definitions, calibration, domain, exogenous process, functions or bounds for the first time at the same moment, in any interleaving, each gets what a single-threaded reader gets and no call fails. "
     "When one thread updates the calibration while others read, each read returns data of one calibration that was current at some moment during that read, and every read starting after the update returned sees it, however the earlier reads were interleaved.",
     ["schedules"],
     "all interleavings, at source-line granularity, of two to three threads performing lazy reads and calibration updates on one model",
     "All tests are single-threaded.",
     [MODEL], [("lazily computed attributes", MODEL + ": SymbolicModel.symbols, variables, equations, definitions; Model.calibration, exogenous, domain, functions"), ("invalidation", MODEL + ": Model.set_calibration")],
     [("lazily computed attributes", "computed on first use and kept", MODEL)], ["values returned to each thread"])
TI = "dolo/algos/time_iteration.py"; ITI = "dolo/algos/improved_time_iteration.py"
prop("C13", "Solvers leave their inputs untouched and do not depend on what ran before",
     "Solving, evaluating, simulating, discretizing, tabulating or computing a distribution never modifies the model, the calibration, an initial guess, a supplied decision rule, distribution, grid or shock array. "
     "The same call gives the same result whatever was solved, simulated, discretized or drawn before it on the same objects, in any order.",
     ["histories"],
     "all sequences of library operations (time iteration and its improved version, policy evaluation, perturbation, endogenous grid, perfect foresight, simulation, ergodic distribution, tabulation, discretization) over shared models, decision rules and processes",
     "Each test makes one call on fresh objects.",
     [TI, ITI, "dolo/algos/value_iteration.py", "dolo/algos/perturbation.py", "dolo/algos/perfect_foresight.py", "dolo/algos/egm.py", SIM, "dolo/numeric/discretization/quadrature.py"],
     [("copying of inputs before in-place work", TI + ": time_iteration; dolo/algos/value_iteration.py: evaluate_policy; dolo/numeric/discretization/quadrature.py: gauss_hermite_nodes")], None, ["inputs before and after", "results of repeated calls"])
prop("C14", "A computation stopped midway leaves everything usable",
     "When a solve, simulation, discretization, evaluation, first read of a model's properties or model import is stopped at any moment by an interrupt, a memory error, or an exception in a user hook or model function, the exception reaches the caller and the model, the initial guess and every other object passed in are as they were before. "
     "Repeating the operation afterwards gives exactly the result it would have given had the stop never happened.",
     ["crash_points", "fault_sequences"],
     "an exception at every source line executed by the library during the operation (sampled), and at every call of a user hook or model function, once or several times in a row",
     "No test interrupts anything; the dangerous points are a few lines inside long computations.",
     [MODEL, TI, ITI, SIM, "dolo/compiler/model_import.py"], [("lazily computed attributes set after being computed completely", MODEL), ("no in-place work on inputs", TI)],
     [("lazily computed attributes", "half-built values must not be kept", MODEL)], ["results of re-runs"])
prop("C15", "Solving and simulating from several threads equals doing it one at a time",
     "Threads that solve, simulate, evaluate decision rules, tabulate, discretize or compute ergodic distributions at the same time, on separate or shared models, decision rules and processes, each get exactly the result of running alone, in any interleaving; none of them fails.",
     ["schedules"],
     "all interleavings at source-line granularity of two to three threads running library operations on shared or separate objects (simulations with their shocks supplied or with their own seed serialised)",
     "All tests are single-threaded.",
     [TI, SIM, "dolo/numeric/decision_rule.py", "dolo/misc/multimethod.py", "dolo/algos/ergodic.py"],
     [("no shared scratch state", TI + "; dolo/numeric/decision_rule.py"), ("dispatch tables", "dolo/misc/multimethod.py: multimethod.__missing__")],
     [("dispatch caches", "filled on first call for each combination of types", "dolo/misc/multimethod.py")], ["results per thread"])
prop("C16", "Time iteration stopped and resumed reaches the same answer as one long run",
     "Stopping time iteration after any number of iterations and restarting it with the returned result or decision rule as initial guess, any number of times, also through a saved and reloaded copy, reproduces the sequence of decision rules of the uninterrupted run, iteration for iteration, up to rounding, and the same final verdict. "
     "When tracing is on, each recorded decision rule is the one that was current at that iteration and is not altered by later iterations; the reported number of iterations is the number performed and never exceeds the limit given.",
     ["crash_points", "histories"],
     "all ways of cutting a run of time iteration into pieces (iteration limits and exceptions from the user hook), over Markov-chain, autoregressive and independent shocks, with and without constraints, cubic and linear interpolation",
     "Tests run each solver once, uninterrupted.",
     [TI], [("initial guess handling", TI + ": time_iteration (dr0)"), ("trace copies", TI + ": time_iteration (trace)")], None, ["decision rules per iteration", "result fields"])
prop("C17", "A solver never reports convergence it has not reached, whatever evaluations fail",
     "If the functions a solver evaluates return not-a-number or infinite values, raise, stall or fluctuate at any iteration, or the iteration limit is hit, the solver either raises, warns, or returns a result flagged as not converged; it never loops beyond its limits and never reports convergence unless, re-evaluated without faults, its last step or residual really is within the tolerance given. "
     "Once the faults stop, the same call converges to the fault-free solution.",
     ["fault_sequences", "crash_points"],
     "all sequences of faulty evaluations (not-a-number, infinity, exceptions, noise, singular derivatives) at any evaluation of the model functions or the user-supplied objective, and all iteration limits, over time iteration, improved time iteration, endogenous grid, the Newton and complementarity solvers, perfect foresight and steady state",
     "Tests only run solvers on well-behaved problems and mostly do not look at the verdict.",
     [TI, ITI, "dolo/numeric/optimize/newton.py", "dolo/numeric/optimize/ncpsolve.py", "dolo/algos/perfect_foresight.py", "dolo/algos/egm.py", "dolo/algos/steady_state.py"],
     [("convergence tests and iteration caps", TI + ": while loop, x_converged; dolo/numeric/optimize/newton.py: newton; " + ITI)], None, ["result.x_converged, err, warnings"])
prop("C18", "Loading a model gives the complete model or fails, whatever the medium does",
     "Importing a model from a file or a web address yields the model described by the complete text, or raises; it never yields a model built from part of the text, whatever read errors, short reads, signalled losses of connection, slow or chunked delivery occur, and the file or connection is closed afterwards in every case. "
     "Local files are recognised as such whatever their path contains, and after a failed import the next fault-free import of the same model succeeds with the same content as if the failure had never happened.",
     ["fault_sequences", "crash_points", "inputs"],
     "all failures of open, read, decode and connection at any byte of the transfer, all chunkings of the data, local paths and web addresses of any spelling",
     "Tests load healthy local files only.",
     ["dolo/compiler/model_import.py", "dolo/misc/display.py"], [("reading of files and web addresses", "dolo/misc/display.py: read_file_or_url"), ("import", "dolo/compiler/model_import.py: yaml_import")], None, ["model contents", "open descriptors", "exceptions"])
prop("C19", "Going to the project root either succeeds or leaves the directory unchanged",
     "Asking for the project root changes the working directory to the nearest enclosing directory holding a README (plus the sub-path given), or raises and leaves the working directory exactly as it was, whatever directory can be listed or entered on the way up. "
     "Nothing else in the file system is changed.",
     ["fault_sequences", "inputs"],
     "all directory trees, starting points and sub-paths, with listing, entering or resolving a directory failing at any step",
     "No test calls it.",
     ["dolo/misc/groot.py"], [("upward search with restore", "dolo/misc/groot.py: groot")], None, ["working directory after the call"])
prop("C20", "Results do not depend on the clock, verbosity or console",
     "What a solver or simulation returns (all fields except elapsed times) is identical whether it is verbose or quiet and whatever the system clock does meanwhile (stands still, jumps forward or backward). "
     "A solver asked to be quiet completes without writing anything to the console, so that a closed or failing console does not affect it; a failing console during verbose output can at most raise an error and leaves inputs intact.",
     ["fault_sequences", "configurations"],
     "all sequences of clock readings and console failures during time iteration, improved time iteration, policy evaluation, endogenous grid, perturbation, perfect foresight and simulation",
     "Tests run with one healthy console and clock.",
     [TI, ITI, "dolo/misc/itprinter.py", "dolo/algos/value_iteration.py", "dolo/algos/egm.py", "dolo/algos/perfect_foresight.py", SIM],
     [("iteration printer", "dolo/misc/itprinter.py: IterationsPrinter"), ("elapsed time only displayed", TI)], None, ["results", "bytes written to the console"])

# ------------- pure functions of their input: listed, not claimed
def pure(id, title, statement, text, why, files, mech):
    prop(id, title, statement, ["inputs", "programs"], text, why, files, mech)
pure("N01", "Compiled model functions agree with the equations written in the model file",
     "For every model and every point, the compiled functions and their derivatives agree with a direct evaluation of the equations, definitions and bounds in the model file, vectorised or not.",
     "all models and evaluation points", "A few models are imported; values are never compared.",
     ["dolo/compiler/factories.py", MODEL], [("function factories", "dolo/compiler/factories.py: get_factory")])
pure("N02", "Converged time iteration solves the arbitrage equations within tolerance",
     "The decision rule returned by a converged time iteration satisfies the arbitrage conditions (with complementarity) on the grid up to the tolerance, and its improved version gives the same rule.",
     "all models, grids and tolerances", "Tests solve one or two models and do not check residuals.",
     [TI, ITI], [("residuals", TI + ": residuals_simple")])
pure("N03", "Perturbation satisfies the linearised model and reports stability truthfully",
     "The perturbation solution satisfies the linearised equations at the steady state, its eigenvalues are as reported, and indeterminate or explosive models are reported as such.",
     "all models and calibrations", "Only an ordering routine is tested.",
     ["dolo/algos/perturbation.py", "dolo/numeric/extern/qz.py"], [("perturb", "dolo/algos/perturbation.py: perturb")])
pure("N04", "Perfect-foresight paths satisfy the model equations at every date",
     "A perfect-foresight path satisfies transition and arbitrage equations at every date within tolerance, given its initial condition and shocks.",
     "all shock paths, horizons and initial states", "No stable test covers it.",
     ["dolo/algos/perfect_foresight.py"], [("stacked residuals", "dolo/algos/perfect_foresight.py: det_residual")])
pure("N05", "Discretized processes preserve the moments of the process they approximate",
     "Discretized processes have stochastic transition rows and match mean, variance and autocorrelation of the continuous process to the accuracy of the method; quadrature integrates polynomials exactly.",
     "all process parameters and orders", "Tests check a few parameter values of a few distributions.",
     ["dolo/numeric/discretization/discretization.py", "dolo/numeric/discretization/quadrature.py"], [("rouwenhorst / tauchen / quadrature", "dolo/numeric/discretization")])
pure("N06", "Decision rules interpolate the values they were given",
     "A decision rule evaluated at its grid nodes returns the values it was set to, for every grid and interpolation type.",
     "all grids, interpolation methods and values", "No stable test compares node values.",
     ["dolo/numeric/decision_rule.py", "dolo/numeric/grids.py"], [("coefficients and evaluation", "dolo/numeric/decision_rule.py")])
pure("N07", "The ergodic distribution is a probability vector invariant under the transition",
     "The transition kernel's rows sum to one and the returned distribution is non-negative, sums to one and is invariant under it.",
     "all models, decision rules and grids", "Tests only run it twice.",
     ["dolo/algos/ergodic.py"], [("kernel and solve", "dolo/algos/ergodic.py: ergodic_distribution")])
pure("N08", "Batched small solves agree with dense linear algebra",
     "Serial solve, multiplication, inversion and the Riccati/Sylvester solvers agree with dense linear algebra for all well-posed inputs.",
     "all shapes and matrices", "One random matrix per test.",
     ["dolo/numeric/serial_operations.py", "dolo/numeric/matrix_equations.py"], [("serial operations", "dolo/numeric/serial_operations.py")])
pure("N09", "The linter accepts well-formed model files and locates errors in others",
     "The linter reports no error on valid model files and points at the right line for invalid ones.",
     "all model files", "One example of each kind, and the test fails in this environment.",
     ["dolo/linter.py"], [("lint", "dolo/linter.py: lint")])
pure("N10", "The filters and eval-formula agree with their mathematical definition",
     "The HP and bandpass filters and formula evaluation over data frames agree with their definition for all data.",
     "all series and formulas", "One formula is evaluated.",
     ["dolo/numeric/filters.py", "dolo/compiler/eval_formula.py"], [("filters", "dolo/numeric/filters.py"), ("eval_formula", "dolo/compiler/eval_formula.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
