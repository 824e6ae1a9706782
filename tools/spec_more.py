prop("P09", "Failed resampling replicates are left out and disclosed, never guessed",
     "When replicates of a bootstrap, jackknife, placebo or permutation procedure fail numerically, they contribute nothing: the reported standard errors, p-values, intervals, replicate lists and counts are those of the replicates that succeeded, the loss is disclosed, "
     "replicates that did not fail are what they would have been anyway, and when too few survive the inference is NaN or an error rather than a number.",
     ["fault_sequences", "inputs", "configurations"],
     "Any subset of replicates of any resampling procedure failing at any numerical step.",
     "In the suite replicates practically never fail, so the failure branches of the resampling loops and the accounting after them do not run.",
     ["diff_diff/synthetic_did.py", "diff_diff/sun_abraham.py", "diff_diff/trop.py", "diff_diff/diagnostics.py", "diff_diff/utils.py"],
     [("bootstrap / jackknife / placebo / permutation loops", "diff_diff/*.py")], [("list of successful replicates", "per call")], ["reported inference", "replicate lists and counts", "warnings"],
     "deterministic simulation: replicate failures injected at seeded kernel calls and lines, draws recorded; accounting oracle against the fault-free run of the same seed",
     EXPL + "A replicate fails by raising LinAlgError or ValueError; MC designs are small.")

prop("P10", "Every replicate is the estimator on the sample drawn, and inference uses them",
     "In every bootstrap, jackknife, placebo and permutation procedure each replicate is the estimator applied to the sample, assignment or multiplier weights that were drawn for it - all of them, each once, complete units with their own weights - and the standard error, p-value and interval are "
     "the documented functions of exactly these replicates, including for draws that are legal but rare.",
     ["inputs", "configurations", "schedules"],
     "All random draws, in particular the extreme ones a test's seed never produces, for every resampling procedure.",
     "Tests look at the spread of a few seeded runs; wrong replicates with a plausible spread pass.",
     ["diff_diff/synthetic_did.py", "diff_diff/sun_abraham.py", "diff_diff/trop.py", "diff_diff/diagnostics.py", "diff_diff/utils.py", "diff_diff/staggered.py", "diff_diff/staggered_bootstrap.py", "diff_diff/staggered_aggregation.py"],
     [("resampling loops", "diff_diff/*.py"), ("influence-function multiplier bootstrap", "diff_diff/staggered_bootstrap.py"), ("wild cluster bootstrap", "diff_diff/utils.py")],
     [("random draws", "taken from np.random.default_rng"), ("replicates", "per call")], ["recorded draws", "reported inference"],
     "deterministic simulation: every random draw recorded and some scripted to extreme values; refinement against independently recomputed replicates",
     EXPL + "Multiplier bootstrap replicates are recomputed from independently derived influence functions without covariates; with covariates through an orthogonal weight design.")

prop("P11", "One failing placebo test is reported in its slot and touches no other",
     "The placebo-test suite runs every test it was asked for whatever happens in the others: a test that fails is reported as an error entry naming the failure in its own slot, and every other slot holds what that test gives when called by itself with the same arguments and seed.",
     ["fault_sequences", "inputs"],
     "All placements of failures in the component tests, all data.",
     "Tests run the suite once on clean data where nothing fails.",
     ["diff_diff/diagnostics.py"], [("run_all_placebo_tests", "diff_diff/diagnostics.py")], [("results dictionary", "slot per test")], ["returned dictionary"],
     "deterministic simulation: seeded failures below one or more component tests; slot-by-slot comparison with fault-free and stand-alone runs",
     EXPL + "A test fails by raising an Exception; interruptions are P07's.")

prop("P12", "Simulated power counts exactly the simulations that ran and says what was lost",
     "simulate_power asks the data generator for the requested design, with a fresh seed per simulation, fits the estimator as documented, and reports power, rejection rate, mean estimate, standard errors, coverage and the list of simulations from exactly the simulations that succeeded; lost simulations do not stop the run "
     "or count as non-rejections, substantial loss is announced, and an effect size for which nothing ran is an error.",
     ["fault_sequences", "inputs", "configurations"],
     "Any subset of the simulations failing in any way, for all estimators and effect lists.",
     "Tests run clean simulations and look at ranges of power.",
     ["diff_diff/power.py"], [("simulate_power", "diff_diff/power.py")], [("per-effect lists of estimates and rejections", "per call")], ["SimulationPowerResults", "warnings", "arguments seen by the generator"],
     "deterministic simulation: Monte-Carlo world with recording generator and estimator and injected fit failures; accounting oracle",
     EXPL + "What the wrapped fit returned or raised is the ground truth.")

prop("P14", "TROP cross-validation selects and reports honestly, also when fits fail",
     "TROP's tuning search scores every candidate on cells it really holds out, selects within the grids, and reports for the selected combination exactly the score that combination has; a combination in which a fit fails is out of the race instead of winning on fewer cells, the loss is announced, no "
     "better-scoring surviving combination is passed over, the effects are those of a fit with the selected values, and when nothing can be scored the documented defaults are used and announced.",
     ["fault_sequences", "inputs", "configurations"],
     "All grids (including infinite values), panels with gaps, hold-out subsamples, and any subset of the fits inside the search failing.",
     "Tests check that selected values lie in the grid and that a forced total failure falls back; never what the search would have chosen, nor partial failures.",
     ["diff_diff/trop.py"], [("LOOCV grid search", "diff_diff/trop.py")], [("best score / best combination", "running optimum in the search")], ["TROPResults.lambda_*", "loocv_score", "effects", "warnings"],
     "deterministic simulation: failures injected at seeded lines and kernels inside the search; refinement against a table of single-combination searches; hold-out probing by seeded perturbation",
     EXPL + "A fit fails by raising; silent SVD fallbacks are disclosed by a warning and then not judged here.")

prop("P15", "Which backend computes, or fails to, never changes the answer",
     "DIFF_DIFF_BACKEND selects the backend as documented (auto uses a complete extension and otherwise Python, python never calls it, rust refuses to import without it), and with the compiled backend in use every public call returns what pure Python returns, or, where the backend only supplies draws, tuning values "
     "or replicates, what follows from exactly those. When backend calls fail - instability, NaN variances, errors, no usable result - the answer is the Python one or an error, never a different number; panics and interruptions reach the caller; a seed fixes what the backend is asked.",
     ["configurations", "fault_sequences", "programs"],
     "All public calls x all subsets of backend calls failing in all ways the extension can fail x all environment settings and incomplete extensions.",
     "The backend tests are skipped unless the extension is compiled, and never make a backend call fail except in two mocked cases.",
     ["diff_diff/_backend.py", "diff_diff/linalg.py", "diff_diff/utils.py", "diff_diff/staggered_bootstrap.py", "diff_diff/trop.py"],
     [("backend selection", "diff_diff/_backend.py"), ("routing and fallback", "diff_diff/linalg.py"), ("search and bootstrap hand-over", "diff_diff/trop.py")], [("HAS_RUST_BACKEND", "selected at import")],
     ["results, exceptions, warnings", "arguments the backend receives"],
     "deterministic simulation: the compiled extension replaced by a simulated one with scripted answers and injected failures; equivalence with the pure Python execution",
     EXPL + "The simulated extension is strict about argument types and answers correctly unless told to fail; the Rust code itself is not run.")

prop("P16", "Every call comes to an end",
     "Every public call returns or raises after a bounded amount of work, for all legal arguments (however small a tolerance or extreme a parameter), for awkward data, and whatever the numerical routines inside it return: NaN, noise, huge values, or never reporting convergence. "
     "Iterative searches and alternating fits stop at their iteration limits; none loops until a condition that may never come true.",
     ["inputs", "fault_sequences", "configurations"],
     "All tolerances and arguments, all data, and all misbehaviour of the inner numerical routines.",
     "Tests use well-behaved data on which the iterations converge; a loop that only ends on convergence passes them all.",
     ["diff_diff/trop.py", "diff_diff/honest_did.py", "diff_diff/pretrends.py", "diff_diff/utils.py", "diff_diff/power.py", "diff_diff/linalg.py", "diff_diff/synthetic_did.py"],
     [("alternating minimisation", "diff_diff/trop.py"), ("bisection for the breakdown value", "diff_diff/honest_did.py"), ("projected gradient for weights", "diff_diff/utils.py"), ("root bracketing", "diff_diff/pretrends.py")],
     [("iteration counters", "per loop")], ["termination within a step budget"],
     "deterministic simulation: inner kernels return scripted NaN/noise/huge/non-converged answers; bounded liveness in logical steps (executed library lines and kernel calls)",
     EXPL + "A loop that does not end passes through library source lines or kernel calls; native routines are trusted to end.")

prop("P17", "Fitted objects survive copying, pickling and a restart",
     "An estimator or result that is copied, deep-copied, pickled or carried over a crash into a new process behaves like the original: the same attributes, renderings and exports, the same answers when it is refitted or handed to sensitivity analysis, pre-trend power, plotting or prediction; and deep copies and "
     "unpickled objects share nothing with the original, so refitting or overwriting one never shows in the other.",
     ["crash_points", "histories", "inputs"],
     "All estimators and results x all histories x all crash and copy points between actions.",
     "The suite contains next to no copy or pickle test, and none that goes on using the surviving object in another process.",
     ["diff_diff/estimators.py", "diff_diff/results.py", "diff_diff/staggered.py", "diff_diff/sun_abraham.py", "diff_diff/trop.py", "diff_diff/honest_did.py", "diff_diff/pretrends.py", "diff_diff/linalg.py"],
     [("estimator and result classes", "diff_diff/*.py")], [("fitted attributes", "estimator objects"), ("result dataclasses", "returned objects")], ["observations made on the surviving objects"],
     "deterministic simulation: seeded histories with crashes at which only pickled objects survive; refinement against the same history in one uninterrupted process",
     EXPL + "The library version is the same before and after; default pickle protocol.")
