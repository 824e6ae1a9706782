#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json (one source for both)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
CLAIMED, NA = [], []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique=None, note=None):
    rec = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
           "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                       "state": [{"name": a, "meaning": b} for a, b in state], "observe_at": list(observe), "hook_needed": None}}
    CLAIMED.append((rec, technique, note))


def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "state": [], "observe_at": [],
                            "hook_needed": None}}, reason))


ALL = ["diff_diff"]
EXPL = "Seeded search, not exhaustive: a violation needs the sampled scenario space to reach it. "

prop("P01", "Dataset cache never serves torn, foreign, lost or resurrected data",
     "Whatever mixture of network failures, disk failures, crashes, restarts and concurrent loads and clears has happened, a dataset load returns either exactly the content "
     "some server version had or the documented embedded data, never a partial, corrupted or mixed file. A download that was returned to a caller stays readable until it is superseded, "
     "cleared or lost to power failure, and data removed by clearing the cache does not come back without a new download.",
     ["schedules", "crash_points", "fault_sequences", "histories"],
     "All interleavings of loads/forced loads/clears by 1-2 processes x 1-2 threads, all crash points between system calls (kill and power loss), all network and disk fault sequences.",
     "The tests mock urlopen and exercise single calls; they never crash mid-write, tear a write, run two loaders at once or restart.",
     ["diff_diff/datasets.py"], [("_download_with_cache", "diff_diff/datasets.py"), ("clear_cache", "diff_diff/datasets.py"), ("load_* and embedded fallbacks", "diff_diff/datasets.py")],
     [("~/.cache/diff_diff/datasets", "cached CSV per dataset")], ["return value of load_*", "simulated file system"],
     "deterministic simulation: simulated disk, HTTP server, clock and scheduler with crash and fault injection; history oracle",
     "Real datasets.py, urllib, http.client, io and pandas run over a simulated kernel; power loss keeps a prefix of un-synced operations.")

prop("P02", "Dataset loading stays available, fresh on demand, and recovers",
     "A load never fails, hangs or raises because of network or disk trouble as long as cached or embedded data exist; with a healthy server a forced load returns the server's current content even when the disk cache cannot be "
     "written, an unforced load uses an existing cached copy without contacting the server, and a cached copy is preferred to embedded data when the server is unreachable. Once faults stop, one healthy forced load makes the dataset cached and current again.",
     ["schedules", "crash_points", "fault_sequences", "histories"],
     "All fault sequences and interleavings as for the cache; liveness as completion within a bounded simulated time, and recovery within one load after faults stop.",
     "Tests cover one mocked URLError; not stalled bodies, half-written caches, read-only or full disks, reset connections, or recovery after them.",
     ["diff_diff/datasets.py"], [("_download_with_cache", "diff_diff/datasets.py"), ("load_* fallbacks", "diff_diff/datasets.py")],
     [("~/.cache/diff_diff/datasets", "cached CSV per dataset")], ["return value and exceptions of load_*", "requests seen by the simulated server", "simulated clock"],
     "deterministic simulation: simulated disk, HTTP server, clock and scheduler with fault injection; availability/freshness/recovery oracle",
     "Same world as P01; stalled sockets cost simulated time, so a missing timeout is found as a hang.")

prop("P03", "No public call leaves process-global state changed, however it ends",
     "Calling any public function or method never changes process-wide state - global random generators, warning filters and hooks, NumPy error handling, pandas options, environment, signal handlers, matplotlib configuration, logging, module-level settings - whether the call "
     "returns, raises, fails numerically inside or is interrupted at any point. Figures and files the call is asked to produce are the only exception.",
     ["programs", "crash_points", "fault_sequences"],
     "All public operations and sequences of them, on good and awkward data, with failures of numerical routines and interruptions at any source line.",
     "No test snapshots interpreter-wide state around calls, let alone around calls that fail half-way.",
     ["diff_diff/twfe.py", "diff_diff/datasets.py", "diff_diff/linalg.py", "diff_diff/prep.py", "diff_diff/power.py", "diff_diff/visualization.py"],
     [("warnings.catch_warnings / filterwarnings uses", "diff_diff/"), ("embedded dataset constructors", "diff_diff/datasets.py")],
     [("numpy legacy RNG, random, warnings.filters, np.geterr, os.environ, ...", "process-wide state")], ["snapshot before and after every call"],
     "deterministic simulation: seeded operation histories with injected kernel failures and line-level interruptions; state-snapshot invariant",
     EXPL + "Interruption is delivered between source lines of the library, excluding `with` headers and finally bodies.")

prop("P04", "Inputs are never modified and results are not tied to caller buffers",
     "No public call modifies the data frames, arrays, lists, dicts, results or estimator objects passed to it, whether it returns, raises, or is interrupted; and overwriting or reusing those inputs afterwards changes nothing in results already returned.",
     ["programs", "histories", "fault_sequences"],
     "All public operations, sequences sharing one input frame, all failure and interruption points.",
     "A few tests compare one frame before and after one successful call; none do so on failing or interrupted calls, or mutate the input afterwards.",
     ALL, [("fit methods that copy the input frame", "diff_diff/*.py"), ("results dataclasses holding arrays", "diff_diff/results.py")],
     [("caller's frames and buffers", "must be left alone")], ["deep fingerprint of arguments before/after", "re-read of earlier results"],
     "deterministic simulation: seeded operation histories with injected failures/interruptions; fingerprint invariant over shared inputs",
     EXPL + "Fingerprints cover values, dtypes, index, columns, attrs and list contents.")

prop("P05", "A seed determines the result, whatever happened before or wherever it runs",
     "A call given a fixed seed (and every call that uses no randomness) returns the same numbers regardless of what the process did earlier, of the state of the global random generators, of failures in earlier calls, of the process's hash seed, and of whether it is the first or a repeated call. "
     "A different seed gives different random draws, and calls do not consume or depend on shared generators.",
     ["histories", "programs", "configurations"],
     "All operations with a seed argument x all earlier histories x hash seeds.",
     "Tests call twice in a row with the same seed in the same process; nothing varies history, global generator state, or interpreter hash seed.",
     ["diff_diff/utils.py", "diff_diff/staggered.py", "diff_diff/staggered_bootstrap.py", "diff_diff/sun_abraham.py", "diff_diff/synthetic_did.py", "diff_diff/trop.py", "diff_diff/diagnostics.py", "diff_diff/power.py", "diff_diff/prep.py"],
     [("np.random.default_rng(seed) call sites", "diff_diff/*.py")], [("random generators", "per call")], ["canonicalised results"],
     "deterministic simulation: randomness and process identity controlled; same operation re-executed after seeded histories and in fresh interpreters",
     EXPL + "Agreement to 1e-9 relative.")

prop("P06", "A fit depends only on current parameters and data, never on the object's past",
     "After any sequence of fits, refused fits, interrupted or numerically failed fits and parameter changes on an estimator object, a successful fit returns what a freshly constructed estimator with the same parameters returns on the same data, and the object's fitted attributes and summary describe that fit. "
     "Results returned earlier stay as they were, other estimator objects are unaffected, and parameters round-trip through the get/set interface, which refuses unknown names and values the constructor refuses, and then changes nothing.",
     ["histories", "fault_sequences", "inputs"],
     "All histories of set_params / fit / failed fit on one or two objects of every estimator class.",
     "Tests construct a new estimator per test; refitting, reconfiguring or recovering after failure is untested for nearly all classes.",
     ["diff_diff/estimators.py", "diff_diff/twfe.py", "diff_diff/staggered.py", "diff_diff/sun_abraham.py", "diff_diff/synthetic_did.py", "diff_diff/triple_diff.py", "diff_diff/trop.py", "diff_diff/bacon.py", "diff_diff/honest_did.py", "diff_diff/pretrends.py", "diff_diff/power.py", "diff_diff/linalg.py"],
     [("set_params/get_params/fit", "every estimator module")], [("estimator attributes", "cached intermediate state and fitted attributes")], ["results", "public fitted attributes", "summary()"],
     "deterministic simulation: seeded object histories with injected failures; refinement against a fresh-object reference model",
     EXPL + "Reference is the same code in a pristine process, so errors common to both are out of scope.")

prop("P07", "An interrupted call stops, and leaves nothing half-done behind",
     "If a call is interrupted at any point (KeyboardInterrupt, SystemExit, GeneratorExit) the interruption reaches the caller promptly instead of being swallowed, and running out of memory is never turned into a different answer. "
     "Afterwards inputs and process state are as before, results obtained earlier are intact, the estimator still describes its last completed fit or refuses, and retrying the call gives the answer an undisturbed call gives.",
     ["crash_points", "histories", "fault_sequences"],
     "All source lines of the library as interruption points, for all public operations, repeated interruptions and retry.",
     "Tests never interrupt anything.",
     ALL, [("broad except clauses", "diff_diff/*.py"), ("assignment of fitted state in fit()", "diff_diff/*.py")], [("is_fitted_/results_ and module state", "must not be half-updated")],
     ["exception seen by caller", "state snapshot", "retry result"],
     "deterministic simulation: seeded interruption points (line granularity), crash-restart-retry at the level of one call; history oracle",
     EXPL + "Interruptions arrive between source lines of diff_diff.")

prop("P08", "Concurrent calls behave as if run one at a time",
     "Calls made from several threads at once, each on its own estimator and possibly sharing one input frame, give each caller the same result, errors and warnings as if it had run alone. They leave shared inputs and process-wide state unchanged, and never wait for each other for ever.",
     ["schedules", "programs"],
     "All interleavings of two or three public calls.",
     "The suite is single-threaded.",
     ALL, [("module-level state and warning-filter changes", "diff_diff/*.py")], [("process-wide state", "shared between threads")], ["results, warnings and errors per thread"],
     "deterministic simulation: one seeded scheduler decides every thread switch at library source lines; comparison with isolated execution",
     EXPL + "Switches happen between library source lines; numpy/pandas/scipy calls are atomic; at most one call draws with pyplot.")

prop("P13", "A numerical failure inside is never silently turned into a different answer",
     "When a linear-algebra or optimisation routine fails during a call, the call raises, returns the answer it would have returned without the failure, or makes the loss visible: a new warning, NaN in place of the affected numbers, an error entry, or a smaller reported number of replicates. "
     "It never returns different finite numbers as if nothing had happened.",
     ["fault_sequences", "inputs", "configurations"],
     "Any subset of the numerical-kernel calls of any public operation failing with the errors those kernels raise in practice.",
     "Tests provoke a few singular matrices by hand; most except-branches and fallbacks never execute in the suite.",
     ALL, [("except (LinAlgError, ValueError, ...) fallbacks", "diff_diff/*.py")], [], ["result, warnings, exceptions"],
     "deterministic simulation: seeded failures of LAPACK/optimiser calls; comparison with the fault-free run of the same seed",
     EXPL + "Kernels fail by raising or by reporting non-convergence, not by silently returning garbage.")

exec(open(os.path.join(HERE, "tools", "spec_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "spec_more.py")) else None

PURE = "Pure function of its inputs: no schedule, clock, I/O, randomness, crash or fault it could depend on, so simulation with fault injection adds nothing; would need proof or property-based testing, which this study excludes."

na("N01", "Closed-form estimators equal their regression definitions",
   "OLS coefficients, the two-way fixed effects estimate, event-study coefficients and 2x2 group-time effects equal the textbook estimand on every full-rank dataset.",
   ["inputs"], "All datasets.", "Tests compare a handful of datasets with hand-computed values.",
   ["diff_diff/linalg.py", "diff_diff/estimators.py", "diff_diff/twfe.py", "diff_diff/staggered.py"], [("solve_ols", "diff_diff/linalg.py")], PURE)
na("N02", "Robust and cluster-robust variances equal their sandwich definitions",
   "Reported HC1 and cluster-robust standard errors equal the sandwich formula with the documented small-sample correction for every design.",
   ["inputs"], "All designs and cluster structures.", "Tests check a few designs.", ["diff_diff/linalg.py"], [("compute_robust_vcov", "diff_diff/linalg.py")], PURE)
na("N03", "Aggregations and decompositions add up",
   "Group-time aggregation weights are non-negative and sum to one, and the Goodman-Bacon comparison weights reproduce the two-way fixed effects estimate.",
   ["inputs"], "All adoption patterns.", "Tests use a few simulated panels.", ["diff_diff/staggered_aggregation.py", "diff_diff/bacon.py"], [("aggregation", "diff_diff/staggered_aggregation.py")], PURE)
na("N04", "Sensitivity bounds and power curves are monotone",
   "Honest confidence intervals widen with the allowed violation, and power increases with effect size and sample size, with minimum detectable effect and sample size inverting it.",
   ["inputs"], "All effects, variances and grids.", "Tests check a few grids.", ["diff_diff/honest_did.py", "diff_diff/power.py", "diff_diff/pretrends.py"], [("sensitivity analysis", "diff_diff/honest_did.py")], PURE)
na("N05", "Results do not depend on row order, labels or units of measurement",
   "Permuting rows, relabelling units or periods, or rescaling the outcome changes every estimate and standard error only in the corresponding way.",
   ["inputs"], "All permutations, relabellings and scalings.", "Tests rarely permute.", ALL, [("groupby/pivot preparation", "diff_diff/*.py")], PURE)
na("N06", "Redundant regressors are dropped and reported, never guessed",
   "Linearly dependent columns yield NaN coefficients for the dropped columns and correct inference for the rest, according to the configured rank-deficiency action.",
   ["inputs", "configurations"], "All rank-deficient designs.", "Tests check selected collinear designs.", ["diff_diff/linalg.py"], [("rank detection", "diff_diff/linalg.py")], PURE)
na("N07", "Data-preparation transforms keep the data consistent",
   "Balancing, reshaping, cohort creation and validation helpers return frames that describe the same observations, and weights projected to the simplex are a probability vector.",
   ["inputs"], "All frames.", "Tests check examples.", ["diff_diff/prep.py", "diff_diff/utils.py"], [("prep helpers", "diff_diff/prep.py")], PURE)
na("N08", "Renderings and exports agree with the numbers in the result",
   "Summaries, dictionaries and frames produced from a result report the same numbers as its attributes.",
   ["inputs"], "All results.", "Tests check that strings occur.", ["diff_diff/results.py"], [("summary/to_dict/to_dataframe", "diff_diff/results.py")], PURE)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for rec, *_ in CLAIMED + NA:
            assert len(rec["title"]) <= 80, rec["title"]
            f.write(json.dumps(rec) + "\n")
    checks = []
    for rec, technique, note in CLAIMED:
        cmd = "%s check.py %s --tier " % (PY, rec["id"])
        checks.append({"property": rec["id"], "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
                       "evidence_file": "evidence/%s.json" % rec["id"], "technique": technique, "level": "exploration", "level_note": note})
    man = {"version": 1, "setup_cmd": PY + " tools/setup.py", "checks": checks,
           "not_applicable": [{"property": r["id"], "reason": why} for r, why in NA]}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
