#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, pathlib

B = "infomeasure/estimators/base.py"
M = "infomeasure/estimators/mixins.py"
S = "infomeasure/estimators/utils/te_slicing.py"
K = "infomeasure/estimators/utils/kde.py"
C = "infomeasure/utils/config.py"
F = "infomeasure/estimators/functional.py"
D = "infomeasure/utils/data.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


prop("C01", "What was asked before never changes an answer",
     "For given data and options, an estimator's global value, its local values and the observed value in its significance test are the same whatever calls were made before in the process, on it or on any other estimator: values asked again or in another order, recalculations, significance tests, effective values, divergences. In particular a significance test or an effective value leaves the estimator answering as if it had never been run. Approaches that add random jitter to the data (of at most 1e-8) may differ only on the scale of that jitter.",
     ["histories"],
     "Every finite history of public calls (construct, result, local values, calculate, significance test with either method, effective value, functional entropy/MI/TE calls, divergences) over any set of live estimators of every measure and approach.",
     "The tests construct one estimator, ask it once or twice in one fixed order and compare with a constant; no test interleaves tests, effective values, local values and other estimators, and memoisation, data swapping and process-wide caches only go wrong across such histories.",
     [B, M, "infomeasure/estimators/entropy/nsb.py", "infomeasure/estimators/entropy/bayes.py", "infomeasure/estimators/entropy/ordinal.py", "infomeasure/estimators/transfer_entropy/ordinal.py"],
     [("memoised global and local results", B + ": Estimator.calculate, global_val, local_vals"),
      ("data swap and restore around surrogates", M + ": StatisticalTestingMixin._test_mi, _test_te")],
     [("res_global/res_local", "memoised answers", B), ("data/original_data", "observations an estimator works on, swapped during MI tests", M),
      ("permute_src/resample_src", "surrogate switches for TE", B), ("_cached_polygamma", "process-wide cache", "infomeasure/estimators/entropy/nsb.py")],
     ["result()", "global_val()", "local_vals()", "calculate()", "statistical_test().observed_value", "effective_val()"])

prop("C02", "An aborted call leaves no trace",
     "When a call is aborted at any point by an out-of-memory error, a keyboard interrupt or a timeout exception raised inside it, that exception reaches the caller and is never turned into a returned value. Afterwards the estimator, every other estimator and the settings answer as if the aborted call had never been made: values and local values equal those of an undisturbed estimator, significance tests and effective values are drawn from the undisturbed data, and retrying the aborted call succeeds.",
     ["crash_points", "fault_sequences", "histories"],
     "Every public call, aborted at every point where the library calls out of its own code (and repeatedly in one history), for every measure and approach.",
     "No test injects a failure inside a call; the windows (data swapped, surrogate switch on, half-built memo) are open only between two internal steps.",
     [B, M, "infomeasure/estimators/entropy/nsb.py", "infomeasure/estimators/mutual_information/ordinal.py", K],
     [("restore of swapped data and surrogate switches on every exit", M + ": _test_mi, _test_te"),
      ("results published only once complete", B + ": Estimator.calculate")],
     [("data", "observations", M), ("permute_src/resample_src", "surrogate switches", B), ("res_global/res_local", "memo", B)],
     ["exception type at the caller", "result()", "local_vals()", "statistical_test()", "effective_val()"])

prop("C03", "A seed fixes every random outcome, nothing else does",
     "Given the same data, options, seed and sequence of calls, every returned number (values, local values, surrogate values, p-value, effective value) is bit-for-bit the same in every process, whatever the hash seed, the state of global random generators, the clock, the processor count, the logging level, or the activity of other estimators. Different seeds give different surrogate sequences, and unseeded estimators draw fresh entropy, so two of them do not share a surrogate sequence.",
     ["histories", "configurations", "schedules"],
     "Every seeded call history on every MI, CMI, TE and CTE approach; every ambient configuration (hash seed, global generator state, clock, CPU count, log level); every interleaving with other estimators.",
     "Tests run in one process with PYTHONHASHSEED=0 and fixed ambient state, mostly comparing a run with itself; a hidden second source of randomness or a set-order dependence shows up only across processes or ambient states.",
     [M, S, B, "infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py", "infomeasure/composite_measures/jsd.py"],
     [("one generator per estimator, built from the seed", M + ": RandomGeneratorMixin"), ("surrogate draws taken from that generator", M + ", " + S)],
     [("rng", "the estimator's generator", M)],
     ["statistical_test().test_values", "effective_val()", "result()", "local_vals()"])

prop("C04", "Every surrogate is a genuine shuffle or resample of the source only",
     "In every permutation test each surrogate value is the measure computed after only the order of the source observations (for transfer entropies: of the source-history rows) was changed, every ordering being equally likely; in every bootstrap test it is the measure after those source rows were redrawn independently with replacement; destination, condition and all options stay as given. This holds for MI, CMI, TE and CTE in every approach, and an effective value is the estimator's value minus one such surrogate value. Successive surrogates are independent draws and as many are produced as were requested.",
     ["schedules", "inputs", "histories"],
     "Every outcome of the random generator, every measure/approach that supports testing, both methods, any history lengths, step sizes, propagation times, offsets and dimensions.",
     "Tests check that p-values lie in [0,1] or compare with stored numbers; they cannot tell a genuine shuffle from no shuffle, a rotation, a resample without replacement, or a shuffle that also moves the destination.",
     [M, S, B, "infomeasure/estimators/transfer_entropy/ordinal.py", "infomeasure/estimators/mutual_information/ordinal.py"],
     [("row shuffle/resample of source histories", S + ": _src_dest_slices"), ("row shuffle/resample of the first variable", M + ": _test_mi"),
      ("surrogate switches passed to the slicing", B + ": _generic_te_from_entropy, _generic_cte_from_entropy and each TE/CTE class")],
     [("permute_src/resample_src", "surrogate switches", B)],
     ["statistical_test().test_values", "effective_val()"])

prop("C05", "A significance report describes exactly the surrogates it carries",
     "In every significance report the p-value is the fraction of the carried surrogate values strictly above the observed value, the t-score is (observed - mean)/standard deviation (n-1) of those values (nan when that deviation is 0), the reported null mean and deviation are theirs, percentiles and confidence intervals are computed from them, and the observed value is the estimator's own global value. The number of tests and the method are the ones passed, or else the settings in force at the time of the call; exactly that many surrogate values are carried, and an invalid number or method is refused without side effects.",
     ["histories", "configurations"],
     "Every history of tests, setting changes, refused calls and earlier reports; every measure, approach, method and number of tests; including degenerate null distributions and values tied with the observed one.",
     "Tests pin the formula on a few hand-made arrays; they do not check reports produced under changing settings, after other tests, or that an earlier report stays what it was.",
     [M, D, C],
     [("summary of surrogate values", M + ": _statistical_test_result"), ("defaults read at call time", M + ": _statistical_test"), ("percentiles", D + ": StatisticalTestResult")],
     [("StatisticalTestResult", "immutable report", D)],
     ["p_value", "t_score", "test_values", "observed_value", "null_mean", "null_std", "n_tests", "method", "percentile()", "confidence_interval()"])

prop("C06", "Worker count and worker schedule never change a kernel estimate",
     "A kernel-density based entropy, mutual information, conditional mutual information or transfer entropy has the same global and local values, in the same order, for any number of workers (including one and 'all processors'), whatever the processor count and the order in which the workers' chunks start and finish. If a worker or the creation of the worker pool fails, or a worker is killed, the call ends with an error that reaches the caller, no value is returned or remembered, no pool is left behind, and the same request succeeds once the failure is gone.",
     ["schedules", "fault_sequences", "configurations"],
     "Every worker count, processor count, chunk execution order, and worker failure, worker death or pool failure at any chunk; gaussian and box kernels, data above and below the parallel threshold.",
     "The parallel path starts at 20000 points, so tests barely run it, and the order in which real processes finish is not under their control; no worker failure is ever injected.",
     [K, M, "infomeasure/estimators/entropy/kernel.py", "infomeasure/estimators/mutual_information/kernel.py", "infomeasure/estimators/transfer_entropy/kernel.py"],
     [("split into chunks, map, concatenate in order", K + ": parallel_kde_evaluate"), ("worker count resolution", M + ": WorkersMixin")],
     [("pool", "worker processes", K)],
     ["result()", "local_vals()", "pools created/closed", "exception at the caller"])

prop("C07", "Estimators used from different threads do not disturb each other",
     "When several threads each construct and use their own estimators, every value, local value, significance test and effective value a thread gets is the same as if that thread had run alone, whatever way the threads interleave. This includes threads working on the same input arrays, and the first use of an approach racing with its loading.",
     ["schedules"],
     "Every interleaving of two or more caller threads at statement granularity inside the library, each running any history on its own estimators.",
     "No test uses threads, and the interleaving of real threads is not under a test's control.",
     [B, M, S, K, F, "infomeasure/estimators/entropy/nsb.py"],
     [("all mutable state is per estimator", B), ("process-wide state limited to settings and pure caches", C + ", infomeasure/estimators/entropy/nsb.py")],
     [("_cached_polygamma", "process-wide cache", "infomeasure/estimators/entropy/nsb.py"), ("_settings", "process-wide settings", C)],
     ["result()", "local_vals()", "statistical_test()", "effective_val()"])

prop("C08", "The caller's data is never modified",
     "No call ever changes the arrays, lists, tuples or generators' data passed in by the caller - not values, dtype, shape, order or writability - neither while it runs nor afterwards, also when it is aborted, and read-only or non-contiguous arrays give the same answers as ordinary ones. Arrays handed out (local values, surrogate values) do not alias the caller's data.",
     ["histories", "crash_points"],
     "Every history of calls, aborted or not, for every measure and approach, with jitter, normalisation, offsets, shuffling and resampling in play.",
     "Tests pass fresh arrays and never look at them again; in-place jitter or shuffling of a view would change the caller's data only under some dtypes, offsets or abort points.",
     [B, M, S, "infomeasure/estimators/utils/normalize.py", "infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py", "infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py", "infomeasure/estimators/entropy/kozachenko_leonenko.py"],
     [("copy before jitter", B + ", KSG/KL estimators"), ("index arrays, not data, are shuffled", S)],
     [("data/source/dest/cond", "views of the caller's arrays", B)],
     ["caller's arrays", "local_vals()", "test_values"])

prop("C09", "Settings take effect at once, for everything after, and only when valid",
     "The settings behave as a small map: a get returns the last accepted set, the unit helpers and base agree, reset restores every default, and a refused set (unknown key, wrong type, unknown unit) raises and changes nothing. Every estimator constructed and every functional call made after a change of the default logarithm base uses the new base unless one is passed, every significance test without explicit number or method uses the settings at that moment, and estimators constructed before keep their base.",
     ["histories"],
     "Every history of get, set, unit helpers, reset, refused changes and calculations, for every measure and approach.",
     "Tests set a value and read it back, and never calculate after a change.",
     [C, B, M, F],
     [("settings store", C + ": Config"), ("default base", B + ": Estimator.__init__ and every estimator signature"), ("test defaults", M + ": _statistical_test")],
     [("_settings", "current settings", C)],
     ["Config.get/set/reset/set_logarithmic_unit/get_logarithmic_unit", "result()", "statistical_test()"])

prop("C10", "Calls leave the process as they found it",
     "No call, completed or aborted, changes process-wide state that other code relies on: the global random generators, floating-point error handling, warning filters, print options, the settings, the logging configuration, environment variables, the working directory, the recursion limit, signal handlers; nor does it leave threads, child processes, open files or temporary files behind. Asking for 'all processors' or several workers does not either.",
     ["histories", "crash_points", "configurations"],
     "Every history of calls, aborted or not, starting from every ambient state (seeded global generators, changed floating-point error handling, changed filters, log levels and handlers).",
     "Tests do not look at ambient state, and pytest itself resets part of it.",
     [B, M, K, C, "infomeasure/estimators/entropy/nsb.py"],
     [("own generator per estimator", M + ": RandomGeneratorMixin"), ("pool closed after use", K)],
     [("process-wide state", "numpy, random, warnings, logging, os", "outside the library")],
     ["numpy.random.get_state()", "numpy.geterr()", "warnings.filters", "os.environ", "threads and children"])

prop("C11", "First use may fail or come in any order",
     "Importing the library and using measures and approaches for the first time in any order, through any entry point and alias, gives the same answers and the same classes as any other order. If loading an approach fails part-way (an import error, out of memory or an interrupt), the error reaches the caller, everything already in use keeps working, and the next attempt succeeds with the usual answer. (If it is the import of the package itself that failed, the next attempt is to import the package again.)",
     ["histories", "fault_sequences"],
     "Every order of first uses over all measures, approaches, aliases and entry points, with a failure injected at any point of the loading.",
     "Tests import everything up front, in one order, and never fail an import.",
     [F, "infomeasure/__init__.py", "infomeasure/estimators/entropy/__init__.py", "infomeasure/estimators/mutual_information/__init__.py", "infomeasure/estimators/transfer_entropy/__init__.py"],
     [("lazy loading by dotted path", F + ": _dynamic_import, _get_estimator")],
     [("sys.modules", "loaded modules", "interpreter")],
     ["im.estimator()", "im.get_estimator_class()", "im.entropy/mutual_information/transfer_entropy and short names"])

prop("C12", "An estimator can be copied, pickled and resumed elsewhere",
     "At any point of its history - fresh, after answers, after a significance test or effective value, after an aborted call - every estimator can be copied (copy.copy, copy.deepcopy) and pickled, and what comes back, in the same process or in another interpreter, is the same estimator: it gives the same global and local values and, continuing its random generator where the original stood, the same significance tests and effective values that the original would have given from there. A deep or pickled copy and its original are independent: what is asked of one never changes the answers of the other. Test reports can be copied and pickled in the same way and read the same afterwards.",
     ["histories", "crash_points", "configurations"],
     "Every history of calls, aborted or not, over every measure and approach; every point of it to copy or hand over at; every interpreter (hash seed, entropy) resuming it.",
     "Tests never copy or pickle an estimator; users hand estimators to process pools, job queues and caches, where any attribute that does not survive, or is shared, changes answers only for some histories.",
     [B, M, "infomeasure/estimators/entropy", "infomeasure/estimators/mutual_information", "infomeasure/estimators/transfer_entropy", "infomeasure/utils/data.py"],
     [("all state held in plain attributes", B + ": Estimator, MutualInformationEstimator, TransferEntropyEstimator"), ("generator state travels along", M + ": RandomGeneratorMixin")],
     [("estimator __dict__", "data, memoised answers, generator, surrogate switches", B + ", " + M), ("StatisticalTestResult", "report", "infomeasure/utils/data.py")],
     ["copy.copy/deepcopy", "pickle.dumps/loads", "result()", "local_vals()", "statistical_test()", "effective_val()"])

prop("C13", "A call nested inside another call disturbs neither",
     "A call on one estimator that is interrupted half-way by other library calls in the same thread - from a signal handler, a logging handler, a finaliser, a trace hook - on other estimators, functional entry points or reports, gives the answer it would have given undisturbed; the nested calls complete (no deadlock) and give the answers they would have given on their own; and so do all later calls.",
     ["schedules", "histories"],
     "Every point inside every call (any executed line of library code and any call it makes), every nested call or sequence of nested calls on other estimators, any nesting depth the harness generates.",
     "Tests make one call after another; only a shared buffer, a process-wide cache half updated, a thread-local or a lock that is not re-entrant at that very line makes a nested call visible.",
     [B, M, K, F, C, "infomeasure/estimators/entropy/nsb.py"],
     [("state kept per estimator", B), ("lazy loading", F)],
     [("_cached_polygamma", "process-wide cache", "infomeasure/estimators/entropy/nsb.py"), ("module globals", "whatever calls share", "every module")],
     ["result()", "local_vals()", "statistical_test()", "effective_val()", "functional calls"])

prop("C14", "What the caller has dropped is released",
     "Once the caller drops its last reference to an estimator, to data it passed in or to an answer it received, the library keeps none of them alive: estimators, their helpers, the passed arrays and the returned arrays and reports are gone after the next garbage collection, whether the calls made on them completed, were refused or were aborted. Nothing held at module or class level keeps growing as ever new data sets are analysed.",
     ["histories", "crash_points"],
     "Every history of calls over ever new data sets in one process, with calls aborted or refused at any point.",
     "Tests run briefly and never look at what stays alive; a registry, an unbounded memo or a kept traceback is only seen over long histories.",
     [B, M, F, K, "infomeasure/estimators/entropy/nsb.py", "infomeasure/utils/data.py"],
     [("results memoised on the instance, not in a table", B + ": Estimator"), ("no registry of estimators", F)],
     [("_cached_polygamma", "bounded process-wide cache", "infomeasure/estimators/entropy/nsb.py")],
     ["weakref", "gc.get_objects()", "sizes of module-level containers"])

prop('C15', 'A refused request is refused every time and leaves no trace',
     'A request that cannot be answered - data of wrong length, shape or kind, an option, name or number the library does not take - has the same outcome whatever was asked before and however often it is repeated: a refusal is a refusal of the same kind each time, never an answer the second time, also for every further question put to an estimator that could not answer. It leaves no trace: afterwards every estimator, functional call and setting answers exactly as if the refused requests had never been made, including the surrogates a seeded estimator draws.',
     ['histories'],
     'Every history of good requests mixed with requests that cannot be answered, over all measures, approaches and entry points.',
     'Tests check that one bad call raises on a fresh estimator; they never ask again, ask something else of the same estimator, or compare what comes after with a history without the refusal.',
     ['infomeasure/estimators/base.py', 'infomeasure/estimators/mixins.py', 'infomeasure/estimators/functional.py', 'infomeasure/utils/config.py', 'infomeasure/estimators/utils/te_slicing.py'],
     [('validation before any change of state', 'infomeasure/estimators/mixins.py: _statistical_test'), ('surrogate switches restored', 'infomeasure/estimators/mixins.py: _test_te, _test_mi')],
     [('res_global / res_local', 'remembered answers, set only by a completed calculation', 'infomeasure/estimators/base.py: Estimator'), ('rng', "the estimator's generator, not moved by a refused test", 'infomeasure/estimators/mixins.py: RandomGeneratorMixin')],
     ['estimator()', 'functional entry points', 'result()', 'local_vals()', 'statistical_test()', 'effective_val()', 'Config'])

prop('C16', "The caller's surroundings never change an answer",
     "For given data, options and seed every answer (values, local values, surrogates, p-values, probabilities) is the same whatever the surroundings the caller has set up: numpy's floating-point error handling and print options, warning filters, locale, time zone, standard streams (also missing or broken ones), logging configuration, working directory (also a deleted one), environment variables, recursion limit, garbage-collector settings, signal handlers, tracing and profiling hooks, and the interpreter's optimisation and isolation options. Where the caller asked for floating-point errors or warnings to be raised, or left too little stack, that exception may take the place of the answer, but no different answer is given.",
     ['configurations', 'histories'],
     'Every combination and every change of these surroundings between the calls of a history.',
     'Tests run in one set of surroundings; an answer that depends on print options, stripped assertions, error handling or logging only differs elsewhere.',
     ['infomeasure/estimators/base.py', 'infomeasure/estimators/functional.py', 'infomeasure/estimators/utils/ordinal.py', 'infomeasure/utils/config.py', 'infomeasure/utils/data.py', 'infomeasure/estimators/entropy/nsb.py'],
     [('answers computed from data and options only', 'infomeasure/estimators/*')],
     [('process-wide numpy, logging, warnings and interpreter settings', 'owned by the caller', 'the process')],
     ['estimator()', 'functional entry points', 'statistical_test()', 'effective_val()'])

prop('C17', "The noise asked for is what is added, and nothing more",
     "An estimator that adds noise (noise_level, nearest-neighbour and k-NN approaches) answers exactly what it would answer without noise for the data plus noise_level times standard normal numbers freshly drawn from its own generator: one number for each entry that takes part, including the condition, neither shared between variables nor scaled or accumulated, never kept in the caller's data or carried over to the next calculation, and each surrogate of a test has noise of its own; with noise level zero nothing is drawn or added.",
     ['inputs', 'histories', 'fault_sequences'],
     'All histories of calculations and tests and all sequences of random numbers, also improbable ones.',
     'The default noise of 1e-10 is invisible in an estimate, so noise that is missing, doubled, shared or badly scaled passes every test that compares values with a tolerance.',
     ['infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py', 'infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py', 'infomeasure/estimators/entropy/kozachenko_leonenko.py', 'infomeasure/estimators/base.py'],
     [('noise drawn at each calculation from the estimator\'s generator', 'the estimators that take noise_level')],
     [('self.rng', 'the calculations and the surrogate loop', 'the estimator')],
     ['result()', 'local_vals()', 'statistical_test()', 'estimator()'])

prop('C18', "After a fork, parent and child carry on independently",
     "When the process is forked at any moment - between calls, from inside a call, or while another thread is inside a call - every answer parent and child get afterwards is the one they would have got had there been no fork: the child carries on with every estimator it inherited (seeded ones draw the surrogates the parent would have drawn from there), every call in parent and child comes to an end, also where several workers are asked for, and neither what the child does nor its end disturbs the parent. Estimators made without a seed after the fork draw different surrogates in parent, child and sibling children.",
     ['schedules', 'histories', 'crash_points'],
     'All histories, all moments of the fork, all numbers of children and either one running first.',
     'Tests run in one process; forked workers (multiprocessing on Linux) meet inherited locks, pools, seeds and hooks only in deployment.',
     ['infomeasure/estimators/mixins.py', 'infomeasure/estimators/utils/kde.py', 'infomeasure/estimators/functional.py', 'infomeasure/utils/config.py'],
     [('no process-wide locks, pools, seeds or marks', 'module and class level')],
     [('random generators', 'mixins.py', 'each estimator'), ('worker pools', 'kde.py', 'one call')],
     ['result()', 'statistical_test()', 'effective_val()', 'functional entry points'])

# ---- properties that hold or fail as pure functions of one call's input -----------------
why_pure = "Tests sample a handful of inputs; the statement is for all inputs."
prop("C20", "Estimates equal their published definitions",
     "Every entropy, mutual information, conditional mutual information and transfer entropy equals the value of the documented formula for its approach on the given sample.",
     ["inputs"], "All data sets and options.", why_pure,
     ["infomeasure/estimators/entropy", "infomeasure/estimators/mutual_information", "infomeasure/estimators/transfer_entropy"],
     [("formulas", "each estimator's calculation")], observe=["result()"])
prop("C21", "Information identities hold",
     "Plug-in entropies lie between 0 and the log of the number of states, mutual information is symmetric, non-negative and obeys the chain rule with entropies, and divergences are non-negative and zero on equal inputs.",
     ["inputs"], "All discrete data sets.", why_pure,
     ["infomeasure/estimators/utils/discrete_interaction_information.py", "infomeasure/composite_measures/jsd.py", "infomeasure/composite_measures/kld.py"],
     [("count-based sums", "discrete estimators")], observe=["result()", "jsd()", "kld()"])
prop("C22", "Local values average to the global value",
     "Where an approach offers local values, there is one per observation and their mean is the global value.",
     ["inputs"], "All data sets, all approaches with local values.", why_pure, [B], [("mean of local values", B + ": local_vals")], observe=["local_vals()"])
prop("C23", "Changing the base only rescales",
     "For Shannon-type measures, a result in another logarithm base is the natural-unit result divided by the logarithm of that base.",
     ["inputs", "configurations"], "All data sets and bases.", why_pure, [B], [("logarithm in the chosen base", B + ": _log_base")], observe=["result()"])
prop("C24", "History slices line up in time",
     "For every history length, step size and propagation time, each transfer-entropy observation pairs a destination value with the destination, source and condition values at the documented earlier times.",
     ["inputs"], "All series, lengths, steps and delays.", why_pure, [S], [("index arithmetic", S + ": _src_dest_slices")], observe=["te_observations()"])
prop("C25", "Ordinal patterns are encoded one-to-one",
     "Every ordinal pattern of a window is mapped to a number that identifies it uniquely and does not depend on anything but the order of the window's values.",
     ["inputs"], "All series, embedding dimensions and steps.", why_pure, ["infomeasure/estimators/utils/ordinal.py"], [("Lehmer code", "permutation_to_integer")], observe=["symbolize_series()"])
prop("C26", "Invalid input is refused",
     "Data of unequal length or wrong shape, missing or out-of-range parameters and unknown measures or approaches raise the documented error and no estimate is produced.",
     ["inputs"], "All invalid inputs.", why_pure, [B, F, D], [("validation", B + ", " + F)], observe=["exception type"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P), "properties")
