#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
SOL = "qopt/solver_algorithms.py"; SIM = "qopt/simulator.py"; CF = "qopt/cost_functions.py"
OPT = "qopt/optimize.py"; TF = "qopt/transfer_function.py"; NO = "qopt/noise.py"
DC = "qopt/data_container.py"; PAR = "qopt/parallel.py"; AF = "qopt/amplitude_functions.py"
OD = "qopt/optimization_data.py"; PS = "qopt/performance_statistics.py"; AN = "qopt/analyser.py"

prop("C01", "Answers depend only on current parameters, not on the history of use",
 "Every propagator, accumulated or reversed propagator, propagator derivative, cost value and gradient that a noiseless simulation (Schroedinger, Lindblad or filter function) returns equals the one of a simulation newly built from the same model and given only the current parameters and times, whatever parameter updates, time-grid changes of the same length, and queries were made before, in any order and through any number of simulations and cost functions sharing a solver. This includes returning to earlier parameters, parameters that differ only slightly from the previous ones, and a caller that re-uses or overwrites the arrays it passed in.",
 ["histories", "inputs", "configurations"],
 "all finite interleavings of set-parameters, set-times, array re-use and queries by several clients of shared solvers; all solver kinds, exponentiation methods, transfer and amplitude functions",
 "The tests query each solver once, right after construction, in one order; the caches make every later answer depend on the whole history of updates and queries.",
 [SOL, SIM, CF, TF, AF],
 [("lazy caches with reset on update", SOL + ": Solver.set_optimization_parameters / reset_cached_propagators / properties"),
  ("early return for equal parameters", SOL + ": Solver.set_optimization_parameters"),
  ("parameters set on every shared solver before the costs are evaluated", SIM + ": Simulator.wrapped_cost_functions / wrapped_jac_function")],
 [("cached propagators", "forward, reversed, derivative and generator caches of a solver"), ("pulse sequence", "filter function object bound to the parameters")])

prop("C02", "A failed or interrupted evaluation never poisons later answers",
 "If a request is refused, or an evaluation fails part-way, because an argument is malformed, a user-supplied function raises, a numerical routine fails, memory runs out or the user interrupts it, the failure is reported to the caller, and every later answer equals that of a simulation that never saw the failure. In particular, repeating the failed request with the same parameters returns the correct result and never a stale or incomplete one.",
 ["fault_sequences", "histories", "configurations"],
 "any fault (exception kind) at any call of a user function or matrix exponential inside any query or update, any number of faults, followed by any further history",
 "No test injects a failure; the fault has to hit one of the calls inside a lazy evaluation, and the damage only shows in a later query.",
 [SOL, SIM, CF],
 [("caches adopted only after the computation is complete", SOL + ": _compute_propagation, _compute_forward_propagation, _compute_reversed_propagation, _compute_propagation_derivatives, _compute_dyn_gen"),
  ("parameters adopted only after transfer and amplitude function succeeded", SOL + ": Solver.set_optimization_parameters"),
  ("pulse sequence discarded on failure", SOL + ": Solver.create_pulse_sequence")])

prop("C03", "Monte Carlo answers at one point share one noise realisation",
 "In a Monte Carlo simulation all noisy propagators, accumulated and reversed propagators, derivatives, cost values and gradients obtained at one parameter point, in whatever order they are asked for and even if some evaluation failed in between, solve the dynamics for one and the same set of noise traces that the noise generator produced. With re-drawing enabled every new parameter point uses traces drawn after that point was set and never those of an earlier point; with re-drawing disabled every point uses the stored traces, and noiseless quantities never depend on the noise.",
 ["histories", "schedules", "fault_sequences"],
 "all query orders, parameter histories, redraw modes, generators (scripted and real) and noise amplitude functions, with faults between the queries",
 "The tests use deterministic samples and one query order; whether costs and gradients mix two realisations depends on the order of lazy evaluations and draws.",
 [SOL, NO, CF],
 [("noise drawn once per parameter point and cached in the generators of the dynamics", SOL + ": SchroedingerSMonteCarlo._compute_dyn_gen_noise"),
  ("redraw on access", NO + ": NoiseTraceGenerator.noise_samples"),
  ("control noise through the amplitude function", SOL + ": SchroedingerSMCControlNoise")],
 [("noisy generators", "dynamics generators per trace of the current point")])

prop("C04", "Monte Carlo over worker processes equals the serial computation",
 "For any number of worker processes, and any assignment, order and timing of the pieces of work, a Monte Carlo simulation returns exactly the results (values, trace order and time order) of the serial computation with the same noise. If a worker fails or the workers cannot be started, the caller gets an exception, no incomplete result is ever served afterwards, and no worker is left behind.",
 ["schedules", "fault_sequences", "configurations"],
 "all worker counts, task orders, chunkings, completion orders and worker faults",
 "No test uses more than one process; real pools cannot be driven through chosen schedules or failures.",
 [SOL],
 [("pool.map over noise traces", SOL + ": SchroedingerSMonteCarlo._compute_propagation"),
  ("worker function", SOL + ": _compute_matrix_exponentials")])

prop("C05", "Parallel multi-start optimisation equals independent sequential runs",
 "Running several initial pulses in parallel returns, for any number of worker processes and any schedule, one entry per initial pulse in the order of the given pulses, each equal to what a separate sequential run from a pristine copy of the given optimizer returns, and leaves the given optimizer and pulses unchanged. If a run fails in a worker, the failure is reported to the caller and no worker is left behind.",
 ["schedules", "fault_sequences", "configurations"],
 "all numbers of pulses and workers, task orders, worker re-use patterns and worker faults, for simulations without a global random source",
 "No test calls the parallel driver; leakage of state between runs only shows when one worker executes several runs in a particular order.",
 [PAR, OPT, DC],
 [("deep copy per initial pulse, starmap, collection in order", PAR + ": run_optimization_parallel")])

prop("C06", "The wall time limit is honoured exactly, whatever the clocks do",
 "No cost evaluation of an optimisation starts after more than the maximum wall time has elapsed since the optimisation began, and no optimisation is ended by this limit before it has elapsed, however long individual evaluations take and however the system clock is stepped meanwhile. When the limit is hit the optimisation returns normally, reporting the time limit as reason with the status 5, for every gradient-based and gradient-free method of the least squares and scalar minimisers.",
 ["schedules", "fault_sequences", "configurations"],
 "all durations of evaluations, stalls, clock steps, limits (including zero and re-runs of the same optimizer) and minimisation methods",
 "Tests cannot wait for limits or step clocks; none covers the limit at all.",
 [OPT],
 [("limit test before each evaluation", OPT + ": Optimizer.cost_func_wrapper"), ("start of the run", OPT + ": Optimizer.prepare_optimization"),
  ("conversion to a result", OPT + ": Optimizer.write_state_to_result")])

prop("C07", "The optimisation record is a faithful, immutable log of the evaluations",
 "With recording enabled, the record of an optimisation holds exactly one entry per completed cost evaluation, in the order of evaluation, consisting of the evaluated parameters (time by control) and the unweighted cost values obtained there, and one entry per completed gradient evaluation with the gradient obtained. Recorded entries never change afterwards, whatever the minimisation driver does with the arrays it passes and receives, and whatever weights, aborts, failures or later runs follow.",
 ["histories", "schedules", "fault_sequences"],
 "all evaluation sequences of a driver (order, repetition, buffer re-use, scribbling on returned arrays), weights, faults and re-runs",
 "Tests check only that an optimisation converges; aliasing with driver buffers depends on the driver and shows only later.",
 [OPT, OD],
 [("wrappers recording each evaluation", OPT + ": Optimizer.cost_func_wrapper / cost_jacobian_wrapper"), ("fresh record per run", OPT + ": Optimizer.prepare_optimization")])

prop("C08", "The reported optimum was really evaluated, and is the best one on abort",
 "When an optimisation is ended by its time limit, the reported final parameters and unweighted final costs are those of the completed evaluation of this run with the smallest Euclidean norm of the unweighted costs (none if nothing finite was evaluated), with the number of completed evaluations, and the gradient norm is that at these parameters if the method uses gradients. When it ends normally, the reported parameters, cost, count and status are those of the driver's outcome in the time-by-control layout; in both cases the initial parameters given by the caller are reported.",
 ["schedules", "histories", "fault_sequences"],
 "all abort points, evaluation sequences, weights, re-runs and minimisation methods",
 "An abort at each possible evaluation cannot be provoked without a controlled clock.",
 [OPT, OD],
 [("best evaluation so far", OPT + ": Optimizer.cost_func_wrapper"), ("final state", OPT + ": Optimizer.write_state_to_result / run_optimization")])

prop("C09", "Saving results is atomic: a crash or error never destroys saved data",
 "At every instant during and after a save, whether it is cut short by an I/O error, a full disk, a short write, unpicklable content, a killed process or a power failure, the destination file holds either the complete previous or the complete new collection (or is absent if there was none before). A failed save is reported to the caller, leaves the in-memory collection unchanged and leaves no temporary file behind unless the process died; a save that returned is read back completely and equal, and can be repeated after any failure.",
 ["crash_points", "fault_sequences", "histories"],
 "all crash points and I/O faults at every file operation of a save, over all histories of appends, saves and loads",
 "Tests neither write result files nor can they fail a disk or crash between two file operations.",
 [DC],
 [("write to temporary file, fsync, replace", DC + ": DataContainer.to_pickle"), ("load", DC + ": DataContainer.from_pickle")])

prop("C10", "A result collection is a faithful list of runs under every history",
 "After any sequence of appending runs, copying, saving, loading and analysing, the result collection holds exactly the appended runs in order, each with its own final costs, initial and final parameters, recorded costs and parameters, status and statistics; a copy or a loaded collection is equal but independent of the original. A refused append (other cost labels) changes nothing, and the analysis selects the run with the least sum of squared costs and reports cost and time sums of exactly these runs.",
 ["histories", "inputs"],
 "all histories of append, refused append, deepcopy, save, load, analyse and result-to-dictionary round trips over several collections",
 "No test appends more than a few results or compares a collection with an independent model.",
 [DC, AN, OD],
 [("append", DC + ": DataContainer.append_optim_result / _append"), ("copy and (de)serialisation", DC + ": __deepcopy__, _to_dict, _from_dict"), ("analysis", AN + ": Analyser")])

prop("C11", "Objects are isolated: one never changes another or the user's inputs",
 "Constructing, configuring, running or failing any solver, simulation, optimizer, annealer or noise generator never changes the module defaults, the behaviour of any other object that does not contain it, or the operators, arrays, lists and dictionaries the user passed in. Objects built from the same inputs therefore behave identically, regardless of how many were built or used before.",
 ["histories", "programs", "configurations"],
 "all interleavings of constructing, configuring, running and failing several objects built from common inputs",
 "Each test builds its own objects in a fresh process and inspects only one of them.",
 [OPT, SOL, NO, TF, SIM],
 [("own copy of default termination conditions", OPT + ": Optimizer.__init__"), ("operators never modified in place", SOL + ": LindbladSolver._calc_diss_sup_op, SchroedingerSolver._compute_dyn_gen"),
  ("own copy of standard deviations", NO + ": NTGQuasiStatic.__init__")])

prop("C12", "Noise generators keep their sampling contract under every access history",
 "A noise generator that re-draws returns a newly drawn set of samples at every access, and one that does not always returns the samples drawn at the first access or supplied by the user, unchanged; asking for the numbers of traces, samples or operators never changes stored samples and always agrees with the shape of the samples. Quasi-static traces are constant in time and, in the deterministic mode, the same at every draw, affect one noise operator per trace, and have the requested standard deviation; given the state of the global random source all draws are reproducible.",
 ["histories", "inputs", "configurations"],
 "all access sequences on all generators and sampling modes, any random stream",
 "Tests sample once per generator and check statistics only.",
 [NO],
 [("redraw or keep", NO + ": NoiseTraceGenerator.noise_samples"), ("quasi-static sampling", NO + ": NTGQuasiStatic._sample_noise"), ("coloured noise", NO + ": NTGColoredNoise._sample_noise")])

prop("C13", "Simulated annealing stays in bounds and reports the best visited pulse",
 "For every random stream and annealing schedule, each pulse evaluated by the simulated annealing optimizer differs from its predecessor in every entry by an integer of at most the step size, unless it is clipped, and lies within the given bounds; the reported pulse has the smallest cost norm of all evaluated pulses and the reported cost belongs to it. The initial pulse of the caller is evaluated first and never modified, and an optimizer can be run repeatedly.",
 ["schedules", "inputs", "histories"],
 "all streams of the random source, temperatures, bounds, step sizes and ratios, cost landscapes and re-runs",
 "There is no test of the annealer; bounds and best-so-far tracking depend on the random stream.",
 [OPT],
 [("move", OPT + ": PulseAnnealer.move"), ("energy", OPT + ": PulseAnnealer.energy"), ("result", OPT + ": SimulatedAnnealing.run_optimization")])

prop("C14", "Timing statistics account exactly for the time spent in evaluations",
 "The statistics of an optimisation contain, per completed evaluation and in order, the time each cost function and each gradient took, and the start and end of the run, as measured by the clock; the analysis returns their sums per cost function and their shares of the total time. Failed evaluations leave no incomplete entries, every run starts with fresh statistics that later runs do not change, and disabling statistics changes no result.",
 ["schedules", "histories", "fault_sequences"],
 "all durations of evaluations and of the driver's own work, failures, re-runs and aborts (clock not stepped backwards)",
 "Real durations cannot be predicted, so tests cannot compare them.",
 [SIM, PS, OPT, AN],
 [("evaluation times", SIM + ": Simulator.wrapped_cost_functions / wrapped_jac_function"), ("start and end", OPT + ": Optimizer.prepare_optimization / run_optimization"), ("sums and shares", AN + ": Analyser")])

prop("C15", "Re-timed transfer functions equal newly built ones",
 "After any history of setting times (of any number and duration of steps), evaluating pulses and gradients, and failed calls, a transfer function, including nested concatenated and parallel ones, has the output times, number of steps, output pulse, transfer matrix and gradient of one newly built and timed once with the current times. It never keeps or modifies the arrays of the caller.",
 ["histories", "inputs", "configurations"],
 "all histories of set-times, call, gradient, matrix access and failing calls over all transfer function kinds and nestings",
 "Tests set the times once per transfer function.",
 [TF],
 [("lazy transfer matrix", TF + ": MatrixTF"), ("times", TF + ": TransferFunction.set_times, ConcatenateTF.set_times, ParallelTF.set_times")],
 [("transfer matrix cache", "matrix belonging to the current times")])

prop("C16", "The same seed reproduces the same results, in any process at any time",
 "Given the state of the global random source, every sampling, simulation, optimisation and annealing run returns the same results when it is repeated in the same or another interpreter process, irrespective of hash randomisation, the time of day, process identity or what was computed before.",
 ["schedules", "configurations", "histories"],
 "all seeds, clocks, hash seeds and preceding histories",
 "Tests never run anything twice.",
 [NO, OPT, SOL, SIM],
 [("global numpy random source", NO + ": fast_colored_noise, NTGQuasiStatic; " + OPT + ": PulseAnnealer.move")])

prop("C17", "Propagators and derivatives solve the equations of motion at every moment",
 "At every moment of a history of updates, re-timings, changes of the noise, queries and failures the propagators, forward and reversed propagators and their derivatives, with and without noise, are the solution of the Schroedinger or Lindblad equation for the current pulse (after the documented transfer and amplitude functions) and the noise that was delivered, one propagator per noise trace and time step. Propagators of Hermitian Hamiltonians are unitary. All exponentiation methods agree with the matrix exponential and its directional derivative within their documented order, and leave their arguments unchanged.",
 ["histories", "inputs", "fault_sequences", "configurations"],
 "all models, pulses, transfer functions, exponentiation methods and noise environments (no noise, strong noise, spikes, equal traces), all orders of queries and failures in between",
 "The tests compare a few propagators of one pulse, each on a solver that was just built.",
 [SOL, "qopt/matrix.py", TF, AF],
 [("propagators", SOL + ": Solver._compute_propagation and its derivatives in the subclasses"), ("exp / dexp", "qopt/matrix.py: DenseOperator.exp, dexp")])

prop("C18", "Operators keep the values that the operations on them define",
 "After every history of operations, in place and out of place, with operators, arrays and numbers as operands (also the operator itself), conversions, copies, writes into elements and malformed or failing requests, each operator has the value that the mathematical definitions give (sums, products from either side, quotients, Kronecker products, traces and partial traces for any set of subsystems in any order, adjoint, transposition, truncation, vectorisation, super operators, closest unitary). Operations out of place change no operand and share nothing with their result, operations in place change exactly their operator, failing and malformed requests raise and change nothing.",
 ["histories", "inputs", "fault_sequences"],
 "all histories of operations on a population of operators, all shapes, number types, forms of arrays, subsystems and failures",
 "The tests apply a few operations, each to newly built small matrices.",
 ["qopt/matrix.py"],
 [("operators", "qopt/matrix.py: DenseOperator"), ("conversions", "qopt/matrix.py: convert_unitary_to_super_operator, ket_vectorize_density_matrix, closest_unitary")])

prop("C19", "Analytic gradients are the derivatives of the costs, at every moment",
 "For every model, pulse, noise and cost function that offers a gradient, the gradient returned by the simulator equals the derivative of the costs with respect to each optimisation parameter (in the documented order: time, cost, parameter) within the accuracy of the chosen method, whatever was evaluated, re-timed or failed before and irrespective of whether costs or gradients are asked first. The comparison with numeric gradients that the simulator offers reports this difference.",
 ["histories", "inputs", "fault_sequences", "configurations"],
 "all models, pulses, transfer and amplitude functions, costs and noise environments within the documented limits of the gradients (noise amplitudes independent of the pulse), all histories of use",
 "The tests compare the gradients of a few pulses on simulations that were just built.",
 [CF, SOL, AF, TF, SIM],
 [("gradients", CF + ": CostFunction.grad of all cost functions"), ("chain rules", TF + ": gradient_chain_rule; " + AF + ": derivative_by_chain_rule"), ("jacobian", SIM + ": Simulator.wrapped_jac_function, numeric_gradient")])

prop("C20", "Costs have their defined value in the physical range, at every moment",
 "At every moment of a history of updates, re-timings, changes of the noise, queries and failures each entanglement and state infidelity, noise infidelity and leakage (of the full space or computational states, in the unitary or super operator formalism, averaged over all noise traces) has the value that its definition gives for the solution of the equations of motion. It lies between zero and one, and is zero for the operation that was really performed.",
 ["histories", "inputs", "fault_sequences", "configurations"],
 "all models, targets, computational states, initial states, noise environments and histories of use",
 "The tests evaluate a few operations on simulations that were just built.",
 [CF, SOL, SIM],
 [("fidelities", CF + ": entanglement_fidelity, entanglement_fidelity_super_operator, OperationInfidelity, StateInfidelity"), ("noise", CF + ": OperationNoiseInfidelity, StateNoiseInfidelity, LiouvilleMonteCarloEntanglementInfidelity"), ("leakage", CF + ": LeakageError, IncoherentLeakageError, LeakageLiouville")])

prop("C21", "Drawn noise has exactly the requested statistics, at every draw",
 "The noise traces a generator draws are zero mean Gaussian and have the autocorrelation that belongs to the requested spectral density, sampled at the Fourier frequencies of the simulated (if requested: extended) trace, or the requested standard deviation for quasi static noise. Traces of different noise operators, different traces of one draw, different draws and different generators are statistically independent. This holds at every draw, whatever was drawn, copied, changed or failed before, for even and odd numbers of samples, and after the spectral density or the time step of the generator was changed.",
 ["histories", "inputs", "fault_sequences", "configurations"],
 "all histories of draws, failing draws, copies, changes of settings and foreign use of the random source; all lengths, spectra, extensions and numbers of operators and traces",
 "The tests estimate one or two spectra of one first draw from random samples with wide margins.",
 [NO],
 [("fast_colored_noise", NO + ": fast_colored_noise"), ("generators", NO + ": NTGColoredNoise._sample_noise, NTGQuasiStatic._sample_noise")])

prop("C22", "Filter functions and Monte Carlo agree for weak noise, at every moment",
 "For weak noise the filter function infidelity of each noise operator, and its gradient, equals the ensemble average of the Monte Carlo simulation over traces with the same spectral density to leading order, for every control pulse, transfer function and noise amplitude, at every moment of a history of updates, re-timings, queries and failures, irrespective of which of the two is evaluated first.",
 ["histories", "inputs", "fault_sequences", "configurations"],
 "all noise environments (spectra, ensembles with their covariance), pulses, transfer functions and histories of use; drift Hamiltonians without degeneracies and traceless controls for gradients",
 "The tests compare one pulse of one model with given samples.",
 [CF, SOL],
 [("filter functions", CF + ": OperatorFilterFunctionInfidelity"), ("pulse sequence", SOL + ": Solver.create_pulse_sequence"), ("Monte Carlo", CF + ": OperationNoiseInfidelity; " + SOL + ": SchroedingerSMonteCarlo")])

prop("C23", "Copies, pickles and stored optimizers are faithful and independent",
 "A deep copy or a pickled and loaded copy of a simulation (solvers, cost functions, simulator), taken at any moment: with any quantities cached, after failures, after re-timing, or by a function of the user in the middle of an evaluation, and likewise the simulation inside a copied optimizer or inside the optimizer stored in a result, answers every later request exactly like a newly built simulation with the current parameters and times. Whatever is done to a copy leaves the answers of the original unchanged, and the other way round.",
 ["histories", "schedules", "fault_sequences", "configurations"],
 "all histories of updates, queries, failures and copies of copies, copies at every call of a user function, all copy methods and pickle protocols, noiseless simulations and Monte Carlo simulations with given noise samples",
 "No test copies a simulation that was used before, or uses original and copy in turns.",
 [SOL, SIM, CF, TF, AF, OPT, OD],
 [("state of a solver without its pulse sequence", SOL + ": Solver.__getstate__"), ("copies for multi-start", PAR + ": run_optimization_parallel"), ("stored optimizer", OPT + ": Optimizer.run_optimization / write_state, store_optimizer")])

prop("C24", "The minimisation routine is given the user's problem at every request",
 "Whatever was run, aborted or failed before with the same optimizer or simulator, every least squares or scalar optimisation starts the minimisation routine at the user's initial pulse with the user's method, bounds and termination settings (unspecified ones at their documented defaults), and answers each of its requests, in any order and also for points visited before, with the weighted costs (scalar methods: their sum) and, if gradients are enabled, the weighted gradients of exactly the requested point in one consistent order of the entries, independently of whether records and statistics are kept. Bounded optimisations never evaluate a pulse outside of its bounds.",
 ["histories", "schedules", "configurations", "fault_sequences"],
 "all drivers, i.e. all sequences of cost and gradient requests with re-used and overwritten arrays, all weights, bounds and settings, and all earlier runs of the optimizer including aborted and failed ones",
 "Tests let one scipy method ask its own few questions to a new optimizer, and look at the final cost only.",
 [OPT, SIM],
 [("requests of the driver", OPT + ": cost_func_wrapper / cost_jacobian_wrapper"), ("problem handed over", OPT + ": LeastSquaresOptimizer.run_optimization, ScalarMinimizingOptimizer.run_optimization"), ("settings", OPT + ": default_termination_conditions, Optimizer.__init__")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
