"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, hook=False, state=None):
  assert len(title) <= 80, (id, len(title))
  assert statement.count(". ") <= 2, id
  anchors = {"files": files,
             "mechanism": [{"name": n, "where": w} for n, w in mechanism],
             "observe_at": observe, "hook_needed": None}
  if state:
    anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
  P.append({"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": anchors})

D = "jax_sgmc/data/core.py"
NL = "jax_sgmc/data/numpy_loader.py"

prop("C01", "A full pass over the data visits every observation exactly once, in order",
 "Mapping a function over the complete dataset evaluates it on every observation exactly once in dataset order, hands over the carry from batch to batch, and returns exactly one result per observation: fillers of the last batch are marked invalid in the mask and in the batch information and their unmasked results are discarded. This holds for every combination of dataset, batch and cache size, for host and device loaders, inside and outside of jit, on every repeated pass and for every start offset of a device loader.",
 ["inputs", "configurations", "histories"],
 "all datasets, batch sizes and cache sizes (including ones which do not divide each other), all mapped functions, all sequences of passes",
 "Tests map two fixed datasets with few batch sizes and sum results once; the guarantee is over all size combinations, repeated passes and carries.",
 [D, NL], [("full_reference_data.batch_scan", D), ("_full_reference_data_device", D), ("NumpyDataLoader._ordered_indices", NL)],
 ["return value of full_data_map", "arguments seen by the mapped function"])

prop("C02", "Random mini-batches are genuine, aligned, correctly masked observations",
 "Every mini-batch of a random chain consists of observations of the dataset with all fields of one row taken from the same observation and unchanged dtype, shape and values, and its batch information states the true observation count, batch size and validity mask. If shuffling is enabled, the stream visits each observation exactly once per epoch in a fresh random order (with in_epochs the fillers at the end of an epoch are masked and every valid row of an epoch is distinct), and without it rows are drawn uniformly and independently. The stream of batches does not depend on the cache size or on jit.",
 ["inputs", "configurations", "histories"],
 "all dataset, batch and cache sizes, seeds and drawing modes, over arbitrarily long streams",
 "Tests draw a few batches from datasets with 13 or 20 observations; wrap-arounds of the shuffle buffer and cache borders depend on the size combination and the stream length.",
 [D, NL], [("NumpyDataLoader._shuffle_indices/_shuffle_in_epochs/_draw_indices", NL), ("DeviceNumpyDataLoader.get_random_data", NL), ("_hcb_wrapper.batch_fn", D)],
 ["batches returned by the random data function"])

prop("C03", "Random data chains are isolated from each other and reproducible from the seed",
 "The batches a chain receives depend only on its own seed (or key) and the number of its own requests: neither requests of other chains, their order or thread, nor other loaders or wrapped data functions influence it. Chains with equal seeds receive equal streams, chains with different or default seeds receive different streams, and chains registered concurrently from several threads never share an identity.",
 ["schedules", "histories", "configurations"],
 "all interleavings of requests of several chains from one or several threads, all seeds and registration orders",
 "Tests run chains alone or in one fixed order; isolation is a statement about all interleavings and threads.",
 [D, NL], [("NumpyDataLoader.register_random_pipeline", NL), ("_Requests.__call__", D)],
 ["batches per chain compared with a chain that runs alone"])

prop("C04", "A saved data loader state resumes exactly where it was saved",
 "Saving the state of a chain of the numpy host loader at any point and restoring it later, in the same or another loader over the same data, any number of times, continues the stream with exactly the batches and masks that followed the save. Saving does not disturb the running chain or other chains, and neither continuing the chain nor restoring from the checkpoint changes the checkpoint.",
 ["crash_points", "histories", "configurations"],
 "all save points, all numbers of restores, all drawing modes (random, shuffle, in_epochs, ordered) and sizes",
 "Tests checkpoint after a fixed number of draws and restore once; aliasing of checkpoint and chain only shows for later or repeated restores and other modes.",
 [NL], [("NumpyDataLoader.save_state", NL), ("NumpyDataLoader.load_state", NL)],
 ["streams of save_state/load_state/get_batches histories"])

prop("C05", "Host data is requested exactly once per cache refresh and delivered in order",
 "A chain consumes the caches delivered by its host loader in order, every cached batch exactly once, and asks the host for new data exactly when all cached batches are consumed. If a data state is replicated over several devices the declared number of replicas all receive the data of a single host request, and re-using an outdated data state is rejected with an error if call verification is enabled and served with fresh data of the chain otherwise. Released data functions request no more data and do not affect others, and a request that fails in the loader raises an error and can be repeated without losing or repeating batches.",
 ["histories", "schedules", "fault_sequences"],
 "all histories of requests with current, outdated and replicated data states, all cache sizes, threads and releases",
 "Tests use only one well-behaved sequential consumer; the protocol is about stale, duplicated and concurrent requests.",
 [D], [("_Requests.__call__", D), ("_hcb_wrapper", D)],
 ["log of a recording HostDataLoader", "batches returned to the consumers"])

prop("C06", "The stateless full data mapper equals a plain loop over the dataset",
 "The full data mapper that manages its own data state returns, for each call, the per-observation (or masked per-batch) results and the final carry of a plain loop over the batches of the dataset in order, where functions of single observations are vectorized automatically and carry on the state of the first observation of each batch. This holds for repeated calls, calls inside compiled loops and concurrent calls from several threads, with and without masking or batch information, for host and device loaders, and after calls which failed in the loader.",
 ["inputs", "schedules", "configurations"],
 "all sizes, mapped functions, option combinations and numbers of concurrent calls",
 "Tests call the mapper sequentially with one batched function; state hand-over between calls and threads is not exercised.",
 [D], [("full_data_mapper", D), ("_FullDataHelper", D)],
 ["results of the mapper", "log of a recording HostDataLoader"])

prop("C07", "TensorFlow and HDF5 loaders deliver the stored data faithfully",
 "The HDF5 loader returns samples written by the HDF5 collector in the original tree structure, with all leaves of a row belonging to the same sample and equal values, for ordered, random and shuffled access. The TensorFlow loader returns rows that exist in the pipeline with aligned fields, without the excluded keys, with every observation equally often in the shuffled repetition, and each of its chains is an independent stream.",
 ["inputs", "configurations", "histories"],
 "all pytrees of samples, dtypes, sizes, access modes and excluded keys",
 "The loaders are only tested with fixed datasets and mostly for shapes.",
 ["jax_sgmc/data/hdf5_loader.py", "jax_sgmc/data/tensorflow_loader.py", NL],
 [("HDF5Loader.get_batches", "jax_sgmc/data/hdf5_loader.py"), ("TensorflowDataLoader", "jax_sgmc/data/tensorflow_loader.py")],
 ["batches and full data maps of the loaders"])

PO = "jax_sgmc/potential.py"
prop("C08", "The stochastic potential is the correctly scaled mini-batch estimate",
 "For every prior, likelihood, mini-batch and sample the stochastic potential equals minus the log-prior minus N times the mean log-likelihood of the batch (with a mask: minus N/n times the sum over the valid rows, so that invalid rows have no influence even if they are impossible), divided by the posterior temperature, and its gradient is the gradient of that expression with respect to the sample. The result does not depend on the evaluation strategy or on whether the likelihood is batched; the returned likelihoods are the per-observation values in batch order and the returned model state is the one produced by the likelihood.",
 ["inputs", "configurations"],
 "all priors, likelihoods, batch and dataset sizes, masks, temperatures, strategies and model states",
 "Tests use one or two likelihoods with unit temperature and fixed batch sizes.",
 [PO], [("minibatch_potential", PO)], ["value, gradient, likelihoods and state of the potential"])

prop("C09", "The full potential is exact and equals the average of the mini-batch potentials",
 "The full potential equals minus the log-prior minus the sum of the log-likelihoods of all observations, divided by the temperature (infinite if an observation is impossible), whatever the batch size, cache size, loader, strategy or position of the data state, and its gradient is exact. It equals the average of the stochastic potentials over any partition of the dataset into equally sized batches, so mini-batch gradients are unbiased.",
 ["inputs", "configurations", "histories"],
 "all datasets, batch sizes (dividing the dataset or not), loaders, strategies, likelihoods and repeated evaluations",
 "Tests compare one value on one small dataset.",
 [PO, D], [("full_potential", PO), ("full_reference_data.batch_scan", D)], ["value and gradient of the full potential"])

S = "jax_sgmc/scheduler.py"
prop("C10", "Step-size and temperature schedules follow their defining formulas",
 "The polynomial schedule yields a(b+n)^-gamma at iteration n, the first/last schedule starts at the first and ends at the last step size and decays monotonically with the requested exponent in between, and temperatures, burn-in and defaults are the requested ones at every iteration. All step sizes are finite, positive and identical whether read in python or inside a compiled loop, parameters passed when initializing a chain override those of the schedule, and schedules initialized from one scheduler do not influence each other.",
 ["inputs", "configurations"],
 "all admissible parameters (orders of magnitude of step sizes, exponents, iteration counts) and overrides",
 "Tests evaluate few parameters; overflow, degenerate and override cases depend on magnitudes.",
 [S], [("polynomial_step_size", S), ("polynomial_step_size_first_last", S), ("init_scheduler", S)], ["schedule returned at every iteration"])

prop("C11", "Exactly the promised samples are collected: burn-in, thinning and budget",
 "No iteration before the end of burn-in is ever kept, without thinning every later iteration is kept, and with random thinning exactly the requested number of distinct iterations is kept, each drawn from the iterations after burn-in with probability weighted by the step size and reproducible from the key. The announced number of samples equals the number of iterations that are kept.",
 ["inputs", "configurations"],
 "all iteration counts, burn-in lengths, selection counts, keys and step-size schedules",
 "Tests check a handful of counts; the budget must hold for each combination.",
 [S], [("initial_burn_in", S), ("random_thinning", S), ("init_scheduler.init_fn", S)], ["schedules over a whole run", "static information"])

prop("C12", "The adaptive step size follows dual averaging towards the chain's own target",
 "During burn-in the step size follows the dual averaging recursion on the reported acceptance ratios, with the parameters of this chain (including overrides at initialization), and afterwards it stays constant. If the acceptance ratio persistently exceeds the target the step size grows, if it falls below it shrinks, and in closed loop the average acceptance approaches the target.",
 ["inputs", "histories", "configurations"],
 "all acceptance histories, parameters, overrides and burn-in lengths",
 "There is no test of the adaptive schedule's values.",
 [S], [("adaptive_step_size", S)], ["step size after every update"])

A = "jax_sgmc/adaption.py"
prop("C13", "RMSprop and mass-matrix adaption estimate what they promise",
 "The RMSprop manifold is 1/(lambda+sqrt(v)) with its elementwise square root and zero drift, where v is the exponentially weighted average of the squared gradients. The adapted mass matrix is the initial one until burn-in ends and then, once and for all, has as inverse the empirical covariance of the visited samples and a square root S with S S^T times the inverse equal to the identity; both adaptions act on parameters of any tree structure as on the flattened vector, elementwise for diagonal and jointly for full matrices.",
 ["inputs", "histories", "configurations"],
 "all sample and gradient histories, tree structures, decay rates and burn-in lengths",
 "Tests only check the flattening decorator with dummy strategies.",
 [A], [("rms_prop", A), ("mass_matrix", A), ("adaption decorator", A)], ["quantities returned by the adaption after each update"])

prop("C14", "The gradient noise model reproduces friction minus estimated noise",
 "The noise model of SGHMC estimates the covariance of the per-observation likelihood gradients of the mini-batch, scaled with half the step size, and returns matrix square roots whose squares are the friction minus this estimate and the estimate itself (the diagonal variant elementwise). Where the estimate exceeds the friction the diagonal variant replaces the difference by the smallest positive one (at most the friction, zero if there is none), so the noise is always finite and real and the two parts sum up to the friction.",
 ["inputs", "configurations"],
 "all likelihoods, mini-batches, samples, frictions, step sizes and tree structures",
 "There is no test of the noise model.",
 [A], [("fisher_information", A)], ["quantities returned by the noise model"])

I = "jax_sgmc/integrator.py"
prop("C15", "A Langevin step is gradient drift plus noise of exactly the scheduled size",
 "One Langevin step moves the sample by minus the step size times the stochastic gradient of the drawn batch plus Gaussian noise with variance two times step size times temperature, independent over coordinates, leaves, steps and chains; with an adapted manifold the drift is multiplied by the inverse metric and the noise by its square root, plus the step size times the correction term of the manifold. Each step draws the next batch, and the reported potential, likelihoods' variance and model state belong to the batch and sample at which the gradient was evaluated.",
 ["inputs", "configurations", "histories"],
 "all potentials, samples of any tree structure, step sizes, temperatures, adaptions and numbers of steps",
 "No test looks at single integrator steps; posterior tests have loose tolerances.",
 [I], [("langevin_diffusion", I), ("random_tree", I)], ["states before and after a step"])

prop("C16", "The Hamiltonian integrators perform the documented update sequence",
 "The OBABO, reversible leapfrog and friction leapfrog integrators apply, for the given number of steps, exactly the documented sequence of momentum refreshment or friction, half and full kicks with fresh mini-batch gradients, and drifts with the inverse mass, including the accumulated energies; injected noise is Gaussian with covariance given by friction, step size, temperature (where supported) and mass. Without friction and with full gradients the OBABO and the reversible leapfrog trajectories are time-reversible after flipping the momentum and conserve energy up to the second order of the scheme.",
 ["inputs", "configurations", "histories"],
 "all potentials, samples, step sizes, step counts, frictions, masses and batch sequences",
 "Integrators are only covered via loose posterior tests with one setting.",
 [I], [("obabo", I), ("reversible_leapfrog", I), ("friction_leapfrog", I)], ["states before and after integration"])

SO = "jax_sgmc/solver.py"
prop("C17", "Metropolis corrections accept or reject consistently",
 "In the amortized Metropolis solvers the reported acceptance ratio is min(1, exp(minus the change of the full potential minus the change of the auxiliary energy of the trajectory)) for the proposal, and a proposal is accepted with exactly this probability. On acceptance sample, momentum, model state and potential are those of the proposal; on rejection the sample, model state and potential are unchanged and the momentum is negated, while random key and data state always advance, and the reported potential is always the full potential of the current sample.",
 ["inputs", "histories", "configurations"],
 "all potentials, trajectories, step sizes, frictions, masses, temperatures and model states over long chains",
 "Tests only compare final posteriors of a few configurations.",
 [SO], [("amagold.update", SO), ("sggmc.update", SO)], ["solver states and statistics of each update"])

prop("C18", "Metropolis-corrected samplers leave the posterior exactly invariant",
 "If a chain of the amortized Metropolis samplers starts in a sample of the posterior it stays distributed as the posterior (at the scheduled temperature where supported), for any step size, number of integration steps, friction and mass, and although only stochastic gradients are used. The momenta keep their Gaussian distribution with the mass as covariance.",
 ["inputs", "configurations", "histories"],
 "all posteriors, step sizes, numbers of steps, frictions, masses and batch sizes",
 "Posterior tests run a single short chain with small steps for which discretization bias is invisible.",
 [SO, I], [("amagold", SO), ("sggmc", SO), ("reversible_leapfrog", I), ("obabo", I)], ["ensemble of chains started in the stationary distribution"])

prop("C19", "Replica exchange swaps with the corrected probability and keeps both chains",
 "After each update of both chains, the cold and the hot chain are exchanged with probability min(1, exp((1/T_cold - 1/T_hot)(U_cold - U_hot - correction))), where the correction is the temperature difference times the estimated variance of the stochastic potential divided by F. The variance estimate is the stochastic approximation of the cold chain's variances with the given schedule, a swap exchanges the complete states without loss or duplication, and only the cold chain is returned.",
 ["inputs", "histories", "configurations"],
 "all potentials, temperatures, step sizes, correction factors and histories of swaps",
 "Only the final posterior of one easy example is compared.",
 [SO], [("parallel_tempering.update", SO)], ["solver states of each update"])

AL = "jax_sgmc/alias.py"
prop("C20", "The ready-made samplers reproduce the posterior with independent chains",
 "Each ready-made sampler (SGLD with and without RMSprop, reSGLD, AMAGOLD, SGGMC, SGHMC, OBABO) returns for a sufficiently small step size and long run (SGHMC: and many integration steps between the resampling of the momentum) samples whose mean and covariance agree with the true posterior within Monte Carlo error, in the tree structure of the initial sample. It applies the options it was given (step sizes, burn-in, accepted samples, mass, friction, temperature, batch and cache size, noise model), and several chains of one call use different randomness and start from their own initial sample.",
 ["inputs", "configurations"],
 "all posteriors, options and numbers of chains",
 "Tests compare a one-dimensional Gaussian with 100 samples and a large tolerance, one chain at a time.",
 [AL, SO, I], [("alias samplers", AL), ("_init_chains", AL)], ["results of the samplers"])

IO = "jax_sgmc/io.py"
prop("C21", "Saved samples are exactly the kept states of the trajectory, in order",
 "The driver advances the sampler by exactly the requested number of iterations with the schedule of each iteration, feeds back the statistics to the schedule, and returns exactly the samples after the kept iterations, in order, with the right count. The result is the same for every saving backend (device, memory, JSON, HDF5), for sequential, vectorized and parallel execution of the chains as far as supported, and each chain's samples stay with that chain.",
 ["configurations", "histories", "inputs"],
 "all keep patterns, sample trees, iteration counts, numbers of chains, backends and strategies",
 "Tests save a few fixed patterns for one chain.",
 [SO, IO], [("mcmc", SO), ("save/no_save", IO), ("data collectors", IO)], ["return value of the run", "files written"])

prop("C22", "Runs are deterministic and independent of presentation options",
 "Repeating a run with the same initial state, seeds and options gives bit-identical samples, in the same or a fresh process. Showing the progress bar, saving to numpy or on the device, and the cache size do not change any sample, and the progress bar reports the true iteration and the true number of collected samples.",
 ["configurations", "inputs"],
 "all samplers, options and seeds",
 "Tests never compare two runs.",
 [AL, SO, S, IO], [("mcmc", SO), ("_progress_bar", S), ("alias samplers", AL)], ["samples of paired runs", "printed progress"])

prop("C23", "Collected samples are complete and durable when a run returns",
 "When a run returns, everything it saved has arrived at the collector and is completely written: the in-memory result, the npz and HDF5 files contain every kept sample of every chain in order under the leaf names of the sample tree, the JSON files as the list of leaves in the order of the flattened tree. This holds however slow or delayed the collector and the storage are, for several chains and collectors at a time, and for periodic JSON files each file holds exactly the samples collected until then. If the collector or the storage fails, the run raises an error instead of blocking or returning as if everything were saved.",
 ["schedules", "fault_sequences", "configurations"],
 "all delays of callbacks and writers, numbers of chains, devices, backends and write frequencies",
 "Tests use fast in-memory collectors where the asynchronous writes are always finished.",
 [IO], [("save.postprocess", IO), ("collectors' finalize/finished", IO)], ["files and results at the moment the run returns"])

prop("C24", "Pytrees survive the conversion to dictionaries and back",
 "Converting any pytree of dictionaries, lists, tuples and named tuples to nested dictionaries and back to its structure restores every leaf at its place, also for subtrees, and distinct leaves never share a path. The list of paths names the leaves in the order of the flattened tree, and empty subtrees or None neither produce paths nor disturb others.",
 ["inputs"],
 "all pytrees (depth, mixture of node types, key order, empty nodes)",
 "Tests use a few hand-written trees.",
 [IO], [("pytree_to_dict", IO), ("pytree_dict_keys", IO), ("dict_to_pytree", IO)], ["return values of the conversions"])

U = "jax_sgmc/util/tree_util.py"
prop("C25", "Tree algebra, list mapping and identifiers obey their laws",
 "Tree addition, scaling, products, dot product and the matrix products agree with linear algebra on the flattened vectors for every tree structure and preserve structure and shapes. Mapping a function over a list of trees, vectorized or in parallel, equals applying it to each tree and keeps the order, stacking and splitting are inverse to each other, and identifiers survive flattening, compiled code and conversion unchanged and are unique.",
 ["inputs", "configurations"],
 "all trees, shapes, dtypes, numbers of trees and devices, all 128 bit identifiers",
 "Tests check single hand-written trees.",
 [U, "jax_sgmc/util/list_map.py", "jax_sgmc/util/uuid.py"], [("tree_* functions", U), ("list_vmap/list_pmap", "jax_sgmc/util/list_map.py"), ("JaxUUID", "jax_sgmc/util/uuid.py")], ["return values"])

prop("C26", "Requests which cannot be honoured are refused without side effects",
 "A request which cannot be honoured raises an error instead of yielding a wrong result: batches larger than the dataset, batch or cache sizes which are not positive, fields with different numbers of observations, epochs without shuffling, offsets outside of the dataset, more devices than present, caching on the device, masking for functions of single observations, objects which are no data loader, unknown strategies, parallel full potentials, undefined or increasing step-size schedules, more samples than iterations after burn-in, thinning with adaptive step size, and unsupported loading, checkpoints or options of loaders. The neighbouring request at the limit (a batch of the whole dataset, the last offset, constant schedules, all iterations after burn-in) is accepted and gives the correct result. A refused request leaves no trace: running chains, later chains and their default seeds, collectors and saved samples are the same as without it.",
 ["inputs", "configurations", "histories"],
 "all requests beyond and at the limits, in every position of a history of valid requests",
 "Tests try single wrong values in a fresh setting; that limits are exact for all sizes and refusals leave no trace is a statement about all sizes and histories.",
 [D, NL, "jax_sgmc/data/tensorflow_loader.py", "jax_sgmc/data/hdf5_loader.py", "jax_sgmc/potential.py", "jax_sgmc/scheduler.py", "jax_sgmc/solver.py", "jax_sgmc/io.py", "jax_sgmc/alias.py"],
 [("random_reference_data/full_reference_data checks", D), ("register_random_pipeline checks", NL), ("random_thinning and polynomial schedules", "jax_sgmc/scheduler.py"), ("mcmc strategies", "jax_sgmc/solver.py")],
 ["exceptions of refused requests", "results of later requests"])

prop("C27", "Components have no hidden state",
 "What an initialization, update or result of an integrator, sampler, adaption, scheduler, potential, data pass over device data, device saving or driver returns depends only on the options of the component and the arguments of the call: starting or advancing other chains, components with the same or other options, options of other starts, calls with other batch sizes, dataset sizes, masses or sample structures, repeated updates of the same or of an older state and failed calls change nothing. Arguments, also dictionaries and numpy arrays, are not modified, and direct, compiled, vectorized and looped execution agree up to rounding. Host data loaders, host collectors and automatically chosen identities and seeds are documented state and exempt.",
 ["inputs", "configurations", "histories"],
 "all components, options, interleavings of calls and ways of execution",
 "Tests build a fresh component for each assertion; that no earlier call matters is a statement about all histories of calls.",
 ["jax_sgmc/integrator.py", "jax_sgmc/solver.py", "jax_sgmc/adaption.py", "jax_sgmc/scheduler.py", "jax_sgmc/potential.py", D, NL, IO],
 [("init/update/get triples", "jax_sgmc/integrator.py"), ("init/update/get triples", "jax_sgmc/solver.py"), ("_adaption", "jax_sgmc/adaption.py"), ("init_scheduler", "jax_sgmc/scheduler.py"), ("no_save", IO)],
 ["returned states and results of every call of a history", "arguments after the history"])

prop("C28", "The layout of samples, model states and data does not matter",
 "Samples and model states are arbitrary pytrees (dictionaries, ordered dictionaries, tuples, lists, named tuples, registered classes, empty subtrees, bare arrays) with leaves of any shape, and two runs which differ only in names and nesting (the order of the leaves kept), in the shapes of the leaves (the sizes kept) or in the names and shapes of the fields of the data give the same values in the order of the leaves up to rounding. This holds for potentials, likelihoods, gradients, adapted quantities and all samples of all integrators and ready-made samplers with masses, frictions and initial quantities in the layout of the sample, for sequential, vectorized and parallel chains and samples collected on the device or in memory. Everything returned for a sample or model state (gradients, adapted diagonal quantities, collected samples behind a leading axis) has its structure, shapes and types.",
 ["inputs", "configurations"],
 "all pytree layouts of samples, model states and observations, for all components",
 "Tests use a few flat dictionaries; the guarantee is about all trees and shapes in combination with all options.",
 ["jax_sgmc/integrator.py", "jax_sgmc/solver.py", "jax_sgmc/adaption.py", "jax_sgmc/potential.py", "jax_sgmc/alias.py", IO, D, U, "jax_sgmc/util/list_map.py"],
 [("random_tree, init_mass", "jax_sgmc/integrator.py"), ("_adaption", "jax_sgmc/adaption.py"), ("tensor_matmul and tree algebra", U), ("minibatch_potential", "jax_sgmc/potential.py"), ("MemoryCollector, no_save", IO)],
 ["returned samples, gradients, adapted quantities"])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
  for p in P:
    f.write(json.dumps(p) + "\n")
print(len(P))
