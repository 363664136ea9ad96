"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os

def P(id, title, statement, over, qtext, why, files, mech, observe=None):
    return {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe or [],
            "hook_needed": None,
        },
    }

EX = ("The suite runs the example scripts and a handful of array tests; they assert that code runs, "
      "plus a few values on one or two fixed data sets. ")

PROPS = [
P("C01", "Predictions solve the kriging equations of the model",
  "For every model, every data set and every set of targets, the kriging weights returned by prediction solve the kriging system built from the model's own covariance (with the unbiasedness constraints when the mean is a linear predictor, including on the fallback route taken when the block system cannot be solved). "
  "The posterior mean is those weights applied to the observations centred by the prior mean, plus the prior mean at the targets. "
  "The posterior variance (or covariance) is the prior variance at the targets minus the weights (and multipliers) times the right-hand side of that system.",
  ["inputs", "configurations"], "all data (xi, zi), targets xt, covariance and mean functions and parameters; the three mean types; marginal and full covariance; both backends; the fallback route",
  EX + "No test compares a prediction with the kriging equations, and none takes the fallback route.",
  ["gpmp/core/kriging.py", "gpmp/core/model.py", "gpmp/num/numpy_backend.py", "gpmp/num/torch_backend.py"],
  [("kriging systems for zero and linear-predictor means", "gpmp/core/kriging.py: kriging_predictor_with_zero_mean, kriging_predictor, _kriging_predictor_nullspace"),
   ("centring and prior mean per mean type", "gpmp/core/kriging.py: select_predictor"),
   ("posterior mean assembly", "gpmp/core/model.py: Model.predict"),
   ("linear solves", "gpmp/num/*_backend.py: cholesky_solve, solve")],
  ["Model.predict", "Model.kriging_predictor", "Model.kriging_predictor_with_zero_mean"]),

P("C02", "Uncertainty never depends on observed values and is never negative",
  "Posterior variances, kriging weights, leave-one-out variances, Fisher information and unconditional sample paths are determined by the locations and the model alone: changing the observed values never changes them. "
  "Conversely every posterior mean and leave-one-out prediction does use the observed values. "
  "With the default settings, prediction never returns a negative variance.",
  ["inputs", "configurations"], "all observations zi at fixed locations, all mean types, both backends",
  EX + "A dependence that shows only for some data (for instance a rescaling by the data range) is invisible on a fixed data set.",
  ["gpmp/core/kriging.py", "gpmp/core/loo.py", "gpmp/core/fisher.py", "gpmp/core/sample_paths.py", "gpmp/core/model.py"],
  [("variance computed from covariances only", "gpmp/core/kriging.py: _compute_posterior_variance"),
   ("clamp at zero before returning", "gpmp/core/model.py: Model.predict"),
   ("LOO variances from the inverse covariance only", "gpmp/core/loo.py")],
  ["Model.predict", "Model.loo", "Model.fisher_information", "Model.sample_paths"]),

P("C03", "Likelihood criteria are the Gaussian negative log-(restricted) likelihood",
  "For every covariance parameter, the likelihood criteria equal the exact Gaussian negative log-density of the observations (of their contrasts for the restricted likelihood), with the right number of degrees of freedom, log-determinant and quadratic form. "
  "They are evaluated at the parameters passed by the caller, never at the ones stored in the model. "
  "When the covariance matrix cannot be factorised, the value is plus infinity on every backend.",
  ["inputs", "configurations"], "all covariance/mean parameters and data; zero, parameterized and linear-predictor means; both backends",
  EX + "Parameter selection still converges on the fixed examples with a wrong constant or a stale parameter.",
  ["gpmp/core/likelihood.py", "gpmp/core/linalg.py", "gpmp/core/model.py"],
  [("likelihood formulas", "gpmp/core/likelihood.py"), ("contrasts", "gpmp/core/linalg.py"),
   ("infinite value on factorisation failure", "gpmp/core/likelihood.py; gpmp/num: safe_inf")],
  ["Model.negative_log_likelihood_zero_mean", "Model.negative_log_likelihood", "Model.negative_log_restricted_likelihood"]),

P("C04", "Leave-one-out results equal refitting without each point",
  "Leave-one-out predictions, variances and errors satisfy the virtual cross-validation identities for the model's mean type: error = (Q z)_i / Q_ii, variance = 1 / Q_ii and prediction = observation - error, where Q is the inverse covariance (projected on contrasts when the mean is a linear predictor). "
  "For a parameterized mean the identities apply to the centred observations and the prediction is returned on the original scale.",
  ["inputs", "configurations"], "all data and models; three mean types; both backends",
  EX + "LOO is only plotted or printed by examples; no test recomputes it by refitting.",
  ["gpmp/core/loo.py", "gpmp/core/linalg.py", "gpmp/core/model.py"],
  [("virtual LOO formulas", "gpmp/core/loo.py"), ("diagonal of the inverse from a Cholesky factor", "gpmp/core/linalg.py: diag_Kinv_from_chol")],
  ["Model.loo"]),

P("C05", "Conditional sample paths: unconditional paths plus kriged innovations",
  "An unconditional sample path set is a square root of the model's covariance on the target grid times independent standard normals. "
  "A conditional path is the unconditional path at the targets plus the kriging weights applied to the innovation (observation minus unconditional path at the observation indices), so it passes through noise-free observations; with a parameterized mean the observations are centred first and the prior mean at the targets is added back.",
  ["inputs", "configurations"], "all grids, index sets, observations, weights; Cholesky and SVD factorisations; both backends",
  EX + "The sample-path examples assert nothing about the paths.",
  ["gpmp/core/sample_paths.py", "gpmp/core/model.py"],
  [("factorisation times randn", "gpmp/core/sample_paths.py: sample_paths"),
   ("conditioning by kriging", "gpmp/core/sample_paths.py: conditional_sample_paths*")],
  ["Model.sample_paths", "Model.conditional_sample_paths", "Model.conditional_sample_paths_parameterized_mean"]),

P("C06", "Fisher information and RKHS norms follow their definitions",
  "Fisher information entries equal one half of the trace of M^-1 dM_i M^-1 dM_j, symmetric in i and j, where M is the covariance at the requested parameters (its contrasts for a linear predictor) and the derivatives come from a consistent central difference stencil that perturbs one parameter at a time. "
  "The quadratic norms and inverse products equal z'K^-1 z, K^-1 1, K^-1 z, and the contrast-space norm, for the parameters passed by the caller.",
  ["inputs", "configurations"], "all designs, parameters, steps; all mean types; both backends",
  EX + "Neither Fisher information nor the norms are exercised by any test.",
  ["gpmp/core/fisher.py", "gpmp/core/linalg.py", "gpmp/num/shared.py", "gpmp/num/torch_backend.py"],
  [("Fisher information", "gpmp/core/fisher.py"), ("five-point stencil", "gpmp/num/shared.py: derivative_finite_diff"),
   ("norms", "gpmp/core/linalg.py")],
  ["Model.fisher_information", "Model.fisher_information_cpd", "Model.norm_k_sqrd", "Model.norm_k_sqrd_with_zero_mean", "Model.k_inverses"]),

P("C07", "Matern covariances are consistent covariance functions",
  "For every regularity, parameter vector and point sets, the Matern covariance is the variance exp(covparam[0]) times the documented half-integer Matern correlation of the distance scaled by exp(covparam[1:]), with the same parameterisation in every calling mode (same points, distinct points, omitted second argument, pairwise). "
  "Same-point and pairwise modes agree with the cross-covariance up to the diagonal regularisation, which is proportional to the variance, only ever added on the diagonal of the same-point matrix, and never to a cross-covariance.",
  ["inputs", "configurations"], "all x, y, p, covparam; pairwise or not; y given, omitted or identical; both backends; any order of calls with different p (cached table)",
  EX + "Examples use one or two fixed p and never compare calling modes.",
  ["gpmp/kernel/matern.py", "gpmp/kernel/exponential.py", "gpmp/num/shared.py", "gpmp/num/numpy_backend.py", "gpmp/num/torch_backend.py"],
  [("Matern correlation", "gpmp/kernel/matern.py: maternp_kernel, matern32_kernel"),
   ("mode dispatch", "gpmp/kernel/matern.py: maternp_covariance"),
   ("gammaln cache", "gpmp/num/shared.py: compute_gammaln"),
   ("scaled distances", "gpmp/num/*_backend.py: scaled_distance, scaled_distance_elementwise")],
  ["kernel.maternp_covariance", "kernel.maternp_kernel", "kernel.matern32_kernel", "kernel.exponential_kernel"]),

P("C08", "Posterior criteria: restricted likelihood minus the documented log-prior",
  "Every negative log restricted posterior equals the negative log restricted likelihood at the given parameter minus the log of its documented prior, with each prior's hyperparameters reaching the prior they belong to. "
  "Each log-prior equals its documented formula: every penalty lowers the log-prior, acts on the intended component (variance or length scales), and is infinite exactly where the prior forbids the parameter.",
  ["inputs", "configurations"], "all parameters, data and hyperparameter values, including out-of-range ones that activate cut-offs and barriers",
  EX + "The remap examples run with default hyperparameters where cut-offs are inactive.",
  ["gpmp/kernel/priors.py", "gpmp/kernel/prior_defaults.py", "gpmp/kernel/prior_helpers.py"],
  [("prior formulas", "gpmp/kernel/priors.py: log_prior_*, neglog_f_logrho"),
   ("criteria", "gpmp/kernel/priors.py: neg_log_restricted_posterior_*")],
  ["kernel.log_prior_*", "kernel.neg_log_restricted_posterior_*"]),

P("C09", "Parameter selection returns the best point it evaluated, within bounds",
  "Parameter selection minimises exactly the criterion it is given, from the given starting point and under the requested bounds, method and options. "
  "It returns the best finite point among all criterion evaluations made, whatever the optimiser itself reports, and the recorded history holds the evaluated points and values themselves (not later-mutated aliases). "
  "Bounds passed or derived always reach the optimiser.",
  ["inputs", "histories", "fault_sequences"], "all criteria, starting points, bounds, optimisers, and evaluation histories including failed factorisations",
  EX + "On the examples the optimiser's last point is also the best one.",
  ["gpmp/kernel/parameter_selection.py"],
  [("evaluation wrapper keeping the best point", "gpmp/kernel/parameter_selection.py: autoselect_parameters")],
  ["kernel.autoselect_parameters"]),

P("C10", "Selection procedures honour every option and set the model consistently",
  "Every select/update procedure passes each option of its public signature (starting point, bounds, automatic bounds and width, method, options, prior settings, data source) to the selection step it wraps, uses the criterion its name announces, and stores the selected mean and covariance parts in the model in the same order in which they were optimised. "
  "The returned info describes that same run.",
  ["inputs", "configurations"], "all option combinations of every select_*/update_* procedure",
  EX + "Examples call the procedures with default options only.",
  ["gpmp/kernel/parameter_selection.py", "gpmp/kernel/init.py", "gpmp/kernel/prior_helpers.py"],
  [("wrappers", "gpmp/kernel/parameter_selection.py: select_parameters_with_*, update_parameters_with_*")],
  ["kernel.select_parameters_with_*", "kernel.update_parameters_with_*"]),

P("C11", "Only linear-algebra failures are turned into infinite criterion values",
  "During parameter selection, a failed matrix factorisation yields an infinite criterion value, and during sampling a zero target density, on both backends, so optimisers and samplers can step back. "
  "Any other exception raised while a model, likelihood, prior or selection criterion is evaluated (a programming error in a user's mean, covariance or criterion, a wrong argument, an interrupt) reaches the caller with its own type, whatever its message says: it is never swallowed and never replaced by a value. No sampler stops an interrupt.",
  ["fault_sequences", "configurations"], "every exception raised at any point of a criterion evaluation, on both backends, for array and batch criteria",
  EX + "No test raises inside a criterion.",
  ["gpmp/num/numpy_backend.py", "gpmp/num/torch_backend.py", "gpmp/kernel/parameter_selection.py", "gpmp/core/likelihood.py", "gpmp/core/kriging.py", "gpmp/mcmc"],
  [("linear-algebra error filter", "gpmp/num/*_backend.py: _is_linalg_exception and its users"),
   ("criterion wrappers", "gpmp/kernel/parameter_selection.py; gpmp/mcmc/param_posterior.py")],
  ["criterion callables", "kernel.autoselect_parameters", "mcmc samplers"]),

P("C12", "All randomness comes from the seeded generator",
  "After seeding the library's generator, every random result of the library (arrays, splits, loaders, designs, samplers, sample paths) is a function of that seed and the inputs: no draw comes from a hidden global generator, from operating-system entropy or from a generator the caller cannot seed. "
  "Procedures that accept a seed or generator draw only from it.",
  ["histories", "configurations"], "every random draw in the library, on both backends, in any call order and with any state of the hidden global generators",
  EX + "Tests that seed once and run once cannot see draws taken from another generator.",
  ["gpmp/num/numpy_backend.py", "gpmp/num/torch_backend.py", "gpmp/misc/designs.py", "gpmp/mcmc", "gpmp/dataloader.py", "gpmp/core/sample_paths.py"],
  [("library generators", "gpmp/num/*_backend.py: set_seed, rand, randn, choice, permutation, multivariate_normal.rvs")],
  ["gnp.set_seed followed by any random procedure"]),

P("C13", "Library calls never modify the caller's arrays",
  "No public function, method or constructor of the numerical core, the kernels, the data helpers, the samplers and the diagnostics writes into an array, tensor, list or dictionary supplied by the caller, directly or through a view or a library helper, unless its documentation says it updates that object. "
  "Internal caches and stored histories are never handed out in a form through which later library calls change previously returned results.",
  ["inputs", "histories"], "all public entry points and all argument values; in-place operations reached through any chain of calls and aliases",
  EX + "Tests do not compare arguments before and after calls.",
  ["gpmp/core", "gpmp/kernel", "gpmp/dataloader.py", "gpmp/parameter/param.py", "gpmp/mcmc", "gpmp/num"],
  [("copies before in-place updates", "throughout; e.g. gpmp/dataloader.py transform(copy=True), gpmp/core/fisher.py")],
  ["all public functions"]),

P("C14", "The NumPy and PyTorch backends provide the same numerical API",
  "Every numerical operation the library uses exists in both backends, can be called with the arguments the library passes, and means the same thing: same axis, default arguments, degrees of freedom, ordering, sign and clamping, and for random operations the same distribution. "
  "Library code above the backend layer uses backend arrays only through that common API.",
  ["configurations", "inputs"], "all uses of the backend API in the library, all argument shapes, both backends",
  EX + "Both backends run the same examples, but only on the operations and arguments the examples reach.",
  ["gpmp/num/numpy_backend.py", "gpmp/num/torch_backend.py", "gpmp/num/shared.py", "gpmp/num/__init__.py"],
  [("two backend modules with one API", "gpmp/num")],
  ["gpmp.num"]),

P("C15", "Criteria stay differentiable in their parameters end to end",
  "On the automatic-differentiation backend, every selection criterion depends on its parameter vector only through differentiable operations: no detaching, scalar extraction, conversion to NumPy or re-wrapping cuts the path from the parameters to the criterion value, and nothing disables gradient recording while a gradient is requested. "
  "Covariances keep a finite gradient where two points coincide. "
  "The value and the gradient reported for a parameter vector are those of the same function at the same point; without automatic differentiation the gradient is a difference quotient at that point, one coordinate at a time.",
  ["inputs", "configurations"], "all criteria shipped with the library, all parameter vectors",
  EX + "A severed component shows as a zero or missing derivative that the optimiser quietly ignores.",
  ["gpmp/num/torch_backend.py", "gpmp/num/numpy_backend.py", "gpmp/kernel/matern.py", "gpmp/kernel/priors.py", "gpmp/core/likelihood.py", "gpmp/kernel/parameter_selection.py"],
  [("differentiable criterion wrappers", "gpmp/num/torch_backend.py: DifferentiableSelectionCriterion, BatchDifferentiableSelectionCriterion, value_and_grad")],
  ["criterion gradients"]),

P("C16", "Unsupported or contradictory arguments are rejected, not silently accepted",
  "Every option with a fixed set of values (mean type, factorisation, reduction, backend, precision, resampling and covariance schemes, box initialisation, schedules) is handled for each documented value and rejected with an error for any other, and every documented requirement (exactly one data source or criterion, matching shapes, box form and dimension, positive sizes and temperatures, quantile levels, fold and batch sizes) is checked before the value is used; a rejected call changes nothing.",
  ["inputs", "configurations"], "all values of every enumerated option and every documented argument constraint",
  EX + "Tests use valid arguments.",
  ["gpmp/core", "gpmp/kernel/utils.py", "gpmp/kernel/prior_defaults.py", "gpmp/mcmc", "gpmp/config.py", "gpmp/dataloader.py", "gpmp/num"],
  [("explicit validation and final else-raise branches", "throughout")],
  ["public functions"]),

P("C17", "Parameter objects keep values, names, paths, bounds and normalisations aligned",
  "Normalising and denormalising are mutually inverse for every supported normalisation, and reading a parameter by name, path or index after setting it returns the value that was set, in the same representation. "
  "Selection, concatenation and conversion from covariance parameters keep each value with its own name, path, bounds and normalisation, and bound checks compare like with like.",
  ["inputs", "histories"], "all parameter objects, values, names and sequences of updates",
  EX + "test_param covers a few fixed parameter objects.",
  ["gpmp/parameter/param.py"],
  [("parallel lists and the normalisation pair", "gpmp/parameter/param.py: Param")],
  ["gpmp.parameter.Param"]),

P("C18", "Data sets and loaders deliver every sample exactly once with its own observation",
  "Over one finite epoch a loader yields each row exactly once (all but an incomplete last batch when that is dropped), covariates and observations always come from the same row, and the reported number of batches is the number delivered. "
  "Splits and folds partition the indices: train and validation parts are disjoint, every index is validated exactly once per repetition, fold sizes differ by at most one, and shard boundaries are invisible in indexing, subsetting and summary statistics. "
  "With a seed the order depends only on the seed and the epoch.",
  ["inputs", "histories", "configurations"], "all sizes, shard layouts, batch sizes, fold counts, ratios, seeds, epochs; both backends",
  EX + "test_dataloader uses a few sizes where boundary cases coincide.",
  ["gpmp/dataloader.py", "gpmp/num/torch_backend.py"],
  [("index arithmetic over shards and batches", "gpmp/dataloader.py: Dataset, DataLoader")],
  ["gpmp.dataloader"]),

P("C19", "Scalers are exactly invertible and leave their input alone",
  "For each scaler, the inverse transform undoes the transform for every array, including constant columns, because both use the same stored location and the same stored nonzero scale. "
  "Fitting uses the location and spread the scaler documents, the same on both backends.",
  ["inputs", "configurations"], "all arrays including constant columns; both backends",
  EX + "Round trips are tested on random data only.",
  ["gpmp/dataloader.py"],
  [("transform / inverse_transform / fit", "gpmp/dataloader.py: Normalizer, RobustScaler, MinMaxScaler, ObservationScaler")],
  ["gpmp.dataloader scalers"]),

P("C20", "Metropolis-Hastings chains accept and record moves correctly",
  "A Metropolis-Hastings step accepts with the log-ratio of target densities plus, for asymmetric proposals, the reverse-minus-forward proposal densities, compared with the log of a uniform draw; a rejected step repeats the current state. "
  "The recorded state, acceptance flag and log-target value at each iteration belong together, chain by chain, and proposals are adapted during burn-in only, from past states. "
  "Chain covariances, rates and convergence diagnostics are computed from the recorded states of the iterations they name.",
  ["schedules", "histories", "inputs"], "all targets, proposals, chains, iteration counts and adaptation schedules",
  EX + "No reliable test runs the sampler.",
  ["gpmp/mcmc/mh.py"],
  [("accept/reject step and trace writing", "gpmp/mcmc/mh.py: mhstep, MetropolisHastings")],
  ["mcmc.MetropolisHastings"]),

P("C21", "NUTS transitions preserve the target: leapfrog, tree and adaptation rules",
  "The leapfrog integrator is the half-full-half scheme with the metric's inverse mass, time-reversible with one gradient per full step, and the kinetic energy uses the same metric as the momentum draw. "
  "Trees stop on a U-turn or divergence at either end, subtrees that stop are never sampled from, samples are combined by multinomial or slice weights consistently, and step size and metric are adapted in warm-up only, step-size averaging being restarted after each metric change; each chain continues from its last state and what is recorded is what happened.",
  ["schedules", "histories", "inputs"], "all targets, tree depths, warm-up schedules, random draws",
  EX + "No reliable test runs the sampler.",
  ["gpmp/mcmc/nuts.py"],
  [("leapfrog, tree building, dual averaging, metric adaptation", "gpmp/mcmc/nuts.py")],
  ["mcmc.nuts_sample"]),

P("C22", "Sequential Monte Carlo keeps particles, weights and densities consistent",
  "Reweighting multiplies weights by the ratio of new to old target densities at the particle, effective sample size is one over the sum of squared normalised weights, and resampling copies a particle together with its density and resets the weights to uniform. "
  "Move steps accept with the current target's density ratio and update particle and stored density together, the move scale goes down when too few moves are accepted and up when too many are, and successive targets follow the tempering or threshold schedule to its end. "
  "The log lists the targets visited and the acceptance rate of every move, and a record made is not changed afterwards.",
  ["schedules", "histories", "inputs"], "all targets, schedules, weights and resampling schemes",
  EX + "No reliable test runs the sampler.",
  ["gpmp/mcmc/smc.py"],
  [("ParticlesSet and SMC", "gpmp/mcmc/smc.py")],
  ["mcmc.run_smc_sampling", "mcmc.run_subset_simulation"]),

P("C23", "Posterior sampling targets exp(-criterion/temperature) restricted to the box",
  "Each of the four posterior samplers targets the density proportional to exp(-criterion / temperature) at the parameters it is given, with zero density outside the sampling box; particles moved by the variational sampler are kept in the box. "
  "Variational (Stein) updates move particles by the kernel-weighted score plus the repulsive kernel gradient, averaged over the particles with nonzero density, at temperatures following the requested schedule, with the options given. "
  "The report of a run gives the densities of the particles returned and the values of each update.",
  ["inputs", "configurations"], "all criteria, temperatures, boxes, initialisations; the four samplers",
  EX + "Examples do not test the box or the temperature.",
  ["gpmp/mcmc/param_posterior.py", "gpmp/mcmc/svgd.py"],
  [("log-target construction", "gpmp/mcmc/param_posterior.py"), ("SVGD update and projection", "gpmp/mcmc/svgd.py")],
  ["mcmc.sample_from_selection_criterion_*"]),

P("C24", "Scoring rules and performance metrics equal their definitions",
  "The Gaussian CRPS, its truncated version, the expected-improvement type moments, and the model performance metrics (PRESS, TSS, Q2, RMSE and their leave-one-out and test-set versions, PIT values) equal their closed-form definitions for every prediction, positive standard deviation and observation.",
  ["inputs"], "all observations, means, variances, thresholds",
  EX + "test_scoringrules checks a few values by quadrature; performance metrics are untested.",
  ["gpmp/misc/scoringrules.py", "gpmp/modeldiagnosis/performance.py", "gpmp/modeldiagnosis/un1ddist.py"],
  [("closed forms", "gpmp/misc/scoringrules.py; gpmp/modeldiagnosis/performance.py")],
  ["misc.scoringrules", "modeldiagnosis.performance"]),

P("C25", "Backend and precision configuration stay validated and in sync",
  "The backend and precision visible in the configuration object and in the environment variables always agree and are always valid: every write goes through validation, an invalid request changes nothing, and initialisation is idempotent and follows the documented order (environment variable, then what is installed). The numerical module loads the backend the configuration names, and only that one. "
  "All floating-point arrays the library creates or converts are double precision.",
  ["histories", "configurations"], "all sequences of configuration calls and environment settings; all array creations and conversions",
  EX + "Tests fix the backend by environment variable before start and never reconfigure.",
  ["gpmp/config.py", "gpmp/num/numpy_backend.py", "gpmp/num/torch_backend.py", "gpmp/num/__init__.py"],
  [("normalisation of specs before any write", "gpmp/config.py"), ("dtype defaults", "gpmp/num/*_backend.py")],
  ["gpmp.config", "gpmp.num"]),

P("C26", "Public names resolve and optional dependencies stay optional",
  "Every name a package advertises (its export list or lazy-export table, or a documented public path) can be imported, and every name, module attribute and keyword argument the library uses internally is defined where it is used. "
  "Importing the package, its core and its diagnostics never imports plotting libraries, and the NumPy backend never imports PyTorch.",
  ["configurations", "histories"], "all advertised names, all import orders, both backends, installations without optional packages",
  EX + "Tests import what they use, in an environment where everything is installed.",
  ["gpmp/__init__.py", "gpmp/kernel/__init__.py", "gpmp/mcmc/__init__.py", "gpmp/modeldiagnosis/__init__.py", "gpmp/num/__init__.py"],
  [("lazy submodules and export tables", "package __init__ files")],
  ["import gpmp.*", "from gpmp.X import *"]),

P("C27", "Input and output conversion flags are honoured at every model boundary",
  "When conversion in is on, every array argument is converted to the backend type and column observations are flattened before any computation; when conversion out is on, every returned prediction, variance, leave-one-out result and sample path is a NumPy array; when off, backend arrays are returned untouched. "
  "The flags never change the numbers.",
  ["inputs", "configurations"], "all flag combinations, column and row observations, both backends",
  EX + "Examples use the default flags; with the NumPy backend a missing conversion is invisible.",
  ["gpmp/core/model.py", "gpmp/core/utils.py", "gpmp/core/sample_paths.py"],
  [("ensure_shapes_and_type and to_np at the boundary", "gpmp/core/model.py, gpmp/core/utils.py")],
  ["Model.predict", "Model.loo", "Model.conditional_sample_paths*"]),

P("C28", "Starting values, empirical bounds and length-scale floors follow the data",
  "The starting covariance parameters use the range of the data in each direction for the length scales and the generalised least squares variance (and mean, for a constant mean) at those length scales, whether the data come as arrays or batch by batch from a loader. "
  "Empirical bounds list the mean, variance and length-scale parameters in their order with the stated factors of the empirical variance and smallest positive spacing, and the length-scale floor is the larger of the smallest positive spacing and the stated fraction of the range.",
  ["inputs", "configurations"], "all designs, data, sizes and factors; arrays and loaders; both backends",
  EX + "Examples only run the default starting point; a wrong factor still leads the optimiser to some optimum.",
  ["gpmp/kernel/init.py", "gpmp/kernel/bounds.py", "gpmp/kernel/prior_helpers.py"],
  [("range and GLS variance", "gpmp/kernel/init.py"), ("empirical bounds", "gpmp/kernel/bounds.py")],
  ["anisotropic_parameters_initial_guess*", "empirical_bounds_factory", "compute_logrho_min_from_xi"]),
P("C29", "Model diagnosis reports the statistics, bounds and scales it names",
  "The one-dimensional distribution built from a log-density has the density, distribution function, mean, variance and quantiles of the density proportional to its exponential on the given bounds, and rejects levels outside (0, 1), empty intervals and null mass. "
  "Parameter statistics describe exp(-criterion) along one parameter with the others frozen at the reference, over the requested interval, each value under its column and each row under its parameter, together with the Fisher information of the model at that point. "
  "The diagnosis dictionary holds the natural parameter values, the projected covariance bounds and the selection summary, and the data tables hold the extremes, ranges, means and standard deviations, with ranges divided by sigma or by the length scales.",
  ["inputs", "configurations"], "all criteria, intervals, parameter vectors, boxes, data; both backends",
  EX + "They only print the report.",
  ["gpmp/modeldiagnosis/un1ddist.py", "gpmp/modeldiagnosis/param_stats.py", "gpmp/modeldiagnosis/report.py", "gpmp/modeldiagnosis/utils.py"],
  [("moments by quadrature", "gpmp/modeldiagnosis/un1ddist.py"), ("grid and integral summaries", "gpmp/modeldiagnosis/param_stats.py"), ("bounds projection and scales", "gpmp/modeldiagnosis/report.py")],
  ["Unnormalized1DDistribution", "fast_univariate_stats", "selection_criterion_statistics*", "modeldiagnosis_init", "describe_array", "sigma_rho_from_covparam"]),
P("C30", "Designs, benchmark functions and tables mean what they document",
  "Each benchmark function returns, row by row, the value of its published formula. Designs have the requested number of points and dimension, lie in the box whatever its bounds, and are those generated with the best criterion; regular grids are the full Cartesian product. "
  "The largest, smallest and fill distances are those of the points given. Tables keep every value under its row and column name through selection, assignment, appending and concatenation, and never change arrays or name lists that belong to the caller or to another table.",
  ["inputs", "histories"], "all points, boxes, sample sizes, criterion values and sequences of table operations; both backends",
  EX + "Examples only plot the designs and functions.",
  ["gpmp/misc/designs.py", "gpmp/misc/testfunctions.py", "gpmp/misc/dataframe.py"],
  [("designs and distances", "gpmp/misc/designs.py"), ("benchmark functions", "gpmp/misc/testfunctions.py"), ("named tables", "gpmp/misc/dataframe.py")],
  ["maximinlhs", "ldrandunif", "regulargrid", "filldist_approx", "testfunctions", "DataFrame"]),

P("C31", "Figures display the quantities they name",
  "Posterior plots draw the mean and, for each coverage level, the band mean plus or minus the matching normal quantile times the standard deviation, under the label of that level. "
  "Cross sections of predictions or criteria sweep one coordinate through its own bounds with all others at the anchor, evaluate the model or criterion exactly there, and show each section in the panel that names it; two-parameter profiles show the criterion at the parameters the displayed point stands for. "
  "Leave-one-out plots show 95% intervals, PIT curves the empirical distribution function in the requested figure, and sampler plots the recorded values of the named parameters, chains and iterations.",
  ["inputs"], "all models, criteria, data, bounds, parameter subsets, levels and recorded runs; both backends",
  EX + "No reliable test reads what is drawn.",
  ["gpmp/plot/plotutils.py", "gpmp/modeldiagnosis/plotting.py", "gpmp/mcmc"],
  [("posterior bands, cross sections, leave-one-out plot", "gpmp/plot/plotutils.py"), ("criterion sections and profiles, PIT curve", "gpmp/modeldiagnosis/plotting.py"), ("sampler figures", "gpmp/mcmc: plot_*")],
  ["Figure.plotgp", "crosssections", "plot_loo", "plot_selection_criterion_crosssections", "plot_selection_criterion_2d", "plot_pit_ecdf"]),

# ---------------------------------------------------------------- not decided statically
P("C90", "Results are accurate in floating point on ill-conditioned problems",
  "For covariance matrices up to a stated condition number, predictions, likelihoods and leave-one-out results agree with exact arithmetic within a stated relative error.",
  ["inputs"], "all designs, lengthscales and nuggets",
  EX + "They never compare with extended precision.",
  ["gpmp/core", "gpmp/num"], [("Cholesky and QR based algorithms, diagonal regularisation", "gpmp/core, gpmp/kernel/matern.py")]),
P("C91", "Samplers converge to their target distribution",
  "The empirical distribution of the samples returned by the Metropolis-Hastings, NUTS, SMC and SVGD procedures converges to the target distribution as the number of iterations or particles grows.",
  ["histories", "schedules"], "all targets and random streams",
  EX + "No test compares sample moments with the target.",
  ["gpmp/mcmc"], [("samplers", "gpmp/mcmc")]),
P("C92", "Optimisation reaches a local minimum of the criterion",
  "When parameter selection reports success, the returned parameters are a local minimiser of the criterion within the bounds, up to the requested tolerance.",
  ["inputs"], "all criteria and starting points",
  EX + "They do not check optimality conditions.",
  ["gpmp/kernel/parameter_selection.py"], [("SciPy optimisers", "gpmp/kernel/parameter_selection.py")]),
P("C93", "Covariance matrices are positive definite in floating point",
  "For distinct points, the same-point Matern matrix with its built-in regularisation can be Cholesky-factorised for every documented regularity and parameter range.",
  ["inputs"], "all designs and parameters",
  EX + "They use well-separated points.",
  ["gpmp/kernel/matern.py"], [("diagonal regularisation", "gpmp/kernel/matern.py")]),
]

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(PROPS), "properties")
