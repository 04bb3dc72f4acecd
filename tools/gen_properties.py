"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
W = "pyrichlet/weight_models/"
MB = "pyrichlet/mixture_models/_base.py"
MU = "pyrichlet/mixture_models/_utils.py"
FN = "pyrichlet/utils/functions.py"
ALLW = [W + f for f in ("_base.py", "_dirichlet_distribution.py", "_dirichlet_process.py",
        "_pitman_yor_process.py", "_geometric_process.py", "_beta_in_beta.py",
        "_beta_in_dirichlet.py", "_beta_bernoulli.py", "_beta_binomial.py", "_equal.py", "_frequency.py")]


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": hook}})


p("C01", "Every weight vector held or returned is a valid weighting",
  "After any sequence of prior draws, fits, posterior draws, extensions, tail requests, resets and refits, the weights a weighting model returns and holds are finite, lie in [0,1] and sum to at most 1; the Dirichlet distribution and equal weights return exactly their n components, summing to 1 (equal weights are 1/n), and frequency weights are the frequencies of the fitted labels, uniform over n before a fit, while unbounded models return at least the requested number of weights. The reported size, weights, normalized weights and normalized cumulative weights always describe that same vector.",
  ["histories", "inputs", "configurations"],
  "every call history (random/complete/tail/fit/reset) on every weighting model, every valid parameter setting, every label vector including repeated, gapped and single-label ones",
  "tests draw two weights from a fresh prior with default parameters and compare two moments to one decimal; no history, no fit, no non-default parameter",
  ALLW, [("stick-breaking product w = v * cumprod(1-v)", W + "*.py: random/complete"), ("Dirichlet draw", W + "_dirichlet_distribution.py: random")],
  [("w", "held truncated weight vector", W + "_base.py"), ("v", "stick fractions", W + "*.py")],
  ["random()", "complete()", "tail()", "get_weights()", "get_size()", "get_normalized_weights()", "get_normalized_cumulative_weights()"])

p("C02", "Extending a weight realization keeps it, and a tail request is met",
  "Requesting more weights of the current realization (completing to a size, or to a tail mass x) returns the held weights, leaves every weight already drawn unchanged and is a no-op when the realization already satisfies the request (frequency weights are determined by the fitted labels); completing to a size yields at least that many weights for unbounded models. A tail request for any x up to 1-1e-12 terminates with weights whose sum is at least x, and x outside [0,1) is rejected with ValueError leaving the realization untouched.",
  ["histories", "inputs", "configurations"],
  "every interleaving of complete and tail requests with any sizes and any x, on every model and parameter setting, before and after fitting",
  "no test calls complete or tail directly; the Gibbs tests call tail but never look at what it returned",
  ALLW, [("tail loop and complete append", W + "_base.py: tail"), ("closed-form tail size", W + "_geometric_process.py: tail")],
  [("w", "held truncated weight vector", W + "_base.py")], ["complete()", "tail()", "get_weights()"])

p("C03", "Prior weights follow the declared weighting law",
  "With nothing fitted (or after a reset) each weighting model draws from its declared prior, whether all weights are drawn at once or appended by later completions or tail requests: Dirichlet(alpha); stick fractions Beta(1,alpha) for the Dirichlet process, Beta(1-d, alpha+j*d) for the j-th (j=1,2,...) Pitman-Yor stick, one common Beta(a,b) fraction for the geometric process; Beta-in-Beta fractions i.i.d. Beta(1+c*p, alpha+c*(1-p)) with c=x/(1-x) given p~Beta(a,b), common fraction p at x=1; Beta-in-Dirichlet fractions from a Polya urn of mass a over Beta(1,alpha); Beta-Bernoulli fractions Beta(1,alpha) that are redrawn at each step with probability p and kept otherwise; Beta-Binomial fractions forming the stationary Beta(1,alpha) chain with n binomial trials between neighbours.",
  ["configurations", "histories", "inputs"],
  "every parameter setting of every model and every way of reaching a given number of weights, for all weights jointly",
  "tests compare the mean and covariance of the first two weights to one decimal, for default parameters only; dependence across sticks and non-default parameters are never exercised",
  ALLW, [("random/complete draws", W + "*.py")], [("v", "stick fractions", W + "*.py")], ["random(size)", "complete(size)", "tail(x)"])

p("C04", "Posterior weights follow the exact conjugate law given the labels",
  "After fitting labels d, weights drawn by a random draw (full, truncated or oversized), or completed from an empty or truncated realization, follow the exact posterior law: Dirichlet(alpha+counts); independent stick fractions with the label count n_j added to the first Beta parameter and the count of larger labels added to the second for the Dirichlet process, Pitman-Yor and Beta-in-Beta given its p, prior fractions beyond the largest label; common fraction Beta(a+N, b+sum of labels) for the geometric process and for Beta-in-Beta at x=1; a Dirichlet process when Beta-Bernoulli has p=1 or Beta-Binomial has n=0 and a single common Beta(1+N, alpha+sum of labels) fraction when Beta-Bernoulli has p=0 or Beta-in-Dirichlet has a=0. Refitting replaces the labels entirely and reset returns to the prior.",
  ["inputs", "configurations", "histories"],
  "every label vector (gaps, single labels, repeated fits), every parameter setting, every size request",
  "no test ever calls fit on a weighting model",
  ALLW, [("counts and tail counts", W + "*.py: random"), ("fit/reset", W + "_base.py")],
  [("d", "fitted labels", W + "_base.py")], ["fit(d)", "random(size)", "complete(size)", "tail(x)", "reset()"])

p("C05", "Posterior draws of hierarchical weights leave the joint law invariant",
  "For the weighting models whose posterior is sampled by an inner Markov step (Beta-in-Dirichlet with a>0, Beta-Bernoulli with 0<p<1, Beta-Binomial with n>0, Beta-in-Beta with 0<x<1 under static, inverse-sampling or rejection-sampling p), alternately drawing labels from the current weights and weights from the posterior given those labels leaves the prior law of the weights and the implied law of the labels unchanged, and never fails on any label vector; inverse and rejection sampling redraw the hidden p of Beta-in-Beta exactly given the fractions held before the draw.",
  ["configurations", "histories", "inputs"],
  "every number of alternation steps from an exact prior draw, every parameter setting, every label vector that can arise",
  "no test fits a weighting model; the Gibbs tests use parameter values for which the inner step is trivial, or two well separated clusters",
  [W + f for f in ("_beta_in_dirichlet.py", "_beta_bernoulli.py", "_beta_binomial.py", "_beta_in_beta.py")],
  [("inner Gibbs steps", W + "_beta_in_dirichlet.py: random; _beta_bernoulli.py: _random_bernoullis; _beta_binomial.py: _random_binomials; _beta_in_beta.py: random_p")],
  [("v", "stick fractions", W + "*.py")], ["fit(d)", "random()", "complete(size)"])

p("C06", "Random assignments are categorical draws from the current weights",
  "A random assignment returns the requested number of labels (one when no size is given), each an index of the held weights, drawn independently with probability proportional to the held weights; drawing assignments does not alter the weights, and zero-weight components are never drawn; before any weights are held it is refused.",
  ["inputs", "configurations", "histories"],
  "every held weight vector (un-normalized truncations, zero weights, single component) and every size",
  "no test draws an assignment", [W + "_base.py"], [("inverse sampling", W + "_base.py: random_assignment")],
  [("w", "held weights", W + "_base.py")], ["random_assignment(size)"])

p("C07", "Reported log-likelihoods are those of the declared model",
  "The assignation log-likelihood of labels d is the sum of the logs of the held weights at d (minus infinity when a zero weight is used), extending the realization first if a label exceeds it; d defaults to the fitted labels. The weighting log-likelihood of the held realization equals the log density of its stick fractions (and of the latent switches, counts, ties or p where the model has them) under the declared prior law.",
  ["inputs", "configurations", "histories"],
  "every realization, label vector and parameter setting for each weighting model",
  "no test reads a log-likelihood of a weighting model",
  ALLW + [FN], [("weighting_log_likelihood / assignation_log_likelihood", W + "*.py")],
  [("w", "held weights", W + "_base.py")], ["weighting_log_likelihood()", "assignation_log_likelihood(d)"])

p("C08", "Variational weight expectations are those of the optimal factor",
  "After fitting responsibilities r (K x N, columns summing to 1), a weighting model with variational support reports for each component j the expectation of w_j, the expectation of log w_j and the mode of w_j (the mode of its Beta marginal, or of the stick fractions' product; ValueError if it is not unique) under the coordinate-optimal factor: Dirichlet(alpha + row sums); truncated stick-breaking with last fraction fixed at 1 and Beta(1-d+n_j, alpha+j*d+n_{>j}) sticks for Dirichlet process (d=0) and Pitman-Yor; one Beta fraction for the geometric process truncated the same way; 1/n and observed frequencies for equal and frequency weights. The expected weights are non-negative and sum to 1 over the K components, are 0 for every j beyond K, and exp of the expected log never exceeds the expected weight.",
  ["inputs", "configurations"],
  "every responsibility matrix (soft, hard, empty components, K=1) and every parameter setting",
  "tests run full variational fits on one 1-d data set and compare a density to one decimal; no expectation is ever checked",
  [W + f for f in ("_dirichlet_distribution.py", "_dirichlet_process.py", "_pitman_yor_process.py", "_geometric_process.py", "_equal.py", "_frequency.py")] + [FN],
  [("fit_variational and variational_mean_*", W + "*.py")], [("variational_params", "parameters of q(w)", W + "_base.py")],
  ["fit_variational(r)", "variational_mean_w_j(j)", "variational_mean_log_w_j(j)", "variational_mode_w_j(j)"])

p("C09", "Variational weight terms of the evidence bound are exact expectations",
  "After fitting responsibilities, the reported means of log p(d|w), log p(w) and log q(w) equal the exact expectations of the responsibility-weighted log weights, of the log prior density and of the log factor density under the fitted factor, so log p(w) minus log q(w) is never positive by more than the negative Kullback-Leibler divergence; passing explicit responsibilities evaluates them against the fitted factor without changing it.",
  ["inputs", "configurations"],
  "every responsibility matrix and parameter setting of the six models with variational support",
  "no test evaluates any of these terms",
  [W + f for f in ("_dirichlet_distribution.py", "_dirichlet_process.py", "_pitman_yor_process.py", "_geometric_process.py", "_equal.py", "_frequency.py")],
  [("variational_mean_log_*", W + "*.py")], [("variational_params", "parameters of q(w)", W + "_base.py")],
  ["variational_mean_log_p_d__w()", "variational_mean_log_p_w()", "variational_mean_log_q_w()"])

p("C10", "Density and likelihood helper functions are the distributions they name",
  "The library's Student-t and normal density functions equal the multivariate Student-t and normal densities with the given location, precision matrix and degrees of freedom in every dimension, and its beta, beta-binomial and binomial log-likelihoods, mean log beta and Dirichlet partition probability equal the named functions, with the partition probabilities summing to one over all set partitions.",
  ["inputs"], "every dimension, positive definite precision, degrees of freedom, evaluation point and partition",
  "the helpers are exercised only through one-dimensional fits", [FN],
  [("density_students_t, density_normal, dirichlet_log_eppf, mean_log_beta", FN)], (), ["pyrichlet.utils.functions"])

p("C11", "Each Gibbs step draws from the exact full conditionals",
  "In the saved Gibbs states of consecutive steps, given the previous labels and the data: each occupied component's mean and covariance follow the normal-inverse-Wishart posterior of exactly its own observations; the weights follow their posterior given those labels; each slice variable is uniform below the weight of its observation's previous label; and each new label follows the categorical law over components whose weight exceeds the observation's slice, proportional to that component's normal density at the observation. Unoccupied components either keep the value they held in the previous step or are fresh draws from the normal-inverse-Wishart prior.",
  ["histories", "inputs", "configurations"],
  "every step of every Gibbs run: any data, dimension, number of observations, priors, weighting model, warm or cold start",
  "tests only compare one MAP density of one 1-d run with tolerance 0.05 in mean squared error",
  [MB, MU] + ALLW, [("_update_atoms, _update_weights, _update_d", MB), ("posterior_norm_invw_params, random_normal_invw, gumbel_max_sampling", MU)],
  [("theta, d, u, w", "Gibbs state", MB)], ["get_sim_params()", "sim_params"])

p("C12", "Gibbs sampling converges to the exact posterior over clusterings",
  "On data sets small enough to enumerate, the long-run frequencies of the clusterings visited by the Gibbs sampler equal, for every weighting model that implies a prior law of the labels, the exact posterior probabilities given by the weighting model's partition law and the conjugate marginal likelihood, regardless of initialization; and alternating data simulation with single warm-started Gibbs steps reproduces the prior joint law of labels, parameters and data.",
  ["inputs", "configurations", "histories"],
  "every small data set, dimension, hyperparameter setting, weighting model and initialization",
  "the posterior over clusterings is never examined; tests use two clusters twenty standard deviations apart",
  [MB, MU] + ALLW, [("fit_gibbs loop", MB)], [("theta, d, u, w", "Gibbs state", MB)], ["fit_gibbs()", "sim_params"])

p("C13", "Saved Gibbs states are complete, valid and correctly counted",
  "A Gibbs fit saves exactly ceil((total_iter - burn_in)/subsample_steps) states, a warm start appends the same number to those already saved and a cold start discards them; every per-step summary (groups used, components instantiated, saved-step count, affinity counts) matches the saved states. Every saved state is self-consistent: one label and one slice per observation, every label's weight positive and above its slice, weights covering all but less than the smallest slice, and a mean and symmetric positive-definite covariance of the data's dimension for every weight; saved states never change afterwards.",
  ["histories", "configurations", "inputs"],
  "every combination of iteration settings, warm and cold restarts, initialization methods, models and data",
  "tests run one cold fit with default settings and never look at saved states",
  [MB], [("fit_gibbs, _save_params, _initialize_gibbs_params", MB)], [("sim_params, n_groups, n_atoms, total_saved_steps, affinity_matrix", "saved trace", MB)],
  ["get_sim_params()", "get_n_groups()", "get_n_theta()", "total_saved_steps", "affinity_matrix"])

p("C14", "The MAP state is the best visited state",
  "The Gibbs MAP log-likelihood is the largest value of sum log f(y_i | its component) + sum log weight of its label over the initial state and every step taken since the last cold start (burn-in and unsaved steps included), and the MAP parameters are exactly the state attaining it; it never decreases over warm starts.",
  ["histories", "configurations", "inputs"],
  "every run length, burn-in, subsampling, warm-start chain, model and data",
  "tests only evaluate one MAP density at one decimal", [MB], [("_update_map_params, _run_log_likelihood", MB)],
  [("map_sim_params, map_log_likelihood", "best state", MB)], ["map_log_likelihood", "map_sim_params", "gibbs_map_density()"])

p("C15", "Gibbs EAP and MAP densities are the mixtures of the saved states",
  "The EAP density at a point is the average, over all saved states (or the last `periods` of them, or all if fewer were saved), of the sum over components of weight times normal density, and the MAP density is that sum for the MAP state; selecting a component returns just that component's weighted term (0 in states without it). Any query set gives the same values point by point, including a single point, and omitting the query evaluates at the fitted data.",
  ["inputs", "histories", "configurations"],
  "every fitted model, query set, periods and component choice",
  "tests evaluate only the MAP density at the training points", [MB, MU], [("gibbs_eap_density, gibbs_map_density", MB), ("mixture_density", MU)],
  [("sim_params", "saved trace", MB)], ["gibbs_eap_density()", "gibbs_map_density()"])

p("C16", "Densities restricted to some dimensions are true marginals",
  "For Gibbs EAP/MAP and variational EAP/MAP densities, restricting to a dimension or a list of dimensions gives the marginal of the full density over the other dimensions, for query points with the listed columns or with all of them (an index, a one-element list and any integer type agree, and listing all dimensions equals the unrestricted density); every such density is non-negative, components add up to the total, and EAP and Gibbs-full-weight densities integrate to their total weight.",
  ["inputs", "configurations"],
  "every dimension subset and order, data dimension, fitted model and query",
  "all tests are one-dimensional and never restrict a density", [MB, MU, FN], [("mixture_density", MU), ("var_eap_density, var_map_density", MB)],
  (), ["gibbs_eap_density(dim=)", "gibbs_map_density(dim=)", "var_eap_density(dim=)", "var_map_density(dim=)"])

p("C17", "Gibbs MAP clustering assigns each point to its most probable component",
  "Gibbs MAP clustering groups query points exactly by the component with the largest weight-times-density under the MAP state, with labels 0..g-1 in order of component index, and reports as uncertainty one minus that component's normalized probability, in [0,1]; each point's group and uncertainty do not depend on which other points are queried, and any non-empty query works, including a single point and points far from all components.",
  ["inputs", "configurations"],
  "every query set (single points, far outliers, duplicates), fitted model and dimension",
  "no test calls a clustering method", [MB, MU], [("cluster", MU), ("gibbs_map_cluster", MB)], (), ["gibbs_map_cluster(y, full)"])

p("C18", "Gibbs affinity is the co-clustering frequency",
  "The Gibbs affinity matrix of the fitted data is, entry by entry, the fraction of saved states in which the two observations share a label; for new points it is the fraction of saved states whose most probable components coincide. It is symmetric with unit diagonal and entries in [0,1], accumulates over warm starts and restarts on cold starts, and consensus clustering partitions all points using that matrix into the requested number of groups.",
  ["histories", "inputs", "configurations"],
  "every trace, warm/cold start chain, subsampling and query set",
  "no test calls an affinity or consensus method", [MB, MU], [("_save_params, gibbs_eap_affinity_matrix, gibbs_eap_spectral_consensus_cluster", MB)],
  [("affinity_matrix", "co-clustering counts", MB)], ["gibbs_eap_affinity_matrix(y)", "gibbs_eap_spectral_consensus_cluster()"])

p("C19", "Variational updates are exact coordinate ascent",
  "After any number of variational sweeps the component factors are the exact normal-Wishart optimum for the held responsibilities and the weight factor is the optimum for them; each sweep's responsibilities are the normalized exponentiated expected log joint under the previous factors, columns summing to one; consequently the evidence lower bound never decreases from sweep to sweep, from any initialization, in any dimension.",
  ["inputs", "histories", "configurations"],
  "every data set, dimension, truncation, prior, weighting model, initialization and number of sweeps",
  "tests check convergence and a density to one decimal on one 1-d data set, where several update errors are invisible",
  [MB, MU] + [W + f for f in ("_dirichlet_distribution.py", "_dirichlet_process.py", "_pitman_yor_process.py", "_geometric_process.py", "_equal.py")],
  [("_maximize_variational, _update_var_d, _update_var_theta", MB)], [("var_d, var_theta", "variational factors", MB)],
  ["var_d", "var_theta", "fit_variational(warm_start=True)"])

p("C20", "Variational fitting stops by its stated rule and reports convergence truly",
  "A variational fit performs at most total_iter sweeps and stops at the first sweep whose change in the evidence lower bound (that of the current factors, with all its constants) is at most tol; the convergence flag after a fit is true exactly when that fit stopped because of the tolerance, regardless of earlier fits. A looser tolerance never runs more sweeps than a tighter one from the same start, and results are finite for any data with a non-singular sample covariance or explicit prior scale, including repeated observations and more groups than distinct points.",
  ["inputs", "configurations", "histories"],
  "every data set, tolerance, iteration cap and sequence of fits",
  "tests assert convergence on one easy data set only", [MB], [("fit_variational, _calc_elbo", MB)], [("var_converged", "flag", MB)],
  ["fit_variational()", "var_converged", "var_fitted"])

p("C21", "Variational densities are the exact predictive and mode mixtures",
  "The variational EAP density is the posterior predictive mixture of multivariate Student-t components implied by the fitted factors with expected weights, and integrates to one; the variational MAP density is the mixture of normals at the factors' modes with weight modes, and works with default arguments. Values are per point, non-negative, and a selected component returns its own term.",
  ["inputs", "configurations"], "every fitted variational model, dimension, query and component",
  "tests evaluate the EAP density at training points of one 1-d data set, to one decimal; the MAP density is never called",
  [MB, FN], [("var_eap_density, var_map_density", MB)], [("var_theta", "component factors", MB)], ["var_eap_density()", "var_map_density()"])

p("C22", "Variational clustering and affinity follow the responsibilities",
  "Variational MAP clustering labels each observation by its largest responsibility with uncertainty one minus that responsibility; for query points (any accepted form, any number, however far away) responsibilities are the normalized exponentiated expected log joint under the fitted factors, so at convergence querying the training data reproduces the fitted clustering. The affinity is the inner product of those responsibilities (symmetric, in [0,1]), and consensus clustering partitions all points with it.",
  ["inputs", "configurations"], "every fitted variational model, dimension and query set",
  "no test calls these methods", [MB], [("var_map_cluster, var_eap_affinity_matrix, var_eap_spectral_consensus_cluster", MB)], [("var_d", "responsibilities", MB)],
  ["var_map_cluster(y, full)", "var_eap_affinity_matrix(y)"])

p("C23", "Equivalent data representations give identical results",
  "The same observations given as nested list, flat list, 1-d or 2-d array, Series or DataFrame (any numeric dtype, any index or column names, any memory layout) give identical fits and identical density, clustering and affinity answers from the same seed, and a scalar query equals a one-element query; anything else is rejected with TypeError.",
  ["inputs"], "every accepted representation for fitting and for querying, in any dimension", "tests only pass a 1-d float array",
  [MB], [("_initialize_common_params, _cast_observations", MB)], (), ["fit_gibbs", "fit_variational", "all query methods"])

p("C24", "Caller data and fitted state never alias",
  "Fitting and querying never modify the caller's data, labels, prior parameters or responsibilities, and later changes the caller makes to them never change what the fitted model answers.",
  ["histories", "inputs"], "every accepted representation, and mutation by the caller at any point after a call",
  "tests never mutate or compare inputs", [MB, W + "_base.py"], [("copies in _initialize_common_params; fit", MB + ", " + W + "_base.py")], (), ["fit_gibbs", "fit_variational", "fit", "fit_variational(r)"])

p("C25", "Seeded runs are reproducible and do not touch global randomness",
  "Two objects built with the same seed or identically seeded generators and driven through the same calls produce identical results, in any process and whatever the state of NumPy's global generator, with or without progress display; no sampling or fitting call reads or alters the global random state.",
  ["histories", "configurations", "schedules"], "every model, method and call sequence; any global random state; separate processes with different hash seeds",
  "tests never run anything twice", [MB, MU, "pyrichlet/utils/validators.py"] + ALLW, [("rng_parser; rng threading", "pyrichlet/utils/validators.py")], [("rng", "generator", MB)], ["rng=", "fit_gibbs", "fit_variational", "random*"])

p("C26", "Queries are read-only and repeatable",
  "Density, clustering and affinity queries, and weight-model reporting queries, do not change the fitted model: any sequence of queries leaves every later query's answer and the continuation of sampling exactly as if the queries had not been made, and repeating a query repeats its answer.",
  ["histories"], "every sequence of queries interleaved with warm starts, on every model", "tests query once per object",
  [MB, MU] + ALLW, [("query methods", MB)], (), ["all query methods"])

p("C27", "Unfitted queries are refused and the two fitting engines are independent",
  "Every Gibbs query before a Gibbs fit and every variational query before a variational fit (densities, clusterings, affinities and the pair plot) raises NotFittedError, also when only the other engine was fitted or a fit was refused, and so do the variational reports of a weighting model (except the constant ones of equal weights) before a variational fit. Fitting or refitting one engine, on the same or other data of as many features, never changes the other engine's answers, except that the variational initialization of a Gibbs fit fits the variational engine.",
  ["histories", "configurations"], "every order of fits and queries on every model", "tests never query before fitting nor combine both engines",
  [MB, "pyrichlet/exceptions.py"] + ALLW, [("gibbs_fitted / var_fitted guards", MB)], [("gibbs_fitted, var_fitted", "flags", MB)], ["all query methods"])

p("C28", "A cold refit depends only on the new data",
  "Refitting an object without warm start, by either engine, gives results distributed as (and, with identically positioned generators, identical to) those of a freshly built object on the new data, whatever it was fitted on before: no weights, labels, atoms, saved states, MAP state, data-derived prior parameters or flags of the earlier fit survive, even if the new data has another size, scale or dimension.",
  ["histories", "inputs"], "every sequence of earlier fits and queries followed by a cold fit on any data", "tests fit each object once",
  [MB], [("_initialize_common_params, _initialize_gibbs_params, _initialize_variational_params", MB)], [("mu_prior, psi_prior, nu_prior, map_sim_params, weight_model", "state", MB)], ["fit_gibbs", "fit_variational"])

p("C29", "Prior parameters mean what is documented",
  "Omitted prior parameters take the documented data-derived values (prior mean the sample mean, prior scale matrix the sample covariance, prior degrees of freedom the dimension, prior precision factor one), explicit ones are used exactly as given whatever the fitted data, as list, array or matrix (or scalar, for one feature), and weighting-model parameters given to a mixture reach its weighting model; weighting, run and fit parameters left out mean their declared defaults (one thousand iterations, one hundred of burn-in, every state saved, tolerance 1e-8, k-means initialization, and the declared parameters of each weighting model); for a one-component model the sampled component parameters follow exactly the implied normal-inverse-Wishart posterior and the variational factor has exactly its parameters.",
  ["inputs", "configurations"], "every combination of given and omitted prior parameters, data and dimension, for every mixture class", "tests use only defaults on one data set",
  [MB, MU] + ["pyrichlet/mixture_models/_*_mixture.py"], [("_initialize_common_params; posterior_norm_invw_params", MB)], [("mu_prior, lambda_prior, psi_prior, nu_prior", "hyperparameters", MB)], ["constructor", "fit_gibbs", "fit_variational"])

p("C30", "The MAP pair plot shows the fitted MAP model",
  "The Gibbs MAP pair plot can be drawn for any fitted model, number of groups and dimension; its diagonal panels show each feature's marginal MAP density and per-component terms over the data range, its off-diagonal panels scatter the data coloured by MAP cluster and outline, for each cluster in use, the 95% normal contour of that cluster's own MAP component in the same colour; the outer axes carry the feature names, all data are in view, panels of one column share the scale of their feature, and so do the scatter panels of one row.",
  ["inputs", "configurations"], "every fitted model, number of features and number of groups", "plotting has no tests",
  [MB], [("gibbs_map_pairplot", MB)], (), ["gibbs_map_pairplot()", "matplotlib figure"])

p("C31", "Bundled data sets load complete and aligned",
  "The bundled data loaders return a feature table and a label vector with one label per row, equal to the shipped files' complete records in file order with only numeric, non-missing feature values and no label leaking into the features; repeated loads are independent copies and directly usable for fitting.",
  ["inputs", "histories"], "every row and column of both shipped files, and any mutation between loads", "the loaders have no tests",
  ["pyrichlet/utils/_loaders.py", "pyrichlet/utils/_data"], [("read_csv and slicing", "pyrichlet/utils/_loaders.py")], (), ["load_penguins()", "load_chaetocnema()"])

p("C32", "Invalid arguments are refused without side effects",
  "Invalid arguments are rejected with an exception and leave the object usable and unchanged: burn-in not below total iterations, unsupported generator objects, unsupported data types, unknown initialization or p-sampling methods, missing truncation size where none can be deduced, non-integer sizes, tail masses outside [0,1), random draws without size before fitting an unbounded model, labels, responsibilities or truncations incompatible with a Dirichlet distribution, Pitman-Yor alpha not above minus its discount; every documented valid value is accepted and works.",
  ["inputs", "configurations"], "every documented parameter of every class and every invalid class of value, at any point of an object's life", "no test passes an invalid argument",
  [MB, "pyrichlet/utils/validators.py"] + ALLW, [("asserts, raises", MB + ", " + W + "*.py")], (), ["constructors", "fit_*", "random/complete/tail"])

p("C33", "Cutting a run into warm starts does not change the chain",
  "From the same seed, a Gibbs run cut into a cold start and any number of warm starts visits exactly the states of one uninterrupted run of the same total length: burn-in and subsampling only select which of those states are saved (of each fit, steps burn_in, burn_in + subsample_steps, ... counted from 0), and counts, affinity, EAP and MAP are those of the selected (for MAP, of all) states. Variational fits cut into warm starts likewise make exactly the sweeps of one longer fit.",
  ["histories", "configurations"], "every way of cutting a run, every burn-in and subsampling of each piece, every model, data set and initialization", "tests never warm start",
  [MB, MU] + ALLW, [("warm start", MB + ": fit_gibbs, fit_variational, _initialize_common_params"), ("saving rule", MB + ": fit_gibbs")],
  [("sim_params", "saved states", MB), ("d, theta, u", "current state", MB)], ["fit_gibbs(warm_start=True)", "fit_variational(warm_start=True)", "get_sim_params()"])

p("C34", "Units and origin of the data do not matter",
  "With prior parameters given in the units of the data, or deduced from the data, a fit from the same seed on data multiplied by a positive constant or shifted gives the same labels, weights, clusterings, uncertainties and affinities, means and covariances converted to the new units, and densities divided by the constant to the power of the dimension, at every magnitude that double precision represents.",
  ["inputs", "configurations"], "every data set, dimension, scale (from 2^-60 to 2^60), shift, prior, weighting model and both engines", "tests use two data sets in fixed units",
  [MB, MU, FN], [("normal log density", MU + ": normal_logpdf"), ("posterior parameters", MU + ": posterior_norm_invw_params"), ("variational updates", MB + ": _update_var_theta, _update_var_d")], (),
  ["fit_gibbs", "fit_variational", "densities", "clusterings", "affinities"])

p("C35", "A cold start begins from the requested initial state",
  "A cold Gibbs start begins from the requested initialization: `kmeans` labels the observations by k-means groups numbered from 0 by decreasing size, as many as the model's n, else at most the requested number of groups (two by default); `random` draws the labels from the weights of a prior draw of the requested number of weights (without a number, of enough weights to leave out less than the smallest slice); `variational` takes the MAP clustering of a variational fit of the same data with as many groups, which stays fitted. A variational k-means start numbers its groups by decreasing size as well.",
  ["inputs", "configurations"], "every model, data set, initialization method and number of groups", "tests only check that each method runs",
  [MB, MU], [("initial labels", MB + ": _initialize_gibbs_params"), ("size-biased k-means", MU + ": kmeans_cluster_size_biased"), ("variational start", MB + ": _initialize_variational_params")],
  [("d", "labels", MB)], ["fit_gibbs(init_method, init_groups)", "fit_variational(init_method, n_groups)"])

p("C36", "Random variate helpers draw from the law they are given",
  "The sampling primitives of the mixtures follow the law they are given, for any scale of their arguments: categorical draws by Gumbel maxima take each outcome with probability proportional to the exponential of its (unnormalized, possibly -inf) log weight, independently per row, leaving their arguments intact; rejection sampling draws from the (unnormalized) density on the requested interval under any valid envelope; normal-inverse-Wishart draws have the inverse Wishart precision law and the conditional normal mean law, in any dimension and for fractional degrees of freedom.",
  ["inputs"], "every table of log weights, density, envelope, interval, dimension and parameter, and the stream of draws", "no test looks at the law of a draw",
  [MU], [("gumbel_max_sampling, rejection_sample, sample_normal_invw", MU)], (), ["pyrichlet.mixture_models._utils helpers", "Gibbs draws built on them"])

p("C37", "Interrupted calls leave nothing behind",
  "A fit interrupted at any point does not pass for a completed one: before any earlier fit, or after a cold start, queries of that engine refuse instead of mixing states, a later cold fit gives exactly what a fresh object would, and the other engine's answers remain. An interrupted query or weight draw changes no answer: repeating it, or continuing the fit, gives a valid result.",
  ["crash points", "histories"], "every line of the weighting models and sampling helpers at which an exception (keyboard interrupt, memory, numerical error) may cut any call", "no test interrupts a call",
  [MB] + ALLW, [("fitted flags", MB + ": fit_gibbs, fit_variational"), ("weight draws", W + "*.py")],
  [("gibbs_fitted, var_fitted", "fitted flags", MB)], ["fit_*", "queries", "random/complete"])

p("C38", "A copy of a model is an exact, independent checkpoint",
  "A deep copy (or pickle round trip) of a mixture or weighting model, taken at any moment between two calls, is an exact checkpoint: continued with the same calls it gives exactly what the original would have given, and nothing done to the copy, its generator or its states changes the original or another copy.",
  ["histories"], "every model, history of fits, queries and draws, and moment of copying", "no test copies a model",
  [MB] + ALLW, [("atoms drawn on demand", MB + ": _initialize_gibbs_params"), ("generators", W + "_base.py")], (), ["copy.deepcopy(model)", "pickle"])

p("C39", "Separate models, and queries of one model, may run concurrently",
  "Models used in different threads do not interfere: whatever the interleaving, each of several models (even of the same class, on the same data object) gives exactly the results it gives alone, and several threads asking queries of one fitted model each get exactly the answers they would get alone. No state is shared between objects, and neither the data nor the model is changed, even temporarily, while it is read.",
  ["schedules", "histories"], "every interleaving of the lines of concurrent fits, draws and queries", "all tests are sequential",
  [MB, MU, FN] + ALLW, [("queries", MB), ("module state", MU + ", " + FN)], (), ["fit_*", "queries", "random/complete/tail", "threads"])

p("C40", "Fits and queries never fail on valid data, however awkward",
  "Any finite data - a single observation, fewer observations than features, equal, repeated, collinear or constant values, outliers or groups a hundred thousand standard deviations away, features in very different units, a large offset - under a proper prior in the units of the data is fitted to completion by every model, engine and initialization: every saved state and variational factor is finite and valid, and density, clustering and affinity queries answer finite, valid values at near and very far points.",
  ["inputs", "configurations"], "every finite data set and proper prior in its units, every model, engine, initialization, number of groups and restart", "tests fit one ordinary sample",
  [MB, MU, FN] + ALLW, [("normal_logpdf, sample_normal_invw", MU), ("atoms, assignments and factors", MB)], (), ["fit_*", "get_sim_params()", "var_theta, var_d", "density, cluster and affinity queries"])

p("C41", "Order of observations and features, and coordinates, do not matter",
  "Reordering the observations or the features, or expressing the data in other affine coordinates (units per feature, rotations, reflections, shears, shifts) with the prior converted or deduced from the data, changes nothing but the expression of the results: the variational fit is the same after conversion (labels, factors, densities times the volume factor, affinities), and the Gibbs fit has the same law.",
  ["inputs", "histories"], "every data set, permutation, invertible affine map, model and number of sweeps", "no test fits the same data twice in different coordinates",
  [MB, MU, FN] + ALLW, [("theta updates, deduced priors", MB)], (), ["fit_*", "var_theta, var_d", "get_sim_params()", "density, cluster and affinity queries"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
