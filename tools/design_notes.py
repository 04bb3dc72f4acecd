"""Per-property notes of DESIGN.md: (oracle, workload, why it reaches what the
tests cannot / limits)."""
NOTES = {
"C01": ("An auditor called after every single call of the history: finiteness, range, sum, size, and that `get_size`, `get_weights`, `get_normalized_weights`, `get_normalized_cumulative_weights` describe the vector just returned.",
        "Random call histories (up to ~15 calls of random/complete/tail/fit/reset/assign/log-likelihood) on all ten models; deep realizations of hundreds of weights; finite models after fits of any label vector.",
        "The tests draw once from a fresh prior; caches, stale sticks and off-by-one completions only show after a particular order of calls."),
"C02": ("Prefix monitor: after each extension the previously held weights must be bitwise the prefix of the new ones; tail oracle: `sum >= x` computed by the harness; refused tails must leave the realization untouched.",
        "Interleavings of complete/tail with growing and shrinking requests, x up to 1-1e-12, realizations whose mass is exhausted in floating point (`exhausted`), before and after fits.",
        "The closed-form and loop implementations of `tail` fail only for particular masses and parameters."),
"C03": ("Sequential (conditional) probability integral transforms: every stick fraction, given the previous ones, is mapped through its exact conditional law; ties and switches are Bernoulli events with exact conditional probability. Under the property all of these are i.i.d. uniforms/martingale differences whatever the parameters, so one log pools all settings; the log is also kept per parameter value and per stick position so that a local error is not diluted. Kolmogorov-Smirnov on u and |2u-1|, Bernstein bound on indicators.",
        "Nine ways of reaching a vector (random, redraw, one-by-one completion, tail, after fit+reset, ...) x random parameters of all models.",
        "Rounding next to 1 for fractions Beta(a,b) with tiny b is handled by drawing the transform within the rounding interval (a false alarm found and corrected)."),
"C04": ("Same transforms under the exact conjugate posterior, split by occupied / gap / beyond-the-largest-label positions.",
        "Label vectors with gaps, repeats, single labels, thousands of labels; ways: random (full, truncated, oversized), completion of empty or truncated realizations, refits, list and int32 labels, reset.",
        "No test fits a weighting model. Beta-in-Beta is judged given its own `p`; the approximate p methods only enter given that p."),
"C05": ("Three oracles. (1) Geweke-style alternation from an exact joint draw: after any number of steps the weights must have the exact prior law (transforms) and the labels the exact law. (2) `averages`: time averages over long alternations from the exact start, whose expectations are known in closed form; chains are independent, so a studentized mean decides. (3) `fixed-labels`: repeated posterior draws given the same few labels, started exactly in the posterior (rejection), against the posterior enumerated over tie patterns (set partitions for Beta-in-Dirichlet, switch patterns for Beta-Bernoulli).",
        "Random parameters, 1-12 labels, up to 25 alternations; arbitrary label vectors for the never-fails clause.",
        "Inner Markov steps have no closed-form draw; only invariance can be judged, and a biased kernel shifts stationary frequencies by a few percent (seed bid-self: 1-4 %), which (3) resolves. Exactness is not claimed for the p methods documented as approximations (independent, geometric, max-likelihood)."),
"C06": ("Randomized transforms of each label under the normalized held weights; neighbour differences modulo one for independence; binomial transforms of the counts within one call (stratified or systematic sampling has too little variance); redraw-and-assign for stale caches; weights compared before/after.",
        "All models, truncated/un-normalized/zero-weight vectors, sizes None..400.", "No test draws an assignment."),
"C07": ("Closed forms written by the harness from the definitions, evaluated on the held weights.",
        "Realizations after draws, fits, extensions; label vectors beyond the truncation; zero weights.",
        "Beta-in-Beta's p and Beta-Binomial's counts are read from the objects where public, else enumerated. Realizations whose fractions cannot be inverted accurately are excluded."),
"C08": ("Closed forms of the optimal factor (`models.VarRef`), themselves validated against simulation of the factor in the `simulation` scenario; Jensen and normalization checked on the reported values.",
        "Soft, hard, empty-component, single-component responsibilities; random parameters.", "No expectation is tested."),
"C09": ("Exact expectations from the same independent reference; optimality: perturbing the responsibilities of the factor never raises the reference bound.",
        "As C08, plus explicit responsibilities different from the fitted ones.", "No test evaluates these terms."),
"C10": ("scipy's distributions, numerical quadrature, and enumeration of all set partitions up to n=8 for normalization.",
        "Dimensions 1-5, extreme arguments, mixed units.", "The tests check one dimension only."),
"C11": ("Consecutive saved states: Bartlett factor of the covariance and standardized mean of every component are transformed under the exact normal-inverse-Wishart posterior of the previous labels; weights under their posterior; slices as u/w; labels through the exact conditional law given weights, slices and atoms. Kept per lambda and near/far prior mean.",
        "All mixtures, D 1-3, random priors (prior means up to 10 sd away), overlapping data so that labels are really random, one-step warm starts, single observations.",
        "Assumes the documented order components, weights, slices, labels. A refactoring that keeps the draws' laws but uses other random streams is invisible to it, as it should be."),
"C12": ("(a) Geweke joint test: data simulation alternated with one-step warm starts must reproduce the prior joint law of labels, parameters and weights. (b) frequencies of visited partitions against the enumerated posterior (Bell(3)=5, Bell(4)=15 partitions; partition law x conjugate marginal likelihood).",
        "Nine weighting models, different initializations, warm starts.",
        "Weighting models whose common fraction has too heavy a tail (a=1) are left out of (b) (thousands of components per step)."),
"C13": ("Audit of the whole saved trace after each fit: counting formula, self-consistency of each state, agreement of each summary, immutability of earlier states by value.",
        "Chains of cold and warm fits with random total/burn-in/subsample.", "The tests run one cold fit."),
"C14": ("All visited states known: fits with burn_in=0, or a soft observer around the step method when it exists; the reported MAP must be the arg max of the harness's own log-likelihood.",
        "Identically seeded runs with other burn-in/subsampling; warm starts; one observation with one step (the initial state is often best).",
        "If the step method is renamed the observer is skipped and the identically-seeded comparison remains."),
"C15": ("Densities recomputed from the saved states.", "Points, single points, omitted query, components, periods, warm starts.", "Tests compare to one decimal in 1-d."),
"C16": ("Marginals recomputed from fitted parameters, plus numerical integration of the library's own density over the other dimension.",
        "Every subset/order of dimensions, all index types, query with listed or all columns.", ""),
"C17": ("Arg max of harness-computed log weights+densities of the MAP state.", "Outliers at 1e4 sd, duplicates, single points, all representations.", "Ties up to rounding may go either way."),
"C18": ("Co-clustering frequencies counted from the saved states; block-structured affinities for the consensus.", "Chains of cold/warm fits, queries.", "Only affinities with exactly k blocks are used for the consensus, other spectral partitions may depend on memory layout."),
"C19": ("Bishop's coordinate updates written independently (`mix.nw_optimum`, `expected_log_joint`, `VarRef`) and an independent evidence bound.",
        "Cold fits continued sweep by sweep; overlapping groups (soft responsibilities).", "Responsibilities are floored at machine epsilon by design."),
"C20": ("The exact bound after each sweep of a twin predicts the sweep at which a fit with a given tolerance must stop and its flag.",
        "Tolerances from 1e6 to 1e-8 and right between two consecutive changes; refits with stale flags; degenerate data.", "Decisions within rounding of the tolerance are excluded."),
"C21": ("Student-t and normal mixtures written by the harness; numerical integration.", "All six classes.", "Weights without a unique mode have no MAP density (ValueError accepted)."),
"C22": ("Responsibilities recomputed from the fitted factors.", "Training data, far points, single points, all representations.", ""),
"C23": ("Pairwise exact equality of identically seeded fits/queries over representations.", "Nested/flat lists, arrays of each dtype, Fortran order, views, Series, DataFrames with odd indices.", ""),
"C24": ("Inputs compared with copies after every call, then overwritten; the model's answers and further sampling are compared with an untouched twin.", "Every mutable argument, including priors, responsibilities, labels and queries.", ""),
"C25": ("Twins compared exactly call by call with the global NumPy/random state perturbed, global state compared around every call; other processes with other hash seeds.", "Random programs over both engines and weighting models.", "An int seed gives the mixture and its weighting model identical streams; that is not claimed wrong."),
"C26": ("Twins: one answers random queries in between, each twice.", "Random programs; pair plot included.", "Assignation likelihoods of stale frequency realizations are skipped: the documented query extends the realization."),
"C27": ("NotFittedError in every fitted/unfitted combination; exact answers before/after the other engine's fits.", "Fresh, one-engine, refused-fit objects.", ""),
"C28": ("A freshly built object with a generator copied from the state of the used object's generator must give exactly the same trace.", "Histories on data of other sizes, scales, dimensions.", ""),
"C29": ("Transforms under the implied posterior (one component), exact parameters of the factor, prior transforms of the weights drawn through each mixture class.", "Every combination and form of given/omitted priors, refits.", ""),
"C30": ("Artists of the figure inspected: lines, collections, colours, labels.", "1-4 features, 1 to >10 groups, Agg backend.", "Colours may repeat beyond ten groups."),
"C31": ("Independent parse of the shipped files.", "Loads in random order, working directories, mutated earlier loads.", ""),
"C32": ("Invalid calls injected into random programs; the rest must equal an untouched twin.", "All constructors and calls.", ""),
"C33": ("Twin runs: the states, counts, affinity and MAP of the pieces against those of one uninterrupted run, selected by the documented rule; densities of the last periods recomputed from the selected states.",
        "1-4 pieces with random lengths, burn-in, subsampling; all models; both engines (variational with a negative tolerance so that only the cap stops).", "The variational start of a Gibbs run depends on total_iter and is left to C35."),
"C34": ("Twin runs on y and s*y+t. With s a power of two the conversion is exact in floating point, so that labels and slices must be equal bit by bit and everything else to 1e-9; any absolute tolerance, jitter or floor in the code shows at some magnitude.",
        "s from 2^-60 to 2^60, shifts of up to 100 units, priors converted or deduced; well conditioned scale matrices.", "Shifted runs start from random labels and are short (k-means numbers groups of equal size arbitrarily); per-feature rescaling is not claimed, NumPy's multivariate normal uses a decomposition which does not commute with it."),
"C35": ("The k-means partition of far apart groups of distinct sizes is known, and must survive the first step; the state at the entry of the first step is compared with it, with the law of a prior draw, or with the answers of the variational engine left fitted.",
        "All models and initializations, requested groups below, at and above the truth.", "Entry states need `_gibbs_step` to exist; without it only the labels after one step, the variational clustering and the sizes are judged."),
"C36": ("Draws of each helper go through (randomized) probability integral transforms of the exact law given.", "1-8 outcomes, log weights shifted by up to thousands, impossible outcomes; intervals of widths 1e-3 to 1e3; 1-4 features in unlike units.", "Private helpers: skipped, and counted as absent, when they are gone or take other arguments; their effect is then still judged by C05, C11 and C29."),
"C37": ("A dry run counts the lines a call executes in weight_models, _utils and utils (sys.settrace); the call is repeated on twins with an exception raised before a random one. Refusals, the earlier answers and a fresh object's results are the oracle.", "First fits, cold refits, warm starts, queries, weight draws; KeyboardInterrupt, MemoryError and others.", "Points between lines, and inside NumPy, are not reached; after an interrupted warm start only later cold fits are judged."),
"C38": ("Two twins; one is copied between two random calls. The copy is refitted, continued, queried and its states overwritten, then the original and another copy complete the history and must give exactly the other twin's results and leave the generator in the same state.", "All models, both engines, warm continuations; deep copies, copies of copies, pickles.", "Shallow copies are not claimed."),
"C39": ("Threads run under sys.settrace with a baton: only one runs, and at each executed line of pyrichlet the baton passes on with a random (seeded) probability, so that interleavings are line by line, diverse and replayable. Oracle: the same calls run alone.", "2-3 threads; switch rates from 1% to 80% of the lines; hundreds of thousands of switches at several thousand places per run.", "No switches inside NumPy's C code; spectral clusterings left out."),
"C40": ("Every saved state (C13's audit), factor and responsibility is audited after each fit, and every density, marginal, clustering and affinity answer must be finite and valid at near points and points up to 1e9 deviations away.", "Data sets of twelve awkward kinds (one observation, fewer than features, equal, repeated, collinear, constant, outliers and groups 1e3-1e5 deviations away, units 1e-12-1e12, offsets, integers) under proper priors in their units go through cold and warm fits of every model and engine. Priors are in the units of the data (whose units are wrong is C32's business); far groups stop at 1e5 deviations because beyond it the sample covariance loses the within-group scale in double precision.", "Tests fit one ordinary sample; singular scatter, empty components and underflowing densities need these data."),
"C41": ("Variational fits are compared exactly after conversion: responsibilities, factors, densities with the Jacobian, marginals, clusters, affinities. Gibbs fits are compared in law: over independent pairs, every coordinate-free function of the last state (coclustering, number of groups, weights, slices, atom mean/scale mapped back, densities, MAP, uncertainty, affinity) must be larger in either twin equally often, and so must its spread (martingale sign tests).", "The same data in two orders and coordinate systems (feature permutations, units, rotations, reflections, shears, general affine maps), prior parameters given (and converted) or deduced; all models, engines and up to a dozen sweeps. Variational pairs are only judged where nearly every k-means start finds the same groups in both coordinates, because the initialization is legitimately not affine invariant; the affine law of the Gibbs sampler is compared from random starts for the same reason.", "Both executions look plausible alone: only the pair shows that a covariance cross term, a feature order or the first observation was treated differently."),
}

HEAD = """# Design

This document is written by `tools/gen_design.py` from `properties.jsonl`, the
checks themselves and `tools/design_notes.py`.

## Technique: runtime monitoring

pyrichlet is a pure-Python library (NumPy, SciPy, pandas, scikit-learn) of
Bayesian nonparametric mixtures: ten weighting models (`weight_models`), nine
mixture classes with a Gibbs and a variational engine (`mixture_models`), and
supporting functions and data. It has no compiled code and no threads of its
own, so compiler sanitizers, race detectors and undefined-behaviour
interpreters have nothing to instrument (NumPy's own compiled code is not in
the repository). What remains of the family, and what every check here uses,
is execution monitors: the real classes are driven by seeded random workloads
and every observation goes to an oracle.

* **Deterministic monitors** (`ctx.check`, `ctx.close`, `ctx.raises`): closed
  forms and invariants written by the harness from the mathematical definition,
  never by calling the code under test. They raise a violation at once.
* **Statistical monitors** (`ctx.pit`, `ctx.dpit`, `ctx.z`, `ctx.mean`,
  `ctx.freq`): most guarantees of a sampler are laws. Every random quantity the
  code draws is turned, conditionally on everything drawn before it, into a
  variable whose law does not depend on the parameters (a uniform transform, a
  Bernoulli indicator with known rate, a bounded variable with known mean).
  The tasks only record these; the parent decides over the whole log, so that
  thousands of different parameter settings, histories and data sets
  contribute to one test. Statistics are also kept by parameter value
  (`ctx.group`) so that an error confined to one is not diluted.
* **Twin monitors**: two executions that must agree exactly, one of them with
  a perturbation injected (global random state, intermediate queries, invalid
  calls, overwritten inputs, another hash seed, another representation).
* **Hang monitor**: CPU timer around each case; a call that does not return
  within 100 CPU seconds (normally milliseconds) is a violation.

An exception from inside pyrichlet in a valid call is a violation. A result
which the harness cannot interpret (wrong shape, wrong type, so that the
oracle itself raises) is a violation too; a private name that is gone is not
(the monitor that wanted it is skipped).

Each run prints how much was observed; evidence files hold the number of
evaluations of every monitor, the distinct cases, the statistical tests with
their smallest p-values, and what each scenario cost. A run in which a monitor
was starved (fewer observations than `REQUIRE`) is inconclusive (exit 2), not
a success.

### False alarms

A run of one check uses a family-wise error of 1e-7 over all its statistical
tests (Bonferroni; Kolmogorov-Smirnov on the transforms and on their distance
from 1/2, Bernstein's inequality for indicators, ten-fold inflated normal tail
for means of at least 300 independent bounded observations, chi-square with
pooled cells for frequencies). Deterministic comparisons use relative
tolerances of 1e-6 to 1e-10, enlarged where the formula itself cancels.
Seeds are fixed by VERIF_SEED, and other seeds are used for sweeps.

Quick tiers take 2-60 s each (about six minutes for all checks on 8 cores);
thorough tiers take at least five times as many cases.

No hooks are needed in /repo (MANIFEST `hooks` is empty): observation is
through the public interface. Where a monitor profits from a private name
(the observer around the Gibbs step in C14, the `p` of Beta-in-Beta) it is
read softly and the monitor skipped if the name is gone.

All effects stay in memory or in temporary directories the check removes;
plotting uses the Agg backend.
"""

TAIL = """## Decisions about the boundary of the properties

* An `int` seed gives a mixture and its weighting model identical random
  streams when both are built from it. The properties are therefore monitored
  with generators or distinct seeds where independence matters.
* `complete` after `fit` extends the existing realization (documented
  behaviour) rather than redrawing it.
* Beta-in-Beta's p methods `geometric`, `independent` and `max-likelihood` are
  approximations by design: the fractions are judged given the p in use.
* Constant data with a data-derived prior has a singular covariance, and is
  excluded.
* C12 leaves out settings whose common fraction has density unbounded at zero
  (thousands of components per step).
* C08/C21: modes next to zero have a tolerance for cancellation.
* Variational initialization depends on the total number of iterations; C19
  and C20 use refits continued sweep by sweep.
* Spectral consensus (C18) is compared only for affinities with exactly k
  separated blocks.
* Frequency weights are refreshed by `random`/`complete` only, so C26 skips
  assignation likelihoods of stale realizations.
* Given responsibilities must be arrays (documented type).
* C28 copies the generator state after construction because the geometric
  process draws its fraction in the constructor.
* C30: colours may repeat beyond ten groups.

## False alarms met while building, and what was done

* Rounding next to 1: fractions Beta(a, b) with tiny b are often within one
  ulp of 1, where the transform is not determined by the rounded value; it is
  now drawn uniformly within the rounding interval.
* Tie indicators of one Beta-in-Dirichlet chain are dependent through the
  shared Dirichlet draw; they are merged into one bounded mean per chain.
* Long-run frequencies of Gibbs chains are judged by independent chains (or
  batch means), never as if the states were independent.
* Densities at points where the weight model's fractions cannot be inverted
  accurately (exhausted mass) are excluded from C07.
* A first C18 consensus comparison used arbitrary affinities, whose spectral
  labels may change with memory layout.
"""

# seed: (caught by, tried and not caught by)
SEEDS = {
"norm-cache": ("C01, C06", "C11"), "tail-isclose": ("C02", "C13"),
"urn-count": ("C03", ""), "bb-carry": ("C03", ""), "py-trunc": ("C04", ""),
"bid-self": ("C05", ""), "systematic": ("C06", ""), "bbin-switch": ("C07", ""),
"mode-break": ("C08", ""), "py-norm": ("C09", "C19"),
"t-power": ("C10, C16, C21", ""), "gumbel-share": ("C11, C12", ""),
"lam-shrink": ("C11, C29", "C12"), "slice-norm": ("C11, C13", "C12"),
"n-groups": ("C13", ""), "map-saved": ("C14", ""), "eap-div": ("C15", ""),
"marg-dof": ("C16", ""), "map-labels": ("C17", ""),
"aff-reuse": ("C18, C28", ""), "nu-one": ("C19, C29", ""),
"elbo-dim": ("C20", ""), "rel-tol": ("C20", ""),
"comp-weight": ("C21, C16", ""), "lam-resp": ("C22", ""),
"col-align": ("C23", ""), "fit-alias": ("C24", ""),
"global-choice": ("C25", ""), "elogpd-store": ("C26, C09", ""),
"reset-var": ("C27", ""), "stale-init": ("C28", ""), "psi-bias": ("C29", ""),
"chi-df": ("C30", ""), "load-cache": ("C31", ""), "dd-gaps": ("C32", "C04"),
"leftover-last": ("C06", ""),
"eps-log": ("C07", ""),
"dir-reuse": ("C09", ""),
"reject-height": ("C36", ""),
"bound-uniform": ("C38", ""),
"swap-y": ("C37", "C39 also catches it"),
"scratch": ("C39", ""),
"dict-count": ("C39", ""),
"default-x": ("C29", ""),
"u-floor": ("C11", ""),
"tail-quantile": ("C11", ""),
"inplace-d": ("C13", ""),
"norm-loglik": ("C14", ""),
"periods-steps": ("C15", ""),
"mode-dim": ("C16", ""),
"occupied-only": ("C17", ""),
"frozen-empty": ("C19", ""),
"converged-stays": ("C20", ""),
"aff-diag": ("C22", ""),
"row-sort": ("C23", ""),
"weights-view": ("C24", ""),
"aff-inplace": ("C26", ""),
"nu-trunc": ("C29", ""),
"jitter": ("C34", ""),
"size-rank": ("C35", ""),
"norm-inplace": ("C02", ""),
"eppf-float": ("C10", ""),
"rng-share": ("C25", ""),
"keep-cov": ("C28", ""),
"pair-scale": ("C30", ""),
"penguin-na": ("C31", ""),
"tail-one": ("C32", ""),
"bib-append": ("C03", ""),
"map-alias": ("C14", ""),
"aff-small": ("C18", ""),
"flag-early": ("C37", "C27"),
"vpy-bias": ("C08, C19", ""),
"conv-slice": ("C11", "C12"),
"drop-empty": ("C21", ""),
"phase": ("C33, C13", ""),
"t-large-nu": ("C10, C21", ""), "query-recent": ("C18", ""),
"map-chunks": ("C17", ""), "label-bytes": ("C06", "C03"),
"tail-precision": ("C02, C11", ""), "slice-floor": ("C11, C13", ""),
"wishart-dims": ("C19", "C21"), "mean-beta-asym": ("C08, C10", ""),
"periods-clip": ("C15", ""), "far-uncertain": ("C22", ""),
"zero-groups": ("C13", ""), "affinity-blas": ("C18", ""),
"vark-eps": ("C20", "C19"), "spectral-jitter": ("C22", ""),
"exp-assign": ("C40, C13, C36", ""),
"raw-moments": ("C40, C34", "C11"),
"pinv-units": ("C40", "C41, C34, C19"),
"welford": ("C41, C19", "C08"),
"kmeans-first4": ("C41, C35", ""),
"psi-diag": ("C29", "C41, C08"),
"first-row-centre": ("C41, C19", ""),
"kmeans-sub": ("C35", ""),
}
