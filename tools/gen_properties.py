"""Writes /verif/properties.jsonl (kept as a script so that the wording is reviewable)."""
import json, os
WM = "pyrichlet/weight_models/"
MB = "pyrichlet/mixture_models/_base.py"
MU = "pyrichlet/mixture_models/_utils.py"
UF = "pyrichlet/utils/functions.py"
ALLW = [WM + f for f in ("_base.py", "_dirichlet_distribution.py", "_dirichlet_process.py", "_pitman_yor_process.py",
        "_geometric_process.py", "_beta_in_beta.py", "_beta_in_dirichlet.py", "_beta_bernoulli.py",
        "_beta_binomial.py", "_equal.py", "_frequency.py")]
VARW = [WM + f for f in ("_base.py", "_dirichlet_distribution.py", "_dirichlet_process.py", "_pitman_yor_process.py",
        "_geometric_process.py", "_equal.py", "_frequency.py")]
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text},
              "why_tests_cant": why,
              "anchors": {"files": list(files),
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

# ------------------------------------------------------------------ weighting models
p("W01", "Every weight vector ever exposed is a valid truncated probability vector",
  "After any sequence of public operations on a weighting model (draw, extend, extend to a mass, fit, reset, sample assignments, score), "
  "the weights it returns and exposes are a one-dimensional vector of finite numbers in [0,1] whose sum does not exceed one, and the vector returned by a "
  "drawing operation is the one exposed afterwards. Finite models (Dirichlet distribution, equal, unfitted frequency weighting) expose exactly n weights that sum to one, and fitted "
  "frequency weights are the empirical frequencies. Normalised weights sum to one, cumulative weights are their non-decreasing partial sums ending at one, and the reported size is the vector's length.",
  ("histories", "inputs", "configurations"),
  "every model and parameter setting it accepts, every operation sequence up to the stated depth, every answer of the random generator in a small menu that includes extreme quantiles",
  "The tests only call random(n) repeatedly on freshly built models at default parameters; no test extends, fits, resets and redraws, and none of them looks at fitted weights.",
  ALLW, [("stick-breaking product w = v * cumprod(1 - v)", WM + "_dirichlet_process.py"), ("shared accessors", WM + "_base.py")],
  state=[("w", "current truncated weights", WM + "_base.py"), ("v", "stick proportions behind w", WM + "_dirichlet_process.py")],
  observe=["random", "complete", "tail", "get_weights", "get_size", "get_normalized_weights", "get_normalized_cumulative_weights"])

p("W02", "Extending a truncation keeps what was drawn and reaches the requested size",
  "Asking an infinite weighting model for at least k weights returns a vector with at least k entries whose already drawn entries are unchanged, in value and in position. "
  "If k weights already exist nothing is redrawn and no randomness is consumed, and an extension split into steps has the same law as a single one. A size that is not an integer is refused with TypeError by an infinite model, which stays as it was. Finite models return their n weights whatever size is asked for.",
  ("histories", "inputs", "configurations"),
  "every model, every pair and triple of requested sizes 1..5 (int and numpy integers), interleaved with draws, fits, resets and tail requests, under every enumerated generator answer",
  "No test calls complete at all.",
  ALLW, [("complete(size) appends only", WM + "_dirichlet_process.py"), ("size type guard", WM + "_base.py")],
  observe=["complete", "get_weights", "calls made to the random generator"])

p("W03", "Extending to a mass x stops exactly when the truncation covers x",
  "A request for total mass x in [0,1) terminates and returns weights, at least one of them, whose sum is at least x (up to rounding), leaving already drawn weights unchanged; if the current truncation already covers x nothing is added. "
  "A request outside [0,1) is rejected with ValueError and leaves the model unchanged.",
  ("histories", "inputs", "configurations"),
  "every model, every x of a grid from 0 to 0.99 plus out-of-range values, from every state reachable by a short history, under every enumerated generator answer",
  "tail is only exercised inside Gibbs fits, where an insufficient truncation silently biases the sampler instead of failing.",
  ALLW, [("tail loop", WM + "_base.py"), ("closed-form tail size", WM + "_geometric_process.py")],
  observe=["tail", "get_weights"])

p("W04", "Unfitted draws follow the model's prior law",
  "With no assignments fitted, the weights drawn by a model, whether drawn at once or by extension, have exactly the joint law of its prior: Dirichlet(alpha) for the Dirichlet distribution; stick breaking with independent Beta(1,alpha) for the Dirichlet process and independent Beta(1-sigma, alpha+j*sigma), j=1,2,..., for Pitman-Yor; geometric weights with a Beta(a,b) success probability; "
  "the dependent stick-breaking laws of the Beta-in-Beta, Beta-in-Dirichlet (sticks from a Polya urn with base Beta(1,alpha)), Beta-Bernoulli (each stick kept with probability 1-p, else redrawn from Beta(1,alpha)) and Beta-Binomial (Markov chain of sticks through a Binomial(n, stick) count) models; and 1/n for the equal and frequency weightings. "
  "The law does not depend on draws made earlier.",
  ("inputs", "configurations", "histories"),
  "all joint moments of the first weights up to total degree 2-3, for every model over a lattice of hyper-parameters, computed exactly by enumerating every answer of the random generator with its probability",
  "test_weight_models compares 10^4 sampled draws at the default parameters to one decimal place (an absolute tolerance of 0.05 on numbers like 1/12 and 1/24, so even zero would pass).",
  ALLW, [("random(size) prior branch and complete", WM + "_pitman_yor_process.py")],
  observe=["random", "complete", "get_weights"])

p("W05", "Fitted draws follow the exact conjugate posterior",
  "After fitting assignments d, a fresh draw from a conjugate model (Dirichlet distribution, Dirichlet process, Pitman-Yor, geometric, Beta-in-Beta at x=0 or 1, Beta-Bernoulli at p=0 or 1, Beta-Binomial at n=0, Beta-in-Dirichlet at a=0) has exactly the joint posterior law of the weights given d, for the number of weights covering d by default and for any requested size; "
  "equal weights stay 1/n and frequency weights equal the empirical frequencies. "
  "The order of the assignments is irrelevant.",
  ("inputs", "configurations"),
  "every assignment vector up to length 4 over up to 4 groups (including gaps), every requested size from None to max+3, every model over a hyper-parameter lattice; exact joint moments by enumeration of all generator answers",
  "No test fits a weighting model directly; the mixture tests would pass with a badly wrong posterior because the data separate by twenty standard deviations.",
  ALLW, [("counts a_c and tail counts b_c added to the Beta parameters", WM + "_dirichlet_process.py"), ("Dirichlet counts", WM + "_dirichlet_distribution.py")],
  observe=["fit", "random", "get_weights"])

p("W06", "Latent-structure models leave their posterior invariant",
  "For models whose posterior is sampled through latent variables (Beta-Bernoulli with 0<p<1, Beta-Binomial with n>0, Beta-in-Dirichlet with a>0, Beta-in-Beta with 0<x<1 and exact sampling of its inner probability), a redraw after fitting assignments is a Gibbs transition that leaves the posterior of sticks and latents given the assignments invariant. "
  "Given the latents the sticks follow their exact conditional Beta law, and a redraw succeeds for every assignment vector.",
  ("inputs", "configurations", "histories"),
  "every assignment vector up to length 4 over up to 3 groups, every latent configuration as the starting state, exact transition probabilities obtained by enumerating all generator answers",
  "No test uses any of these models away from the parameter value where it degenerates to the Dirichlet process.",
  [WM + "_beta_bernoulli.py", WM + "_beta_binomial.py", WM + "_beta_in_dirichlet.py", WM + "_beta_in_beta.py"],
  [("latent Bernoulli update", WM + "_beta_bernoulli.py"), ("latent binomial update", WM + "_beta_binomial.py"), ("inner urn update", WM + "_beta_in_dirichlet.py"), ("inner probability update", WM + "_beta_in_beta.py")],
  observe=["fit", "random", "get_weights"])

p("W07", "Assignments are sampled and scored by the current weights",
  "Sampling m assignments returns m independent group indices in range, each index drawn with probability equal to its normalised weight (a single index when no size is given), without changing the weights. "
  "The log-likelihood of an assignment vector is the sum of the logarithms of the weights it selects (minus infinity if one is zero), for the vector given or else the fitted one, first extending the truncation if the vector refers to groups beyond it.",
  ("inputs", "configurations", "histories"),
  "every model, weight vectors reachable by short histories, sizes None, 0..3 and hundreds, every assignment vector up to length 3 over 4 groups; selection probabilities obtained exactly by locating every breakpoint of the generator's uniform answers",
  "No test calls random_assignment or assignation_log_likelihood.",
  [WM + "_base.py"], [("inverse-CDF sampling", WM + "_base.py"), ("assignation_log_likelihood", WM + "_base.py")],
  observe=["random_assignment", "assignation_log_likelihood"])

p("W08", "Special cases of different weighting models coincide",
  "Where two models are mathematically the same they have the same law of weights, before and after fitting the same assignments: Pitman-Yor with zero discount, Beta-in-Beta with x=0, Beta-Bernoulli with p=1 and Beta-Binomial with n=0 all coincide with the Dirichlet process of the same alpha; "
  "Beta-in-Beta with x=1 coincides with the geometric process of the same a and b; Beta-in-Dirichlet with a=0 and Beta-Bernoulli with p=0 coincide with the geometric process with a=1 and b=alpha. "
  "Variational summaries of Pitman-Yor with zero discount equal those of the Dirichlet process.",
  ("inputs", "configurations"),
  "every pair of coinciding models, alpha (and a, b) over a lattice, unfitted and fitted with every assignment vector up to length 3 over 3 groups, every requested size; laws compared by exact joint moments",
  "No test relates two models to each other.",
  ALLW, [("parameter limits of each model", WM)], observe=["random", "complete", "fit", "variational_*"])

p("W09", "The structure log-likelihood is the log prior density of what was drawn",
  "The structure log-likelihood reported by a weighting model equals the log prior density of the currently drawn structure: of the weights for the Dirichlet distribution, of the stick proportions (together with the latent indicators, counts, tables or inner probability that generated them) for the stick-breaking models, of the success probability for the geometric process, and zero for the deterministic weightings. "
  "It is finite whenever every stick drawn lies strictly inside (0,1).",
  ("inputs", "configurations", "histories"),
  "every model over a hyper-parameter lattice, structures of size 1..4 reached by draws, extensions and fits under every enumerated generator answer",
  "No test calls weighting_log_likelihood.",
  ALLW, [("weighting_log_likelihood", WM)], observe=["weighting_log_likelihood"])

p("W10", "A weighting model has no memory beyond its latest fit",
  "What a model draws depends only on its parameters, the assignments fitted last and the random generator's answers: fitting replaces earlier assignments entirely, reset returns to the prior, and earlier draws, extensions, samples or scores leave no trace in a later fresh draw (for models sampled through latent variables this holds for prior draws). "
  "Fitting copies the assignments and construction copies an array of concentrations, so mutating the caller's array afterwards has no effect, and lists and arrays behave alike.",
  ("histories", "inputs", "configurations"),
  "every history of up to 3 operations from an alphabet of fits, draws, extensions, samples, scores and resets, followed by a fresh draw (fits of up to 31 observations), compared with a new model given the same assignments and the same generator answers",
  "Tests build one object and call one method on it; none re-fits or resets.",
  ALLW, [("fit / reset / random", WM + "_base.py")], state=[("d", "fitted assignments", WM + "_base.py")],
  observe=["fit", "reset", "random", "get_weights"])

# ------------------------------------------------------------------ variational weight layer
p("V01", "Variational weight summaries are the moments of a proper truncated posterior",
  "After a variational fit to K groups' responsibilities, each weighting model that supports it reports, for every group, the exact mean, mean logarithm and mode of that group's weight under the conjugate posterior of its prior given the expected counts, truncated so that the K groups exhaust the mass (for the equal weighting: 1/K; for the frequency weighting: the observed proportions). The mode is the product of the modes of the sticks involved (for the Dirichlet distribution: the mode of the group's marginal Beta law) and is promised only where each of those is unique. "
  "The K means are non-negative and sum to one, and a group beyond the truncation has mean zero and mean logarithm minus infinity. Asking before any variational fit raises the not-fitted error.",
  ("inputs", "configurations"),
  "every responsibility matrix on a grid with K<=4 groups and N<=3 observations (including empty groups, K=1 and N=0), wider ones up to 70 groups, hyper-parameters over a lattice",
  "Tests only look at the mean squared error of a fitted density at one data set to one decimal, which the wrong formulas also satisfy.",
  VARW + [UF], [("fit_variational and variational_mean_w_j / mean_log_w_j / mode_w_j", WM)],
  observe=["fit_variational", "variational_mean_w_j", "variational_mean_log_w_j", "variational_mode_w_j"])

p("V02", "Variational evidence terms of the weights are exact expectations",
  "The expected log-likelihood of the assignments, the expected log prior and the expected log variational density of the weights reported after a variational fit equal the exact expectations under the fitted variational distribution. "
  "Consequently the expected log prior minus the expected log variational density is minus a Kullback-Leibler divergence: never positive, and zero when the fit carries no observations.",
  ("inputs", "configurations"),
  "same grid of responsibility matrices and hyper-parameters as V01, terms compared with closed forms and with numerical integration of the reference density",
  "The evidence terms are never inspected by a test; they only decide when iteration stops.",
  VARW + [UF], [("variational_mean_log_p_d__w / _log_p_w / _log_q_w", WM)],
  observe=["variational_mean_log_p_d__w", "variational_mean_log_p_w", "variational_mean_log_q_w"])

p("V03", "Each variational iteration is an exact coordinate-ascent step",
  "Every iteration of the variational fit maps the current variational state to the mean-field coordinate-ascent update of the Gaussian mixture with the stated normal-inverse-Wishart prior (responsibilities, then weights, then component parameters), so the evidence lower bound never decreases along a fit. "
  "Responsibilities are non-negative and sum to one over groups for each observation. Running t iterations and continuing with a warm start for s more gives the same result as t+s iterations.",
  ("inputs", "configurations", "histories"),
  "every small data set of a family of 2-6 points in 1-3 dimensions, K<=3, every model supporting variational inference, prior settings given or defaulted, both initialisations, every iteration up to the bound",
  "Tests check a single one-dimensional data set with well separated clusters, and only the final density to one decimal; errors that need two or more dimensions or overlapping groups are invisible.",
  [MB, MU] + VARW, [("_update_var_d / _update_var_w / _update_var_theta", MB), ("expected log determinant", MU)],
  state=[("var_d", "responsibilities", MB), ("var_theta", "Normal-Wishart parameters", MB)],
  observe=["var_d", "var_theta", "fit_variational"])

p("V04", "Variational densities are proper densities consistent across views",
  "The fitted variational expected density is non-negative, integrates to one, equals the sum over components of the per-component densities, and restricting it to one or several coordinates gives the marginal of the full density. "
  "The variational MAP density has the same structure with Gaussian components at the modes (wherever the modes of all weights are unique). Both equal the closed-form mixtures determined by the fitted parameters, for any evaluation points in any accepted form, and for the training data when no points are given.",
  ("inputs", "configurations"),
  "models fitted on small data sets in 1-3 dimensions, every component, every coordinate subset and order given as int, list or array, points as scalar, list, array, DataFrame",
  "Tests evaluate the expected density at the training points of one one-dimensional data set; the MAP variant, marginals and components are never called.",
  [MB, UF], [("var_eap_density / var_map_density", MB), ("density_students_t / density_normal", UF)],
  observe=["var_eap_density", "var_map_density"])

p("V05", "Variational clustering and affinity agree with the responsibilities",
  "The variational cluster of an observation is its most probable group and its reported uncertainty is one minus that probability; the affinity of two observations is the inner product of their responsibilities, hence symmetric, in [0,1]. "
  "For any points given explicitly, in any accepted form and however far from the data (short of overflow), the responsibilities are those of the fitted variational posterior: proportional to the exponential of the expected log weight plus the expected log density of the component.",
  ("inputs", "configurations"),
  "models fitted on small data sets in 1-3 dimensions, query sets of 1-3 points near and far, list, array, DataFrame, both full and plain forms",
  "No test calls a clustering or affinity query.",
  [MB], [("var_map_cluster / var_eap_affinity_matrix", MB)], observe=["var_map_cluster", "var_eap_affinity_matrix", "var_eap_spectral_consensus_cluster"])

p("V06", "The variational fit stops at tolerance or at the iteration cap and says which",
  "A variational fit runs at least one and at most total_iter iterations and stops early exactly when the evidence bound changed by no more than the (finite) tolerance; it is reported as converged if and only if the latest fit reached the tolerance, in its last permitted iteration included. "
  "A later fit that hits the cap is not reported as converged because an earlier one was.",
  ("configurations", "histories"),
  "every cap 1..8 and tolerance of a ladder, every model supporting variational inference, every sequence of two fits (cold or warm)",
  "Tests only assert convergence once per model with the default cap.",
  [MB], [("while elbo_diff > tol and iterations < total_iter", MB)], state=[("var_converged", "convergence flag", MB)],
  observe=["var_converged", "fit_variational"])

# ------------------------------------------------------------------ Gibbs layer
p("G01", "A Gibbs fit records exactly the scheduled draws",
  "A fit with total_iter T, burn_in B and subsampling s performs T sweeps and stores exactly the states after sweeps B+1, B+1+s, B+1+2s, ... ; the per-draw records (group counts, atom counts, saved parameters, number saved) all have that length and describe the same draws. "
  "A cold start discards the earlier records, a warm start appends to them and continues from the last state. A configuration with T<=B is rejected.",
  ("configurations", "histories"),
  "every (T,B,s) with T<=7 and long schedules of up to 1100 sweeps, every sequence of up to 3 cold/warm fits, several models, compared with an unsubsampled run under the same generator answers",
  "Tests always use the default 1000/100/1 schedule and never inspect the records.",
  [MB], [("fit_gibbs loop", MB), ("_save_params", MB)], state=[("sim_params", "saved states", MB), ("n_groups", "occupied groups per draw", MB), ("total_saved_steps", "saved count", MB)],
  observe=["get_sim_params", "get_n_groups", "get_n_theta", "total_saved_steps"])

p("G02", "Every saved Gibbs state is complete, consistent and never changes afterwards",
  "Each saved state holds weights, atoms, slice levels and assignments that belong to the same sweep: every observation is assigned to a group that has a weight above its slice level and an atom, every weight has an atom of the data's dimension with a positive definite covariance, and the truncation leaves out no group whose weight could exceed a slice level. "
  "Later sweeps, warm starts, cold refits and queries never alter a state already saved or returned.",
  ("histories", "inputs", "configurations"),
  "every model on small data sets in 1-2 dimensions, all initialisation methods, short histories of fits and queries, every enumerated deviation of the generator's answers",
  "Tests only use the MAP density of a fit; shared references between saved states would not move it.",
  [MB], [("_get_run_params snapshot", MB), ("_update_weights slice levels and tail", MB)], observe=["get_sim_params", "map_sim_params"])

p("G03", "Each Gibbs sweep draws from the exact full conditionals",
  "In every sweep the atom of each occupied group is drawn from the normal-inverse-Wishart posterior given exactly the observations assigned to it, atoms first needed for empty groups come from the prior, slice levels are uniform below the weight of the observation's group, weights come from the posterior given the current assignments, and each observation is reassigned, independently, with probability proportional to its density under the group's atom among groups whose weight exceeds its slice level. "
  "The prior used is the one given, with the sample mean, sample covariance and dimension as defaults.",
  ("inputs", "configurations", "histories"),
  "every model on small data sets in 1-3 dimensions, prior settings given or defaulted, all initialisations, several consecutive sweeps; conditionals observed at the library draw calls and by enumerating generator answers with their probabilities",
  "Tests compare a MAP density to one decimal for two clusters twenty standard deviations apart, which hides any error in the conditionals.",
  [MB, MU], [("_update_atoms / _update_weights / _update_d", MB), ("posterior_norm_invw_params / random_normal_invw / gumbel_max_sampling", MU)],
  observe=["get_sim_params", "draws requested from scipy.stats and the generator"])

p("G04", "The MAP state is the best state visited since the cold start",
  "The state used by MAP queries is one of the states visited by the sampler since the last cold start (the initial state, burn-in and unsaved sweeps included), and no visited state has a higher joint log-likelihood of observations and assignments given weights and atoms. "
  "A warm start can only improve it, and a cold start forgets it.",
  ("histories", "inputs", "configurations"),
  "every model on small data sets, every history of up to 3 cold/warm fits (same or different data), all states visited recomputed from a reference likelihood",
  "Tests never refit and never compare the MAP with the visited states.",
  [MB], [("_update_map_params", MB)], state=[("map_sim_params", "best state", MB), ("map_log_likelihood", "its score", MB)],
  observe=["map_sim_params", "gibbs_map_density"])

p("G05", "Gibbs densities are the stated mixtures of the saved states",
  "The expected density at a point is the average over the saved draws (or the last P of them when P periods are requested) of the Gaussian mixture with that draw's weights and atoms, and the MAP density is the mixture of the MAP state. "
  "Both split additively over components; restricting to coordinates given as an int, list or array evaluates the marginal mixture at points given in those coordinates, and with no points given they are evaluated at the training data (its selected coordinates).",
  ("inputs", "configurations"),
  "models fitted on small data sets in 1-3 dimensions and on up to 13 groups in 1-5 dimensions, 1..4 query points as scalar, list, array, DataFrame, every component, every coordinate subset and order, every number of periods",
  "Tests evaluate only the MAP density at the one-dimensional training data.",
  [MB, MU], [("gibbs_eap_density / gibbs_map_density", MB), ("mixture_density", MU)], observe=["gibbs_eap_density", "gibbs_map_density"])

p("G06", "Gibbs clustering and affinity follow the saved states",
  "The MAP clustering assigns each point to the component of the MAP state with the largest weighted density, labelled 0..m-1 without gaps, with uncertainty one minus its posterior probability, for any number of points near or arbitrarily far from the data. "
  "The training affinity of two observations is the exact fraction of saved draws in which they share a group, the affinity of new points is the fraction of saved mixtures that cluster them together; affinities are symmetric with unit diagonal, and consensus clustering of an affinity made of disconnected blocks, with every pair inside a block sharing a group in some draw, recovers the blocks.",
  ("inputs", "configurations", "histories"),
  "models fitted on small data sets in 1-3 dimensions, and on up to 13 groups in 1-5 dimensions, query sets of 1-40 points near and far, cold and warm histories",
  "No test calls a clustering or affinity query.",
  [MB, MU], [("gibbs_map_cluster / gibbs_eap_affinity_matrix / spectral consensus", MB), ("cluster", MU)], state=[("affinity_matrix", "co-clustering counts", MB)],
  observe=["gibbs_map_cluster", "gibbs_eap_affinity_matrix", "gibbs_eap_spectral_consensus_cluster"])

p("G07", "A cold fit forgets everything; a warm fit continues",
  "A cold Gibbs or variational fit on a data set gives exactly the results a newly constructed model with the same parameters and generator state gives, whatever was fitted or queried before, including data-dependent default priors and MAP state. "
  "Splitting a Gibbs run into a cold fit and warm continuations on the same data visits the same states as one long run.",
  ("histories", "inputs", "configurations"),
  "every history of up to 3 fits (Gibbs cold/warm, variational cold/warm, over two data sets of different size and dimension) followed by a cold fit, compared with a fresh model from the same generator state",
  "Tests build a new model for every fit.",
  [MB], [("_initialize_common_params defaults", MB), ("_initialize_gibbs_params reset", MB)], state=[("mu_prior / psi_prior / nu_prior", "priors, defaulted from data", MB)],
  observe=["fit_gibbs", "fit_variational", "all queries"])

p("G08", "Equivalent input forms give identical results",
  "The same observations given as a list, a one- or two-dimensional array, a Series or a DataFrame (any column names, any index) produce identical fits and identical query results, integers behave like the equal floats, and inputs are never modified by the library. "
  "The prior parameters may likewise be given in any of their documented forms (number, list, array, matrix) with identical results. Modifying the caller's observations or prior arrays after a fit changes neither the fitted model nor a later warm start, and observations of other types are rejected with TypeError.",
  ("inputs", "configurations"),
  "every accepted form for data of 1-3 columns, every query that takes points, all models, both inference methods",
  "Tests only pass one-dimensional float arrays.",
  [MB], [("_initialize_common_params", MB), ("_cast_observations", MB)], observe=["fit_gibbs", "fit_variational", "all queries"])

p("G09", "Queries are refused until the matching fit has succeeded",
  "A query on Gibbs results (the pair plot included) raises the not-fitted error until a Gibbs fit has completed, and a query on variational results until a variational fit has completed; the two are independent of each other and of failed fits. "
  "Invalid requests (schedule with total_iter<=burn_in, unknown initialisation or inner-probability method, unsupported generator or data type, missing group count, model without variational inference, warm start of a model never fitted) are rejected with an error at the call and do not make a new model appear fitted. (What a failed fit leaves of an earlier successful one is not specified.)",
  ("histories", "configurations"),
  "every history of up to 3 successful or failing fits over every query, and a first fit made to fail at every point where it asks the generator or the weights for something, for every mixture model",
  "No test calls a query before a fit or with invalid arguments.",
  [MB, "pyrichlet/exceptions.py", "pyrichlet/utils/validators.py"], [("fitting flags", MB)], state=[("gibbs_fitted / var_fitted", "fitting flags", MB)],
  observe=["all queries", "fit_gibbs", "fit_variational"])

p("G10", "Results are a function of inputs and the model's own generator",
  "Two models built with the same parameters and seed and put through the same history give identical results, and every random decision of construction, fitting and sampling is taken from the generator supplied: the global numpy and Python generators are neither read nor advanced. "
  "A generator object passed in is the one used and advanced; an integer seed is equivalent on every construction and gives one stream of numbers to the whole model (never the same numbers to the weights and to the rest), and different models without a seed are independent.",
  ("histories", "configurations"),
  "every mixture and weighting model, every history of up to 3 operations, executed repeatedly under different global generator states, data sets of up to 2500 observations",
  "Tests share one generator object across everything and never compare two runs.",
  [MB, MU, "pyrichlet/utils/validators.py", WM + "_base.py"], [("rng_parser", "pyrichlet/utils/validators.py"), ("random_state=rng on every scipy draw", MU)],
  observe=["all operations", "np.random.get_state()"])

p("G11", "Queries never change a fitted model",
  "Calling any query any number of times, in any order, changes neither the answers of later queries nor the outcome of a later warm or cold fit, does not advance the model's generator, and does not modify the objects passed in or previously returned.",
  ("histories", "inputs"),
  "every ordered pair of queries (with new points and with training data) between fits, on every mixture model, compared with the history without queries",
  "Tests make one query per object.",
  [MB, MU], [("queries read saved snapshots only", MB)], observe=["all queries", "generator state", "get_sim_params"])

p("G12", "The pair plot shows the fitted MAP mixture",
  "The pair plot of a Gibbs-fitted model draws one panel per pair of features for any number of features, with every diagonal panel's total curve equal to the MAP marginal density of that feature, each occupied cluster's shaded curve equal to the weighted marginal of the component those observations belong to, and off-diagonal panels showing the data and, for each occupied component, the ellipse that holds 95% of its two-dimensional marginal. Each cluster has the same colour in every panel (distinct for up to ten clusters), and rows and columns carry the features' names. "
  "It leaves the model unchanged.",
  ("inputs", "configurations"),
  "MAP states of every model over 1-4 features, with empty components, one to thirteen clusters, correlated and badly scaled features, list, array and DataFrame input",
  "No test draws a plot.",
  [MB], [("gibbs_map_pairplot", MB)], observe=["matplotlib axes content"])

# ------------------------------------------------------------------ numeric helpers, data, packaging
p("U01", "Partition and density helpers are normalised laws",
  "The Dirichlet-process partition probability, summed over all set partitions of n items, is one for every concentration; the Gaussian and Student-t density helpers agree with the standard multivariate densities for every dimension, mean, positive definite precision and degrees of freedom and integrate to one. "
  "Expected log-Beta, expected log-determinant, normalising constant and entropy of the Wishart law, and the Beta, binomial and beta-binomial log-likelihood helpers, equal their defining expectations.",
  ("inputs",),
  "every set partition up to n=7, every shape of partition up to n=25, blocks of up to 5000 items, precisions on a lattice in dimensions 1-5 including correlated ones, degrees of freedom and parameters over a lattice",
  "No test calls the helpers; through the fits they are only exercised in dimension one.",
  [UF, MU], [("dirichlet_log_eppf", UF), ("density_students_t / density_normal", UF), ("e_log_norm_wishart / entropy_wishart", MU)], observe=["pyrichlet.utils.functions", "pyrichlet.mixture_models._utils"])

p("U02", "Normal-inverse-Wishart updating is exact, order-free and additive",
  "The posterior normal-inverse-Wishart parameters given a set of observations are the exact conjugate update: they do not depend on the order of observations, updating with two batches in sequence equals updating with their union, and in any dimension prior density times likelihood equals posterior density times a constant. "
  "Draws of mean and covariance follow that law.",
  ("inputs",),
  "every multiset of up to 4 points from a small lattice in 1-3 dimensions, every split into two batches, prior parameters over a lattice; long sequences of up to 2100 points",
  "No test inspects the update; a wrong update still yields a plausible MAP density on well separated clusters.",
  [MU], [("posterior_norm_invw_params", MU), ("log_likelihood_normal_invw", MU), ("random_normal_invw", MU)], observe=["posterior_norm_invw_params", "random_normal_invw", "log_likelihood_normal_invw"])

p("U03", "Categorical and rejection samplers have exactly the requested law",
  "The categorical sampler driven by unnormalised log-probabilities returns each index with probability proportional to its exponential, never an index of probability zero, independently for each column or repetition, and is invariant to adding a constant. "
  "The rejection sampler returns points of the interval accepted under the target curve, and the initial clustering labels its groups 0..m-1 in order of non-increasing size without changing the partition found.",
  ("inputs",),
  "every log-probability vector on a grid of up to 3 entries (including minus infinity and large offsets), every generator answer on a fine grid; long columns and many repetitions; every small data set and wide ones for the labelling",
  "No test calls the samplers directly.",
  [MU], [("gumbel_max_sampling", MU), ("rejection_sample", MU), ("kmeans_cluster_size_biased", MU)], observe=["gumbel_max_sampling", "rejection_sample", "kmeans_cluster_size_biased"])

p("U04", "Bundled data sets load completely and consistently",
  "Each bundled data set loads as a numeric feature table without missing values together with one label per row, every row of the source file with complete features and a label appearing exactly once, in file order, with its own label. "
  "Repeated loads are equal and independent of one another, and both kinds of mixture fit accept the loaded table.",
  ("inputs", "histories"),
  "every row and column of both bundled files, compared with an independent parse; every pair of load / mutate / load operations",
  "No test loads a data set.",
  ["pyrichlet/utils/_loaders.py"], [("load_penguins / load_chaetocnema", "pyrichlet/utils/_loaders.py")], observe=["load_penguins", "load_chaetocnema"])

p("U05", "Version strings are well formed for every repository state",
  "For every state a source tree can be in (tagged or not, any distance from the tag, clean or dirty, archive or directory fallback) the version reported is well formed for the chosen style, PEP 440 valid for the PEP 440 styles when the tag is a release or pre-release number, carries the tag, distance, revision and dirtiness the style promises, and asking for it never raises. "
  "The copy shipped inside the package and the build-time copy give the same answer.",
  ("inputs", "configurations"),
  "every combination of tag, distance, dirtiness, revision and error over every style; git answers replaced by a menu",
  "No test touches the version machinery.",
  ["pyrichlet/_version.py", "versioneer.py"], [("render and the render_* styles", "pyrichlet/_version.py")], observe=["render", "get_versions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P), "properties")
