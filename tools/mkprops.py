"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
W = "pyrichlet/weight_models/"
M = "pyrichlet/mixture_models/"
INF = ["_dirichlet_process", "_pitman_yor_process", "_geometric_process", "_beta_in_beta",
       "_beta_in_dirichlet", "_beta_bernoulli", "_beta_binomial"]
FIN = ["_dirichlet_distribution", "_equal", "_frequency"]
wf = [W + x + ".py" for x in INF + FIN]
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})


prop("C01", "Drawn weights are always a valid (sub-)probability vector",
     "For every weighting model with admissible parameters and every sequence of fit, reset, random, complete and "
     "tail calls that returns, the current weights lie in [0, 1] and their running total never exceeds one: each "
     "weight of an infinite model is a fraction in [0, 1] of the mass its predecessors left over. The finite models "
     "(Dirichlet distribution, equal and frequency weighting) always total exactly one, as do the normalized weights "
     "of any model, whose cumulative form is non-decreasing.",
     ["inputs", "histories", "configurations"],
     "all models, all admissible parameters, all lengths, all call sequences, all random outcomes",
     "Tests look at the mean and variance of the first two weights of fresh two-element prior draws; no test checks "
     "ranges or totals, posterior draws, or a second call on the same object.",
     wf + [W + "_base.py"],
     [("stick-breaking product of fractions", "random/complete of each infinite model"),
      ("get_normalized_weights, get_normalized_cumulative_weights", W + "_base.py")],
     [("w", "current truncated weights", W + "_base.py"), ("v", "stick fractions", "each infinite model")],
     ["random()", "complete()", "tail()", "get_weights()", "get_normalized_weights()"])

prop("C02", "complete() extends the current realization and never redraws it",
     "For every infinite weighting model holding m weights (m >= 1), asking to complete to n >= 1 returns exactly "
     "max(m, n) weights, which are also the stored ones, and the first m are unchanged; completing an empty structure "
     "to n returns n freshly drawn weights. Sticks already broken and the parameters shared by the realization are "
     "left alone, and a size that is not an integer is refused with a TypeError, leaving the weights unchanged. "
     "A finite model returns its full stored vector.",
     ["inputs", "histories"], "all models, all sizes, all states reachable by earlier calls, all random outcomes",
     "No test calls complete(); it is only reached inside Gibbs fits where a redrawn prefix or a None return is not "
     "observed.",
     wf, [("complete", "each weighting model")], [("w", "current weights", W + "_base.py")], ["complete()"])

prop("C03", "tail(x) always covers the requested mass",
     "For every weighting model and every x in [0, 1), when tail(x) returns the returned (and stored) weights total "
     "at least x, and any weights present before the call are kept as its first entries. Every x outside [0, 1) is "
     "refused with a ValueError before anything is drawn.",
     ["inputs", "histories"], "all models, all x, all states, all random outcomes",
     "Never called directly by a test; the slice sampler that depends on it does not fail when the covered mass is "
     "too small, it silently drops components.",
     [W + "_base.py", W + "_geometric_process.py"],
     [("extension loop", W + "_base.py tail"), ("closed-form size", W + "_geometric_process.py tail")],
     [("w", "current weights", W + "_base.py")], ["tail()"])

prop("C04", "Unfitted draws follow each model's prior law",
     "With no assignments fitted, the j-th (from 1) stick fraction of a draw is a fresh, independent variable with law: Dirichlet "
     "process Beta(1, alpha); Pitman-Yor Beta(1-d, alpha+j*d); geometric: one common Beta(a, b) value; Beta-in-Beta: "
     "Beta(1+c*p, alpha+c*(1-p)) with c=x/(1-x) and p ~ Beta(a, b) when 0<x (all sticks equal p when x=1); "
     "Beta-binomial: Beta(1+b_j, alpha+n-b_j) with b_j Binomial(n, previous stick); Beta-Bernoulli: a new Beta(1, alpha) value "
     "with probability p, else the previous one; Beta-in-Dirichlet: Polya-urn ties with new values Beta(1, alpha). The "
     "Dirichlet distribution draws Dirichlet(alpha) and equal weighting gives 1/n. Drawing n sticks at once and drawing fewer and "
     "completing to n have the same law.",
     ["inputs", "configurations", "histories"], "all models, all admissible parameters, all sizes",
     "Tests compare two moments to one decimal, at default parameters only (d=0, x=0, n=0, p=1, a=0), where all models "
     "coincide with the Dirichlet process.",
     wf, [("random / complete with empty data", "each weighting model")],
     [("v", "stick fractions", "each infinite model")], ["random(size)", "complete(size)"])

prop("C05", "Fitted draws follow each model's posterior law given the assignments",
     "After fit(d), a draw holds at least max(d)+1 weights (only the requested number where a smaller size is requested from a model that truncates) and, for the infinite models, at least any requested number; stick j is drawn from its conjugate posterior: with n_j the "
     "number of assignments equal to j and m_j the number greater than j, the prior Beta(a_j, b_j) becomes Beta(a_j+n_j, b_j+m_j) "
     "(sticks tied to one value pool their n and m), the geometric model draws Beta(a+N, b+sum d), the Dirichlet distribution "
     "Dirichlet(alpha+counts) and frequency weighting returns the empirical frequencies. Sticks beyond the data follow the prior; "
     "every assignment counts, with no dependence on their order.",
     ["inputs", "configurations", "histories"],
     "all models, all admissible parameters, all assignment vectors of any length with any label gaps, all sizes",
     "No test fits a weighting model; Gibbs tests check a mean squared density error of two well separated groups to one decimal, "
     "which survives wrong counts.",
     wf, [("bincount / reversed cumulative counts", "random() of each model")],
     [("d", "fitted assignments", W + "_base.py"), ("v", "stick fractions", "each infinite model")], ["fit()", "random()"])

prop("C06", "Only the last fit matters: fit replaces, reset clears, misuse is refused",
     "Fitting an assignment vector replaces any earlier one entirely, and reset() returns the model to prior draws, "
     "whatever was fitted or drawn before; neither call changes the weights already drawn or the caller's array. "
     "Asking an unfitted infinite model for a draw without a size raises ValueError, and a Dirichlet distribution fitted to a label outside its range refuses to draw.",
     ["histories", "inputs"], "all models, all call histories",
     "No test calls fit() twice, reset(), or random() without a size.",
     wf + [W + "_base.py"], [("fit, reset", W + "_base.py"), ("guards in random()", "each weighting model")],
     [("d", "fitted assignments", W + "_base.py")], ["fit()", "reset()", "random()"])

prop("C07", "Random assignments are categorical draws from the normalized weights",
     "random_assignment(size) consumes one uniform variate per requested assignment and returns label j exactly when the variate "
     "falls between the normalized cumulative weights before and through j, so that labels are always valid indices of the current "
     "weights and have the weights' probabilities. With no size it returns a single label, and it never changes the weights.",
     ["inputs", "histories"], "all weight vectors, all sizes, all uniform outcomes",
     "Never called by a test.", [W + "_base.py"],
     [("inverse sampling", W + "_base.py random_assignment")], [("w", "current weights", W + "_base.py")],
     ["random_assignment()", "get_normalized_cumulative_weights()"])

prop("C08", "Log-likelihood methods return the exact log-density of the current state",
     "For every model the assignment log-likelihood of d is the sum over d of the log of the weight of each label, after extending "
     "the structure if a label lies beyond it. The weighting log-likelihood is the log prior density of the current sticks and shared "
     "latent variables of the model, taking each stick once, with zero for the deterministic finite models.",
     ["inputs", "histories", "configurations"], "all models, parameters, states and assignment vectors",
     "No test calls weighting_log_likelihood; the assignment log-likelihood is only used to choose the MAP draw.",
     wf + [W + "_base.py", "pyrichlet/utils/functions.py"],
     [("assignation_log_likelihood", W + "_base.py"), ("weighting_log_likelihood", "each weighting model")],
     [], ["assignation_log_likelihood()", "weighting_log_likelihood()"])

prop("C09", "fit_variational yields the exact coordinate-optimal weight posterior",
     "For any responsibility matrix r (groups x observations, possibly with no observations), with n_j the total responsibility of group j and m_j that of "
     "later groups, the fitted variational law is Dirichlet(alpha+n), Beta(1+n_j, alpha+m_j) per stick for the Dirichlet process, "
     "Beta(1-d+n_j, alpha+(j+1)d+m_j) (j from 0) for Pitman-Yor and Beta(a+sum n, b+sum j n_j) (j from 0) for the geometric process; equal "
     "weighting takes n from r, and r itself is not modified.",
     ["inputs", "configurations"], "all responsibility matrices of any shape, all parameters",
     "Tests only require that iterations stop changing, which any consistent wrong update does too.",
     [W + x + ".py" for x in ["_dirichlet_distribution", "_dirichlet_process", "_pitman_yor_process", "_geometric_process", "_equal", "_frequency"]],
     [("fit_variational", "each model")], [("variational_params", "fitted law", W + "_base.py")], ["fit_variational()"])

prop("C10", "Variational weight moments equal the exact moments of the fitted law",
     "For every group j, the reported mean of log w_j, mean of w_j and (where defined) componentwise mode equal the exact moments of the fitted "
     "variational law: digamma differences for sticks and Dirichlet, products of stick means, exact Beta moments for the geometric "
     "weight, 1/n and n_j/N for the deterministic ones. Indices at or beyond the truncation have mean zero (log-mean minus "
     "infinity) for the truncated models, and each log-moment raises NotFittedError before fitting (equal weighting needs no fit).",
     ["inputs", "configurations"], "all models, all fitted laws, all indices",
     "Tests only see them through a one-decimal density error with dominant groups.",
     [W + x + ".py" for x in ["_dirichlet_distribution", "_dirichlet_process", "_pitman_yor_process", "_geometric_process", "_equal", "_frequency"]] + ["pyrichlet/utils/functions.py"],
     [("variational_mean_log_w_j, variational_mean_w_j, variational_mode_w_j", "each model")], [],
     ["variational_mean_log_w_j()", "variational_mean_w_j()", "variational_mode_w_j()"])

prop("C11", "Variational weight terms of the evidence bound are the exact expectations",
     "For every fitted variational weight law, the reported expectations of log p(d|w), log p(w) and log q(w) equal the closed-form "
     "expectations: sum_j n_j E[log w_j] for the assignments, the prior log-density and the variational log-density integrated under the "
     "variational law. For a law equal to the prior the last two agree, and each raises NotFittedError before fitting (equal weighting needs no fit).",
     ["inputs", "configurations"], "all models, all fitted laws, all responsibility matrices",
     "Only the convergence of the bound is asserted, which holds for wrong bounds as well.",
     [W + x + ".py" for x in ["_dirichlet_distribution", "_dirichlet_process", "_pitman_yor_process", "_geometric_process", "_equal", "_frequency"]],
     [("variational_mean_log_p_d__w, variational_mean_log_p_w, variational_mean_log_q_w", "each model")], [],
     ["variational_mean_log_p_d__w()", "variational_mean_log_p_w()", "variational_mean_log_q_w()"])

prop("C12", "Gibbs atom updates use the exact normal-inverse-Wishart posterior of their group",
     "In a Gibbs step every occupied group's atom is drawn from the normal-inverse-Wishart posterior of exactly the observations currently "
     "assigned to it: precision lambda+n, degrees of freedom nu+n, mean (lambda*mu+n*ybar)/(lambda+n), scale psi + scatter + "
     "lambda*n/(lambda+n) (ybar-mu)(ybar-mu)^T, covariance inverse-Wishart and mean normal with covariance divided by that precision. "
     "Atoms of unoccupied groups, the data, the assignments and the priors are not touched.",
     ["inputs", "configurations"], "all data sets, dimensions, assignments and priors",
     "Tests use one well separated one-dimensional data set and check density errors to one decimal.",
     [M + "_utils.py", M + "_base.py"],
     [("posterior_norm_invw_params, random_normal_invw", M + "_utils.py"), ("_update_atoms", M + "_base.py")],
     [("theta", "atoms by label", M + "_base.py"), ("d", "assignments", M + "_base.py")], ["fit_gibbs()"])

prop("C13", "Slice-sampling steps are exact: no admissible component is ever truncated away",
     "In a Gibbs weight update the weighting model is refitted to the current assignments and redrawn, each slice variable is drawn uniformly between 0 and its own observation's weight (up to machine epsilon), "
     "and the weights are then extended until they total at least one minus the smallest slice variable, so every component whose weight "
     "exceeds some slice variable is represented. The assignment update draws each observation's label among exactly the components whose weight exceeds "
     "its slice variable, with probability proportional to their normal densities at the observation.",
     ["inputs", "histories"], "all data sets, weights, atoms and random outcomes, all weighting models",
     "A truncation that is too short or a misaligned indicator still yields plausible two-group fits.",
     [M + "_base.py", M + "_utils.py"],
     [("_update_weights, _update_d, _d_log_likelihood_vector", M + "_base.py"), ("gumbel_max_sampling", M + "_utils.py")],
     [("u", "slice variables", M + "_base.py")], ["fit_gibbs()"])

prop("C14", "Saved Gibbs draws are complete, immutable and counted exactly",
     "A cold Gibbs fit performs exactly total_iter steps and saves every subsample_steps-th one after burn-in, ceil((total_iter-burn_in)/subsample_steps) draws in all; a warm "
     "start adds to the earlier ones. Each saved draw records the weights, an atom for every weight, slice variables and assignments of one and the same step, "
     "never changes afterwards, and is matched by one entry of the group-count and atom-count histories and one increment of the co-clustering counts.",
     ["histories", "configurations"], "all iteration settings, all cold/warm sequences, all models",
     "No test reads the saved draws; every test uses the default schedule with one cold fit.",
     [M + "_base.py"], [("fit_gibbs, _save_params, _get_run_params", M + "_base.py")],
     [("sim_params, n_groups, n_atoms, affinity_matrix, total_saved_steps", "draw history", M + "_base.py")],
     ["get_sim_params()", "get_n_groups()", "get_n_theta()", "gibbs_eap_affinity_matrix()"])

prop("C15", "The MAP draw is the visited state with the highest likelihood",
     "After a Gibbs fit, the retained MAP state is one of the states visited by the chain since its cold start (the initial state and every step, burn-in included) and its "
     "log-likelihood, log f(y|d, theta)+log f(d|w), is the largest among them; the first of equals is kept. The MAP record holds the weights, atoms (one for every weight), slices and assignments of that one state and later steps do not change it.",
     ["histories"], "all chains",
     "Tests only check that the MAP density is close to the truth to one decimal.",
     [M + "_base.py"], [("_update_map_params, _run_log_likelihood", M + "_base.py")],
     [("map_log_likelihood, map_sim_params", "best state so far", M + "_base.py")], ["gibbs_map_density()", "gibbs_map_cluster()"])

prop("C16", "A cold fit starts afresh: nothing from earlier fits or data leaks into it",
     "A fit without warm start discards all earlier saved draws, counts, co-clustering totals, atoms and the MAP record (Gibbs) or the earlier variational state and convergence verdict (variational), "
     "whatever was fitted before. Prior parameters not given by the user are the mean, the covariance matrix and the dimension of the data being fitted, even if another data set was fitted earlier; "
     "those given by the user are used as given.",
     ["histories", "inputs"], "all sequences of fits on one object, all data sets",
     "Every test fits a fresh object once.", [M + "_base.py"],
     [("_initialize_common_params, _initialize_gibbs_params, _initialize_variational_params", M + "_base.py")],
     [("mu_prior, psi_prior, nu_prior", "prior parameters", M + "_base.py")], ["fit_gibbs()", "fit_variational()"])

prop("C17", "Gibbs density estimates are the mixtures defined by the draws",
     "At every point the MAP density is sum_j w_j N(x; mu_j, Sigma_j) of the MAP state, and the EAP density is the average of that expression over "
     "the saved draws (the last `periods` of them when given). With `component` only that term is kept, and with `dim` each normal is replaced by "
     "its marginal on those coordinates; results have one finite non-negative value per point and queries do not alter the fitted object.",
     ["inputs", "histories"], "all fitted objects, points, dimensions, components and periods",
     "Tests evaluate only the MAP density at the training points in one dimension.",
     [M + "_base.py", M + "_utils.py"], [("gibbs_eap_density, gibbs_map_density", M + "_base.py"), ("mixture_density", M + "_utils.py")],
     [], ["gibbs_eap_density()", "gibbs_map_density()"])

prop("C18", "Gibbs clusterings are the mixture's own MAP labels with exact uncertainty",
     "The MAP clustering assigns each point to the component maximising w_j N(x; mu_j, Sigma_j), with labels renumbered 0..K-1 in component order, and its "
     "uncertainty is one minus that component's posterior probability. The EAP affinity of two points is the fraction of saved draws that put them in the same group (by the stored assignments for the training data, by this rule for new points), "
     "hence symmetric, within [0, 1] and one on the diagonal; a single point is accepted.",
     ["inputs", "histories"], "all fitted objects and query points",
     "No test clusters anything.", [M + "_base.py", M + "_utils.py"],
     [("cluster", M + "_utils.py"), ("gibbs_map_cluster, gibbs_eap_affinity_matrix", M + "_base.py")], [],
     ["gibbs_map_cluster()", "gibbs_eap_affinity_matrix()"])

prop("C19", "Variational responsibilities are the normalized exponentiated expected log-joint",
     "Each variational update makes the responsibility of group j for observation i positive, sums them to one over the groups, and makes them proportional (up to machine epsilon) to "
     "exp(E[log w_j] + E[log|Lambda_j|]/2 - D/(2 lambda_j) - nu_j/2 (y_i-m_j)^T W_j (y_i-m_j)), with E[log|Lambda_j|] = D log 2 + log det W_j + "
     "sum_{i=0}^{D-1} digamma((nu_j-i)/2).",
     ["inputs", "configurations"], "all data, dimensions, groups, weighting models",
     "Tests are one-dimensional, where many wrong forms coincide, and check only convergence and a coarse error.",
     [M + "_base.py", M + "_utils.py"], [("_update_var_d", M + "_base.py"), ("e_log_norm_wishart", M + "_utils.py")],
     [("var_d", "responsibilities", M + "_base.py")], ["fit_variational()", "var_map_cluster()"])

prop("C20", "Variational atom updates are the exact normal-Wishart posterior",
     "Given responsibilities, each group's variational normal-Wishart law has, with n_j its total responsibility, xbar_j and S_j the weighted mean and scatter of the data, lambda_j = lambda+n_j, nu_j = nu+n_j, mean "
     "(lambda*mu+n_j*xbar_j)/(lambda+n_j) and inverse scale psi + S_j + lambda*n_j/(lambda+n_j) (xbar_j-mu)(xbar_j-mu)^T. "
     "With 0/1 responsibilities it coincides with the Gibbs posterior of the group.",
     ["inputs", "configurations"], "all data, dimensions, responsibilities and priors",
     "One-dimensional tests with one-decimal density error survive scatter and outer-product mistakes.",
     [M + "_base.py"], [("_update_var_theta", M + "_base.py")], [("var_theta", "variational atom laws", M + "_base.py")], ["fit_variational()"])

prop("C21", "The evidence lower bound is the exact mean-field bound",
     "The bound monitored by variational fitting equals E[log p(y|d,theta)] + E[log p(d|w)] + E[log p(w)] + E[log p(theta)] - E[log q(d)] - E[log q(w)] - E[log q(theta)] "
     "for the normal-Wishart mixture, each term being its closed form under the current variational law.",
     ["inputs", "configurations"], "all variational states, dimensions and weighting models",
     "Tests never read the bound; a wrong bound merely stops the iteration at a different time.",
     [M + "_base.py", M + "_utils.py"], [("_calc_elbo and its terms", M + "_base.py"), ("log_wishart_normalization_term, entropy_wishart", M + "_utils.py")],
     [], ["fit_variational()"])

prop("C22", "Variational fitting stops exactly on convergence or at the iteration cap",
     "Variational fitting performs at least one and at most total_iter updates for a finite tolerance (responsibilities, then weights, then atoms, in each), and stops as soon as the bound changes by no more than the tolerance between "
     "consecutive updates. The fit is flagged converged exactly when the last change was within the tolerance, also when the object was fitted before, and is flagged fitted either way.",
     ["histories", "inputs", "configurations"], "all data, tolerances, iteration caps, refits",
     "Tests only assert that one fresh easy fit reports convergence.", [M + "_base.py"],
     [("fit_variational", M + "_base.py")], [("var_converged, var_fitted", "verdict", M + "_base.py")], ["fit_variational()"])

prop("C23", "Variational densities are the mixtures defined by the variational law",
     "The EAP density is sum_j E[w_j] St(x; m_j, (nu_j+1-D) lambda_j/(1+lambda_j) W_j, nu_j+1-D), with D the full dimension, and the MAP density is sum_j mode(w_j) N(x; m_j, ((nu_j-D) W_j)^-1) with nu_j > D; with `dim` each kernel is replaced by its "
     "exact marginal on those (distinct) coordinates and with `component` only that term is kept. Both default to the training data and all dimensions, return one non-negative "
     "value per point, and do not alter the fitted object.",
     ["inputs", "configurations"], "all fitted objects, points, dimensions and components",
     "Tests evaluate the EAP density at training points in one dimension only.",
     [M + "_base.py", "pyrichlet/utils/functions.py"], [("var_eap_density, var_map_density", M + "_base.py"), ("density_students_t, density_normal", "pyrichlet/utils/functions.py")],
     [], ["var_eap_density()", "var_map_density()"])

prop("C24", "Variational clusterings maximise the responsibilities at old and new points",
     "The variational clustering labels each point with its largest responsibility and reports one minus that responsibility as uncertainty; for new points the responsibilities are those of the variational law (as in the fit), however far the point lies, so querying the "
     "training points again gives one consistent rule. The affinity of two points is the sum over groups of the products of their responsibilities, symmetric and within [0, 1].",
     ["inputs"], "all fitted objects and query points", "No test calls them.", [M + "_base.py"],
     [("var_map_cluster, var_eap_affinity_matrix", M + "_base.py")], [], ["var_map_cluster()", "var_eap_affinity_matrix()"])

prop("C25", "Queries are refused until the matching fit has completed",
     "Every Gibbs density, clustering or affinity query raises NotFittedError until a Gibbs fit has completed, and every variational one until a variational fit has completed; a fit of one kind never "
     "enables the queries of the other, and once fitted they are accepted whichever fits follow.",
     ["histories"], "all call histories", "No test queries an unfitted object.", [M + "_base.py"],
     [("gibbs_fitted / var_fitted guards", M + "_base.py")], [("gibbs_fitted, var_fitted", "flags", M + "_base.py")],
     ["all query methods"])

prop("C26", "Data containers are interchangeable; caller data is never modified or kept",
     "Lists, one- and two-dimensional arrays, Series and DataFrames with the same values give the same observations (one-dimensional input is one feature) in fitting and in queries, where a scalar is one point, and any other type is "
     "refused with a TypeError. Fitting and querying never modify the caller's object, and changing a list, array or frame after fitting does not change the fitted object.",
     ["inputs", "histories"], "all containers and shapes", "Tests pass one float array.", [M + "_base.py"],
     [("_initialize_common_params, _cast_observations", M + "_base.py")], [("y", "fitted observations", M + "_base.py")],
     ["fit_gibbs()", "fit_variational()", "all queries"])

prop("C27", "All randomness comes from the generator the object was given",
     "Every random variate used in drawing weights, assigning, initialising and fitting is taken from the object's own generator, built from the given integer seed or the given generator itself; no global or fresh unseeded "
     "generator is consulted, so equal seeds and equal calls give equal results. Anything that is neither None, an integer nor a numpy Generator is refused with a TypeError.",
     ["inputs", "histories", "configurations"], "all models, all seeds, all call sequences",
     "Tests seed one shared generator and never compare two runs.",
     [W + "_base.py", M + "_base.py", M + "_utils.py", "pyrichlet/utils/validators.py"],
     [("rng_parser", "pyrichlet/utils/validators.py"), ("random_state / rng arguments at every sampling call", M + "_utils.py")],
     [], ["random()", "fit_gibbs()", "fit_variational()"])

prop("C28", "Auxiliary samplers draw from exactly the distribution they are given",
     "Gumbel-max sampling returns, for each column of log-weights, the index maximising log-weight plus independent standard Gumbel noise, so impossible entries are never chosen while a possible one exists. Rejection sampling returns only points "
     "of [a, b) accepted with their own uniform height under the target, every retry redrawing both. K-means initial labels are the k-means partition renumbered from 0 by non-increasing group size.",
     ["inputs"], "all log-weight tables, targets, bounds, sizes, data sets and random outcomes", "Rejection sampling is untested; the others are only exercised inside coarse fits.",
     [M + "_utils.py"], [("gumbel_max_sampling, rejection_sample, kmeans_cluster_size_biased", M + "_utils.py")], [], ["utility functions"])

prop("C29", "Distribution helper functions equal their mathematical definitions",
     "In every dimension the multivariate Student-t and normal density helpers, the log Wishart normalizing constant, the Wishart expected log-determinant and entropy, the mean of a log-Beta variable, the "
     "normal-inverse-Wishart log-density and the Ewens partition probability equal their textbook formulas for all admissible arguments.",
     ["inputs"], "all admissible arguments in all dimensions", "Tests reach only dimension one, indirectly, where determinant and norm coincide.",
     ["pyrichlet/utils/functions.py", M + "_utils.py"],
     [("density_students_t, density_normal, mean_log_beta, dirichlet_log_eppf", "pyrichlet/utils/functions.py"),
      ("log_wishart_normalization_term, e_log_norm_wishart, entropy_wishart, log_likelihood_normal_invw", M + "_utils.py")], [], ["utility functions"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
