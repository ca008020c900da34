"""Regenerates /verif/properties.jsonl (kept as a script so that the long
statements stay reviewable)."""
import json, os
S = "src/pylogit/"
P = []
def prop(id, title, statement, text, why, files, mech, observe, over=("inputs",), state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=list(over), text=text), why_tests_cant=why,
             anchors=dict(files=[S + f for f in files],
                          mechanism=[dict(name=n, where=S + w) for n, w in mech],
                          observe_at=observe))
    if state: d["anchors"]["state"] = state
    P.append(d)

prop("P01", "Logit-type choice probabilities are a distribution over each observation",
 "For every logit-type model (MNL, asymmetric, clog-log, scobit, uneven), every data layout and every finite parameter vector, each row's probability equals the exponential of its transformed utility (clipped to +/-700) divided by the sum of those exponentials over exactly the rows of the same observation, so probabilities are strictly positive and sum to one within each observation. The probability reported for an observation's choice is the probability of its chosen row. This holds with one parameter vector or with many parameter vectors (or simulation draws) evaluated at once, column by column.",
 "all numbers of rows, observations, alternatives, variables and parameter columns; all real designs, parameters and row-to-observation assignments",
 "The tests evaluate one 5-row data set per model; the formula must hold for every size, availability pattern and parameter value.",
 ["choice_calcs.py"], [("softmax over rows of an observation", "choice_calcs.py calc_probabilities")],
 ["return value of the probability computation", "model.long_fitted_probs", "model.predict"])
prop("P02", "Log-likelihood is the weighted sum of log chosen probabilities less penalty",
 "For every logit-type model the reported log-likelihood equals the sum over rows of choice indicator times row weight times log probability. When a ridge penalty is given, exactly ridge times the sum of squares of all parameters being estimated (shape, outside-intercept and index coefficients) is subtracted, and nothing otherwise.",
 "all sizes, designs, parameters, weights, ridge values and presence/absence of shape and intercept parameters",
 "Tests use one data set, one parameter point and few of the weight/ridge/parameter-type combinations.",
 ["choice_calcs.py", "estimation.py"], [("log-likelihood", "choice_calcs.py calc_log_likelihood"), ("estimator delegation", "estimation.py LogitTypeEstimator.convenience_calc_log_likelihood")],
 ["log-likelihood return value", "model.log_likelihood"], over=("inputs", "configurations"))
prop("P03", "Logit-type gradient is the true derivative of the objective",
 "For every logit-type model, wherever no utility is clipped, the analytic gradient equals the vector of partial derivatives of the (weighted, optionally ridge-penalised) log-likelihood, ordered shape parameters, outside intercepts, index coefficients. This holds for all data sizes, for weights that are constant within an observation, and for every presence/absence combination of shape and intercept parameters.",
 "all sizes, designs, parameters, observation weights, ridge values; all four shape/intercept combinations",
 "Tests compare a handful of gradients on one small data set; a wrong term can vanish there (unit weights, no ridge, symmetric availability).",
 ["choice_calcs.py", "estimation.py"], [("gradient", "choice_calcs.py calc_gradient")],
 ["gradient return value", "model.gradient"], over=("inputs", "configurations"))
prop("P04", "Logit-type Hessian is the analytic second-derivative form",
 "For every logit-type model the Hessian equals minus the weighted sum over observations of the within-observation probability-weighted covariance of the rows' utility derivatives (with respect to shape, outside-intercept and index parameters, in that block order), minus twice the ridge on the diagonal when a ridge is given; it is therefore symmetric. For the multinomial logit model it is exactly the matrix of second partial derivatives of the penalised log-likelihood.",
 "all sizes, designs, parameters, observation weights, ridge values; all four shape/intercept combinations",
 "Tests check a few Hessians on a single small data set.",
 ["choice_calcs.py", "estimation.py"], [("block quadratic forms", "choice_calcs.py quadratic_prod_wrt_dp_ds"), ("Hessian", "choice_calcs.py calc_hessian")],
 ["Hessian return value", "model.hessian"], over=("inputs", "configurations"))
prop("P05", "Fisher information and robust covariance follow their formulas",
 "For every logit-type model the Fisher-information approximation equals the sum over observations of observation weight times the outer product of that observation's own (unweighted) score, less twice the ridge on the diagonal when a ridge is given. The robust covariance equals inverse Hessian times Fisher information times inverse Hessian.",
 "all sizes, designs, parameters, non-negative observation weights, ridge values, shape/intercept combinations",
 "Tests check a few points on one data set, nearly always with unit weights.",
 ["choice_calcs.py"], [("outer-product form", "choice_calcs.py calc_fisher_info_matrix"), ("sandwich", "choice_calcs.py calc_asymptotic_covariance")],
 ["model.fisher_information", "model.robust_cov"], over=("inputs", "configurations"))
prop("P06", "Utility transformations follow each model's published formula",
 "For every alternative and every finite systematic utility V: clog-log uses ln(exp(exp V)-1) (exp V once V>=3.7), scobit uses -ln((1+exp(-V))^s-1), uneven uses V+ln(1+exp(-V))-ln(1+exp(-sV)), asymmetric uses ln(c)-V*ln(c) for V>=0 and ln(c)-V*ln((1-c)/(J-1)) for V<0, and MNL uses V, each plus the alternative's outside intercept when there is one. Here s is the exponential of the alternative's shape parameter and the c are the logistic (softmax) shares of the shape parameters with the reference alternative's parameter fixed at zero; intercepts and shapes are matched to alternatives in sorted order skipping the reference alternative, whose intercept is zero. The formulas hold up to floating-point resolution: a transformation may saturate at a large finite value, on the side of the formula, once exp(exp V) or (1+exp(-V))^s rounds to one or overflows or 1-c rounds to zero.",
 "all row counts, alternative counts, reference positions, parameters and one or many parameter columns",
 "Tests use three alternatives, a single reference position and a few utilities.",
 ["conditional_logit.py", "asym_logit.py", "clog_log.py", "scobit.py", "uneven_logit.py"],
 [("transforms", "asym_logit.py _asym_utility_transform, _convert_eta_to_c"), ("transforms", "clog_log.py _cloglog_utility_transform"), ("transforms", "scobit.py _scobit_utility_transform"), ("transforms", "uneven_logit.py _uneven_utility_transform")],
 ["transformed utilities"], over=("inputs", "configurations"))
prop("P07", "Analytic derivatives of utility transformations are the true derivatives",
 "For every logit-type model, the analytic derivatives of a row's transformed utility with respect to systematic utility, shape parameters (in their estimated, unconstrained form) and outside intercepts equal the mathematical derivatives of that model's transformation, for all row counts, alternative counts and reference positions. Each derivative is attached to the row and to the parameter of the row's own alternative (for the asymmetric model, to every shape parameter through the normalisation). Limiting values may be used where exp or power terms round to one or overflow.",
 "all finite utilities and shape parameters where the transformation is differentiable; all sizes and reference positions",
 "Tests compare derivatives at a few points with three alternatives.",
 ["conditional_logit.py", "asym_logit.py", "clog_log.py", "scobit.py", "uneven_logit.py"],
 [("derivatives", "asym_logit.py _asym_transform_deriv_v, _asym_transform_deriv_shape"), ("derivatives", "clog_log.py _cloglog_transform_deriv_v"), ("derivatives", "scobit.py _scobit_transform_deriv_v, _scobit_transform_deriv_shape"), ("derivatives", "uneven_logit.py _uneven_transform_deriv_v, _uneven_transform_deriv_shape"), ("estimator wiring", "*.py create_calc_dh_dv, create_calc_dh_d_shape, create_calc_dh_d_alpha")],
 ["derivative matrices used by gradient and Hessian"], over=("inputs", "configurations"))
prop("P08", "Nested logit probabilities follow the nested logit formula",
 "For every nest assignment, availability pattern and natural nest coefficient in (0, 1], a row's nested-logit probability equals exp(V/l)*S^(l-1) divided by the sum over nests of S_m^l_m for its observation, where l is its nest's coefficient and S_m the sum of exp(V/l_m) over that observation's rows in nest m; probabilities are positive and sum to one within each observation. Within-nest conditional probabilities and nest-level probabilities follow the same decomposition and multiply back to the row probability, and the estimated nest parameters map to natural coefficients by the logistic function.",
 "all sizes, designs, coefficients, nest structures and availability patterns including observations for which a whole nest is unavailable",
 "Tests use one data set with two nests and full availability of nests.",
 ["nested_choice_calcs.py"], [("nested probabilities", "nested_choice_calcs.py calc_nested_probs"), ("logistic map", "nested_choice_calcs.py naturalize_nest_coefs")],
 ["nested probabilities", "model.long_fitted_probs"])
prop("P09", "Nested logit gradient is the true derivative of its objective",
 "The nested logit log-likelihood equals the weighted sum of log chosen probabilities, minus ridge times the sum of squares of index coefficients and of (natural nest coefficient minus one) when a ridge is given. Its analytic gradient equals the partial derivatives of that objective with respect to the estimated (unconstrained) nest parameters followed by the index coefficients, for all sizes, nest structures, availability patterns (including observations to which a nest offers no alternative) and observation-constant weights.",
 "all sizes, designs, parameters, nest structures, availability patterns, weights and ridge values",
 "Tests use one data set in which every observation has an alternative in every nest and never compare the penalised gradient with a derivative.",
 ["nested_choice_calcs.py", "nested_logit.py"], [("log-likelihood", "nested_choice_calcs.py calc_nested_log_likelihood"), ("gradient", "nested_choice_calcs.py calc_nested_gradient, prep_vectors_for_gradient")],
 ["nested gradient", "model.gradient"], over=("inputs", "configurations"))
prop("P10", "Nested logit BHHH matrix is minus the sum of score outer products",
 "The nested logit Hessian approximation equals minus the sum over observations of observation weight times the outer product of that observation's unweighted score (its contribution to the unpenalised gradient), minus twice the ridge on the diagonal when a ridge is given. Rows and columns of parameters held fixed are zeroed with minus one on the diagonal, leaving the rest unchanged.",
 "all sizes, nest structures, availability patterns, weights, ridge values, constraint sets",
 "Tests check a single small data set.",
 ["nested_choice_calcs.py", "nested_logit.py"], [("BHHH", "nested_choice_calcs.py calc_bhhh_hessian_approximation"), ("constraint handling", "nested_logit.py NestedEstimator.convenience_calc_hessian")],
 ["model.hessian of nested logit"], over=("inputs", "configurations"))
prop("P11", "Mixed logit simulates normal mixing per decision maker correctly",
 "For every design, set of mixed variables and number of draws (including one), the draws are independent standard normals, one per decision maker, draw and mixed variable, and the same seed gives the same draws; the simulated design repeats each row for every draw and appends, for each mixed variable in order, that variable multiplied by the draw belonging to the row's own decision maker. The simulated probability of a decision maker's choice sequence is the average over draws of the product of the probabilities of that decision maker's chosen rows, and the log-likelihood is the weight-per-decision-maker sum of log simulated probabilities less ridge times the squared parameters when a ridge is given.",
 "all numbers of rows, draws, decision makers and mixed variables; all designs, draws and parameters",
 "Tests use one panel with a fixed handful of draws; the identities must hold for all sizes and draw counts.",
 ["mixed_logit_calcs.py"], [("expanded design", "mixed_logit_calcs.py create_expanded_design_for_mixing"), ("sequence probabilities", "mixed_logit_calcs.py calc_choice_sequence_probs"), ("log-likelihood", "mixed_logit_calcs.py calc_mixed_log_likelihood")],
 ["simulated log-likelihood", "model.log_likelihood"], over=("inputs", "configurations"))
prop("P12", "Mixed logit gradient is the derivative of the simulated objective",
 "The mixed logit gradient equals the partial derivatives of the simulated (weighted, optionally penalised) log-likelihood for every panel, number of draws, design and parameter vector, when weights are constant within a decision maker and each observation belongs to one decision maker. The Hessian approximation equals minus the weighted sum over decision makers of the outer product of their simulated scores, plus twice the ridge on the diagonal when a ridge is given.",
 "all panel shapes, draw counts, designs, parameters, weights, ridge values",
 "Tests compare one panel at one point.",
 ["mixed_logit_calcs.py", "mixed_logit.py"], [("gradient", "mixed_logit_calcs.py calc_mixed_logit_gradient"), ("BHHH", "mixed_logit_calcs.py calc_bhhh_hessian_approximation_mixed_logit")],
 ["mixed logit gradient", "model.hessian of mixed logit"], over=("inputs", "configurations"))
prop("P13", "Row-to-entity mappings have one unit entry per row at the right column",
 "The mappings built from long data are 0/1 matrices with exactly one 1 in each row: observation and decision-maker columns follow order of first appearance, alternative columns follow sorted alternative id, and nest columns follow the order of the nest specification. The chosen-row mapping keeps exactly the entries of chosen rows, and rows whose id is not among explicitly given ids map to no column.",
 "all id arrays (any values, any order, repeated, non-contiguous) and all nest specifications that partition the alternatives",
 "Tests use small sorted ids; ordering mistakes only show for unsorted or interleaved ids.",
 ["choice_tools.py"], [("sparse mapping", "choice_tools.py create_sparse_mapping, get_original_order_unique_ids"), ("all mappings", "choice_tools.py create_long_form_mappings")],
 ["mapping matrices used by every estimation and prediction"])
prop("P14", "Design matrix has one named column per specified coefficient, in order",
 "For every valid specification, the design matrix has, variable by variable in specification order, one unmodified column for a generic variable, one column per alternative in sorted order for a fully alternative-specific variable, and one column per listed alternative or group in listed order otherwise; each alternative-specific column equals the variable on rows of its alternatives and zero elsewhere. Column names are the user-supplied names in the same order, or the default names built from the variable and its alternative or group.",
 "all specifications, variable counts, alternative ids and data",
 "Tests use one specification; misordering or mismasking shows only for particular combinations of variable types.",
 ["choice_tools.py"], [("design matrix", "choice_tools.py create_design_matrix")],
 ["model.design", "model.ind_var_names"], over=("inputs", "configurations"))
prop("P15", "Long-to-wide conversion preserves every observation's data",
 "Converting long data to wide data yields one row per observation holding its id, the id of the alternative it actually chose, an availability indicator per alternative, its observation-specific variables and, for each alternative-specific or subset-specific variable, the value for each relevant alternative, with the null value exactly where the alternative is unavailable. This holds for any row order, availability pattern and alternative ids.",
 "all long data sets with unique observation-alternative pairs and one choice per observation",
 "Tests convert one small sorted data set.",
 ["choice_tools.py"], [("conversion", "choice_tools.py convert_long_to_wide")], ["returned dataframe"])
prop("P16", "Wide-to-long conversion preserves data and inverts long-to-wide",
 "Converting wide data to long data yields exactly one row per observation and available alternative, in observation order then sorted alternative id, carrying the right observation id, alternative id, choice indicator, observation-specific values and alternative-specific values (zero where a variable is not defined for that alternative), regardless of the order in which availability columns are listed. Converting long data to wide and back reproduces the original data up to row order.",
 "all wide data sets passing the documented checks; all orders of the availability mapping",
 "Tests use one data set with sorted availability columns.",
 ["choice_tools.py"], [("conversion", "choice_tools.py convert_wide_to_long")], ["returned dataframe"])
prop("P17", "Parameter vectors are split, ordered and named consistently",
 "For every model type a full parameter vector is split into nest, shape, outside-intercept and index coefficients in that order without loss or overlap, for all numbers of alternatives, variables and nests, and a missing group is reported as absent. Stored estimates, gradient, Hessian and covariances carry names in the same order, so every reported name labels the coefficient it was estimated for, and replicated parameter tables are split the same way.",
 "all parameter counts, numbers of alternatives, nests and variables; presence or absence of intercepts and names",
 "Tests use fixed small sizes and check one labelling per model.",
 ["asym_logit.py", "clog_log.py", "scobit.py", "uneven_logit.py", "conditional_logit.py", "nested_logit.py", "mixed_logit.py", "base_multinomial_cm_v2.py", "bootstrap.py"],
 [("splitting", "*.py split_param_vec"), ("naming", "base_multinomial_cm_v2.py MNDC_Model.store_fit_results"), ("replicate splitting", "bootstrap.py get_param_list_for_prediction, get_param_names")],
 ["model.params and per-group series"], over=("inputs", "configurations"))
prop("P18", "Post-estimation statistics satisfy their definitions",
 "After estimation: rho-squared is 1 - L/L0 and rho-bar-squared 1 - (L-K)/L0 with L0 the log-likelihood at the zero vector; residuals are choice minus probability and an observation's chi-square is the sum of its squared residuals over probabilities; AIC is -2L+2K and BIC is -2L+K*ln(number of observations). Covariance is minus the inverse Hessian, standard errors are square roots of its diagonal (and of the robust covariance's for robust errors), t-statistics are estimate over standard error, p-values are two-sided normal, and confidence limits are estimate -/+ the normal quantile times the standard error.",
 "all estimation results (any parameter count, number of observations, probabilities, Hessian)",
 "Tests check stored attributes against a few fixed numbers.",
 ["estimation.py", "base_multinomial_cm_v2.py"], [("statistics", "estimation.py calc_and_store_post_estimation_results, calc_rho_and_rho_bar_squared, calc_individual_chi_squares"), ("inference", "base_multinomial_cm_v2.py _store_generic_inference_results, compute_aic, compute_bic, conf_int")],
 ["model.summary", "model.fit_summary", "model.conf_int"])
prop("P19", "Constrained parameters stay fixed and are excluded from inference",
 "For every set of constrained positions, the objective handed to the optimiser is minus the log-likelihood with minus its gradient, whose entries at exactly the constrained positions are zero while all other entries are unchanged; single-alternative nests are always constrained in nested logit in addition to the user's constraints. After estimation exactly the constrained parameters have missing standard errors, t-statistics and p-values (ordinary and robust), all others keep theirs.",
 "all parameter counts and constraint sets (any order, duplicates); all nest specifications",
 "Tests constrain one position of one model.",
 ["estimation.py", "mixed_logit_calcs.py", "nested_logit.py", "mixed_logit.py", "base_multinomial_cm_v2.py"],
 [("gradient masking", "estimation.py EstimationObj.calc_neg_log_likelihood_and_neg_gradient"), ("degenerate nests", "nested_logit.py identify_degenerate_nests"), ("NaN inference", "base_multinomial_cm_v2.py _adjust_inferential_results_for_parameter_constraints")],
 ["objective and gradient passed to the optimiser", "model.summary"], over=("inputs", "configurations"))
prop("P20", "Estimation reports exactly the optimiser's solution",
 "Estimation maximises the model's own log-likelihood from the supplied starting values: the reported parameters, log-likelihood, probabilities, gradient and Hessian are those of the model evaluated at the point the optimiser returned, the null log-likelihood is that at the zero vector, the method and ridge penalty recorded are those used, and refitting the estimator on the same inputs uses the same objective. Point-only estimation returns the optimiser's point without storing results on the model.",
 "all models, starting values, optimiser outcomes",
 "Tests check a few fields on mocked optimiser results for one model.",
 ["estimation.py", "construct_estimator.py"], [("driver", "estimation.py estimate, calc_and_store_post_estimation_results"), ("delegation", "estimation.py LogitTypeEstimator"), ("construction", "construct_estimator.py create_estimation_obj")],
 ["results returned by estimation", "model attributes after fitting"], over=("inputs", "configurations", "histories"))
prop("P21", "Prediction evaluates the fitted model on the new data's own structure",
 "Predicting with a fitted model returns, for every row of the supplied data, the probability that the model's formula gives with the stored (or explicitly passed) parameters and with the new data's own design, observations, alternatives, nests and decision makers, for new data that offers the model's alternatives; chosen probabilities are those of the rows flagged in the supplied choice column. Predicting on the estimation data reproduces the fitted probabilities for non-simulated models, and mixed logit prediction averages probabilities over draws.",
 "all data sets (different size, ids, order from the estimation data), parameter lists, model types",
 "Tests predict on a handful of rows for two models.",
 ["base_multinomial_cm_v2.py"], [("prediction", "base_multinomial_cm_v2.py MNDC_Model.predict")],
 ["model.predict"], over=("inputs", "configurations"))
prop("P22", "Panel prediction weighs draws by each person's past choices",
 "For mixed logit panel prediction, each person already observed during estimation has their draws weighted in proportion to the probability of their past choice sequence under those draws (weights sum to one), every new person has equal draw weights, and each row's predicted probability is that person's weighted average of kernel probabilities. The result does not depend on the order in which people appear in the old or new data.",
 "all pairs of estimation and prediction panels, including partially overlapping people in different orders",
 "Tests use one small panel with people in the same order in both data sets.",
 ["mixed_logit.py"], [("posterior weights", "mixed_logit.py MixedLogit.panel_predict")], ["panel prediction result"])
prop("P23", "Bootstrap samples resample whole observations within choice strata",
 "Every bootstrap sample consists of original observation ids drawn only from the observations that chose a given alternative, with exactly as many draws per chosen alternative as there are observations choosing it. The bootstrap data set contains, for the k-th drawn id, an exact copy of all rows of that observation in original order labelled with bootstrap id k, and the same seed gives the same samples.",
 "all data sets, seeds and sample counts; repeated ids within a sample",
 "Tests check one tiny data set and one seed.",
 ["bootstrap_sampler.py"], [("stratified resampling", "bootstrap_sampler.py create_cross_sectional_bootstrap_samples, relate_obs_ids_to_chosen_alts"), ("data set construction", "bootstrap_sampler.py create_bootstrap_dataframe, create_deepcopied_groupby_dict")],
 ["resampled ids", "bootstrap data set"])
prop("P24", "Percentile and BCa intervals match their definitions",
 "The percentile interval's endpoints are the lower and upper (100-c)/2 percentiles of each parameter's replicates, rounded outwards to observed replicates. The BCa interval uses the same percentile rule at the bias- and acceleration-adjusted percentages Phi(z0 + (z0+z)/(1-a(z0+z))) per parameter, with z0 the normal quantile of the share of replicates below the estimate and a the jackknife skewness sum d^3/(6 (sum d^2)^1.5). Tables of intervals hold each parameter's own endpoints under its name, labelled with their percentages.",
 "all replicate tables, estimates and confidence percentages",
 "Tests check one table and confidence level.",
 ["bootstrap_calcs.py", "bootstrap_utils.py", "bootstrap.py"], [("intervals", "bootstrap_calcs.py calc_percentile_interval, calc_bca_interval"), ("BCa pieces", "bootstrap_calcs.py calc_bias_correction_bca, calc_acceleration_bca, calc_lower_bca_percentile, calc_upper_bca_percentile")],
 ["interval tables"])
prop("P25", "ABC interval ingredients match Efron's definitions",
 "For any estimator that maps observation weights to estimates: empirical influence is (t+ - t-)/(2e) and second-order influence (t+ - 2t + t-)/e^2 with t+/- the estimates when one observation's weight is perturbed by +/-e from the equal weights (all weights still summing to one), standard error is sqrt(sum of squared influences)/n, acceleration is sum u^3/(6 (sum u^2)^1.5), bias is sum of second-order influences over 2n^2, total curvature is bias/std.error minus quadratic coefficient, and bias correction is the normal quantile of 2*Phi(a)*Phi(-curvature). Endpoints are re-estimates under weights shifted along each parameter's own influence by lambda = w/(1-a w)^2 with w = bias correction plus the percentile's normal quantile, and observation weights are spread unchanged to that observation's rows, and the package's own models use the weights they are given when re-estimated.",
 "all numbers of observations and parameters, epsilons, influence arrays and weight-to-estimate maps",
 "Tests check mocked pieces at a few points.",
 ["bootstrap_abc.py"], [("ABC formulas", "bootstrap_abc.py calc_empirical_influence_abc ... efron_endpoints_for_abc_confidence_interval")],
 ["ABC intermediate arrays and intervals"])
prop("P26", "Replicates, their likelihoods and starting values belong to the right data",
 "The j-th bootstrap replicate is the estimate obtained from the j-th resampled data set and the i-th jackknife replicate the estimate obtained after removing exactly the i-th observation (in sorted id order), each with the model's own specification; replicate log-likelihoods are the sums of log predicted probabilities of the observed choices at each replicate, and gradient norms those of the model's gradient at each replicate, in replicate order. Default starting values for a replicate place the multinomial logit estimates in the index-coefficient positions (outside intercepts before index coefficients, zeros for shape, nest and mixing parameters, divided by the log of the number of alternatives for the asymmetric model's index coefficients).",
 "all model types, data sets, numbers of replicates and parameters",
 "Tests use mocks for one model and one data set.",
 ["bootstrap.py", "bootstrap_mle.py"], [("replicates", "bootstrap.py Boot.generate_bootstrap_replicates, generate_jackknife_replicates"), ("starting values", "bootstrap_mle.py extract_default_init_vals, retrieve_point_est")],
 ["Boot.bootstrap_replicates", "Boot.jackknife_replicates"], over=("inputs", "configurations"))
prop("P27", "Invalid inputs are rejected before any estimation",
 "Model construction, fitting and data conversion accept an input if and only if it satisfies the documented requirement and otherwise raise an error: columns exist; specification variables are finite real numbers; nests partition the alternatives with non-empty integer lists; reference positions lie in range and name lists have the right length; starting values have the exact required length; observation rows are in non-decreasing id order; weights are a non-negative vector with one entry per row; confidence levels lie strictly between 0 and 100; each observation-alternative pair is unique and the number of choices equals the number of observations.",
 "all inputs, valid and invalid, at and around every boundary",
 "Tests try a few invalid values each; acceptance boundaries (first/last position, unsigned ids, single row) are unsampled.",
 ["choice_tools.py", "base_multinomial_cm_v2.py", "estimation.py", "bootstrap_utils.py"], [("validators", "choice_tools.py ensure_*, check_*"), ("validators", "base_multinomial_cm_v2.py ensure_*, check_*"), ("validators", "estimation.py ensure_positivity_and_length_of_weights")],
 ["exceptions raised"], over=("inputs", "configurations"))
prop("P28", "Computations never modify the caller's arrays or data",
 "Computing probabilities, log-likelihoods, gradients, Hessians, transformations, mappings, design matrices, conversions, resamples and intervals leaves the caller's arrays, matrices, parameter lists and data frames unchanged. The only permitted changes are the documented ones: adding an intercept column to the supplied data frame, attributes stored on the model, and preallocated derivative buffers.",
 "all inputs and configurations of every public computation",
 "Tests never compare inputs before and after; mutation shows only on later reuse.",
 ["choice_calcs.py", "nested_choice_calcs.py", "mixed_logit_calcs.py", "choice_tools.py", "bootstrap_sampler.py"], [("copies before writes", "choice_calcs.py calc_probabilities; mixed_logit_calcs.py create_expanded_design_for_mixing")],
 ["arguments after each call"], over=("inputs", "histories"))
prop("P29", "Extreme parameters never yield NaN, zero or infinite probabilities",
 "For every logit-type, nested and mixed logit model, in IEEE double arithmetic: systematic utilities, shape parameters and unconstrained nest parameters of any magnitude up to 1e299 (outside intercepts up to 1e290) give probabilities of the rows that are numbers strictly greater than zero and not greater than one (up to rounding), that sum to one over the rows of an observation (up to rounding) for logit-type models and for every draw of a mixed logit, and log-likelihoods without a ridge penalty that are finite numbers for weights up to 1e290. Transformed utilities, and their derivatives with respect to the systematic utility, are never NaN or infinite; derivatives with respect to shape parameters are never NaN; natural nest coefficients lie in (0, 1].",
 "all data sets of up to 1e9 rows, 1e4 alternatives per observation and 1e3 nests, and all finite designs and parameters including magnitudes that overflow or underflow exponentials",
 "Tests try one or two extreme utilities per model.",
 ["choice_calcs.py", "asym_logit.py", "clog_log.py", "scobit.py", "uneven_logit.py", "nested_choice_calcs.py", "mixed_logit_calcs.py"], [("clipping and floors", "choice_calcs.py calc_probabilities"), ("overflow guards", "*.py *_utility_transform, *_transform_deriv_*"), ("overflow guards", "nested_choice_calcs.py calc_nested_probs, naturalize_nest_coefs"), ("floor of simulated probabilities", "mixed_logit_calcs.py calc_choice_sequence_probs")],
 ["probabilities, transformed utilities, their derivatives and log-likelihoods at extreme inputs"])
prop("P30", "Each requested model type gets its own class, estimator and splitting rule",
 "Requesting a model type yields the model class, display name, estimator, parameter-splitting rule, utility transformation and derivative functions of that same type with all user options passed through unchanged, and unknown types are rejected. Re-creating a model for resampling reproduces the original's type, specification, names, reference positions, nests and mixing settings.",
 "all model types and option combinations",
 "Tests instantiate some types with some options.",
 ["pylogit.py", "construct_estimator.py", "bootstrap_mle.py", "display_names.py"], [("dispatch", "pylogit.py create_choice_model"), ("estimator dispatch", "construct_estimator.py create_estimation_obj"), ("re-creation", "bootstrap_mle.py get_model_creation_kwargs, get_model_abbrev")],
 ["type and attributes of created objects"], over=("configurations",))
prop("P31", "A saved model is restored with everything it held",
 "Saving a model of any type, fitted or not, writes exactly one file, at the given path with the extension .pkl added when it is missing, replacing an older file; loading that file gives a model of the same class with the same data, specification, names and estimates, which predicts exactly what the saved model predicts. Saving leaves the model itself unchanged, and a path that is not a string is refused before anything is written.",
 "all model types, options, data sets and estimation states",
 "Tests do not save models of every type.",
 ["base_multinomial_cm_v2.py", "nested_logit.py", "mixed_logit.py", "conditional_logit.py", "asym_logit.py", "clog_log.py", "scobit.py", "uneven_logit.py"], [("saving", "base_multinomial_cm_v2.py MNDC_Model.to_pickle"), ("utility transformations kept by models", "*.py model constructors")],
 ["files written, restored model's attributes and predictions"], over=("configurations", "histories"))

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
