#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording has one home)."""
import json, os
P = []
S = "src/pylogit/"
def prop(id, title, statement, over, text, why, files, mechanism, observe_at=None):
    a = {"files": [S + f for f in files], "mechanism": [{"name": m, "where": ", ".join(S + f for f in files)} for m in mechanism]}
    if observe_at:
        a["observe_at"] = observe_at
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Predicted probabilities always form a distribution per choice situation",
     "For every model family, any finite covariates and any finite parameter values (including values so large that exponentials overflow or underflow), every predicted probability is a finite number between zero and one, and the probabilities of the alternatives available in one choice situation sum to one. A choice situation with a single available alternative gets probability one, and the probabilities returned for the chosen alternatives are those of the chosen rows.",
     ["inputs", "configurations"],
     "all seven model types x any choice-set structure x any finite design and parameters, one or many parameter columns",
     "The tests evaluate a handful of hand-made five-row datasets; overflow guards, singleton choice sets and 2D parameter columns interact over an unbounded input space.",
     ["choice_calcs.py", "nested_choice_calcs.py", "mixed_logit_calcs.py", "base_multinomial_cm_v2.py", "asym_logit.py", "clog_log.py", "scobit.py", "uneven_logit.py"],
     ["softmax with clipped exponents", "overflow/underflow guards in each utility transform", "nested denominators"],
     ["predict() results", "fitted probabilities after estimation"])

prop("C02", "Predicted probabilities equal each model's published formula",
     "For the conditional logit, asymmetric logit, clog-log, scobit, uneven logit and nested logit models, the predicted probability of each row equals the model's closed-form expression in the parameters, for moderate utilities (systematic utilities up to about 20 in magnitude and transformed utilities within the +-700 overflow guards). Intercepts, shape and nest parameters are attached to alternatives in sorted order of alternative id with the reference alternative fixed at zero, whatever the reference position, ids, row order or choice sets; column k of the result is the prediction from column k of the parameters.",
     ["inputs", "configurations"],
     "all datasets, specifications, reference positions, nest structures, parameter vectors and parameter columns in the stated utility range",
     "Tests pin a few values on one tiny dataset with consecutive ids; mistakes that need a particular reference position, choice set, sign of the index or column count are never exercised.",
     ["choice_calcs.py", "asym_logit.py", "clog_log.py", "scobit.py", "uneven_logit.py", "nested_choice_calcs.py", "base_multinomial_cm_v2.py"],
     ["utility transforms", "insertion of the constrained intercept and shape", "nest scale reparameterisation"],
     ["predict() with explicit parameters and with fitted parameters"])

prop("C03", "Predictions are local to a choice situation and aligned with the input rows",
     "The probability reported for a row depends only on the rows of its own choice situation and the parameters: permuting rows permutes the predictions, adding or removing other choice situations (with every alternative still represented) leaves it unchanged, and so do renaming observation ids, order-preserving renaming of alternative ids, reordering or adding columns, and changing the dataframe index. Predicting from a CSV file gives the same result as from the equivalent dataframe.",
     ["inputs", "histories"],
     "all datasets and all such rearrangements of them, for every model type (mixed logit: renamings and column changes, with a fixed seed)",
     "This is a relation between two executions over arbitrary rearrangements; the tests never predict on rearranged data.",
     ["base_multinomial_cm_v2.py", "choice_tools.py", "choice_calcs.py", "nested_choice_calcs.py"],
     ["row-to-observation and row-to-alternative mappings", "order-of-first-appearance observation columns"],
     ["predict() on paired datasets"])

prop("C04", "The log-likelihood is the weighted sum of log probabilities minus the penalty",
     "For every model, dataset and parameter vector, the log-likelihood used in estimation, and reported as null, initial or final value, equals the weighted sum over choice situations (for mixed logit: over individuals, of the simulated probability of the whole choice sequence) of the log probability of the chosen alternative, minus ridge times the sum of squared penalised parameters (all parameters; nested logit penalises nest scales by their distance from one). The null value is this quantity at the all-zero parameter vector.",
     ["inputs", "configurations", "histories"],
     "every point an optimizer visits, for all models, weights, ridge values and optimizers",
     "Tests compare a few values at one parameter vector; an estimation run evaluates thousands of points that no test looks at.",
     ["choice_calcs.py", "nested_choice_calcs.py", "mixed_logit_calcs.py", "estimation.py"],
     ["objective passed to the optimizer", "null and final log-likelihood storage"],
     ["objective values seen by the optimizer", "null_log_likelihood, log_likelihood after fitting"])

prop("C05", "The gradient used in estimation is the exact log-likelihood derivative",
     "At every parameter vector with moderate systematic utilities, for every model, weighting, ridge value and choice-set structure, the analytic gradient equals the derivative of the corresponding log-likelihood with respect to each parameter, in the parameter order used for starting values (nests, shapes, intercepts, index coefficients). Entries of parameters that are held fixed are zero in the gradient given to the optimizer.",
     ["inputs", "configurations"],
     "all models, parameter vectors (moderate utilities), weights, ridge values, intercept/shape/nest structures, unavailable nests",
     "Tests check gradients on one five-row dataset at one point, with unit-ish weights and full availability.",
     ["choice_calcs.py", "nested_choice_calcs.py", "mixed_logit_calcs.py", "asym_logit.py", "clog_log.py", "scobit.py", "uneven_logit.py", "estimation.py"],
     ["transform derivatives", "chain rule assembly", "nested chain rule", "simulated scores"],
     ["gradient values seen by the optimizer"])

prop("C06", "Hessian and information matrices are what they claim to be",
     "For the conditional logit the returned Hessian is the exact second derivative of the log-likelihood, for the other logit-type models it is minus the weighted expected (Fisher) information, and for nested and mixed logit minus the weighted sum of outer products of per-observation (per-individual) scores; the reported Fisher information of logit-type models is the weighted sum of outer products of per-observation scores. Each of these is symmetric, ordered like the parameters, unaffected by row splitting into choice sets, and (without ridge) negative or positive semi-definite respectively.",
     ["inputs", "configurations"],
     "all models, parameter vectors, weights, choice-set structures",
     "Tests compare against hand-computed matrices on one small dataset; block order and cross terms depend on which parameter groups are present.",
     ["choice_calcs.py", "nested_choice_calcs.py", "mixed_logit_calcs.py", "estimation.py"],
     ["block assembly of second derivatives", "BHHH outer products"],
     ["Hessian values seen by the optimizer", "hessian and fisher_information after fitting"])

prop("C07", "Maximum likelihood estimation ends at a maximiser it can justify",
     "Whenever fitting returns, the log-likelihood at the reported parameters is at least that at the starting values, and the reported parameters are the point at which all reported statistics were computed. When the optimizer reports success the score at the reported parameters is (numerically) zero for every free parameter; for the conditional logit this is the unique global maximum, whichever starting point or supported gradient-based optimizer is used.",
     ["inputs", "configurations", "histories"],
     "all datasets with an identified model, starting values, ridge values and gradient-based optimizers",
     "Tests mock out or cap the optimizer; convergence to the right optimum is a property of whole optimizer histories.",
     ["estimation.py", "conditional_logit.py", "asym_logit.py", "clog_log.py", "scobit.py", "uneven_logit.py", "nested_logit.py", "mixed_logit.py"],
     ["objective/gradient/Hessian handed to the optimizer", "initial value handling"],
     ["fit results", "optimizer trace"])

prop("C08", "Parameters declared fixed keep their starting values exactly",
     "With any of the gradient-based optimizers BFGS, L-BFGS-B, CG, Newton-CG, trust-ncg and dogleg and any model, the parameters whose positions are declared as constrained (and, in nested logit, the nest parameters of single-alternative nests) equal their starting values exactly at every point visited and in the reported estimates, while the remaining parameters are optimised given those values. The inferential statistics of constrained parameters are reported as missing.",
     ["inputs", "configurations", "histories"],
     "all models, subsets of constrained positions, starting values and gradient-based optimizers",
     "Tests fix one position for one optimizer and model and look only at the final gradient.",
     ["estimation.py", "nested_logit.py", "mixed_logit.py", "base_multinomial_cm_v2.py", "conditional_logit.py"],
     ["zeroed gradient entries", "decoupled Hessian rows", "degenerate nest detection"],
     ["optimizer trace", "params, standard_errors after fitting"])

prop("C09", "Every reported statistic is consistent with the reported parameters and data",
     "After fitting, fitted probabilities, residuals, per-observation chi-squares and their total, rho-squared measures, AIC, BIC, number of observations and parameters, covariance (minus the inverse Hessian), robust (sandwich) covariance, standard errors, t-statistics, two-sided p-values, confidence intervals and the summary tables are exactly the textbook functions of the reported parameters, log-likelihoods, Hessian and information matrix. All of them are labelled with the parameter names in the order nests, shapes, intercepts, index coefficients, each name next to its own value.",
     ["inputs", "configurations"],
     "all models, name choices (given or default), constraint sets and datasets",
     "Tests check the bookkeeping on fabricated result dictionaries, not the joint consistency of what real fits report.",
     ["base_multinomial_cm_v2.py", "estimation.py", "choice_calcs.py"],
     ["storage of estimation results", "name ordering"],
     ["attributes of a fitted model", "conf_int(), fit_summary, summary, statsmodels summary"])

prop("C10", "The specification determines exactly the intended columns and names",
     "For any specification, the design used by a model has, in specification order, one column per requested coefficient: the variable itself for 'all_same', one column per alternative in sorted id order for 'all_diff', and one column per listed id or group of ids, each holding the variable on the rows of exactly those alternatives and zero elsewhere. Coefficient names correspond one-to-one and in order to those columns, whether given by the user or generated, and requested intercept columns are all ones.",
     ["inputs", "configurations"],
     "all specifications, name dictionaries, alternative ids and row orders",
     "Tests use one or two specifications on consecutive ids; ordering mistakes need particular id sets, group orders or name layouts.",
     ["choice_tools.py", "base_multinomial_cm_v2.py"],
     ["design matrix construction", "name flattening", "automatic intercept column"],
     ["model.design, model.ind_var_names", "fitted coefficient labels"])

prop("C11", "Row mappings describe exactly which row belongs to which unit",
     "For any long-format data the mapping from rows to observations, alternatives, nests and individuals has a one exactly where the row belongs to that unit and zero elsewhere, with observations and individuals in order of first appearance, alternatives in sorted order and nests in specification order. The chosen-row mapping marks exactly the chosen row of each observation, and the dense and sparse forms agree.",
     ["inputs", "configurations"],
     "all id patterns (non-consecutive, negative, unsorted, interleaved), choice sets, nest structures",
     "Tests check a few small id vectors; every other guarantee rests on these mappings for arbitrary ids.",
     ["choice_tools.py", "base_multinomial_cm_v2.py"],
     ["sparse mapping construction"],
     ["model.get_mappings_for_fit()", "create_long_form_mappings results"])

prop("C12", "Long-to-wide conversion preserves every datum",
     "Converting long data to wide data yields one row per observation holding its id, the id of the alternative it chose, a 0/1 availability flag per alternative, its observation-level variables, and for each alternative (or each alternative of the declared subset) the value of each alternative-specific variable where the alternative is available and the null value where it is not. This holds for any row order, ids, choice sets, alternative names and null value, and no other column or row appears.",
     ["inputs", "configurations"],
     "all long datasets, including non-contiguous observations, unsorted ids and varying choice sets",
     "Tests convert one fixed dataset sorted by observation and alternative.",
     ["choice_tools.py"],
     ["sparse pivoting", "choice column assembly"],
     ["convert_long_to_wide() result"])

prop("C13", "Wide-to-long conversion preserves every datum and inverts long-to-wide",
     "Converting wide data to long data yields exactly one row per available alternative of each observation, carrying the right observation id, alternative id, 0/1 choice, observation-level variables and alternative-specific values (zero where a variable has no column for that alternative), in observation order and then alternative-id order. Converting long data to wide and back returns the original data up to row order.",
     ["inputs", "configurations"],
     "all wide datasets, availability patterns, dictionary orders and variable subsets",
     "Tests convert one dataset whose dictionaries are already in sorted order.",
     ["choice_tools.py"],
     ["availability masking", "raveling of wide arrays"],
     ["convert_wide_to_long() result"])

prop("C14", "Bootstrap samples are stratified resamples of intact observations",
     "Every bootstrap sample contains, for each alternative, as many observations that chose it as the original data, drawn with replacement from exactly those observations, and the resampled dataset consists of complete, unmodified copies of the drawn observations' rows under distinct new observation ids, in draw order. The same seed gives the same samples, different rows of one request are independent draws, and the original data are untouched.",
     ["inputs", "configurations"],
     "all datasets, id patterns, sample counts and seeds",
     "Tests check one small dataset with a fixed seed; stratification and copying must hold for every draw.",
     ["bootstrap_sampler.py", "bootstrap.py"],
     ["per-alternative resampling", "dataframe assembly by observation"],
     ["sampler results", "data frames passed to each refit"])

prop("C15", "Bootstrap and jackknife replicates are refits of the right samples",
     "Row i of the bootstrap replicates is the maximum likelihood estimate of the same model with the same settings (ridge, fixed parameters, weights, optimizer) on the i-th bootstrap sample, and row i of the jackknife replicates is the estimate with the i-th smallest observation id left out; unless told otherwise each refit starts from the conditional logit estimates on the same sample. Columns carry the parameter names in parameter order, and the log-likelihoods and gradient norms reported for the replicates are those of the original data at each replicate.",
     ["inputs", "configurations", "histories"],
     "all model types that can be bootstrapped, datasets, seeds and estimation settings",
     "No test runs the bootstrap driver on real refits.",
     ["bootstrap.py", "bootstrap_mle.py", "bootstrap_sampler.py"],
     ["replicate loops", "MNL starting-value extraction"],
     ["bootstrap_replicates, jackknife_replicates", "replicate log-likelihoods and gradient norms"])

prop("C16", "Percentile and BCa intervals are those of the given replicates",
     "For any confidence level, replicates and estimates (for BCa: estimates strictly inside the range of their replicates), the percentile interval is the pair of empirical quantiles at (alpha/2, 1-alpha/2) and the BCa interval the pair at the bias-corrected and accelerated levels computed from the replicates, jackknife replicates and estimates, using the outward order statistics (lower one for the lower endpoint, higher one for the upper). Each parameter's interval is computed from its own column, labelled with its name and level, and endpoints are replicate values in increasing order.",
     ["inputs", "configurations"],
     "all replicate matrices with the estimate inside the replicate range, numbers of parameters and confidence levels",
     "Tests use one fixed replicate matrix and one level.",
     ["bootstrap_calcs.py", "bootstrap_utils.py", "bootstrap.py"],
     ["quantile interpolation", "bias correction and acceleration"],
     ["interval results"])

prop("C17", "ABC intervals follow the published algorithm with weighted refits",
     "For any model, confidence level and step for which the algorithm's weights are non-negative, the ABC interval endpoints of each freely estimated parameter equal those of Efron's approximate-bootstrap-confidence algorithm, where every evaluation of the estimator at perturbed observation weights is the maximum likelihood estimate under those weights (times the caller's weights) with the caller's estimation settings. Endpoints are labelled with their parameter and level, and the joint table of all interval types holds each type's own intervals.",
     ["inputs", "configurations"],
     "all logit-type models, datasets, confidence levels and perturbation sizes for which the implied weights are non-negative",
     "Tests replace the estimator by a stub, so they cannot see whether weights reach the likelihood.",
     ["bootstrap_abc.py", "bootstrap.py", "estimation.py"],
     ["finite-difference influence functions", "least-favourable-family endpoints", "observation weights in fitting"],
     ["calc_abc_interval results"])

prop("C18", "Mixed logit simulation is reproducible and assigns draws to individuals",
     "With a given seed, draws, estimates and predictions of the mixed logit model are reproducible; the draws are standard normal, one set per individual, variable and draw number, shared by all rows of that individual, and a mixed coefficient acts as mean plus standard-deviation parameter times draw. Predicted probabilities are the averages over draws of the conditional logit probabilities under those coefficients, and repeated choices of an individual enter the likelihood as the average over draws of the product of their probabilities.",
     ["inputs", "configurations", "histories"],
     "all panel structures, mixing variable sets, draw counts and seeds",
     "Tests use a single three-person dataset and pre-made draws.",
     ["mixed_logit_calcs.py", "mixed_logit.py", "base_multinomial_cm_v2.py"],
     ["draw generation", "expanded design", "sequence probabilities"],
     ["predict(), fit results of mixed models"])

prop("C19", "Panel prediction conditions each individual on their own past choices",
     "Panel prediction with a mixed logit model weights each simulation draw of an individual who appears in the estimation data by the probability of that individual's observed choices under that draw (normalised over draws), and uses equal weights for new individuals. The result for a row is the weighted average of the conditional probabilities, whatever the order in which individuals and rows appear in either dataset and whichever individuals overlap.",
     ["inputs", "configurations"],
     "all combinations of estimation and prediction panels (full, partial, no overlap; any order), draw counts and seeds",
     "Tests use one dataset where both panels list individuals in the same order.",
     ["mixed_logit.py", "mixed_logit_calcs.py"],
     ["matching of old and new individuals", "per-draw weights"],
     ["panel_predict() results"])

prop("C20", "Library calls leave the caller's data and arguments untouched",
     "Creating a model, fitting, predicting, bootstrapping, computing intervals and converting data formats never change the caller's dataframes (values, dtypes, row order, index, columns) except for adding a column of ones named 'intercept' when the specification asks for one, nor the caller's specifications, names, nest definitions, lists, dictionaries of options, starting values, parameter arrays or weights.",
     ["inputs", "histories"],
     "all public operations, in any sequence, on any valid arguments",
     "Tests do not compare arguments before and after calls.",
     ["base_multinomial_cm_v2.py", "choice_tools.py", "estimation.py", "bootstrap.py", "bootstrap_mle.py", "nested_logit.py", "mixed_logit.py"],
     ["shared references to caller objects"],
     ["arguments before and after every call"])

prop("C21", "Malformed input is rejected with an error instead of producing estimates",
     "A model is never built and fitted, used for prediction or bootstrapped, and data are never converted, from input that violates the documented requirements. Models: estimation data (a dataframe or a CSV file) with missing, non-numeric or non-finite specification columns or missing id or choice columns, prediction data with missing columns, specifications or nests that name unknown alternatives, nests that repeat alternatives or leave some out, wrong numbers or types of names, starting values, parameter arrays, weights (also negative ones) or ridge, invalid reference positions, observations whose rows are not contiguous. Conversion: missing columns, observations with zero or several choices, duplicated rows or observations, null, unknown or unavailable choices, incomplete names or names of unknown alternatives. Intervals: levels outside (0, 100), malformed replicates. Each such fault raises an exception, wherever it sits in the input, while the same input without the fault is accepted.",
     ["inputs", "fault_sequences"],
     "every documented requirement, violated in any way at any position in otherwise arbitrary valid input",
     "Tests try one or two offending values per validator and mostly call validators directly rather than the public operations.",
     ["base_multinomial_cm_v2.py", "choice_tools.py", "estimation.py", "pylogit.py", "conditional_logit.py", "asym_logit.py", "nested_logit.py", "mixed_logit.py", "bootstrap_utils.py", "bootstrap_sampler.py"],
     ["argument validators", "their call sites in public operations"],
     ["exceptions raised by public operations"])

prop("C22", "A saved model is the same model after loading",
     "For every model type, before and after estimation, saving a model and loading it back (also in a fresh process) yields a model with identical estimates and statistics, identical predictions on any data, and the ability to be fitted again with the same outcome.",
     ["inputs", "configurations", "histories"],
     "all model types, configurations and points in a model's life at which it is saved",
     "The only pickling test uses a stub; it never loads a fitted model of each type in a new process.",
     ["base_multinomial_cm_v2.py", "asym_logit.py", "clog_log.py", "scobit.py", "uneven_logit.py", "nested_logit.py", "mixed_logit.py", "conditional_logit.py"],
     ["attributes stored on models", "utility transform functions"],
     ["to_pickle() and reloading"])

prop("C23", "Observation weights act as replication counts",
     "Weighting an observation by a positive integer k has the same effect on the log-likelihood, gradient, Hessian, information matrix and estimates as repeating it k times, a zero weight the same effect as leaving it out, and unit weights the same effect as none; the log-likelihood, gradient, Hessian and information matrix (without ridge) scale linearly in the weights, and the estimates (without ridge) are unaffected by a common rescaling of the weights. For mixed logit the same holds for weights constant within an individual.",
     ["inputs", "configurations"],
     "all models, datasets and non-negative weight vectors constant within a choice situation",
     "Tests only use constant weight vectors.",
     ["choice_calcs.py", "nested_choice_calcs.py", "mixed_logit_calcs.py", "estimation.py", "conditional_logit.py"],
     ["per-row and per-observation weights"],
     ["log-likelihood, derivatives and estimates under paired datasets"])

prop("C24", "Results do not depend on call history or shared state",
     "Evaluating, fitting or predicting again with the same arguments gives the same result, no matter what evaluations, fits or predictions (on this or other models, of any type, sharing the same dataframe or not) happened in between. Values returned earlier are never changed by later calls.",
     ["histories", "inputs"],
     "all interleavings of evaluations, fits and predictions over several live models",
     "Tests build a fresh object per test; derivative buffers are reused in place and could leak between calls.",
     ["estimation.py", "conditional_logit.py", "asym_logit.py", "scobit.py", "uneven_logit.py", "clog_log.py", "base_multinomial_cm_v2.py", "mixed_logit.py"],
     ["reused sparse derivative buffers", "names extended at fit time", "shared references"],
     ["results of repeated calls within an operation history"])

prop("C25", "Every generalised model contains the conditional logit",
     "At its neutral parameters each generalised model is the conditional logit of the same data: scobit and uneven logit with zero shape parameters, the asymmetric logit with equal shapes (its index then being multiplied by the logarithm of the number of alternatives), nested logit with nest scales of one, mixed logit with zero standard deviations (whatever the draws). Predictions on any data, log-likelihood, gradient and (for the logit-type models) information matrix of the shared parameters coincide, and estimating the generalised model with the extra parameters held at those values gives the conditional logit's estimates.",
     ["inputs", "configurations"],
     "all datasets, specifications, intercepts, weights, ridge values, draws and shared parameters",
     "Tests never compare two model classes with each other.",
     ["asym_logit.py", "scobit.py", "uneven_logit.py", "nested_choice_calcs.py", "mixed_logit_calcs.py", "choice_calcs.py", "conditional_logit.py"],
     ["utility transformations at their neutral point", "nest scale transformation", "sigma-scaled draws"],
     ["predictions, objective, derivatives and estimates of pairs of models"])

prop("C26", "Results do not depend on how the same model is written down",
     "Writing the same model in another way changes nothing but the corresponding parameters: the units of a variable, the order of the specification and of the pieces inside it, the reference alternative of outside intercepts or shape parameters, the order of the nests, writing one coefficient as several equal ones, entering explicit interacted columns instead of listing alternatives, measuring one variable relative to another, and (conditional, nested and mixed logit) adding an amount common to all alternatives of a choice situation to a variable with a common coefficient. Log-likelihood, null log-likelihood, fitted probabilities, residuals and predictions are unchanged; gradient, Hessian or information matrix and covariance of the estimates transform by the linear map between the two parameterisations.",
     ["inputs", "configurations"],
     "all models, datasets, specifications, weights, parameters and chains of such rewritings (without ridge)",
     "Tests never write one model in two ways.",
     ["choice_tools.py", "choice_calcs.py", "nested_choice_calcs.py", "mixed_logit_calcs.py", "asym_logit.py", "scobit.py", "uneven_logit.py", "clog_log.py", "nested_logit.py", "mixed_logit.py", "base_multinomial_cm_v2.py"],
     ["design matrix construction", "reference alternatives", "nest order", "parameter order"],
     ["objective, derivatives, statistics and predictions of pairs of models"])

prop("C27", "Estimation depends on the choice situations, not on how the data are laid out",
     "Laying out the same choice situations differently leaves every result of estimation unchanged: choice situations in another order, rows of a situation in another order, other (nondecreasing) observation ids, order-preserving renaming of alternative ids, other ids of individuals, other column order, column names or additional columns, another dataframe index, other number types, or a CSV file instead of a dataframe. Log-likelihood, null log-likelihood, gradient, Hessian, information matrix, covariances, fit measures, estimates and predictions are the same, fitted probabilities and residuals follow their rows and chi-squares their observations; in mixed logit this holds when each individual keeps its draws.",
     ["inputs", "configurations"],
     "all models, datasets, weights, ridge values, parameters and chains of such rearrangements",
     "Tests use one fixed layout: sorted integer ids, default index.",
     ["choice_tools.py", "base_multinomial_cm_v2.py", "choice_calcs.py", "nested_choice_calcs.py", "mixed_logit_calcs.py", "mixed_logit.py", "estimation.py"],
     ["row-to-unit mappings", "positional arrays taken from the dataframe", "alternative order"],
     ["objective, derivatives, reported statistics, estimates and predictions of pairs of layouts"])

prop("C28", "Asking for the same thing in another way gives the same answer",
     "Where the library offers several ways of asking for the same thing, they agree: a model class or create_choice_model; one vector of starting values or separate ones for shapes, intercepts and coefficients; the point estimate only or a full fit; default settings left out or written out, progress printed or not; 'all_same' and 'all_diff' or the alternatives listed; an intercept column supplied or created; names supplied or generated; prediction from the fitted parameters, from the same parameters given explicitly or as one column of an array of parameters; all forms in which predict and panel_predict return chosen and long probabilities; fitted probabilities or prediction on the estimation data; the estimator object or the fit; panel prediction or plain prediction of individuals that are new; confidence intervals as array, table or for some coefficients.",
     ["inputs", "configurations"],
     "all models, datasets, specifications, settings and parameters",
     "Tests check each entry point on its own.",
     ["pylogit.py", "estimation.py", "construct_estimator.py", "base_multinomial_cm_v2.py", "mixed_logit.py", "choice_tools.py", "asym_logit.py", "clog_log.py", "scobit.py", "uneven_logit.py", "conditional_logit.py", "nested_logit.py"],
     ["dispatch of arguments", "default settings", "separate and joint starting values", "result forms"],
     ["results of pairs of equivalent calls"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
