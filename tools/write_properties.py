"""Writes properties.jsonl (kept as a script so that the texts are easy to edit)."""
import json, os
S = "src/ondil/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files],
                     mechanism=[dict(name=n, where=S + w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))


prop("G01", "Incremental Gramians equal the batch Gramians of the whole history",
     "For every way of cutting a data stream into an initial batch and any number of later batches (including single rows), the incrementally updated X-Gramian, y-Gramian and inverted Gramian equal those computed in one go from all data seen so far, where every observation carries its sample weight times (1 - forget) to the power of the number of later observations. The weight vector of the exponential discounting itself is exactly that geometric sequence with the newest observation at 1. Scalar and per-row weights for a batch mean the same thing.",
     ["inputs", "histories"], "all data streams, sample weights (including zero weights), forget factors in [0, 1) and all partitions into update batches",
     "tests compare one or two partitions of one data set at a couple of forget factors",
     ["gram.py"], [("single-row and batch branches of the rank-k updates, Sherman-Morrison recursion for the inverse", "gram.py")],
     ["return values of the Gramian functions"])

prop("S02", "The online scaler always holds the discounted weighted moments",
     "After any sequence of fits and updates the scaler's mean, variance and standard deviation equal the weighted, exponentially discounted moments of all rows seen so far, no matter how the rows were cut into batches. Transforming standardises exactly the selected columns with these moments, leaves all other columns and the caller's data untouched, and the inverse transformation undoes it.",
     ["inputs", "histories", "configurations"], "all data streams, partitions, weights, forget factors and column selections (all, none, boolean mask, integer index)",
     "tests check a few fixed streams; drift over long streams, zero weights, selections and batch boundaries are not sampled",
     ["scaler.py"], [("Welford-style recursion over the rows of an update", "scaler.py")],
     ["OnlineScaler.mean_, var_, std_, n_observations_, transform, inverse_transform"])

prop("L03", "Online linear regression equals batch weighted discounted least squares",
     "After any sequence of fit and update calls the coefficients of the linear model are the least squares (or ridge) solution of all data seen so far, with each observation weighted by its sample weight and its exponential discount and standardised with the moments known when its batch arrived. Predictions, the coefficient of determination, the observation count and the effective training length follow from the same history.",
     ["inputs", "histories", "configurations"], "all data streams, partitions into updates, forget factors, weights, intercept and scaling options, least squares and ridge",
     "tests compare a single update sequence with sklearn; not arbitrary partitions, weights, forgetting and options in combination",
     ["estimators/online_linear_model.py", "methods/recursive_least_squares.py", "methods/ridge.py", "gram.py"],
     [("recursive (inverted) Gramian updates and the coefficient solve", "estimators/online_linear_model.py")],
     ["coef_, predict, score, n_observations_, n_training_"])

prop("C04", "Coordinate descent returns a feasible, stationary, descended solution",
     "Coordinate descent on Gramians returns coefficients that respect the box constraints, never has a larger penalised objective than its (feasible) start, and at convergence every non-zero coefficient solves its one-dimensional penalised, box-constrained problem given the others. Unregularised coefficients are not shrunk, with a pure quadratic penalty the closed-form ridge solution is reached, with an orthogonal design the exact soft-thresholding solution is reached, and the caller's arrays stay as they were. The number of sweeps never exceeds the configured maximum by more than the one sweep that detects it.",
     ["inputs", "configurations"], "all positive semidefinite Gramians, start values, penalties, mixing parameters, bounds, selection orders and tolerances",
     "tests run a few well-conditioned problems; bounds, mixing, random order and partial regularisation in combination are not sampled",
     ["coordinate_descent.py"], [("soft-thresholded coordinate update with active-set sweeps", "coordinate_descent.py")],
     ["return value of the coordinate descent"])

prop("R05", "Regularisation paths start empty, follow the grid and obey every option",
     "A lasso path starts at the smallest penalty for which all regularised coefficients are zero (while unregularised ones take their unpenalised value) and follows a geometric grid of the requested length and ratio, both in the initial fit and, recomputed from the accumulated data, in every update. In every row each non-zero coefficient solves its own lasso or elastic-net problem for that row's penalty given the others within the tolerance, and bounds and the intercept option are respected. Rows are started from the configured start values (the previous penalty's row, the same row of the previous path, or their average) and, under early stopping, left at the start value once it has the requested number of non-zero coefficients.",
     ["inputs", "histories", "configurations"], "all data sets, weights, forget factors, update sequences and path options",
     "tests compare single fits with default options against sklearn",
     ["methods/elasticnet.py", "methods/lasso_path.py", "coordinate_descent.py", "estimators/online_linear_model.py"],
     [("largest penalty from the Gramians, geometric grid, warm starts", "methods/elasticnet.py")],
     ["coef_path_ of fitted and updated estimators"])

prop("M06", "The selected model minimises the information criterion on the path",
     "Information criteria follow their documented formulas, and the coefficients an estimator reports are always the row of its coefficient path whose criterion is smallest. The criterion is computed from the weighted and discounted residual sum of squares or log-likelihood of all data seen so far, the effective training length and the number of non-zero coefficients.",
     ["inputs", "histories", "configurations"], "all data sets, weights, forget factors, update sequences, criteria and selection strategies, for the linear and the distributional estimators",
     "tests check formulas at a few numbers and never the chosen row after weighted or discounted updates",
     ["information_criteria.py", "estimators/online_linear_model.py", "estimators/online_gamlss.py"],
     [("accumulated RSS or likelihood per path row and argmin", "estimators/online_gamlss.py")],
     ["coef_, coef_path_ after fit and after every update"])

prop("K07", "Link functions are monotone bijections with exact derivatives",
     "On its whole domain every link and its inverse undo each other, are strictly monotone, and the inverse maps every predictor of ordinary size (absolute value up to 30) into the declared range of the link. The derivative of the inverse and the first and second derivatives of the link are the derivatives of the very functions the link evaluates. Very large or small predictors never produce NaN or infinite parameters.",
     ["inputs", "configurations"], "all real predictors, all parameter values in the link's range and all shift values",
     "tests check round trips and derivatives on a few points of a few links",
     ["links/identitylinks.py", "links/logitlinks.py", "links/loglinks.py", "links/softpluslinks.py", "links/sqrtlinks.py", "links/robust_math.py"],
     [("closed-form links and clipped exp/log helpers", "links/robust_math.py")],
     ["link, inverse, link_derivative, link_second_derivative, inverse_derivative"])

prop("D08", "Density, log-density, CDF, log-CDF and quantiles agree with each other",
     "For every distribution and every valid parameter row the density is the exponential of the log-density and the derivative of the CDF, the CDF is non-decreasing from 0 to 1 over the support (with exactly the point masses of the mixed distributions as jumps), the log-CDF is its logarithm, and the quantile function is its inverse. Results for a row of parameters do not depend on the other rows.",
     ["inputs", "configurations"], "all distributions, all points of their support and all valid parameters, including extreme ones",
     "tests compare a handful of parameter values with R or scipy",
     ["base/distribution.py", "distributions/normal.py", "distributions/betainflated.py", "distributions/betainflatedzero.py", "distributions/zeroadjustedgamma.py", "distributions/inversegaussian.py"],
     [("mapping to scipy parameters, hand-written mixed distributions", "base/distribution.py")],
     ["pdf, logpdf, cdf, logcdf, ppf, quantile"])

prop("D09", "Score functions are the exact derivatives of the log-likelihood",
     "For every distribution, every valid parameter row and every observation in the support, the reported first derivative with respect to a parameter is the derivative of the log-density with respect to that parameter, for any vector of observations and any custom links. It is finite wherever the log-density is, including at the point masses of the mixed distributions.",
     ["inputs", "configurations"], "all distributions, parameters, observations",
     "tests compare a few points with R",
     ["distributions/normal.py", "distributions/studentt.py", "distributions/johnsonsu.py", "distributions/gamma.py", "distributions/beta.py", "distributions/betainflated.py", "distributions/logistic.py", "distributions/inversegaussian.py"],
     [("hand-written first derivatives", "distributions/")], ["dl1_dp1"])

prop("D10", "Reported curvature is the expected Fisher information",
     "For every distribution and every valid parameter row the reported second and cross derivatives describe the negative Fisher information of that distribution: averaging the reported curvature over the distribution gives minus the expected product of the scores, and the curvature of each parameter is negative on average. Working weights built from it are therefore positive and correctly scaled.",
     ["inputs", "configurations"], "all distributions and valid parameters",
     "tests compare a few values with R; consistency with the distribution itself is never checked",
     ["distributions/normal.py", "distributions/studentt.py", "distributions/johnsonsu.py", "distributions/gamma.py", "distributions/beta.py", "distributions/reversegumbel.py"],
     [("hand-written second and cross derivatives", "distributions/")], ["dl2_dp2, dl2_dpp"])

prop("D11", "Distributions mean what their documented parameterisation says",
     "For every distribution and all valid parameters the density and CDF are those of the documented distribution in the documented parameterisation, the mean and the median are its mean and median, and random variates have shape (rows, size) and follow, row by row and independently of one another, the distribution of that row's parameters. Parameter names, counts, supports and links are consistent with one another: custom links apply to exactly their parameter, and a link whose range exceeds the support of its parameter is announced by a warning.",
     ["inputs", "configurations"], "all distributions, valid parameters and sample sizes",
     "tests compare a few parameter values; random variates are never tested against the distribution row by row",
     ["base/distribution.py", "distributions/gamma.py", "distributions/lognormal.py", "distributions/lognormalmedian.py", "distributions/inversegamma.py", "distributions/zeroadjustedgamma.py"],
     [("mapping from theta to scipy parameters", "base/distribution.py")], ["pdf, cdf, mean, median, rvs"])

prop("F12", "A converged distributional fit maximises the weighted likelihood",
     "When fitted without forgetting by unpenalised estimation and run to convergence, the distributional regression returns parameters at which the weighted likelihood of the chosen distribution, links and predictor equations is stationary in every coefficient and not improvable by small changes. This holds whatever the order in which parameters are fitted, the scaling of inputs, the prefit option and the step sizes.",
     ["inputs", "configurations"], "all distributions, data sets generated from them, equations, weights and algorithm options",
     "tests compare a few data sets with R outputs at loose tolerances",
     ["estimators/online_gamlss.py", "distributions/normal.py", "links/loglinks.py"],
     [("outer and inner iteratively reweighted least squares cycle", "estimators/online_gamlss.py")],
     ["predict_distribution_parameters after fit"])

prop("F13", "Online updates balance new scores against discounted past information",
     "After a converged fit and any sequence of converged updates, the coefficients of every distribution parameter solve the weighted least squares (or ridge) problem made up of the current working observations of the newest batch and the working observations of all earlier batches as they stood when those batches were processed, each carrying its sample weight and its exponential discount. Nothing is lost, counted twice or discounted twice, whatever the batch sizes.",
     ["inputs", "histories", "configurations"], "all distributions, data streams, batch partitions, forget factors per parameter, weights and unpenalised or ridge estimation",
     "tests only check that updates run, or compare one stream with stored numbers",
     ["estimators/online_gamlss.py", "gram.py"],
     [("per-parameter Gramians committed once per update", "estimators/online_gamlss.py")],
     ["coef_ after every update"])

prop("T14", "Data outside the support is refused, data inside is handled finitely",
     "Fitting or updating a distributional regression with any response outside the support of its distribution raises the out-of-support error, and responses inside the support are never refused as such, however close to the boundary. Initial values computed from any admissible response are finite and lie in the parameter supports, for all parameters and for each one requested separately.",
     ["inputs", "configurations"], "all distributions, responses and positions of the offending value, in fit and in every later update",
     "tests try a single out-of-support vector",
     ["estimators/online_gamlss.py", "distributions/gamma.py", "distributions/beta.py", "error.py"],
     [("support validation before state changes", "estimators/online_gamlss.py")],
     ["exceptions, initial_values"])

prop("A15", "Rejected updates and predictions leave a fitted estimator untouched",
     "Updates and predictions on a fitted estimator or scaler with unusable input (missing or infinite values, wrong number or names of columns, mismatched lengths, out-of-support responses, wrong weights) are refused with an error, and the estimator is exactly as before: its predictions, coefficients and counters are unchanged and the following valid updates give the same results as if the rejected call had never happened.",
     ["fault_sequences", "histories", "inputs"], "all histories with rejected calls injected at any position, for all estimators",
     "tests only check that an exception is raised",
     ["estimators/online_gamlss.py", "estimators/online_linear_model.py", "scaler.py"],
     [("validation precedes every state change", "estimators/online_gamlss.py")],
     ["predictions and coefficients after the rejected call and at the end of the history"])

prop("U16", "Estimation is deterministic and never modifies what the caller passed",
     "Fitting, updating and predicting never modify the caller's data, weights, option dictionaries, bound arrays, method or distribution objects or the estimator's own hyperparameters, and keep no reference to data buffers that the caller may reuse. Repeating the same history gives bit-identical results, predicting changes no later result, and neither verbosity nor debug recording nor the global random state has any influence under cyclic selection.",
     ["inputs", "histories", "configurations"], "all histories and configurations of all estimators, scalers and methods",
     "tests never compare the inputs before and after, or runs with and without debug output",
     ["estimators/online_gamlss.py", "estimators/online_linear_model.py", "scaler.py", "methods/factory.py", "coordinate_descent.py"],
     [("copies of user dictionaries and arrays", "estimators/online_gamlss.py")],
     ["input objects, get_params, coef_, predictions"])

prop("I17", "Estimator instances are independent, restorable and resettable",
     "Estimators that share a distribution or estimation-method object, and copies made by cloning, deep copying or pickling, never influence one another: every one continues its own history exactly as if it were alone. Refitting forgets everything from earlier fits and updates, and incremental fitting is the same as one initial fit followed by updates.",
     ["histories", "configurations"], "all interleavings of fit, update, predict, copy, pickle, clone and refit over several estimators",
     "tests use one estimator at a time and never interleave",
     ["base/estimator.py", "methods/factory.py", "estimators/online_gamlss.py", "estimators/online_linear_model.py"],
     [("methods copied per estimator and parameter, state rebuilt in fit", "methods/factory.py")],
     ["coef_ and predictions of each instance"])

prop("Q18", "All prediction methods are consistent with the coefficients",
     "For any fitted estimator and any new data, predicted parameters are the inverse links of the linear predictor given by the coefficients and the current scaling, contributions sum to the predictor, predicted means, medians and quantiles are those of the predicted distribution, quantiles are non-decreasing in the level, and path predictions contain the point prediction. Predictions are row-wise: they do not depend on which other rows are requested or in what order.",
     ["inputs", "histories", "configurations"], "all fitted states, distributions, equations and prediction inputs",
     "tests check shapes",
     ["estimators/online_gamlss.py", "estimators/online_linear_model.py"],
     [("prediction methods", "estimators/online_gamlss.py")],
     ["predict*, coef_"])

prop("E19", "Equations and per-parameter options apply to exactly the named parameter",
     "Each distribution parameter depends on exactly the covariates its equation selects, whether given as all, intercept, integer indices, a boolean mask or column names, and on nothing else. Options given per parameter (forgetting, method, intercept, regularisation, criterion, step size) apply to that parameter alone, a scalar option means the same value for all of them, missing entries mean the documented default, and the order of dictionary keys is irrelevant.",
     ["configurations", "inputs", "histories"], "all combinations of equations and per-parameter option dictionaries in fit and updates",
     "tests try a few equations and no option dictionaries in non-natural order",
     ["estimators/online_gamlss.py", "utils.py"],
     [("option processing and model array construction", "estimators/online_gamlss.py")],
     ["coef_ shapes and values, predictions under changes of unselected covariates"])

prop("W20", "Integer sample weights mean replication and zero weights mean absence",
     "Without forgetting, giving an observation an integer weight is equivalent to repeating it that many times, and a zero weight to leaving it out of the estimation, for the scaler, the linear estimators and the distributional regression, in fits and in updates (up to the convergence tolerance where the estimation is iterative). Omitted weights mean weights of one.",
     ["inputs", "histories"], "all data sets, integer weight vectors and update sequences, all estimators and estimation methods",
     "tests check one weighted fit; updates and regularised paths with weights are not covered",
     ["estimators/online_gamlss.py", "estimators/online_linear_model.py", "scaler.py", "gram.py"],
     [("weights multiplied into Gramians, deviance, moments and criteria", "estimators/online_gamlss.py")],
     ["coef_, predictions, n_observations_"])

prop("V21", "Results are equivariant under relabelling and rescaling of the data",
     "For unpenalised and ridge models permuting covariates permutes the coefficients and changes no prediction; shifting or rescaling covariates changes no prediction of a scaled or unpenalised model; permuting the observations of an initial fit without forgetting changes nothing; and for location-scale distributions an affine change of the response changes location and scale predictions accordingly. This holds after fits and after updates.",
     ["inputs", "histories", "configurations"], "all data sets, permutations and affine maps, for linear and distributional estimators",
     "a test would need to relate two runs; existing tests look at single runs",
     ["estimators/online_gamlss.py", "estimators/online_linear_model.py", "scaler.py", "coordinate_descent.py"],
     [("order-free Gramians and standardisation", "scaler.py")],
     ["predictions and coefficients of paired runs"])

prop("X22", "Forgetting discounts geometrically and effective length follows",
     "The effective training length equals the sum of the discount weights and never exceeds its asymptotic value, and the online mean equals the discounted (or plain) mean of all values so far, for scalars and batches alike. In every estimator old data loses influence geometrically: with forgetting, estimates after many updates depend on the initial data only through weights (1 - forget) per later observation, and a zero forget factor treats all data alike.",
     ["inputs", "histories", "configurations"], "all forget factors, stream lengths, batch sizes and estimators",
     "tests check single values",
     ["utils.py", "gram.py", "estimators/online_linear_model.py", "estimators/online_gamlss.py"],
     [("effective length and online mean recursions", "utils.py")],
     ["n_training_, online mean, influence of perturbed old data on the coefficients"])

prop("Y23", "Results do not depend on the container, memory layout or index of the data",
     "The same numbers given as NumPy arrays of any memory layout, pandas or polars frames and series with any index, or lists give the same fits, updates and predictions, and single precision inputs give the same results up to single precision. Column names, where present, are matched on later calls.",
     ["inputs", "configurations"], "all containers, layouts, dtypes and index orders in fits, updates and predictions",
     "tests use C-ordered float64 arrays almost everywhere",
     ["estimators/online_gamlss.py", "estimators/online_linear_model.py", "scaler.py", "coordinate_descent.py", "gram.py"],
     [("input validation", "estimators/online_gamlss.py")],
     ["coef_, predictions"])

prop("B24", "Iterations respect their budgets and the configured parameter order",
     "A fit or update always terminates, estimates the distribution parameters in the configured order and never performs more outer or inner iterations than configured, with the prefit options limiting exactly the first outer iterations to a single inner step. The configured minimum of outer iterations is respected, and once the deviance has stopped changing within the tolerances no further outer iteration is made.",
     ["inputs", "configurations", "histories"], "all iteration budgets, tolerances, parameter orders and data sets, including hard ones",
     "tests use default budgets on easy data",
     ["estimators/online_gamlss.py"],
     [("iteration schedule and termination rules", "estimators/online_gamlss.py")],
     ["sequence of derivative evaluations seen by the distribution"])

prop("Z25", "Equivalent formulations of the same model agree",
     "The convenience classes and string shortcuts behave exactly like the methods they stand for, an elastic net with mixing one is the lasso, and a ridge with vanishing penalty is least squares, in fits and in updates. The mean of a converged Gaussian fit with constant variance is the linear regression, and the continuous part of a converged mixed-distribution fit is the underlying continuous distribution fitted to the interior observations. Distributions that differ only in parameterisation or by a transformation of the response give the same distribution after converged fits and updates.",
     ["inputs", "configurations", "histories"], "all data sets, options and update sequences",
     "each formulation is tested in isolation",
     ["estimators/online_lasso.py", "methods/factory.py", "methods/lasso_path.py", "methods/elasticnet.py", "methods/ridge.py", "estimators/online_gamlss.py"],
     [("factory and subclass constructors", "methods/factory.py")],
     ["coef_, predictions of paired estimators"])

prop("N26", "Compiled kernels stay in bounds and compute what their source says",
     "On any admissible input the just-in-time compiled numerical kernels never read or write outside their arrays, never raise, never produce non-finite output from regular finite input, and give the same result as the interpreted execution of the same source. Their inputs are never modified.",
     ["inputs", "configurations"], "all shapes (including single rows and columns), dtypes, layouts, weights and options of the kernels",
     "compiled code runs without bounds checks in the tests",
     ["gram.py", "coordinate_descent.py", "links/robust_math.py"],
     [("numba compiled functions", "gram.py")],
     ["return values under bounds-checked, interpreted and production execution"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
