p("C01", "Causal orders are permutations and estimated graphs are acyclic",
  "Whenever a discovery method that reports a causal order returns, that order contains every variable exactly once (variables whose mutual order could not be decided form one leading block), and every non-zero coefficient of the estimated instantaneous graph leads from an earlier variable to a later one. Hence no estimated graph contains a self-loop or a directed cycle.",
  ["inputs", "configurations"], "all data sets the method accepts, all options and prior knowledge, all methods reporting an order",
  "the tests fit a handful of data sets per method and mostly compare the shape of the result",
  ["lingam/direct_lingam.py", "lingam/ica_lingam.py", "lingam/high_dim_direct_lingam.py", "lingam/resit.py", "lingam/multi_group_direct_lingam.py", "lingam/bottom_up_parce_lingam.py", "lingam/var_lingam.py", "lingam/varma_lingam.py", "lingam/longitudinal_lingam.py", "lingam/base.py"],
  [("regression of each variable on its predecessors only", "lingam/base.py:_BaseLiNGAM._estimate_adjacency_matrix")],
  [("causal order", "sequence of variables from causes to effects", "causal_order_ of every model"), ("adjacency matrix", "B[i,j] direct effect of j on i", "adjacency_matrix_ / adjacency_matrices_")],
  ["causal_order_", "adjacency_matrix_", "adjacency_matrices_"])
p("C02", "Prior knowledge is honoured by every method that accepts it",
  "If prior knowledge says that one variable has a directed path to another, the former precedes the latter in the causal order; if it says that a variable has no directed path to another, the estimated graph has no direct edge from the former to the latter and, unless both directions are excluded, the latter precedes the former. Prior knowledge asserting paths in both directions is rejected with a ValueError, and the helper that builds prior-knowledge matrices encodes exactly the given exogenous variables, sinks, paths and missing paths.",
  ["inputs", "configurations"], "all prior-knowledge matrices and all data sets, for every method taking hard prior knowledge",
  "a few fixed matrices are tested; conflicts between several statements, mutual exclusions and the interplay with the search are not",
  ["lingam/direct_lingam.py", "lingam/bottom_up_parce_lingam.py", "lingam/multi_group_direct_lingam.py", "lingam/longitudinal_lingam.py", "lingam/utils/__init__.py"],
  [("partial orders extracted from the matrix", "DirectLiNGAM._extract_partial_orders"), ("predictor filtering", "_BaseLiNGAM._estimate_adjacency_matrix")],
  [("partial orders", "remaining precedence constraints", "lingam/direct_lingam.py")], ["causal_order_", "adjacency_matrix_", "make_prior_knowledge"])
p("C08", "Path, total-effect, source, sink and distance queries on graphs are exact",
  "For any adjacency matrix and two different variables, the path query returns every directed simple path between them exactly once together with the product of its coefficients, ignoring coefficients not exceeding the threshold and unknown (NaN) entries, and the total effect is the sum of those products; a cycle met on the way is reported as a ValueError. The sink, exogenous and distance-from-root queries return exactly the variables with no outgoing connection, with no incoming connection, and the shortest distance of every reachable variable from the variables without a cause.",
  ["inputs"], "all adjacency matrices (acyclic, cyclic, with NaN pairs), all pairs of variables, all thresholds",
  "tests query single hand-written graphs",
  ["lingam/utils/__init__.py"],
  [("depth-first search", "utils.find_all_paths"), ("sum over paths", "utils.calculate_total_effect"), ("shortest paths from roots", "utils.calculate_distance_from_root_nodes")],
  [("stack", "path under exploration", "utils.find_all_paths")], ["return values", "ValueError"])
p("C03", "Top-down discovery places the admissible variable with the best evidence",
  "DirectLiNGAM and MultiGroupDirectLiNGAM (pairwise likelihood-ratio measure; also the kernel measure for a single data set) build the causal order from the top: at every step, among the variables that the prior knowledge allows, they place the one whose measured dependence on its regression residuals is smallest, then remove its effect from all remaining variables; several data sets are combined weighted by their sizes. Afterwards the coefficients of each variable are the adaptive-lasso regression on exactly its predecessors that prior knowledge does not exclude, per data set.",
  ["inputs", "configurations"], "all data sets (any number of groups), all prior knowledge, hard or soft",
  "the tests check one fixed data set and shapes; a wrong intermediate residual, candidate filter or weighting changes results only for particular data",
  ["lingam/direct_lingam.py", "lingam/multi_group_direct_lingam.py", "lingam/base.py", "lingam/utils/__init__.py"],
  [("greedy loop", "DirectLiNGAM.fit"), ("candidate filter", "DirectLiNGAM._search_candidate"), ("measure", "DirectLiNGAM._search_causal_order, _diff_mutual_info"), ("weighting", "MultiGroupDirectLiNGAM._search_causal_order"), ("coefficients", "_BaseLiNGAM._estimate_adjacency_matrix, utils.predict_adaptive_lasso")],
  [("U, K", "unplaced variables, causal order so far", "DirectLiNGAM.fit"), ("X_", "data with the effects of placed variables removed", "DirectLiNGAM.fit")],
  ["causal_order_", "adjacency_matrix_", "adjacency_matrices_"])
p("C04", "Bottom-up discovery peels sinks and leaves undecidable variables as a block",
  "BottomUpParceLiNGAM repeatedly takes, among the variables prior knowledge allows to be last, the one whose regression residual is most independent of the others, and puts it at the end of the order; the first time even that one is rejected at the given significance (or F-correlation) level, all remaining variables become one leading block whose mutual coefficients are NaN and which have no other coefficients among themselves. Every ordered variable's coefficients are the regression on its predecessors that prior knowledge does not exclude. This holds for a user-supplied regressor as well.",
  ["inputs", "configurations"], "all data sets, significance levels, both independence measures, all prior knowledge",
  "whether the search stops early, and with which block, depends on the data; the tests only look at shapes",
  ["lingam/bottom_up_parce_lingam.py", "lingam/hsic.py", "lingam/utils/_f_correlation.py"],
  [("search", "BottomUpParceLiNGAM._search_causal_order"), ("test", "_eval_exogenous / Fisher combination"), ("block", "_estimate_adjacency_matrix")],
  [("K_bttm, U_res", "ordered tail, undecided variables", "lingam/bottom_up_parce_lingam.py")],
  ["causal_order_", "adjacency_matrix_"])
p("C09", "Bootstrap summaries are exact statistics of the replicates",
  "For any list of bootstrapped graphs and total effects (BootstrapResult, and the VAR, VARMA and longitudinal results), the direction counts, graph counts, probabilities and total-effect tables count exactly the replicates in which an entry exceeds the threshold in absolute value (NaN never does), optionally split by sign; counts and probabilities are sorted descending and truncated as requested; reported effects are medians over the replicates in which the effect is not zero. Invalid limits or thresholds (not greater than 0) raise ValueError.",
  ["inputs"], "all lists of replicate matrices, all thresholds, limits and sign options, all four result classes",
  "the tests run one random bootstrap and check shapes and error cases",
  ["lingam/bootstrap.py", "lingam/var_lingam.py", "lingam/varma_lingam.py", "lingam/longitudinal_lingam.py"],
  [("counting", "BootstrapResult.get_causal_direction_counts, get_directed_acyclic_graph_counts, get_probabilities"), ("total effects", "get_total_causal_effects"), ("per time point", "LongitudinalBootstrapResult")],
  [("adjacency matrices, total effects", "the replicates", "lingam/bootstrap.py")], ["returned dictionaries and arrays"])
p("C10", "Bootstrap path tables list every path with its frequency and median effect",
  "get_paths of every bootstrap result returns exactly the directed paths from the first to the second variable that occur in at least one replicate, each with the fraction of replicates containing it and the median of its effects over those replicates, sorted by that fraction; for VAR, VARMA and longitudinal results the paths run through the time-expanded graph in which an effect of lag k connects every pair of time points k apart. A start equal to the end, a backward time span, or a non-positive threshold is rejected with a ValueError.",
  ["inputs"], "all replicate matrices, endpoints, lags or time points and thresholds",
  "tests query one random bootstrap",
  ["lingam/bootstrap.py", "lingam/var_lingam.py", "lingam/varma_lingam.py", "lingam/longitudinal_lingam.py", "lingam/utils/__init__.py"],
  [("per-replicate enumeration", "BootstrapResult.get_paths"), ("time expansion", "VARBootstrapResult.get_paths, VARMABootstrapResult.get_paths, LongitudinalBootstrapResult.get_paths")],
  [("expansion_m", "time-expanded adjacency matrix", "lingam/var_lingam.py")], ["returned dictionary", "ValueError"])
p("C05", "Repetitive discovery derives ancestors, parents and unknown pairs as tested",
  "RCD, MultiGroupRCD and extract_ancestors visit the sets of two variables, then three, up to the given number of explanatory variables plus one, in lexicographic order, restarting with pairs whenever a sweep found something new and re-examining a set only when its common ancestors changed. In a set whose members, after removing the effect of their common ancestors, are all non-Gaussian and pairwise correlated, the only variable whose regression residual is independent of the others gets the others as ancestors. No variable becomes its own ancestor and no two variables become ancestors of each other. The parents are exactly the ancestors that stay correlated after removing the other ancestors, the pairs set to NaN are exactly the pairs without an edge whose residuals are still correlated, and the coefficients are the least-squares regression on the parents. With several data sets the tests are combined by Fisher's method (or the largest F-correlation).",
  ["inputs", "configurations"], "all data sets (single or grouped), all significance levels, bandwidths and independence measures",
  "the search history depends on data; tests check shapes on one data set",
  ["lingam/rcd.py", "lingam/multi_group_rcd.py", "lingam/utils/_rcd.py", "lingam/hsic.py", "lingam/utils/_f_correlation.py"],
  [("sweeps", "RCD._extract_ancestors, utils._rcd.extract_ancestors"), ("parents", "RCD._extract_parents, _is_parent"), ("confounded pairs", "RCD._extract_vars_sharing_confounders"), ("combination", "MultiGroupRCD._is_independent, _is_correlated, _is_non_gaussianity")],
  [("M, hu_history, l", "ancestors, examined sets with their common ancestors, size of sets", "lingam/rcd.py:_extract_ancestors")],
  ["ancestors_list_", "adjacency_matrix_", "adjacency_matrices_"])
p("C06", "CAM-UV attaches, prunes and reports unknown pairs as its tests dictate",
  "CAMUV and MultiGroupCAMUV only consider variables that are dependent as neighbours; they examine sets of two, then three and more variables (up to the given number), restarting with pairs after every sweep that found something. In a set with no edge among its members, the admissible member whose residual (regressed on the others and its parents) is most independent of the others gets them as parents if that residual is independent of them and, without regressing on them, it depends on each. Parents not needed given the others are then removed, and exactly the neighbouring pairs without an edge whose residuals are dependent are reported as NaN in both directions. A pair excluded by prior knowledge is never an edge, no pair is an edge in both directions, and all other entries are 0 or 1. Several data sets are combined by Fisher's method (or the largest F-correlation).",
  ["inputs", "configurations"], "all data sets (single or grouped), levels, both independence measures, prior knowledge",
  "the search history depends on data; tests check shapes on one data set",
  ["lingam/camuv.py", "lingam/multi_group_camuv.py", "lingam/hsic.py", "lingam/utils/_f_correlation.py"],
  [("search", "CAMUV._find_parents, _get_child"), ("pruning", "CAMUV._find_parents (last loop)"), ("unknown pairs", "CAMUV.fit")],
  [("P, t, Y", "parents, size of sets, residuals given parents", "lingam/camuv.py:_find_parents")],
  ["adjacency_matrix_"])
p("C07", "RESIT takes the most independent sink and prunes parents sequentially",
  "RESIT repeatedly removes, from the variables left, the one whose regression residual on all the others has the smallest HSIC statistic and puts it last among them, all others becoming its parents. Then, variable by variable in causal order and parent by parent in ascending order, a parent is dropped exactly when the regression on the remaining current parents leaves residuals that the test does not find dependent; the last parent is kept. The adjacency matrix is 1 exactly for the parents left. This holds for any regressor.",
  ["inputs", "configurations"], "all data sets, regressors and levels",
  "tests check shapes on one data set",
  ["lingam/resit.py", "lingam/hsic.py"],
  [("order", "RESIT._estimate_order"), ("pruning", "RESIT._remove_edges")],
  [("S, pa, pi", "variables left, parents, order", "lingam/resit.py")],
  ["causal_order_", "adjacency_matrix_"])
p("C11", "Bootstrap replicates are fits of genuine resamples with matching total effects",
  "bootstrap() of every estimator returns exactly the requested number of replicates. Each is the graph the same estimator gives for a resample with replacement, of the original size, of the rows of the data: groups are resampled separately, all time points of longitudinal data with the same rows, and for VAR and VARMA models the series is regenerated from the coefficients and resampled residuals of the model fitted to the original data. Every row can be drawn, replicates are drawn anew each time, the reported row indices are those of the replicate, and the stored total effects are those of the stored graph. A number of replicates that is not a positive integer is rejected with a ValueError (estimators for independent samples).",
  ["inputs", "histories"], "all data sets, all estimators offering a bootstrap, all replicates",
  "tests run a few replicates and check shapes; the replicates are random, so their relation to the data is not checked",
  ["lingam/bootstrap.py", "lingam/rcd.py", "lingam/bottom_up_parce_lingam.py", "lingam/multi_group_direct_lingam.py", "lingam/multi_group_rcd.py", "lingam/longitudinal_lingam.py", "lingam/var_lingam.py", "lingam/varma_lingam.py"],
  [("resampling loop", "BootstrapMixin.bootstrap and its overrides"), ("residual bootstrap", "VARLiNGAM.bootstrap, VARMALiNGAM.bootstrap")],
  [("model state", "the estimator is refitted in place for each replicate", "bootstrap methods")],
  ["adjacency_matrices_", "total_effects_", "resampled_indices_", "data passed to fit()"])
p("C12", "Bootstrap with imputation keeps replicates, imputations and fits together",
  "For every replicate, bootstrap_with_imputation draws rows with replacement, announces the incomplete sample to the causal-discovery model, lets the imputer complete it, and fits the model to exactly the completed data sets, in that order and once each. It returns per replicate the row indices, the order and matrices of that fit and the imputed values exactly at the entries that were missing (NaN elsewhere). An imputer or model whose answer violates its contract ends the run with a ValueError; a given random_state makes the result reproducible; by default the joint fit is MultiGroupDirectLiNGAM with the given prior knowledge. The data are not modified.",
  ["inputs", "histories", "environment behaviours"], "all data with missing values, all imputers and models (well-behaved or not)",
  "tests use the default collaborators once and hand-written invalid ones for single error cases",
  ["lingam/tools/__init__.py"],
  [("replicate loop", "tools.bootstrap_with_imputation"), ("contracts", "tools._check_imputer_outout, _check_cd_output")],
  [("per-replicate results", "lists collected over the loop", "lingam/tools/__init__.py")],
  ["return value", "ValueError", "calls of before_imputation, fit_transform and fit"])
p("C13", "Intervention effects and optimal interventions follow the causal model exactly",
  "Given an acyclic model (matrix or fitted estimator) and data, CausalEffect propagates an intervention on any variable through the structural equations with the noise expectations implied by the data means: the effects on prediction are, for every variable, the absolute changes of the predictor's output at the resulting means when the variable is moved from its mean up and down by one standard deviation (the difference of the class probabilities for a classifier). The optimal intervention is the value under which the expected linear prediction equals the desired output, irrespective of the order in which variables are evaluated. Cyclic or non-square matrices and unusable predictors are rejected with a ValueError.",
  ["inputs", "schedules"], "all acyclic models, data sets, targets, interventions, desired outputs and evaluation orders",
  "tests check shapes for one data set; the random evaluation order is never compared",
  ["lingam/causal_effect.py"],
  [("propagation", "CausalEffect._get_propagated_effects"), ("random evaluation order", "CausalEffect.estimate_optimal_intervention"), ("order of a matrix", "CausalEffect._check_init_params")],
  [("s, alpha, Ex", "variables still to evaluate, coefficients and means", "estimate_optimal_intervention")],
  ["return values", "ValueError"])
p("C14", "The causal-based simulator reproduces and changes data exactly as its model says",
  "After training on data and an acyclic causal graph (plain, with unknown pairs, or with lags), a run of CausalBasedSimulator gives every numeric variable the value its model predicts from the simulated causes plus its error, the error being what the trained model left unexplained or the replacement given in changing_exog; variables without causes equal their error, and discrete variables take the predicted class (their data if they have no causes). So a run without changes reproduces numeric data exactly, and a change only reaches the changed variables and their descendants. changing_models replaces causes and model of a variable and is rejected with a ValueError if the graph becomes cyclic. Shuffling permutes the errors of all variables by one permutation of the samples and is reproducible with a seed. Runs do not influence each other, a failed call changes nothing, inputs are not modified, unusable requests are rejected, and a run before training raises a RuntimeError.",
  ["inputs", "histories", "configurations"], "all graphs, data, models, changes and sequences of train and run calls",
  "tests run a few fixed scenarios and mainly check that no or the expected error occurs",
  ["lingam/causal_based_simulator.py"],
  [("training", "CausalBasedSimulator._train"), ("simulation in causal order", "CausalBasedSimulator._simulate"), ("order of the changed graph", "CBSILiNGAM.get_causal_order, _calc_causal_order"), ("lags", "CBSITimeSeriesLiNGAM.get_data")],
  [("_train_result, _impl", "trained models, errors and graph", "CausalBasedSimulator")],
  ["train_result_", "returned data frame", "ValueError, RuntimeError"])
p("C15", "The causal data generator composes errors, models and interventions exactly",
  "After fit, CausalDataGenerator generates the cause from the adjustment variables and the effect from the cause and the adjustment variables, each by its model plus its error (what the model left unexplained), so that without interventions numeric data are reproduced; an intervention on an exogenous variable replaces that error (or the values of an adjustment variable), an intervention on an endogenous variable imposes its values on everything downstream, and a replaced model receives exactly the generated causes, the error and its arguments. Categorical variables are drawn with the class probabilities of their model, reproducibly for a given random_state. Columns and index are those of the data, columns not involved are left out, the data are not modified, generations do not influence each other, and unusable requests are rejected.",
  ["inputs", "histories", "configurations"], "all data, models, interventions and sequences of fit and generate calls",
  "tests check that calls succeed or raise",
  ["lingam/experimental/cdg.py"],
  [("fitting", "CausalDataGenerator.fit, _make_model"), ("generation", "CausalDataGenerator.generate")],
  [("error_cause_, error_effect_, models", "fitted state", "CausalDataGenerator")],
  ["returned data frame", "error_cause_", "error_effect_", "exceptions"])
p("C16", "Fits, bootstraps and queries never depend on what happened before",
  "For every estimator, what fit and bootstrap return depends only on the settings the object was created with, the data given and the state of the random number generator: not on earlier fits (also of data of another shape), bootstraps, rejected data or queries, nor on other objects, even if they share settings objects. Queries (total effects, error independence) answer for the last fit and leave the model unchanged. The given data and settings are not modified, and a fitted model does not change when the caller later changes the data in place.",
  ["histories", "inputs"], "all sequences of fit, failed fit, bootstrap and query calls on several objects of one class",
  "tests use every object once",
  ["lingam/direct_lingam.py", "lingam/ica_lingam.py", "lingam/bottom_up_parce_lingam.py", "lingam/rcd.py", "lingam/resit.py", "lingam/camuv.py", "lingam/var_lingam.py", "lingam/varma_lingam.py", "lingam/longitudinal_lingam.py", "lingam/multi_group_direct_lingam.py", "lingam/multi_group_rcd.py", "lingam/multi_group_camuv.py", "lingam/high_dim_direct_lingam.py", "lingam/lim.py"],
  [("state kept in the object", "fit methods of all estimators"), ("settings kept apart from fitted state", "VARLiNGAM.fit, VARMALiNGAM.fit, LiM.fit")],
  [("settings and fitted attributes", "per object", "all estimators")],
  ["fitted attributes", "bootstrap results", "query results", "input arrays"])
p("C17", "Time-series models keep residuals, lags and structure consistent",
  "VARLiNGAM and VARMALiNGAM use the given coefficients, or the order with the lowest requested criterion up to the given one (exactly the given order without a criterion), look for the instantaneous structure among exactly the residuals of that reduced form (one per sample with enough history), and return matrices with which the data satisfy the structural equations: instantaneous effects and order are those of the LiNGAM model (DirectLiNGAM unless given), the effect matrix of every lag is (I - B0) times the coefficients of that lag, the matrices of past errors are (I - B0) H (I - B0)^-1. With pruning, every row is the sparse (adaptive-lasso) regression of a variable on the variables before it in the order and on all lagged variables (and past errors), over the samples whose history was observed. A LiNGAM model without the LiNGAM interface is rejected with a ValueError.",
  ["inputs", "configurations"], "all series, orders, criteria, given coefficients and LiNGAM models",
  "tests fit one generated series and check shapes or loose values",
  ["lingam/var_lingam.py", "lingam/varma_lingam.py"],
  [("order search", "_estimate_var_coefs, _estimate_varma_coefs"), ("residual recursion", "_calc_residuals"), ("recovery of the structure", "_calc_b, _calc_psi_and_omega"), ("pruning", "_pruning")],
  [("_ar_coefs, _ma_coefs, _lags, _order, _residuals, _adjacency_matrices", "fitted state", "VARLiNGAM, VARMALiNGAM")],
  ["adjacency_matrices_", "causal_order_", "residuals_", "ValueError"])
p("C18", "Longitudinal effects are found per time point from the past and the residuals",
  "LongitudinalLiNGAM regresses every time point on its last n_lags time points, finds instantaneous effects and order by DirectLiNGAM (with the given measure) among the residuals of that time point, and returns lagged effects with which the data satisfy the structural equations, each lag in its place; time points without enough history have undefined (NaN) effects and orders. With prior knowledge, the answer is that of one DirectLiNGAM over all time points under the stacked knowledge: nothing outside the lag window, the given entries inside it. Fewer than two or differently shaped data sets and ill-shaped prior knowledge are rejected with a ValueError.",
  ["inputs", "configurations"], "all panels of data, numbers of lags, measures and prior knowledge",
  "tests fit one generated panel and check shapes",
  ["lingam/longitudinal_lingam.py"],
  [("past regression", "LongitudinalLiNGAM._compute_residuals"), ("instantaneous and lagged effects", "_estimate_instantaneous_effects, _estimate_lagged_effects"), ("stacked prior knowledge", "LongitudinalLiNGAM.fit")],
  [("_residuals, _adjacency_matrices, _causal_orders", "fitted state per time point", "LongitudinalLiNGAM")],
  ["adjacency_matrices_", "causal_orders_", "residuals_", "ValueError"])
p("C25", "Total effects and error independence answer for the fitted model",
  "For every estimator, estimate_total_effect is the coefficient of the source in the least-squares regression (with intercept) of the destination on the source and the source's direct causes in the fitted model, lagged consistently when the source lies in the past, over the samples of the data given in the call whose history was observed; where offered, estimate_total_effect2 is the sum over the directed paths of the fitted matrices (for VAR and VARMA: lagged direct effects continued by instantaneous ones; zero without a path). A source whose causes are unknown gives NaN (no effects for several groups) with a warning; a destination that precedes the source gives a warning, and nothing else does. get_error_independence_p_values is the symmetric matrix of HSIC p-values of the errors the fitted model leaves in the data, zero on the diagonal and NaN for variables with unknown relations or undefined errors.",
  ["inputs", "configurations"], "all fitted models of all estimators, all pairs of variables, lags, time points and data sets",
  "tests call the methods once per estimator and check the shape of the answer",
  ["lingam/base.py", "lingam/rcd.py", "lingam/bottom_up_parce_lingam.py", "lingam/multi_group_direct_lingam.py", "lingam/multi_group_rcd.py", "lingam/var_lingam.py", "lingam/varma_lingam.py", "lingam/longitudinal_lingam.py"],
  [("adjusted regression", "estimate_total_effect"), ("path sums", "estimate_total_effect2, utils.calculate_total_effect"), ("error independence", "get_error_independence_p_values")],
  [("_adjacency_matrix, _adjacency_matrices, _causal_order, _ancestors_list, _residuals", "fitted state queried", "all estimators")],
  ["return values", "warnings"])
p("C22", "ICA-based discovery matches components, drops weak effects and orders the rest",
  "ICALiNGAM matches every variable with one independent component of FastICA (run with the given random_state and max_iter) so that the sum of 1/|weight| is least, turns the matched rows into direct effects, drops the n(n+1)/2 weakest effects and then only as many further weakest ones as are needed to leave no cycle, and returns a causal order in which every cause that is left precedes its effect. Every row of the adjacency matrix is the sparse regression of a variable on the variables before it. Every unmixing matrix whose matching is possible gets an answer.",
  ["inputs"], "all unmixing matrices (also with equal, cancelling and zero entries) and data sets",
  "tests fit one data set whose unmixing matrix is nearly triangular",
  ["lingam/ica_lingam.py", "lingam/base.py"],
  [("assignment", "ICALiNGAM.fit"), ("dropping weak effects", "ICALiNGAM._estimate_causal_order"), ("peeling", "ICALiNGAM._search_causal_order")],
  [("W_ica, B_estimate, causal_order", "unmixing matrix, effects, order", "ICALiNGAM.fit")],
  ["causal_order_", "adjacency_matrix_"])
p("C26", "The same numbers give the same answers, however they are stored",
  "For every estimator, fit, bootstrap and queries answer the same for the same numbers given as a list, an array of floats or of integers, a data frame (whatever its column names and index), a read-only array, a view with gaps or an array in column-major order, and for several data sets given as a list or as one three-dimensional array. Nothing is truncated, reordered or looked up by label on the way.",
  ["inputs"], "all ways of storing a data set",
  "tests pass one data frame or float array",
  ["lingam/direct_lingam.py", "lingam/ica_lingam.py", "lingam/bottom_up_parce_lingam.py", "lingam/rcd.py", "lingam/resit.py", "lingam/camuv.py", "lingam/var_lingam.py", "lingam/varma_lingam.py", "lingam/longitudinal_lingam.py", "lingam/multi_group_direct_lingam.py", "lingam/multi_group_rcd.py", "lingam/multi_group_camuv.py", "lingam/high_dim_direct_lingam.py", "lingam/lim.py"],
  [("conversion of inputs", "check_array and casts in fit, bootstrap and query methods of all estimators")],
  [("X", "the given data", "all estimators")],
  ["fitted attributes", "bootstrap results", "query results"])
p("C27", "Names, units, signs and listing order of the data do not matter",
  "Listing the variables in another order (with prior knowledge listed alike) permutes the answer of DirectLiNGAM (all measures), HighDimDirectLiNGAM, BottomUpParceLiNGAM, MultiGroupDirectLiNGAM, VARLiNGAM and LongitudinalLiNGAM accordingly; measuring a variable in another unit, with the opposite sign or from another origin rescales, negates or leaves its coefficients and leaves order, ancestors, blocks and unknown pairs as they are, also for RCD and MultiGroupRCD (for RESIT: sign and origin only; for HighDimDirectLiNGAM: sign only; for VARLiNGAM: unit and sign only); listing independent samples in another order (where independence is not judged by F-correlation), or several data sets in another order, gives the same answers (data sets reordered alike).",
  ["inputs"], "all data sets and all permutations, unit changes (powers of two), sign changes and shifts",
  "tests fit every data set in one presentation only",
  ["lingam/direct_lingam.py", "lingam/high_dim_direct_lingam.py", "lingam/bottom_up_parce_lingam.py", "lingam/rcd.py", "lingam/resit.py", "lingam/multi_group_direct_lingam.py", "lingam/multi_group_rcd.py", "lingam/var_lingam.py", "lingam/longitudinal_lingam.py", "lingam/base.py"],
  [("order search", "search methods of the estimators"), ("adaptive lasso", "utils.predict_adaptive_lasso"), ("indices", "fit methods")],
  [("X, prior_knowledge", "data and knowledge in one presentation", "all estimators")],
  ["causal_order_", "adjacency_matrix_", "ancestors_list_"])
p("C19", "Drawings show exactly the graph, its paths, cycles and layers",
  "make_dot draws every variable under its label and exactly the effects whose absolute value exceeds lower_limit, from cause to effect, labelled with the coefficient to two decimals; each pair of unknown (NaN) order once, double-headed; the edges and variables on the simple paths between the given start and end (and only those) in path_color, start and end doubled; edges on cycles dashed when asked; and the prediction target with its features and weights. make_dot_highlight additionally places every variable in the layer of its shortest distance to the target (ancestors above, descendants below, in both when on a cycle with it), up to max_anc and max_dsc, the rest under others or not at all, with every effect of at least lower_limit between the places shown. Ill-shaped or ill-typed requests are refused with a ValueError or TypeError, and the given matrix is left unchanged.",
  ["inputs", "configurations"], "all matrices (also cyclic, with unknown pairs or lagged blocks), labels, thresholds, paths, targets and limits",
  "tests call the functions on one matrix and look at nothing but exceptions",
  ["lingam/utils/__init__.py"],
  [("edges and highlighting", "make_dot"), ("layers", "make_dot_highlight")],
  [("B, idx, path_edges, cycle_edges, clusters", "what is drawn", "make_dot, make_dot_highlight")],
  ["graphviz source", "ValueError", "TypeError"])
p("C23", "Statistical building blocks and printed summaries mean what they say",
  "remove_effect returns, for every variable not listed, the residuals of its least-squares regression (with intercept) on the listed variables, together with the coefficients in the listed order if asked, and leaves listed columns and its input as they were; predict_adaptive_lasso returns the least-squares coefficients, in the order of the given predictors, of the support that the adaptive lasso selects by BIC; f_correlation is symmetric, lies in [0,1] and does not depend on unit or origin; the HSIC test, kernel width and Gram matrix, and the likelihood and variance functions have the values of their definitions; evaluate_model_fit describes exactly the given graph (one equation per variable with causes, a latent factor per unknown pair, the ordinal variables declared) and returns that model's fit indices; print_causal_directions and print_dagc print the stored directions, graphs and percentages under the given labels; wrong arguments are refused with ValueError.",
  ["inputs", "configurations"], "all data sets, index lists, graphs, labels and argument containers",
  "tests call these functions once and look at nothing but exceptions or shapes",
  ["lingam/utils/__init__.py", "lingam/utils/_f_correlation.py", "lingam/hsic.py"],
  [("regression blocks", "remove_effect, predict_adaptive_lasso"), ("dependence measures", "f_correlation, hsic_test_gamma, get_kernel_width, get_gram_matrix"), ("model description", "evaluate_model_fit"), ("printing", "print_causal_directions, print_dagc")],
  [("X, coefs, support", "data and regression", "lingam.utils"), ("K, L, Kc, Lc", "Gram matrices", "lingam.hsic")],
  ["return values", "printed lines", "model description handed to semopy", "ValueError"])
p("C21", "LiM's local search returns a best-scoring graph near the global solution",
  "LiM with only_global returns the optimum of the global phase with entries below w_threshold in absolute value (and no others) set to zero; otherwise, starting from that graph, fit returns a graph of highest score: first among the graph and all its acyclic re-orientations, then (more than two variables and more than n-1 edges) among those with one edge of the current or of the first graph dropped, then (more than two variables and not complete) among those with one edge added to the current or the first graph; ties keep the graph at hand, cyclic candidates are never taken, edges of the first graph keep their weight and turned or added ones get weight 1. The score is the log-likelihood (linear with super-Gaussian errors for continuous, logistic or, without causes, categorical for discrete variables) less log(n)/2 per edge and variable. Repeated fits on one object answer the same, whatever was fitted in between.",
  ["inputs", "configurations", "histories"], "all mixed data sets, starting graphs, thresholds and indicators of continuous variables (not is_poisson)",
  "tests fit one data set and compare one matrix loosely",
  ["lingam/lim.py", "lingam/utils/__init__.py"],
  [("local search", "LiM._estimate_LiM"), ("score", "_bic_scoring, utils.likelihood_i")],
  [("W_est, W_min_lss, aa", "first graph, best graph and loss so far", "LiM._estimate_LiM"), ("_loss_type", "setting used as phase marker", "LiM")],
  ["adjacency_matrix_"])
p("C20", "Out-of-sample tuning picks the best or an equally good sparser configuration",
  "OutOfSampleCausalTuning fits every configuration on exactly the training part of every fold (with its own arguments; not at all for all_others), predicts every variable of the test part from its Markov blanket in that fold's graph (all other variables for all_others, the training mean for an empty blanket), and reports as performance the mean over variables of -log(1-r^2)/2 of the pooled held-out predictions and as mb_size the mean blanket size. Without sparsity penalty the first configuration of best performance is chosen; with it, each other configuration gets the share of permutations of both predictions whose performance difference exceeds the observed one, and among the best one and those with a share above thr the one with the smallest blankets is chosen, the best one on ties. Equal random_state gives equal answers; wrong arguments and configurations without model are refused with TypeError or ValueError.",
  ["inputs", "configurations"], "all data sets, cross-validation splits, lists of configurations, thresholds and seeds",
  "no test covers this class",
  ["lingam/experimental/oct.py"],
  [("evaluation", "OutOfSampleCausalTuning.fit, _estimate_graph, _get_mb, _evaluate_config"), ("sparsity penalty", "_sparsity_penalty"), ("argument checks", "_check_configs")],
  [("scores, mb_sizes, config_infos, best_idx", "evaluation state", "OutOfSampleCausalTuning.fit")],
  ["best_config_index_", "scores_", "exceptions"])
p("C24", "High-dimensional discovery peels roots by the smallest maximal dependence",
  "HighDimDirectLiNGAM places, one after the other, the variable whose largest dependence statistic against the variables left is smallest. The statistic of a variable against another is the smallest dependence |E[r^(K-1) y] E[r^2] - E[r^K] E[r y]| seen so far between its residual r and the other variable y, the residual being taken without conditioning first and then in every round for every conditioning set that contains the last root and otherwise roots whose statistic exceeds the cut-off, of the largest possible size up to J; the cut-off rises to alpha times the statistic of every root placed. The order contains every variable once and does not depend on the listing of the variables. Every row of the matrix is the sparse regression on the variables before (adaptive lasso with BIC, with cross-validation and a warning when there are no more samples than variables); with estimate_adj_mat off there is no matrix.",
  ["inputs", "configurations"], "all data sets, in-degrees J, moments K and pruning factors alpha",
  "tests fit one data set and look at shapes and exceptions",
  ["lingam/high_dim_direct_lingam.py", "lingam/base.py"],
  [("peeling", "HighDimDirectLiNGAM.fit"), ("statistics", "_get_prune_stats, _calc_tau, _calc_taus"), ("coefficients", "_estimate_adjacency_matrix, _estimate_adjacency_matrix2")],
  [("theta, psi, prune_stats, cut_off", "roots placed, variables left, statistics, cut-off", "HighDimDirectLiNGAM.fit")],
  ["causal_order_", "adjacency_matrix_", "warning"])
p("C28", "Drawn non-linear effects are mean predictions under intervention",
  "visualize_nonlinear_causal_effect trains the given estimator, for every replicate, on exactly the resampled rows of that replicate (all rows, by position and whatever the index, for a matrix or when no rows are stored), explaining the effect by the cause and by the variables marked 1 as direct causes of the cause, never by the effect itself (categorical variables as dummies). The point at a position is the mean prediction over those rows with the cause set to the position; the curves are the given percentiles (95, 50, 5; the median for a single matrix) over all replicates; a categorical effect gets one panel per class with the mean class probabilities. Positions default to ten equally spaced ones over the range of the cause. A given figure is used, the data are left unchanged, and ill-typed or unknown arguments are refused with a TypeError or ValueError.",
  ["inputs", "configurations"], "all data frames, graphs, bootstrap results, positions, percentiles and estimators",
  "tests count the panels of two figures",
  ["lingam/utils/_visualize_nonlinear_causal_effect.py"],
  [("training and intervention", "_calculate"), ("drawing", "_draw"), ("argument checks", "visualize_nonlinear_causal_effect")],
  [("adj_matrices, index_list, effect_info", "replicates, their rows and the effects found", "_calculate")],
  ["figure contents", "TypeError", "ValueError"])
p("C29", "LiNA searches the latent graph by dual ascent and returns its last solution",
  "LiNA.fit takes the loadings of the confirmatory factor analysis with the given structure as measurement_matrix_, scores the factors by least squares on these loadings, times the given scales, and minimises, with a zero diagonal, loss + rho/2 h^2 + alpha h + lambda1 |W|, where h >= 0 vanishes exactly on acyclic graphs and the loss is that of the chosen type (laplace, l2, logistic, poisson; anything else is a ValueError), always with the gradient of that objective. It starts from zero with rho = 1 and alpha = 0; while h did not fall to a quarter of the last accepted value, rho grows tenfold and the same start is used again; an accepted solution is the next start and adds rho h to alpha; the search ends when h is at most h_tol, rho reaches rho_max or max_iter solutions were accepted. The answer is the last solution without the effects smaller than w_threshold: acyclic when the search converged, and never with a factor causing itself. The inputs are not modified.",
  ["inputs", "configurations", "environment behaviours"], "all indicator data and structures, losses, penalties, thresholds and limits, and all answers of the optimiser",
  "one test runs the method on one data set with the default settings",
  ["lingam/lina.py"],
  [("factor scores", "LiNA.fit"), ("objective and dual ascent", "LiNA._estimate_LiNA")],
  [("w_est, rho, alpha, h", "accepted solution, weights of the cycles, cycles left", "LiNA._estimate_LiNA")],
  ["adjacency_matrix_", "measurement_matrix_", "objective handed to scipy.optimize.minimize"])
p("C30", "Requests outside the documented domain are refused, admissible ones carried out",
  "Constructors, fits, bootstraps, bootstrap queries, simulator, data generator, intervention effects, imputation bootstrap, plots and graph helpers accept exactly their documented domain, boundaries included. Data with NaN or infinite values, of a wrong number of dimensions, empty or not numeric, groups or time points of different widths, fewer than two groups, negative significance levels, zero or negative limits and counts, counts that are not integers, unknown names of tests, bandwidths, algorithms, variables or labels, prior knowledge of a wrong shape or contradicting itself, models without the methods needed, and indices outside the graph are refused with the documented exception (ValueError or TypeError, RuntimeError or KeyError in the simulator), never carried out; a request without such a fault, on two or more variables, is never refused, whatever the other parameters; with several faults the exception is that of one of them. Whether refused or not, the arguments are left as they were.",
  ["inputs", "configurations"], "all requests: every parameter of every public operation in every value class, alone and in pairs",
  "tests try a few faulty values of some constructors, one at a time, and never the boundaries together",
  ["lingam/rcd.py", "lingam/camuv.py", "lingam/bottom_up_parce_lingam.py", "lingam/direct_lingam.py", "lingam/longitudinal_lingam.py", "lingam/multi_group_rcd.py", "lingam/multi_group_direct_lingam.py",
   "lingam/bootstrap.py", "lingam/var_lingam.py", "lingam/causal_based_simulator.py", "lingam/causal_effect.py", "lingam/experimental/cdg.py", "lingam/tools/__init__.py", "lingam/utils/__init__.py"],
  [("constructors", "RCD.__init__, CAMUV.__init__, BottomUpParceLiNGAM.__init__, RESIT.__init__, HighDimDirectLiNGAM.__init__"), ("inputs", "check_array in fit, _check_X_list"),
   ("queries", "BootstrapResult.get_*, VARBootstrapResult.get_paths, LongitudinalBootstrapResult.get_*"), ("simulator", "CausalBasedSimulator._check_*"), ("helpers", "calculate_total_effect, make_dot, make_dot_highlight")],
  [("parameters", "settings kept by the constructors and looked at again in fit", "all estimators")],
  ["exceptions", "arguments after the call"])
