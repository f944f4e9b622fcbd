GENERAL = "TLA+ specifications in spec/, checked with TLC; harness/ replays spec behaviours in /repo and lets TLC judge recorded executions."
NA = {}
NOTES = {
 "C08": ("TLA+ depth-first path machine checked by TLC; its behaviours replayed in the code, recorded queries judged by TLC",
         "Exhaustive for all graphs of 3 nodes over a small weight set (design and replay); sampled beyond. Trusts TLC and the JSON bridge."),
}
NOTES.update({
 "C01": ("TLA+ order/graph machine checked by TLC; recorded orders and graphs of every order-based estimator judged by TLC",
         "Design exhaustive for 3 (thorough 4) variables; executions of ten estimator families sampled over data, options and prior knowledge."),
 "C02": ("TLA+ searches under prior knowledge model-checked for every matrix of 3 variables; the reachable orders replayed against DirectLiNGAM; fits of all methods judged by TLC",
         "Replay exhaustive over all 729 matrices of 3 variables; larger matrices and the other methods sampled."),
 "C03": ("TLA+ greedy search specification checked by TLC; recorded fits followed step by step by TLC with evidence tables as oracle",
         "Design exhaustive for 3 variables and all prior knowledge; fits of 2..4 variables sampled. Trusts the reference numerics in harness/oracles.py; near ties accepted."),
 "C04": ("TLA+ bottom-up search specification checked by TLC; recorded fits followed step by step by TLC with independence tables as oracle",
         "Design exhaustive for 3 variables and all prior knowledge; fits of 2..4 variables sampled. Trusts the reference HSIC and F-correlation; near ties accepted."),
 "C09": ("TLA+ definition of the summaries checked by TLC; returned tables judged by TLC against the replicates",
         "Integer-valued replicates, all four result classes, sampled; small instances enumerated."),
 "C10": ("TLA+ path machine over time-expanded graphs; returned path tables judged by TLC",
         "Integer-valued replicates, all four result classes, sampled."),
})
NOTES.update({
 "C05": ("TLA+ specification of the repetitive sweeps checked by TLC; recorded fits followed set by set by TLC with test outcomes as oracle",
         "Design exhaustive over all test outcomes for 3 variables (thorough: pairs of 4); fits of 2..5 variables sampled, including levels at which tests answer almost at random. Trusts the reference tests in harness/oracles.py; near ties accepted."),
})
NOTES.update({
 "C06": ("TLA+ specification of the CAM-UV search checked by TLC; recorded fits followed set by set by TLC with independence values as oracle",
         "Design exhaustive over all test outcomes for 3 variables; fits of 2..4 variables sampled. Trusts pyGAM and the reference HSIC and F-correlation; near ties accepted."),
})
NOTES.update({
 "C07": ("TLA+ specification of RESIT's two phases checked by TLC; recorded fits followed step by step by TLC with HSIC tables as oracle",
         "Design exhaustive for 4 (thorough 5) variables; fits of 1..5 variables sampled. Trusts the reference HSIC; near ties accepted."),
})
NOTES.update({
 "C11": ("TLA+ bootstrap protocol checked by TLC; recorded bootstraps of eleven estimator families replayed step by step against it by TLC",
         "Design exhaustive for 2 rows, 2 groups, 2 (thorough 3) replicates; real bootstraps sampled with 30 replicates each. Rows are recovered from the data that fit() receives (a subclass observes it); if fit() is no longer called per replicate the trace is not judged."),
})
NOTES.update({
 "C12": ("TLA+ protocol of loop, imputer and model; every behaviour enumerated by TLC is replayed with scripted collaborators; runs with the default collaborators judged by TLC",
         "Exhaustive for 2 replicates and all modelled answers; default collaborators sampled."),
})
NOTES.update({
 "C13": ("TLA+ machine evaluating an intervention in any admissible order, confluence checked by TLC; recorded answers judged exactly by TLC",
         "Design exhaustive for 3 variables with weights 0..2; answers for integer models of 2..5 variables sampled."),
})
NOTES.update({
 "C14": ("TLA+ structural simulator (train, change, shuffle, evaluate in any order) checked by TLC; recorded histories of trainings and runs judged exactly by TLC",
         "Design exhaustive for 3 variables, 2 samples, all graphs and one change of each kind; histories with integer models of 2..9 variables sampled."),
 "C15": ("the simulator specification instantiated for adjustment variables, cause and effect; recorded histories of fits and generations judged exactly by TLC",
         "Integer models with 0..3 adjustment variables sampled; class probabilities of drawn categories tested statistically at a 1e-7 level."),
})
NOTES.update({
 "C16": ("TLA+ life-cycle machine of several estimator objects checked by TLC; histories enumerated by TLC are replayed on eighteen estimator configurations and judged by TLC",
         "All histories of three operations on two objects are enumerated and sampled per family, plus random ones of twelve operations; answers are compared with those of fresh objects."),
})
NOTES.update({
 "C17": ("TLA+ machine producing structural time series, with recovery from the reduced form as invariants (TLC); recorded fits judged by TLC in exact or fixed-point arithmetic",
         "Design exhaustive for 2 variables, one lag and one past error; integer series of 1..4 variables sampled; VARMA maximum-likelihood fits are compared with statsmodels."),
 "C18": ("the time-series specification (with stacked prior knowledge) checked by TLC; recorded longitudinal fits judged by TLC in fixed-point arithmetic",
         "Integer panels of 2..5 time points and 1..3 variables sampled; instantaneous effects are compared with DirectLiNGAM (decided by C03) on the recorded residuals."),
})
NOTES.update({
 "C25": ("TLA+ model of total effects (backdoor adjustment and path sums agree on all small linear models, TLC); recorded queries on ten fitted estimators judged by TLC, exactly on data composed from the source and its causes",
         "Design exhaustive for DAGs of 3 (thorough: 4) variables with weights -1..2; queries on sampled fits. p-values are compared with an independent HSIC implementation."),
})
NOTES.update({
 "C22": ("TLA+ state machine of matching, dropping and peeling, model-checked (TLC); weight matrices chosen by TLC and at random are replayed in place of FastICA, real fits recorded, and all orders judged by TLC",
         "Design exhaustive for 2 variables with weights 0..7 and a random subset for 3 variables; fits with 2..5 variables sampled; equal sizes may be dropped in either order."),
 "C26": ("two-run TLA+ trace specification (an answer is a function of the numbers), recorded pairs of runs judged by TLC",
         "Nine ways of storing, sampled integer-valued data for every estimator."),
 "C27": ("TLA+ product of the search specification with its renamed copy, model-checked (TLC); recorded pairs of fits of presentations of one data set judged by TLC",
         "Design exhaustive for 3 variables over all prior knowledge and renamings; fits sampled per estimator and kind of change."),
})
NOTES.update({
 "C19": ("TLA+ specification of what is drawn (breadth-first layers as state machine, path and cycle edges characterised twice), model-checked (TLC); recorded drawings, parsed from the DOT source, judged by TLC",
         "Design exhaustive for 3 (thorough: 4) variables; all graphs of 3 variables drawn, larger ones sampled."),
})
NOTES.update({
 "C23": ("TLA+ specification of the building blocks (residuals by normal equations, BIC choice, symmetric measures, described equations, printed lines), model-checked (TLC); recorded calls judged by TLC in fixed-point arithmetic",
         "Design exhaustive on small integer data; calls sampled. Values of HSIC, likelihoods and fit indices are compared with independent implementations or the underlying library."),
})
NOTES.update({
 "C21": ("TLA+ state machine of the local search (candidates in any order), model-checked (TLC); starting graphs enumerated by TLC are replayed in place of the optimiser's solution, real optimisations recorded, and all results judged by TLC against score tables",
         "Design: all oriented graphs of 2 and 3 variables (thorough: random ones of 4) with random score tables; fits of 2..4 variables sampled. Poisson scoring is not covered; scores closer than 0.03 are not told apart."),
})
NOTES.update({
 "C20": ("TLA+ state machine of evaluation, comparison and choice with Markov blankets over graphs, model-checked (TLC); recorded runs with scripted discovery methods judged by TLC",
         "Design over random families of graphs of 3 variables, all rankings and comparisons; runs sampled, mostly with the random forest replaced by least squares so that performances are exact; permutation shares compared within six standard errors."),
})
NOTES.update({
 "C24": ("TLA+ state machine of the peeling over ranks of dependences, model-checked with a relabelled copy (TLC); recorded fits followed step by step by TLC with all dependences as oracle tables",
         "Design over scrambled tables of 4 and 5 variables and all relabellings; fits of 2..7 variables sampled, tables with nearly equal dependences are not judged."),
 "C28": ("TLA+ specification of training, intervention and percentiles with an integer model, model-checked (TLC); figures recorded with stub estimators judged by TLC",
         "Design exhaustive for 3 variables, two replicates and a few rows; figures sampled (2..5 variables, up to 5 replicates, categorical covariates and effects, arbitrary indices)."),
})
NOTES.update({
 "C29": ("TLA+ state machine of the dual ascent with the optimiser as environment, model-checked (TLC); behaviours enumerated by TLC are replayed in place of scipy's optimiser and every question judged by TLC",
         "Replay: answers from four matrices of two factors, up to three accepted solutions; random answers for two and three factors; real runs judged by their graph. MDLiNA is not covered."),
})
NOTES.update({
 "C30": ("TLA+ table of operations, parameters, value classes and verdicts with the asked/answered machine, model-checked (TLC); every single and pairwise request enumerated by TLC is made to the real code and its outcome judged by TLC",
         "Every value class of every parameter of over 40 operations, pairs sampled (thorough: all pairs, three times); concrete values of a class drawn at random. VARMA, LiM, LiNA and the out-of-sample tuning (C20, C21, C29) are not in the table."),
})
