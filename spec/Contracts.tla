------------------------------ MODULE Contracts -----------------------------
(* What the public operations accept.  A request gives every parameter of an
   operation a class of values; it is refused, with the exception of a faulty
   parameter, if one is outside the domain, and carried out otherwise.
   Kinds: the classes of values of a kind of parameter and their verdict.    *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
OK == "ok"
V == "ValueError"
E == "TypeError"
R == "RuntimeError"
Y == "KeyError"
Kinds == [
  nonneg   |-> [usual |-> OK, zero |-> OK, large |-> OK, neg |-> V, tinyneg |-> V],
  posint   |-> [usual |-> OK, one |-> OK, zero |-> V, neg |-> V],
  test     |-> [usual |-> OK, fcorr |-> OK, other |-> V, upper |-> V],
  width    |-> [usual |-> OK, scott |-> OK, silverman |-> OK, other |-> V],
  model    |-> [usual |-> OK, nofit |-> V, nopredict |-> V, none |-> V],
  optmodel |-> [usual |-> OK, nofit |-> V, nopredict |-> V, model |-> OK],
  degree   |-> [usual |-> OK, three |-> OK, two |-> V, neg |-> V, real |-> E],
  moment   |-> [usual |-> OK, one |-> OK, zero |-> V, neg |-> V, real |-> E],
  share    |-> [usual |-> OK, zero |-> OK, one |-> OK, above |-> V, neg |-> V, text |-> E],
  flag     |-> [usual |-> OK, off |-> OK, number |-> E],
  know     |-> [usual |-> OK, free |-> OK, small |-> V, both |-> V, nan |-> V],
  softknow |-> [usual |-> OK, free |-> OK, small |-> V, both |-> V, nan |-> V],
  data     |-> [usual |-> OK, frame |-> OK, nested |-> OK, nan |-> V, inf |-> V, flat |-> V, cube |-> V, empty |-> V, text |-> V],
  groups   |-> [usual |-> OK, three |-> OK, uneven |-> OK, tuple |-> V, single |-> V, array |-> V, widths |-> V, nan |-> V],
  times    |-> [usual |-> OK, three |-> OK, stacked |-> OK, none |-> V, single |-> V, widths |-> V, lengths |-> V, nan |-> V],
  twotimes |-> [usual |-> OK, stacked |-> OK, none |-> V, single |-> V, widths |-> V, lengths |-> V, nan |-> V],
  draws    |-> [usual |-> OK, one |-> OK, zero |-> V, neg |-> V, real |-> V, text |-> V],
  least    |-> [usual |-> OK, positive |-> OK, zero |-> V, neg |-> V],
  most     |-> [usual |-> OK, one |-> OK, many |-> OK, numpy |-> OK, zero |-> V, neg |-> V, real |-> V, text |-> V],
  algo     |-> [usual |-> OK, none |-> OK, ica |-> OK, other |-> V, number |-> E],
  learners |-> [usual |-> OK, named |-> OK, pipeline |-> OK, search |-> OK, list |-> R, unknown |-> R, classifier |-> R, pipeclass |-> R, searchclass |-> R, transformer |-> R],
  judges   |-> [usual |-> OK, named |-> OK, pipeline |-> OK, search |-> OK, regressor |-> R, pipereg |-> R, searchreg |-> R, noproba |-> R],
  noises   |-> [usual |-> OK, one |-> OK, all |-> OK, list |-> R, unknown |-> R, short |-> R, long |-> R, nan |-> V],
  changes  |-> [usual |-> OK, coef |-> OK, model |-> OK, cut |-> OK, list |-> R, bare |-> R, numbered |-> E, unknown |-> R, noparents |-> Y, tuple |-> Y,
                unknownparent |-> R, nothing |-> Y, fewcoef |-> V, manycoef |-> V, nomodel |-> Y, classifier |-> R],
  graph    |-> [usual |-> OK, nested |-> OK, fitted |-> OK, cube |-> V, rect |-> V, cyclic |-> V, none |-> V, text |-> V],
  predictor |-> [usual |-> OK, logistic |-> OK, tree |-> OK, nopredict |-> V],
  linear   |-> [usual |-> OK, ridge |-> OK, tree |-> V, logistic |-> V, onlycoef |-> V, onlyintercept |-> V],
  frame    |-> [usual |-> OK, array |-> E, onecolumn |-> V, nan |-> V],
  column   |-> [usual |-> OK, unknown |-> V],
  regressor |-> [usual |-> OK, given |-> OK, classifier |-> E],
  settings |-> [usual |-> OK, one |-> OK, list |-> E, numbered |-> E, unknown |-> V, short |-> V],
  callback |-> [usual |-> OK, given |-> OK, number |-> E, raising |-> R],
  square   |-> [usual |-> OK, frame |-> OK, rect |-> V, scalar |-> V],
  rooted   |-> [usual |-> OK, nan |-> OK, rect |-> V, scalar |-> V, noroot |-> V],
  limit    |-> [usual |-> OK, one |-> OK, many |-> OK, zero |-> V, neg |-> V, real |-> E],
  depth    |-> [usual |-> OK, zero |-> OK, many |-> OK, neg |-> V, real |-> E],
  ends     |-> [usual |-> OK, last |-> OK, same |-> V, fromover |-> V, toover |-> V, neg |-> V, real |-> E],
  kindsof  |-> [usual |-> OK, all |-> OK, cause |-> OK, effect |-> V, middle |-> V, short |-> V],
  ordinal  |-> [usual |-> OK, flags |-> OK, short |-> V, long |-> V],
  sample   |-> [usual |-> OK, frame |-> OK, widths |-> V, nan |-> V],
  labels   |-> [usual |-> OK, full |-> OK, short |-> V, long |-> V],
  route    |-> [usual |-> OK, given |-> OK, last |-> OK, colour |-> OK, list |-> E, single |-> E, real |-> E, startover |-> V, endover |-> V, neg |-> V, nocolour |-> V],
  node     |-> [usual |-> OK, last |-> OK, over |-> V, neg |-> V, real |-> E],
  margin   |-> [usual |-> OK, one |-> OK, real |-> OK, zero |-> V, text |-> E],
  switch   |-> [usual |-> OK, on |-> OK, number |-> E, text |-> E],
  coefs    |-> [usual |-> OK, both |-> OK, coefshort |-> V, importancelong |-> V],
  repeats  |-> [usual |-> OK, one |-> OK, zero |-> V, neg |-> V, real |-> E],
  copies   |-> [usual |-> OK, three |-> OK, zero |-> V, neg |-> V, real |-> E],
  imputer  |-> [usual |-> OK, own |-> OK, other |-> V, wrongshape |-> V],
  finder   |-> [usual |-> OK, own |-> OK, other |-> V, notuple |-> V, shortorder |-> V, doubleorder |-> V, wrongshape |-> V],
  priors   |-> [usual |-> OK, given |-> OK, small |-> V],
  holes    |-> [usual |-> OK, frame |-> OK, complete |-> OK, inf |-> V, flat |-> V],
  tensor   |-> [usual |-> OK, free |-> OK, flat |-> V, times |-> V, width |-> V],
  lagends  |-> [usual |-> OK, present |-> OK, back |-> V, same |-> V],
  timeends |-> [usual |-> OK, present |-> OK, back |-> V, same |-> V],
  inner    |-> [usual |-> OK, given |-> OK, other |-> V]
]
Params == [
  DirectLiNGAM |-> [prior_knowledge |-> "know", X |-> "data"],
  ICALiNGAM |-> [X |-> "data"],
  HighDimDirectLiNGAM |-> [J |-> "degree", K |-> "moment", alpha |-> "share", estimate_adj_mat |-> "flag", X |-> "data"],
  RESIT |-> [regressor |-> "model", alpha |-> "nonneg", X |-> "data"],
  BottomUpParceLiNGAM |-> [regressor |-> "optmodel", alpha |-> "nonneg", independence |-> "test", ind_corr |-> "nonneg", prior_knowledge |-> "know", X |-> "data"],
  RCD |-> [max_explanatory_num |-> "posint", cor_alpha |-> "nonneg", ind_alpha |-> "nonneg", shapiro_alpha |-> "nonneg", bw_method |-> "width", independence |-> "test", ind_corr |-> "nonneg", X |-> "data"],
  MultiGroupRCD |-> [max_explanatory_num |-> "posint", cor_alpha |-> "nonneg", ind_alpha |-> "nonneg", shapiro_alpha |-> "nonneg", bw_method |-> "width", independence |-> "test", ind_corr |-> "nonneg", X_list |-> "groups"],
  CAMUV |-> [num_explanatory_vals |-> "posint", alpha |-> "nonneg", independence |-> "test", ind_corr |-> "nonneg", X |-> "data"],
  MultiGroupCAMUV |-> [num_explanatory_vals |-> "posint", alpha |-> "nonneg", independence |-> "test", ind_corr |-> "nonneg", X_list |-> "groups"],
  MultiGroupDirectLiNGAM |-> [prior_knowledge |-> "know", X_list |-> "groups"],
  LongitudinalLiNGAM |-> [prior_knowledge |-> "tensor", X_list |-> "twotimes"],
  LongitudinalLiNGAM_free |-> [X_list |-> "times"],
  bootstrap_Longitudinal |-> [X_list |-> "times"],
  simulator_train |-> [cd_algo_name |-> "algo", models |-> "learners"],
  simulator_train_discrete |-> [models |-> "judges"],
  simulator_run |-> [changing_exog |-> "noises", changing_models |-> "changes"],
  CausalEffect |-> [causal_model |-> "graph", pred_model |-> "predictor"],
  CausalEffect_optimal |-> [causal_model |-> "graph", pred_model |-> "linear"],
  cdg_fit |-> [X |-> "frame", cause |-> "column", effect |-> "column", model_cause |-> "regressor", model_effect |-> "regressor"],
  cdg_generate |-> [interv_endog |-> "settings", interv_exog |-> "settings", cause_model |-> "callback", effect_model |-> "callback"],
  calculate_distance_from_root_nodes |-> [adjacency_matrix |-> "rooted", max_distance |-> "limit"],
  calculate_total_effect |-> [adjacency_matrix |-> "square", ends |-> "ends", is_continuous |-> "kindsof"],
  evaluate_model_fit |-> [adjacency_matrix |-> "square", X |-> "sample", is_ordinal |-> "ordinal"],
  make_dot |-> [adjacency_matrix |-> "square", labels |-> "labels", path |-> "route", detect_cycle |-> "switch", prediction |-> "coefs"],
  make_dot_highlight |-> [adjacency_matrix |-> "square", node_index |-> "node", labels |-> "labels", max_dsc |-> "depth", max_anc |-> "depth", path |-> "route",
                          detect_cycle |-> "switch", draw_others |-> "switch", vmargin |-> "margin", hmargin |-> "margin"],
  bootstrap_with_imputation |-> [n_sampling |-> "repeats", n_repeats |-> "copies", imp |-> "imputer", cd_model |-> "finder", prior_knowledge |-> "priors", X |-> "holes"],
  VARLiNGAM |-> [lingam_model |-> "inner", X |-> "data"],
  bootstrap_Direct |-> [n_sampling |-> "draws", X |-> "data"],
  bootstrap_Parce |-> [n_sampling |-> "draws", X |-> "data"],
  bootstrap_RCD |-> [n_sampling |-> "draws", X |-> "data"],
  bootstrap_MultiDirect |-> [n_sampling |-> "draws", X_list |-> "groups"],
  bootstrap_MultiRCD |-> [n_sampling |-> "draws", X_list |-> "groups"]
] @@ [o \in {"of_Plain.get_causal_direction_counts", "of_VAR.get_causal_direction_counts", "of_Longitudinal.get_causal_direction_counts"} |->
        [n_directions |-> "most", min_causal_effect |-> "least"]]
  @@ [o \in {"of_Plain.get_directed_acyclic_graph_counts", "of_VAR.get_directed_acyclic_graph_counts", "of_Longitudinal.get_directed_acyclic_graph_counts"} |->
        [n_dags |-> "most", min_causal_effect |-> "least"]]
  @@ [o \in {r \o m : r \in {"of_Plain", "of_VAR", "of_Longitudinal"}, m \in {".get_probabilities", ".get_total_causal_effects"}} \cup {"of_Plain.get_paths"} |->
        [min_causal_effect |-> "least"]]
  @@ ("of_VAR.get_paths" :> [min_causal_effect |-> "least", ends |-> "lagends"]) @@ ("of_Longitudinal.get_paths" :> [min_causal_effect |-> "least", ends |-> "timeends"])
Usual(op) == [p \in DOMAIN Params[op] |-> "usual"]
Verdicts(op, req) == {Kinds[Params[op][p]][req[p]] : p \in DOMAIN Params[op]}
Outcomes(op, req) == LET f == Verdicts(op, req) \ {OK} IN IF f = {} THEN {OK} ELSE f
\* a request is asked, then answered
VARIABLES cop, creq, cst
cvars == <<cop, creq, cst>>
CStart(op, req) == cop = op /\ creq = req /\ cst = "asked"
CAnswer == cst = "asked" /\ cst' \in Outcomes(cop, creq) /\ UNCHANGED <<cop, creq>>
=============================================================================
