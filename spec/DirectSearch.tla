---------------------------- MODULE DirectSearch ----------------------------
(* Top-down search for a causal order (DirectLiNGAM, one or several data sets):
   at every step the admissible candidate of lowest cost is taken to be
   exogenous among the remaining variables.  cost is an oracle: the statistical
   evidence computed from the data.                                          *)
EXTENDS PriorKnowledge, FiniteSetsExt, SequencesExt, TLC
VARIABLES prob,  \* [n, pk, mode]; mode in {"none", "hard", "soft"}
          U,     \* variables without a position yet
          K,     \* causal order so far
          open,  \* precedence constraints whose first variable is not placed
          st     \* "check" | "run" | "done" | "ValueError"
dvars == <<prob, U, K, open, st>>

DStart(q) == prob = q /\ U = 1..q.n /\ K = <<>> /\ open = {} /\ st = "check"

CheckPK == /\ st = "check"
           /\ IF prob.mode = "hard" /\ Contradictory(prob.pk)
              THEN st' = "ValueError" /\ open' = {}
              ELSE /\ st' = "run"
                   /\ open' = IF prob.mode = "hard" THEN Precedence(prob.pk) ELSE {}
           /\ UNCHANGED <<prob, U, K>>

Known0(t, S) == \A f \in S : prob.pk[t][f] = 0
SoftExo == {j \in U : Known0(j, U \ {j})}
SoftEnd == {j \in U : \E f \in U \ {j} : prob.pk[j][f] = 1}
           \cup {i \in U : \A t \in U \ {i} : prob.pk[t][i] = 0}
Cand == CASE prob.mode = "none" -> U
          [] prob.mode = "hard" -> U \ {p[2] : p \in open}
          [] prob.mode = "soft" -> IF SoftExo # {} THEN SoftExo ELSE U \ SoftEnd
\* variables known not to be affected by any candidate
Unaffected == IF prob.mode # "soft" THEN {} ELSE {i \in U \ Cand : Known0(i, Cand)}

Place(m) == /\ st = "run" /\ m \in Cand
            /\ K' = Append(K, m) /\ U' = U \ {m}
            /\ open' = {p \in open : p[1] # m}
            /\ UNCHANGED <<prob, st>>
Stuck == st = "run" /\ U # {} /\ Cand = {} /\ st' = "ValueError" /\ UNCHANGED <<prob, U, K, open>>
Finish == st = "run" /\ U = {} /\ st' = "done" /\ UNCHANGED <<prob, U, K, open>>

\* ---- properties ----------------------------------------------------------
Partition == U \cap ToSet(K) = {} /\ U \cup ToSet(K) = 1..prob.n /\ Len(K) + Cardinality(U) = prob.n
Permutation == st = "done" => ToSet(K) = 1..prob.n /\ Len(K) = prob.n
Level == [v \in 1..prob.n |-> PosOf(K, v)]
HardRespected == (st = "done" /\ prob.mode = "hard") => RespectsOrder(prob.pk, Level, {})
RejectedIffInconsistent == prob.mode = "hard" =>
    /\ st = "ValueError" => CyclicPrecedence(prob.pk)
    /\ st = "done" => ~CyclicPrecedence(prob.pk) /\ ~Contradictory(prob.pk)
\* the predictors that may receive a coefficient in the regression of v
Predictors(v) == {p \in {K[k] : k \in 1..(PosOf(K, v) - 1)} : prob.mode = "none" \/ prob.pk[v][p] # 0}
=============================================================================
