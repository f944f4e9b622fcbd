------------------------------ MODULE BottomUp ------------------------------
(* Bottom-up search of BottomUpParceLiNGAM.  Sinks are peeled off one at a
   time; the first time even the most independent candidate is rejected, all
   variables left form one block whose mutual order stays unknown.           *)
EXTENDS PriorKnowledge, FiniteSetsExt, SequencesExt, TLC
VARIABLES prob, U, bottom, open, st
uvars == <<prob, U, bottom, open, st>>

UStart(q) == prob = q /\ U = 1..q.n /\ bottom = <<>> /\ open = {} /\ st = "check"
CheckPK == /\ st = "check"
           /\ IF prob.mode = "hard" /\ Contradictory(prob.pk)
              THEN st' = "ValueError" /\ open' = {}
              ELSE st' = "run" /\ open' = IF prob.mode = "hard" THEN Precedence(prob.pk) ELSE {}
           /\ UNCHANGED <<prob, U, bottom>>
Cand == U \ {p[1] : p \in open}
\* regressors used when j is examined as a sink
Against(j) == IF Cardinality(Cand) = 1 THEN U \ {j} ELSE Cand \ {j}

Peel(m) == /\ st = "run" /\ Cardinality(U) > 1 /\ m \in Cand
           /\ U' = U \ {m} /\ bottom' = <<m>> \o bottom
           /\ open' = {p \in open : p[2] # m}
           /\ UNCHANGED <<prob, st>>
GiveUp == /\ st = "run" /\ Cardinality(U) > 1 /\ Cand # {}
          /\ st' = "done" /\ UNCHANGED <<prob, U, bottom, open>>
NoCandidate == /\ st = "run" /\ Cardinality(U) > 1 /\ Cand = {}
               /\ st' \in {"ValueError", "done"} /\ UNCHANGED <<prob, U, bottom, open>>
LastOne == /\ st = "run" /\ Cardinality(U) = 1
           /\ bottom' = SetToSeq(U) \o bottom /\ U' = {} /\ st' = "done"
           /\ UNCHANGED <<prob, open>>

\* result: block of unknown order (empty or at least two variables), then bottom
Block == U
LevelB == [v \in 1..prob.n |-> IF v \in U THEN 0 ELSE PosOf(bottom, v)]
Partition == U \cap ToSet(bottom) = {} /\ U \cup ToSet(bottom) = 1..prob.n
             /\ Len(bottom) + Cardinality(U) = prob.n
BlockShape == st = "done" => Cardinality(U) # 1
HardRespected == (st = "done" /\ prob.mode = "hard") => RespectsOrder(prob.pk, LevelB, U)
NoCandOnlyIfCyclic == (st = "run" /\ U # {} /\ Cand = {}) => CyclicPrecedence(prob.pk)
Before(v) == {w \in 1..prob.n : LevelB[w] < LevelB[v]}
Predictors(v) == IF v \in U THEN {} ELSE {p \in Before(v) : prob.mode = "none" \/ prob.pk[v][p] # 0}
=============================================================================
