--------------------------- MODULE BottomUpTrace ---------------------------
(* Decides a recorded fit of BottomUpParceLiNGAM.  Oracle tables:
   dep[j][P]  dependence of the residual of j on the predictors P (integer,
              larger is more dependent), P = 1 + bit mask
   rej[j][P]  1 the test rejects, 0 it does not, 2 too close to call
   rowok[j][P] as in DirectTrace.                                            *)
EXTENDS BottomUp, Json
Data == JsonDeserialize("traces.json")
T == Data.traces
VARIABLES tid, bad
tr == T[tid]
Init == \E k \in 1..Len(T) : tid = k /\ bad = {} /\ UStart([n |-> T[k].n, pk |-> T[k].pk, mode |-> T[k].mode])
Mask(S) == FoldSet(LAMBDA v, a : a + 2^(v - 1), 1, S)
Dep(j) == tr.dep[j][Mask(Against(j))]
Rej(j) == tr.rej[j][Mask(Against(j))]
BestDep == Min({Dep(j) : j \in Cand})
Best == {j \in Cand : Dep(j) <= BestDep + tr.tol}

Wellformed == /\ tr.out = "ok"
              /\ ToSet(tr.block) \cap ToSet(tr.order) = {}
              /\ ToSet(tr.block) \cup ToSet(tr.order) = 1..tr.n
              /\ Len(tr.block) + Len(tr.order) = tr.n
              /\ Len(tr.block) # 1
Left == Len(tr.order) - Len(bottom)      \* recorded positions not explained yet
Step(act, b) == act /\ bad' = b /\ UNCHANGED tid
Flag(x) == bad' = {x} /\ UNCHANGED <<uvars, tid>>
\* follow the recorded order from its end; on an error outcome follow the oracle
FollowOK ==
    IF Left > 0 /\ ~(Left = 1 /\ Cardinality(U) = 1)
    THEN LET m == tr.order[Left] IN
         IF m \notin Cand THEN Flag("peeled-an-inadmissible-variable")
         ELSE IF Cardinality(Cand) > 1 /\ m \notin Best THEN Flag("peeled-a-variable-that-is-not-most-independent")
         ELSE IF Rej(m) = 1 THEN Flag("peeled-a-rejected-variable")
         ELSE Step(Peel(m), bad)
    ELSE IF \E j \in Best : Rej(j) # 0 THEN Step(GiveUp, bad)
         ELSE Flag("stopped-although-not-rejected")
FollowErr == LET m == CHOOSE j \in Best : TRUE
             IN IF Rej(m) = 1 THEN Step(GiveUp, bad) ELSE Step(Peel(m), bad)
Follow == /\ st = "run" /\ Cardinality(U) > 1 /\ Cand # {}
          /\ IF tr.out = "ok" THEN FollowOK ELSE FollowErr
NoCandT == /\ st = "run" /\ Cardinality(U) > 1 /\ Cand = {}
           /\ NoCandidate /\ st' = (IF tr.out = "ok" THEN "done" ELSE "ValueError") /\ UNCHANGED <<tid, bad>>

Ended == st \in {"done", "ValueError", "judged"} \/ bad # {} \/ (tr.out = "ok" /\ ~Wellformed)
NanOK == \A i, j \in 1..tr.n : (tr.nan[i][j] = 1) <=> (i # j /\ i \in U /\ j \in U)
BlockRowsZero == \A v \in U : \A j \in 1..tr.n : tr.nan[v][j] = 1 \/ tr.nz[v][j] = 0
RowClauses == (IF NanOK THEN {} ELSE {"unknown-pairs-not-exactly-the-block"})
    \cup (IF BlockRowsZero THEN {} ELSE {"coefficient-inside-or-into-the-block"})
    \cup (IF \A v \in (1..tr.n) \ U : tr.rowok[v][Mask(Predictors(v))] = 1
          THEN {} ELSE {"row-not-the-regression-on-admissible-predecessors"})
Verdict ==
    IF bad # {} THEN bad
    ELSE IF st = "ValueError" THEN (IF tr.out = "ValueError" THEN {} ELSE {"contradictory-prior-knowledge-accepted"})
    ELSE IF tr.out # "ok" THEN {"unexpected-" \o tr.out}
    ELSE IF ~Wellformed THEN {"order-is-not-a-permutation-with-one-leading-block"}
    ELSE IF ToSet(tr.block) # U \/ tr.order # bottom THEN {"order-disagrees"}
    ELSE RowClauses
Judge == /\ Ended /\ st # "judged"
         /\ PrintT(<<"JUDGED", ToJson([tid |-> tid, bad |-> SetToSeq(Verdict)])>>)
         /\ st' = "judged" /\ UNCHANGED <<prob, U, bottom, open, tid, bad>>
Next == Judge \/ (~Ended /\ (CheckPK \/ LastOne) /\ UNCHANGED <<tid, bad>>) \/ (~Ended /\ (NoCandT \/ Follow))
Spec == Init /\ [][Next]_<<uvars, tid, bad>>
=============================================================================
