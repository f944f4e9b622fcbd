----------------------------- MODULE DirectTrace -----------------------------
(* Decides a recorded fit: was every variable placed in the recorded order the
   admissible candidate of lowest cost, and does every coefficient row come
   from the regression on exactly the admissible predecessors?
   Oracle tables (per data set d): cost[d][S][i][j][v], S = 1 + bit mask of the
   placed variables, v = 2 for an unaffected j; size[d] its weight;
   rowok[d][t][P] = 1 iff the recorded row of t is the regression of t on the
   predictors with bit mask P-1.  For many variables (path = 1) only the costs
   along the recorded order are given, cost[d][1 + number placed], and the rows
   are compared with the regression on the predictors pset[v].               *)
EXTENDS DirectSearch, Json
Data == JsonDeserialize("traces.json")
T == Data.traces
VARIABLES tid, bad
tr == T[tid]
Init == \E k \in 1..Len(T) : tid = k /\ bad = {} /\ DStart([n |-> T[k].n, pk |-> T[k].pk, mode |-> T[k].mode])

Pow2(k) == 2^k
Mask(S) == FoldSet(LAMBDA v, a : a + Pow2(v - 1), 1, S)
CostD(d, i) == FoldSet(LAMBDA j, a : a + tr.cost[d][IF tr.path = 1 THEN Len(K) + 1 ELSE Mask(ToSet(K))][i][j][IF j \in Unaffected THEN 2 ELSE 1], 0, U \ {i})
Cost(i) == FoldSet(LAMBDA d, a : a + tr.size[d] * CostD(d, i), 0, 1..Len(tr.size))
Best == Min({Cost(i) : i \in Cand})

Wellformed == tr.out # "ok" \/ (Len(tr.order) = tr.n /\ ToSet(tr.order) = 1..tr.n)
Choice == IF tr.out = "ok" THEN tr.order[Len(K) + 1]
          ELSE CHOOSE m \in Cand : Cardinality(Cand) = 1 \/ Cost(m) = Best
Follow == /\ st = "run" /\ U # {} /\ Cand # {}
          /\ IF Choice \notin Cand
             THEN bad' = {"placed-an-inadmissible-variable"} /\ UNCHANGED dvars
             ELSE IF Cardinality(Cand) > 1 /\ Cost(Choice) > Best + tr.tol
             THEN bad' = {"placed-a-variable-that-is-not-the-best-candidate"} /\ UNCHANGED dvars
             ELSE Place(Choice) /\ bad' = bad
          /\ UNCHANGED tid

Lost == tr.path = 1 /\ tr.out # "ok"
Ended == Lost \/ st \in {"done", "ValueError", "judged"} \/ bad # {} \/ ~Wellformed
RowClauses == {x \in {"row-not-the-regression-on-admissible-predecessors"} :
    ~(\A d \in 1..Len(tr.rowok), v \in 1..tr.n :
        IF tr.path = 1 THEN tr.rowok[d][v][1] = 1 /\ ToSet(tr.pset[v]) = Predictors(v) ELSE tr.rowok[d][v][Mask(Predictors(v))] = 1)}
Verdict ==
    IF bad # {} THEN bad
    ELSE IF Lost THEN {"unexpected-" \o tr.out}
    ELSE IF st = "ValueError" THEN (IF tr.out = "ValueError" THEN {} ELSE {"inconsistent-prior-knowledge-accepted"})
    ELSE IF ~Wellformed THEN {"order-is-not-a-permutation"}
    ELSE IF tr.out # "ok" THEN {"unexpected-" \o tr.out}
    ELSE RowClauses
Judge == /\ Ended /\ st # "judged"
         /\ LET b == Verdict IN
               PrintT(<<"JUDGED", ToJson([tid |-> tid, bad |-> SetToSeq(b)])>>)
         /\ st' = "judged" /\ UNCHANGED <<prob, U, K, open, tid, bad>>
Next == Judge \/ (~Ended /\ (CheckPK \/ Stuck \/ Finish) /\ UNCHANGED <<tid, bad>>) \/ (~Ended /\ Follow)
Spec == Init /\ [][Next]_<<dvars, tid, bad>>
=============================================================================
