----------------------------- MODULE RESITTrace ----------------------------
(* dep[v][P] dependence of the residual of v on P (1 + bit mask);
   ind[v][P] 1 the residual is independent of P, 0 not, 2 too close to call   *)
EXTENDS RESIT, Json
T == JsonDeserialize("traces.json").traces
VARIABLES tid, res
tr == T[tid]
Mask(A) == FoldSet(LAMBDA v, a : a + 2^(v - 1), 1, A)
Init == \E q \in 1..Len(T) : tid = q /\ res = "open" /\ SStart(T[q].n)
Do(a) == a /\ UNCHANGED <<tid, res>>
Flag(x) == res' = x /\ UNCHANGED <<svars, tid>>
PermOK == Len(tr.order) = tr.n /\ ToSet(tr.order) = 1..tr.n
Dep(v) == tr.dep[v][Mask(S \ {v})]
Best == {v \in S : Dep(v) <= Min({Dep(w) : w \in S}) + tr.tol}
Follow == LET v == tr.order[Cardinality(S)] IN
          IF Cardinality(S) = 1 THEN Do(Take(v))
          ELSE IF v \in Best THEN Do(Take(v)) ELSE Flag("took-a-variable-that-is-not-most-independent")
PruneT == IF Others = {} THEN Do(Keep)
          ELSE LET d == tr.ind[order[k]][Mask(Others)]
               IN IF d = 2 THEN Flag("unsure") ELSE IF d = 1 THEN Do(Drop) ELSE Do(Keep)
Run == /\ res = "open" /\ tr.out = "ok" /\ PermOK /\ st # "done"
       /\ IF st = "order" THEN (IF S = {} THEN Do(StartPrune) ELSE Follow)
          ELSE IF todo # <<>> THEN PruneT ELSE Do(NextVar \/ Finish)
Verdict == IF tr.out # "ok" THEN {"unexpected-" \o tr.out}
           ELSE IF ~PermOK THEN {"order-is-not-a-permutation"}
           ELSE IF res = "unsure" THEN {}
           ELSE IF res # "open" THEN {res}
           ELSE IF \A i, j \in 1..n : tr.adj[i][j] = (IF j \in pa[i] THEN 1 ELSE 0) THEN {} ELSE {"edges-disagree"}
Judge == /\ res # "judged" /\ (tr.out # "ok" \/ ~PermOK \/ res # "open" \/ st = "done")
         /\ PrintT(<<"JUDGED", ToJson([tid |-> tid, bad |-> SetToSeq(Verdict)])>>)
         /\ res' = "judged" /\ UNCHANGED <<svars, tid>>
Next == Judge \/ Run
Spec == Init /\ [][Next]_<<svars, tid, res>>
=============================================================================
