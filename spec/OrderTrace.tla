----------------------------- MODULE OrderTrace ----------------------------
(* Decides recorded (order, graphs) pairs of every order-based estimator.    *)
EXTENDS Order, Json
T == JsonDeserialize("traces.json").traces
VARIABLES tid, done
Clauses(t) ==
    IF t.out # "ok" THEN {t.out}
    ELSE IF ~IsPermutation(t.n, t.order) THEN {"order-is-not-a-permutation"}
    ELSE (IF BlockLeads(t.order) THEN {} ELSE {"undecided-block-not-first"})
         \cup UNION {
           (IF Len(M) = t.n /\ \A r \in 1..Len(M) : Len(M[r]) = t.n THEN
              (IF ForwardOnly(t.order, M) THEN {} ELSE {"edge-against-the-order"})
              \cup (IF t.nanok = 1 \/ NanOnlyInBlock(t.order, M) THEN {} ELSE {"unexpected-nan"})
              \cup (IF Acyclic(M) THEN {} ELSE {"cyclic-graph"})
            ELSE {"wrong-shape"}) : M \in ToSet(t.mats)}
Init == \E k \in 1..Len(T) : tid = k /\ done = FALSE /\ OStart(T[k].n)
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<tid, ovars>>
        /\ PrintT(<<"JUDGED", ToJson([tid |-> tid, bad |-> SetToSeq(Clauses(T[tid]))])>>)
Spec == Init /\ [][Next]_<<ovars, tid, done>>
=============================================================================
