------------------------------ MODULE IcaTrace ------------------------------
(* Decides a recorded fit of ICALiNGAM: the causal order must be one the
   specification can produce for the unmixing matrix, and every row of the
   adjacency matrix the regression on the variables before it.              *)
EXTENDS IcaOrder, Json
T == JsonDeserialize("traces.json").traces
VARIABLE tid
tr == T[tid]
Init == \E k \in 1..Len(T) : tid = k /\ IStart([n |-> T[k].n, tol |-> T[k].tol, cost |-> T[k].cost, size |-> T[k].size])
Bits(S) == FoldSet(LAMBDA v, a : a + 2^(v - 1), 1, S)
IsPerm == Len(tr.order) = N /\ ToSet(tr.order) = V
OrderAllowed == \E f \in Matches : \E k \in First..(N * N - 1) : \E E \in KeptSets(f, k) :
    /\ Topological(E, tr.order)
    /\ k = First \/ \E D \in KeptSets(f, k - 1) : E \subseteq D /\ ~AcyclicE(D)
Before(k) == {tr.order[a] : a \in 1..(k - 1)}
Bad ==
    IF tr.out # "ok" THEN {"unexpected-" \o tr.out}
    ELSE IF ~IsPerm THEN {"causal-order-is-not-a-permutation"}
    ELSE (IF OrderAllowed THEN {} ELSE {"causal-order-contradicts-a-kept-effect"})
      \cup (IF tr.rows = <<>> \/ \A k \in V : tr.rows[tr.order[k]][Bits(Before(k))] = 1
            THEN {} ELSE {"row-not-the-regression-on-the-variables-before-it"})
Judge == /\ ph = "match" /\ PrintT(<<"JUDGED", ToJson([tid |-> tid, bad |-> SetToSeq(Bad)])>>)
         /\ ph' = "judged" /\ UNCHANGED <<w, match, dropped, kept, order, tid>>
Spec == Init /\ [][Judge]_<<ivars, tid>>
=============================================================================
