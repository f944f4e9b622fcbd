----------------------------- MODULE MCIcaOrder -----------------------------
(* all matchings and all size patterns within small constants *)
EXTENDS IcaOrder, Json, Randomization
CONSTANTS NV, TOP, RANDOM
\* sizes follow from a matrix of absolute weights in 1..TOP: |W(r,c)| * 60 / |W(r,p)|
Weights == [1..NV -> [1..NV -> 0..TOP]]
Derived(m) ==
    [n |-> NV, tol |-> 0, m |-> m,
     cost |-> [r \in 1..NV |-> [p \in 1..NV |-> IF m[r][p] = 0 THEN 1000000 ELSE 5040 \div m[r][p]]],
     size |-> [r \in 1..NV |-> [p \in 1..NV |-> [c \in 1..NV |->
                 IF m[r][p] = 0 THEN 1000000 ELSE (5040 * m[r][c]) \div m[r][p]]]]]
Pool == IF RANDOM = 0 THEN Weights ELSE RandomSubset(RANDOM, Weights)
Init == \E m \in Pool : IStart(Derived(m)) /\ LeastCost < 1000000
Next == Match \/ DropOne \/ Acyc \/ \E v \in V : Peel(v)
Spec == Init /\ [][Next]_ivars /\ WF_ivars(Next)
Terminates == <>(ph = "done")
Emit == ph = "done" => PrintT(<<"CASE", ToJson([m |-> w.m])>>)
=============================================================================
