--------------------------- MODULE MCIntervention --------------------------
EXTENDS Intervention
CONSTANTS K, W
Init == \E B \in [1..K -> [1..K -> W]] : \E i \in 1..K :
          (\A k \in 1..K : B[k][k] = 0) /\ NStart([B |-> B, i |-> i, v |-> 3, e |-> [k \in 1..K |-> k]])
Next == \E k \in todo : Evaluate(k)
Spec == Init /\ [][Next]_nvars
=============================================================================
