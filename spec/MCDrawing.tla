----------------------------- MODULE MCDrawing ------------------------------
EXTENDS Drawing
CONSTANTS NV, LOOPS
Pairs == {e \in (1..NV) \X (1..NV) : LOOPS \/ e[1] # e[2]}
Init == \E e \in SUBSET Pairs, v \in 1..NV, d \in {1, 2}, k \in 0..NV : LStart(e, NV, v, d, k)
Next == Step1
Spec == Init /\ [][Next]_lvars
=============================================================================
