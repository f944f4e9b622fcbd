--------------------------- MODULE MCTimeSeries ----------------------------
EXTENDS TimeSeries
CONSTANTS W, W1, WO, E, TMax
Mat(S) == [1..2 -> [1..2 -> S]]
Init == \E B0 \in Mat(W), B1 \in Mat(W1), O1 \in Mat(WO) :
          B0[1][1] = 0 /\ B0[2][2] = 0 /\ (B0[1][2] = 0 \/ B0[2][1] = 0)
          /\ TStart([B0 |-> B0, B |-> <<B1>>, O |-> <<O1>>])
Next == Len(xs) < TMax /\ \E e \in [1..2 -> E] : Emit(e)
Spec == Init /\ [][Next]_tvars
=============================================================================
