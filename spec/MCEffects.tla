----------------------------- MODULE MCEffects -----------------------------
EXTENDS Effects
CONSTANTS K
W == {-1, 0, 1, 2}
LowB == [{<<i, j>> \in (1..K) \X (1..K) : j < i} -> W]
Init == \E L \in LowB : \E f, t \in 1..K : f # t /\
          EStart([B |-> [i \in 1..K |-> [j \in 1..K |-> IF j < i THEN L[<<i, j>>] ELSE 0]], d |-> [i \in 1..K |-> i], fr |-> f, to |-> t])
Next == Answer
Spec == Init /\ [][Next]_evars
=============================================================================
