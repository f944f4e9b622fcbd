---------------------------- MODULE MCBootstrap ----------------------------
EXTENDS Bootstrap
CONSTANTS ROWS, K
Init == \E md \in {"separate", "common"} : BStart([rows |-> <<ROWS, ROWS>>, k |-> K, mode |-> md])
Next == (\E a, b \in [1..ROWS -> 1..ROWS] : Draw(<<a, b>>)) \/ Fit \/ Store \/ Return
Spec == Init /\ [][Next]_bvars /\ WF_bvars(Next)
Terminates == <>(st = "done")
=============================================================================
