------------------------------ MODULE MCRESIT ------------------------------
EXTENDS RESIT
CONSTANT N
Init == SStart(N)
Next == (\E v \in S : Take(v)) \/ StartPrune \/ NextVar \/ Keep \/ Drop \/ Finish
Spec == Init /\ [][Next]_svars /\ WF_svars(Next)
Terminates == <>(st = "done")
=============================================================================
