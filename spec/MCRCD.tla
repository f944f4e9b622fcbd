------------------------------- MODULE MCRCD -------------------------------
EXTENDS RCD
CONSTANTS N, LMAX
Init == \E lm \in 1..LMAX : RStart(N, lm)
Next == Skip \/ EndSweep \/ (AtSet /\ \E s \in SUBSET Eligible(Cur) : Examine(Cur, s))
Spec == Init /\ [][Next]_rvars /\ WF_rvars(Next)
Terminates == <>(st = "done")
=============================================================================
