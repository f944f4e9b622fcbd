------------------------------ MODULE MCCAMUV ------------------------------
EXTENDS CAMUV
CONSTANTS N, TMAX, BAN
W == 1..N
Nears == {f \in [W -> SUBSET W] : \A i, j \in W : (i \in f[j] <=> j \in f[i]) /\ i \notin f[i]}
Init == \E nb \in Nears : \E b \in SUBSET {p \in W \X W : p[1] # p[2]} :
          Cardinality(b) <= BAN /\ CStart([n |-> N, tmax |-> TMAX, near |-> nb, ban |-> b])
Next == Skip \/ EndSweep \/ Finish
        \/ (AtSet /\ \E c \in Cur : Attach(Cur, c))
        \/ (st = "prune" /\ pos <= N /\ \E D \in SUBSET P[pos] : Prune(D))
Spec == Init /\ [][Next]_cvars /\ WF_cvars(Next)
Terminates == <>(st = "done")
=============================================================================
