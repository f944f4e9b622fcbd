----------------------------- MODULE MCBottomUp -----------------------------
EXTENDS BottomUp
CONSTANTS N, MODES
OffD == {<<i, j>> \in (1..N) \X (1..N) : i # j}
AllPK == {[i \in 1..N |-> [j \in 1..N |-> IF i = j THEN -1 ELSE f[<<i, j>>]]] : f \in [OffD -> {-1, 0, 1}]}
Init == \E pk \in AllPK, m \in MODES : UStart([n |-> N, pk |-> pk, mode |-> m])
Next == CheckPK \/ GiveUp \/ NoCandidate \/ LastOne \/ \E m \in 1..N : Peel(m)
Spec == Init /\ [][Next]_uvars /\ WF_uvars(Next)
Terminates == <>(st \in {"done", "ValueError"})
=============================================================================
