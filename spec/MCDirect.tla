------------------------------ MODULE MCDirect ------------------------------
EXTENDS DirectSearch, Json
CONSTANTS N, MODES
OffD == {<<i, j>> \in (1..N) \X (1..N) : i # j}
AllPK == {[i \in 1..N |-> [j \in 1..N |-> IF i = j THEN -1 ELSE f[<<i, j>>]]] : f \in [OffD -> {-1, 0, 1}]}
Init == \E pk \in AllPK, m \in MODES : DStart([n |-> N, pk |-> pk, mode |-> m])
Next == CheckPK \/ Stuck \/ Finish \/ \E m \in 1..N : Place(m)
Spec == Init /\ [][Next]_dvars /\ WF_dvars(Next)
Terminates == <>(st \in {"done", "ValueError"})
Emit == st \in {"done", "ValueError"} =>
    PrintT(<<"CASE", ToJson([pk |-> prob.pk, mode |-> prob.mode, st |-> st, K |-> K])>>)
=============================================================================
