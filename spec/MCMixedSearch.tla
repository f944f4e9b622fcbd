--------------------------- MODULE MCMixedSearch ---------------------------
EXTENDS MixedSearch, Json, Randomization
CONSTANTS NV, TOP, TABLES, STARTS
Tabs == RandomSubset(TABLES, [1..NV -> [1..2^NV -> 0..TOP]])
Oriented == {E \in SUBSET {e \in (1..NV) \X (1..NV) : e[1] # e[2]} : \A e \in E : Back(e) \notin E}
Pool == IF STARTS = 0 THEN Oriented ELSE RandomSubset(STARTS, Oriented)
Init == \E E \in Pool, t \in Tabs, p \in 0..2 :
          MStart([n |-> NV, pen |-> p, sc |-> t, tol |-> 0, start |-> E])
\* candidates are looked at in any order if few, else in one order
Next == Advance \/ (IF Cardinality(todo) <= 4 THEN \E c \in todo : Look(c) ELSE Look(CHOOSE c \in todo : TRUE))
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)
Terminates == <>(ph = "done")
Emit == ph = "turn" /\ best = w.start /\ todo = Turned(w.start) => PrintT(<<"CASE", ToJson([start |-> w.start])>>)
=============================================================================
