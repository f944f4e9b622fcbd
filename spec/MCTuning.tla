------------------------------ MODULE MCTuning ------------------------------
EXTENDS Tuning, Json, Randomization
CONSTANTS NV, NC, POOL
Graphs == SUBSET {e \in (1..NV) \X (1..NV) : e[1] < e[2]}
AnyGraphs == SUBSET {e \in (1..NV) \X (1..NV) : e[1] # e[2]}
Cs == 1..NC
Init == \E g \in RandomSubset(POOL, [Cs -> [1..2 -> Graphs]]) \cup RandomSubset(POOL, [Cs -> [1..2 -> AnyGraphs]]),
           o \in [Cs -> 0..1], r \in [Cs -> 1..2], s \in [Cs -> 0..1], p \in 0..1 :
          TStart([n |-> NV, k |-> NC, f |-> 2, graphs |-> g, others |-> o, rank |-> r, similar |-> [b \in Cs |-> s], penalty |-> p])
Next == Evaluate \/ Evaluated \/ Tested \/ \E c \in C : Test(c)
Spec == Init /\ [][Next]_tvars /\ WF_tvars(Next)
Terminates == <>(ph = "done")
=============================================================================
