---------------------------- MODULE MCBootStats ----------------------------
EXTENDS BootStats
CONSTANTS W, R
W4 == {0, 1, -2, NAN}
Mats == {[i \in 1..2 |-> [j \in 1..2 |-> IF i = j THEN 0 ELSE f[<<i, j>>]]] : f \in [{<<1,2>>, <<2,1>>} -> W]}
Init == \E Bs \in [1..R -> Mats], h \in {0, 2}, s \in BOOLEAN :
           BStart([kind |-> "all", Bs |-> Bs, thr2 |-> h, split |-> s])
Spec == Init /\ [][Read]_bvars
=============================================================================
