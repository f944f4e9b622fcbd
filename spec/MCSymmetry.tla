----------------------------- MODULE MCSymmetry ----------------------------
EXTENDS Symmetry
CONSTANTS N, MODES
OffD == {<<i, j>> \in (1..N) \X (1..N) : i # j}
AllPK == {[i \in 1..N |-> [j \in 1..N |-> IF i = j THEN -1 ELSE f[<<i, j>>]]] : f \in [OffD -> {-1, 0, 1}]}
Perms == {f \in [1..N -> 1..N] : \A a, b \in 1..N : f[a] = f[b] => a = b}
Init == \E pk \in AllPK, m \in MODES, f \in Perms :
          SStart([n |-> N, pk |-> pk, mode |-> m], f, [w \in 1..N |-> CHOOSE v \in 1..N : f[v] = w])
Spec == Init /\ [][SNext]_svars
=============================================================================
