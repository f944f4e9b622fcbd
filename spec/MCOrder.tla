------------------------------ MODULE MCOrder ------------------------------
EXTENDS Order
CONSTANT N
Init == OStart(N)
Spec == Init /\ [][ONext]_ovars
\* the user-level statement does not depend on how the order was found:
\* any permutation with forward edges only is acyclic
AllM == [1..N -> [1..N -> {0, 1}]]
AllO == {[k \in 1..N |-> <<f[k]>>] : f \in {f \in [1..N -> 1..N] : IsInjective(f)}}
ASSUME N > 3 \/ \A M \in AllM, o \in AllO : ForwardOnly(o, M) => Acyclic(M)
=============================================================================
