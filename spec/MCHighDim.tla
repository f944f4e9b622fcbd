----------------------------- MODULE MCHighDim -----------------------------
(* The peeling on scrambled dependence tables, next to the peeling of the same
   table with the variables listed otherwise (v called pi[v]): both always
   place every variable once, the cut-off only rises, statistics only fall,
   and the two agree in every choice, statistic and order.                    *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
CONSTANTS N, JJ, SALTS
VARIABLES prob, theta, stat, cut, prob2, theta2, stat2, cut2, pi
Mask(C) == FoldSet(LAMBDA c, a : a + 2^(c - 1), 1, C)
Raw(s, v, k, u) == LET h == (s * 7919 + v * 104729 + k * 1299709 + u * 15485863) % 99991
                   IN 1 + ((h * 31 + (h \div 7) * 17) % 499)
\* where the set of mask k goes when v is called p[v]
Bits(k) == {c \in 1..N : ((k - 1) \div 2^(c - 1)) % 2 = 1}
InvP(p) == [x \in 1..N |-> CHOOSE y \in 1..N : p[y] = x]
Problem(s, p) == LET q == InvP(p) IN
    [n |-> N, J |-> JJ, big |-> 600, up |-> [r \in 1..601 |-> (r - 1) \div 2],
     tau |-> [v \in 1..N |-> [k \in 1..(2^N) |-> LET kk == Mask({q[c] : c \in Bits(k)}) IN [u \in 1..N |-> Raw(s, q[v], kk, q[u])]]]]
A == INSTANCE HighDim
B == INSTANCE HighDim WITH prob <- prob2, theta <- theta2, stat <- stat2, cut <- cut2
vars == <<prob, theta, stat, cut, prob2, theta2, stat2, cut2, pi>>
Init == \E s \in 1..SALTS :
        /\ pi \in {p \in [1..N -> 1..N] : \A a, b \in 1..N : a # b => p[a] # p[b]}
        /\ A!HStart(Problem(s, [x \in 1..N |-> x])) /\ B!HStart(Problem(s, pi))
Next == ((\E r \in 1..N : A!Peel(r) /\ B!Peel(pi[r])) \/ (A!LastOne /\ B!LastOne)) /\ UNCHANGED pi
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Distinct == \A a, b \in 1..Len(theta) : a # b => theta[a] # theta[b]
Monotone == [][cut' >= cut /\ \A v, u \in 1..N : stat'[v][u] <= stat[v][u]]_vars
Terminates == <>(Len(theta) = N)
SameOrder == Len(theta) = Len(theta2) /\ \A k \in 1..Len(theta) : theta2[k] = pi[theta[k]]
SameStats == cut = cut2 /\ \A v, u \in 1..N : stat2[pi[v]][pi[u]] = stat[v][u]
SameChoices == \A r \in 1..N : A!CanPeel(r) <=> B!CanPeel(pi[r])
=============================================================================
