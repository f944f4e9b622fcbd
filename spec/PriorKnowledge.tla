--------------------------- MODULE PriorKnowledge ---------------------------
(* Prior-knowledge matrices: PK[t][f] = 1 "f has a directed path to t",
   0 "f has no directed path to t", -1 nothing known.                        *)
EXTENDS Integers, Sequences, FiniteSets

Vars(pk) == 1..Len(pk)
\* pairs <<first, second>>: first has to come before second
PathPairs(pk) == {<<f, t>> \in Vars(pk) \X Vars(pk) : pk[t][f] = 1}
NoPathPairs(pk) == {<<t, f>> \in Vars(pk) \X Vars(pk) : t # f /\ pk[t][f] = 0 /\ pk[f][t] # 0}
Precedence(pk) == PathPairs(pk) \cup NoPathPairs(pk)
Contradictory(pk) == \E a, b \in Vars(pk) : pk[a][b] = 1 /\ pk[b][a] = 1

RECURSIVE Closure(_)
Closure(R) == LET S == R \cup {<<p[1], q[2]>> : <<p, q>> \in {x \in R \X R : x[1][2] = x[2][1]}}
              IN IF S = R THEN R ELSE Closure(S)
CyclicPrecedence(pk) == \E p \in Closure(Precedence(pk)) : p[1] = p[2]

PosOf(order, v) == CHOOSE k \in 1..Len(order) : order[k] = v
\* order may be a sequence of variables, or start with one block of unordered
\* variables: level[v] is the position of the entry containing v
RespectsOrder(pk, level, unordered) == \A p \in Precedence(pk) :
    (p[1] \in unordered /\ p[2] \in unordered) \/ level[p[1]] < level[p[2]]
\* B: 0 no edge, otherwise an edge (NaN entries are given as 0 here)
NoForbiddenEdge(pk, B) == \A t, f \in Vars(pk) : (t # f /\ pk[t][f] = 0) => B[t][f] = 0

\* the helper: statements applied in the order no-path, path, sink, exogenous
MakePK(n, exo, sinks, paths, nopaths) ==
    [t \in 1..n |-> [f \in 1..n |->
        IF t = f THEN -1
        ELSE IF t \in exo THEN 0
        ELSE IF f \in sinks THEN 0
        ELSE IF <<f, t>> \in paths THEN 1
        ELSE IF <<f, t>> \in nopaths THEN 0 ELSE -1]]
=============================================================================
