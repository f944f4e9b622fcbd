------------------------------- MODULE Graph -------------------------------
(* Weighted directed graphs as lingam represents them: a matrix B whose entry
   B[i][j] is the direct effect of variable j on variable i.  Entries are
   integers; NAN stands for "not a number" (a pair whose order or whose hidden
   common cause is unknown).  NAN is never an edge.                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions

NAN == 99999

Abs(x) == IF x < 0 THEN -x ELSE x
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Val(x) == IF x = NAN THEN 0 ELSE x

\* thr2 is twice the threshold, so that half-integers can be expressed
IsEdge(B, i, j, thr2) == 2 * Abs(Val(B[i][j])) > thr2

Dim(B) == Len(B)
Nodes(B) == 1..Len(B)
Children(B, j, thr2) == {i \in Nodes(B) : IsEdge(B, i, j, thr2)}
Parents(B, i, thr2) == {j \in Nodes(B) : IsEdge(B, i, j, thr2)}

\* reachability closure: nodes reachable from the set S by one or more edges,
\* never leaving a node of Stop
RECURSIVE ReachFrom(_, _, _, _, _)
ReachFrom(B, thr2, Frontier, Seen, Stop) ==
    LET nxt == UNION {Children(B, j, thr2) : j \in Frontier \ Stop}
    IN  IF nxt \subseteq Seen THEN Seen
        ELSE ReachFrom(B, thr2, nxt \ Seen, Seen \cup nxt, Stop)
Reach(B, thr2, j, Stop) == ReachFrom(B, thr2, {j}, {}, Stop)
Descendants(B, j) == Reach(B, 0, j, {})

\* a cycle can be entered from f before t stops the walk
CycleFrom(B, thr2, f, t) ==
    LET R == Reach(B, thr2, f, {t}) \cup {f}
    IN  \E x \in R \ {t} : x \in Reach(B, thr2, x, {t})

Acyclic(B) == \A x \in Nodes(B) : x \notin Reach(B, 0, x, {})

PathOK(B, thr2, p) == \A k \in 1..(Len(p) - 1) : IsEdge(B, p[k+1], p[k], thr2)
IsSimple(p) == \A a, b \in 1..Len(p) : p[a] = p[b] => a = b

RECURSIVE PathEffect(_, _)
PathEffect(B, p) == IF Len(p) < 2 THEN 1
                    ELSE Val(B[p[2]][p[1]]) * PathEffect(B, Tail(p))

\* declarative set of all paths f -> t (paths end at the first visit of t)
AllPaths(B, thr2, f, t) ==
    LET n == Dim(B)
        Cand == UNION {[1..k -> Nodes(B)] : k \in 2..n}
    IN {p \in Cand : /\ p[1] = f /\ p[Len(p)] = t /\ IsSimple(p) /\ PathOK(B, thr2, p)}

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

\* --- graph queries -------------------------------------------------------
\* NAN counts as an incident (unknown) connection here
Incident(x) == x # 0
Sinks(B) == {j \in Nodes(B) : \A i \in Nodes(B) \ {j} : ~Incident(B[i][j])}
Exos(B)  == {i \in Nodes(B) : \A j \in Nodes(B) \ {i} : ~Incident(B[i][j])}

\* roots: no direct cause at all (unknown pairs are ignored)
Roots(B) == {i \in Nodes(B) : \A j \in Nodes(B) : Val(B[i][j]) = 0}
RECURSIVE Layers(_, _, _)
Layers(B, Seen, Fr) ==
    IF Fr = {} THEN <<>>
    ELSE LET nxt == (UNION {Children(B, j, 0) : j \in Fr}) \ (Seen \cup Fr)
         IN  <<Fr>> \o Layers(B, Seen \cup Fr, nxt)
\* Distances(B)[d+1] = set of nodes whose nearest root is d edges away
Distances(B) == Layers(B, {}, Roots(B))
=============================================================================
