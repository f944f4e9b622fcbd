------------------------------- MODULE Order -------------------------------
(* Reported causal orders and estimated graphs.  An order is a sequence of
   entries; an entry is a sequence of variables, of length one except for a
   leading block of variables whose mutual order is unknown.
   The machine abstracts every order-based estimator: variables are placed one
   after the other, and the coefficients of a variable are estimated from
   (some of) the variables placed before it.                                 *)
EXTENDS Graph, TLC
VARIABLES n, ord, B
ovars == <<n, ord, B>>
Placed(o) == UNION {ToSet(o[k]) : k \in 1..Len(o)}
ZeroM(k) == [i \in 1..k |-> [j \in 1..k |-> 0]]

OStart(k) == n = k /\ ord = <<>> /\ B = ZeroM(k)
\* a leading block: nothing is known between its members
OBlock(S) == /\ ord = <<>> /\ Cardinality(S) > 1
             /\ ord' = <<SetToSeq(S)>>
             /\ B' = [i \in 1..n |-> [j \in 1..n |-> IF i # j /\ i \in S /\ j \in S THEN NAN ELSE 0]]
             /\ UNCHANGED n
OPlace(v, P) == /\ v \in 1..n \ Placed(ord) /\ P \subseteq Placed(ord)
                /\ ord' = Append(ord, <<v>>)
                /\ B' = [B EXCEPT ![v] = [j \in 1..n |-> IF j \in P THEN 1 ELSE 0]]
                /\ UNCHANGED n
ONext == \E S \in SUBSET (1..n) : OBlock(S) \/ \E v \in 1..n : OPlace(v, S)

\* ---- what a user may rely on ----------------------------------------------
RECURSIVE Flat(_)
Flat(o) == IF o = <<>> THEN <<>> ELSE Head(o) \o Flat(Tail(o))
IsPermutation(m, o) == Len(Flat(o)) = m /\ ToSet(Flat(o)) = 1..m
BlockLeads(o) == \A k \in 2..Len(o) : Len(o[k]) = 1
LevelIn(o, v) == CHOOSE k \in 1..Len(o) : v \in ToSet(o[k])
ForwardOnly(o, M) == \A i, j \in 1..Len(M) :
    (M[i][j] # 0 /\ M[i][j] # NAN) => LevelIn(o, j) < LevelIn(o, i)
NanOnlyInBlock(o, M) == \A i, j \in 1..Len(M) :
    M[i][j] = NAN => i # j /\ LevelIn(o, i) = LevelIn(o, j)

OrderOK == (Placed(ord) = 1..n) => IsPermutation(n, ord) /\ BlockLeads(ord)
EdgesOK == (Placed(ord) = 1..n) => ForwardOnly(ord, B) /\ NanOnlyInBlock(ord, B)
GraphOK == Acyclic(B)
=============================================================================
