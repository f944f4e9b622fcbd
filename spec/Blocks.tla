------------------------------- MODULE Blocks -------------------------------
(* The statistical building blocks.  Removing the effect of features is
   modelled in the coordinates of an orthogonal basis (coordinate 0 is the
   constant): feature f is a vector of integers, the features to remove span
   some of the coordinates, and removal is projection.                       *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
VARIABLES vec, orig, gone, wh
bvars == <<vec, orig, gone, wh>>
Dot(a, b) == FoldSet(LAMBDA k, s : s + a[k] * b[k], 0, DOMAIN a \ {0})
\* removed feature f is a multiple of the coordinate f
Span(S) == S \cup {0}
Project(S, x) == [k \in DOMAIN x |-> IF k \in Span(S) THEN 0 ELSE x[k]]
BStart(v, removable) == vec = v /\ orig = v /\ gone = {} /\ wh = removable
TakeOut(S) == /\ S # {} /\ S \subseteq wh /\ S \cap gone = {}
             /\ gone' = gone \cup S
             /\ vec' = [f \in DOMAIN vec |-> IF f \in S \/ f \in wh THEN vec[f] ELSE Project(S, vec[f])]
             /\ UNCHANGED <<orig, wh>>
Rest == DOMAIN vec \ wh
Orthogonal == \A f \in Rest, r \in gone : Dot(vec[f], vec[r]) = 0
Centred == gone # {} => \A f \in Rest : vec[f][0] = 0
\* step by step or all at once, in any order: the same data
OrderFree == gone # {} => \A f \in Rest : vec[f] = Project(gone, orig[f])
SourcesKept == \A f \in wh : vec[f] = orig[f]
Idempotent == \A f \in Rest : gone # {} => Project(gone, vec[f]) = vec[f]
\* what is left is the closest: no other combination of the removed features leaves less
Shortest == gone # {} => \A f \in Rest, r \in gone, c \in {-1, 1} :
    LET moved == [k \in DOMAIN vec[f] |-> vec[f][k] + (c * vec[r][k])]
    IN Dot(vec[f], vec[f]) <= Dot(moved, moved)
=============================================================================
