------------------------------ MODULE Drawing -------------------------------
(* What make_dot and make_dot_highlight draw.  Coefficients and thresholds are
   integers (thousandths), NAN marks a pair of unknown order.
   The layers around a node (make_dot_highlight) are found by a breadth-first
   walk, which is the state machine here; everything else is a function of the
   matrix.                                                                   *)
EXTENDS Graph, TLC

\* --- the graph a matrix and a threshold stand for: <<cause, effect>> --------
\* (a matrix of lagged effects side by side has more columns than rows)
Cols(B) == 1..Len(B[1])
Strong(B, thr) == {<<j, i>> \in Cols(B) \X Nodes(B) : Abs(Val(B[i][j])) > thr}
AtLeast(B, thr) == {<<j, i>> \in Nodes(B) \X Nodes(B) : Val(B[i][j]) # 0 /\ Abs(Val(B[i][j])) >= thr}
Succ(E, S) == {e[2] : e \in {d \in E : d[1] \in S}}
Pred(E, S) == {e[1] : e \in {d \in E : d[2] \in S}}
Flip(E) == {<<e[2], e[1]>> : e \in E}
RECURSIVE ClosureE(_, _)
ClosureE(E, S) == LET T == S \cup Succ(E, S) IN IF T = S THEN S ELSE ClosureE(E, T)
From(E, v) == ClosureE(E, {v})
\* an edge lies on a cycle iff its cause can be reached from its effect
CycleEdges(E) == {e \in E : e[1] \in From(E, e[2])}

\* edges on simple paths s -> t (s # t)
RECURSIVE SimplePathEdges(_, _, _, _)
SimplePathEdges(E, s, t, Seen) ==
    IF s = t THEN {} ELSE
    UNION {LET rest == SimplePathEdges(E, v, t, Seen \cup {v})
           IN  IF v = t THEN {<<s, v>>} ELSE IF rest = {} THEN {} ELSE rest \cup {<<s, v>>}
           : v \in Succ(E, {s}) \ Seen}
PathEdges(E, s, t) == SimplePathEdges(E, s, t, {s})
Ends(E) == UNION {{e[1], e[2]} : e \in E}

\* unknown pairs, each drawn once, from the smaller index
Unknown(B) == {<<j, i>> \in Nodes(B) \X Nodes(B) : j <= i /\ B[i][j] = NAN}

\* a coefficient rounded to hundredths, away from ties
Round2(b) == Sign(b) * ((Abs(b) + 5) \div 10)

\* --- layers ------------------------------------------------------------------
VARIABLES E, v0, dir, far, layer, seen, dist, phase
lvars == <<E, v0, dir, far, layer, seen, dist, phase>>
LStart(e, n, v, d, k) == /\ E = e /\ v0 = v /\ dir = d /\ far = k /\ layer = {v} /\ seen = {v}
                         /\ dist = [u \in 1..n |-> IF u = v THEN 0 ELSE 99] /\ phase = 0
Step1 == LET nxt == (IF dir = 1 THEN Succ(E, layer) ELSE Pred(E, layer)) \ seen
         IN /\ phase < far /\ nxt # {}
            /\ layer' = nxt /\ seen' = seen \cup nxt /\ phase' = phase + 1
            /\ dist' = [u \in DOMAIN dist |-> IF u \in nxt THEN phase + 1 ELSE dist[u]]
            /\ UNCHANGED <<E, v0, dir, far>>

\* the length of a shortest walk, declaratively
RECURSIVE Ball(_, _, _)
Ball(e, v, k) == IF k = 0 THEN {v} ELSE LET b == Ball(e, v, k - 1) IN b \cup Succ(e, b)
Dist(e, v, u, n) == IF u \in Ball(e, v, n) THEN Min({k \in 0..n : u \in Ball(e, v, k)}) ELSE 99
Dir(e) == IF dir = 1 THEN e ELSE Flip(e)
LayersAreDistances ==
    ~ENABLED Step1 => \A u \in DOMAIN dist :
        LET d == Dist(Dir(E), v0, u, Cardinality(DOMAIN dist)) IN dist[u] = IF d > far THEN 99 ELSE d
NoGap == \A u \in DOMAIN dist : dist[u] \in 1..98 => \E w \in DOMAIN dist : dist[w] = dist[u] - 1
\* other characterisations agree
PathEdgesSound == \A t \in DOMAIN dist \ {v0} :
    LET P == PathEdges(E, v0, t)
    IN  /\ (P # {}) <=> (t \in From(E, v0))
        /\ \A e \in P : e[1] \in From(E, v0) /\ t \in From(E, e[2])
        /\ \A e \in P : e[2] # v0 /\ e[1] # t
CycleEdgesSound == \A e \in E : (e \in CycleEdges(E)) <=>
    (e[1] = e[2] \/ PathEdges(E, e[2], e[1]) # {})
=============================================================================
