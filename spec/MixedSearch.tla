---------------------------- MODULE MixedSearch ----------------------------
(* The second phase of LiM: starting from the graph of the global
   optimisation, candidates are looked at one after another and the best one
   so far is kept.  A graph is a set of pairs <<cause, effect>>; its score is
   the sum of one term per variable, which depends on the direct causes of
   the variable only, less a penalty per edge.                              *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
VARIABLES w,      \* the case: n, pen, sc[v][1 + sum of 2^(cause-1)], tol, start
          ph,     \* turn, prune, prune0, add, add0, done
          base,   \* the graph the candidates of this phase are made of
          todo,   \* candidates not looked at yet
          best    \* best graph so far
mvars == <<w, ph, base, todo, best>>
N == w.n
V == 1..N
Pa(E, v) == {e[1] : e \in {f \in E : f[2] = v}}
Code(S) == FoldSet(LAMBDA v, a : a + 2^(v - 1), 1, S)
Score(E) == FoldSet(LAMBDA v, a : a + w.sc[v][Code(Pa(E, v))], 0, V) - w.pen * Cardinality(E)
RECURSIVE Peeled(_, _)
Peeled(E, S) == LET src == {v \in S : Pa(E, v) \cap S = {}}
                IN IF src = {} THEN S ELSE Peeled(E, S \ src)
Acyclic(E) == Peeled(E, V) = {}
Back(e) == <<e[2], e[1]>>
TwoWay(E) == \E e \in E : Back(e) \in E
\* candidates of each phase
Turned(E) == {(E \ S) \cup {Back(e) : e \in S} : S \in (SUBSET E) \ {{}}}
Smaller(E) == {E \ {e} : e \in E}
Larger(E) == {E \cup {e} : e \in {f \in V \X V : f[1] # f[2] /\ f \notin E /\ Back(f) \notin E}}
Prunes == N > 2 /\ Cardinality(w.start) > N - 1
Adds == N > 2 /\ 2 * Cardinality(w.start) < N * (N - 1)

MStart(c) == /\ w = c /\ ph = "turn" /\ base = c.start /\ best = c.start
             /\ todo = LET E == c.start IN {(E \ S) \cup {Back(e) : e \in S} : S \in (SUBSET E) \ {{}}}
Look(c) == /\ c \in todo /\ todo' = todo \ {c}
           /\ best' = IF Acyclic(c) /\ Score(c) > Score(best) THEN c ELSE best
           /\ UNCHANGED <<w, ph, base>>
Enter(p, b, t) == ph' = p /\ base' = b /\ todo' = t /\ UNCHANGED <<w, best>>
AfterPrune == IF Adds THEN Enter("add", best, Larger(best)) ELSE Enter("done", best, {})
Advance ==
    /\ todo = {}
    /\ \/ /\ ph = "turn" /\ IF Prunes THEN Enter("prune", best, Smaller(best)) ELSE AfterPrune
       \/ /\ ph = "prune"
          /\ IF best # w.start THEN Enter("prune0", w.start, Smaller(w.start)) ELSE AfterPrune
       \/ /\ ph = "prune0" /\ AfterPrune
       \/ /\ ph = "add"
          /\ IF best # w.start THEN Enter("add0", w.start, Larger(w.start)) ELSE Enter("done", best, {})
       \/ /\ ph = "add0" /\ Enter("done", best, {})
-----------------------------------------------------------------------------
(* what the phases can lead to, as sets (used to judge recorded runs);
   scores closer than tol are not told apart                               *)
BestOf(b, C) == LET D == {b} \cup {c \in C : Acyclic(c)}
                    top == Max({Score(c) : c \in D})
                IN {c \in D : Score(c) >= top - w.tol /\ (c # b => Score(c) > Score(b) - w.tol)}
Then(S, Cand(_)) == UNION {BestOf(b, Cand(b)) : b \in S}
R1 == BestOf(w.start, Turned(w.start))
R2 == IF Prunes THEN LET P == Then(R1, Smaller)
                     IN UNION {IF b # w.start THEN BestOf(b, Smaller(w.start)) ELSE {b} : b \in P}
      ELSE R1
Results == IF Adds THEN LET P == Then(R2, Larger)
                        IN UNION {IF b # w.start THEN BestOf(b, Larger(w.start)) ELSE {b} : b \in P}
           ELSE R2
-----------------------------------------------------------------------------
NeverWorse == Score(best) >= Score(w.start)
OnlyAcyclic == best = w.start \/ Acyclic(best)
BestTurn == ph = "turn" /\ todo = {} => \A c \in Turned(w.start) : Acyclic(c) => Score(best) >= Score(c)
DoneInResults == ph = "done" => best \in Results
\* with distinct scores the outcome does not depend on the order of the candidates
Function == ph = "done" /\ Cardinality(Results) = 1 => best = CHOOSE r \in Results : TRUE
\* a result of the pruning phase cannot be improved by turning or dropping edges of the start
NotImprovable == ph = "done" /\ best # w.start =>
    /\ (Acyclic(w.start) => Score(best) > Score(w.start))
    /\ (Prunes => \A c \in Smaller(w.start) : Acyclic(c) => Score(best) >= Score(c))
    /\ (Adds => \A c \in Larger(w.start) : Acyclic(c) => Score(best) >= Score(c))
EdgeBound == Cardinality(best) <= Cardinality(w.start) + 1 /\ Cardinality(best) >= Cardinality(w.start) - 1
OneWay == ~TwoWay(w.start) => ~TwoWay(best)
=============================================================================
