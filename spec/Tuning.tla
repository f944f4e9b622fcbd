------------------------------- MODULE Tuning -------------------------------
(* Out-of-sample tuning: every configuration is evaluated on the same folds,
   the best one is compared with the others, and among those not
   significantly worse the one with the smallest Markov blankets is chosen. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
VARIABLES w,       \* the case: n variables, k configurations, f folds, graphs[c][f], others[c], rank[c], similar[c], penalty
          ph,      \* eval, test, done
          seen,    \* configurations evaluated: [c |-> total blanket size]
          best,    \* best-performing configuration (0: not known yet)
          tested,  \* configurations compared with the best one
          pick
tvars == <<w, ph, seen, best, tested, pick>>
N == w.n
V == 1..N
C == 1..w.k
F == 1..w.f
\* a graph is a set of pairs <<effect, cause>>
Pa(G, v) == {e[2] : e \in {x \in G : x[1] = v}}
Ch(G, v) == {e[1] : e \in {x \in G : x[2] = v}}
Blanket(G, v) == (Pa(G, v) \cup Ch(G, v) \cup UNION {Pa(G, x) : x \in Ch(G, v)}) \ {v}
Explaining(c, f, v) == IF w.others[c] = 1 THEN V \ {v} ELSE Blanket(w.graphs[c][f], v)
Size(c) == FoldSet(LAMBDA f, a : a + FoldSet(LAMBDA v, b : b + Cardinality(Explaining(c, f, v)), 0, V), 0, F)
Top == {c \in C : \A x \in C : w.rank[c] >= w.rank[x]}
First(S) == CHOOSE x \in S : \A y \in S : x <= y
TStart(c) == w = c /\ ph = "eval" /\ seen = << >> /\ best = 0 /\ tested = {} /\ pick = 0
Evaluate == /\ ph = "eval" /\ Len(seen) < w.k
            /\ seen' = Append(seen, Size(Len(seen) + 1))
            /\ best' = IF best = 0 \/ w.rank[Len(seen) + 1] > w.rank[best] THEN Len(seen) + 1 ELSE best
            /\ UNCHANGED <<w, ph, tested, pick>>
Evaluated == /\ ph = "eval" /\ Len(seen) = w.k
             /\ pick' = best
             /\ ph' = IF w.penalty = 1 THEN "test" ELSE "done"
             /\ UNCHANGED <<w, seen, best, tested>>
\* the others are compared with the best one in any order
Test(c) == /\ ph = "test" /\ c \in C \ (tested \cup {best})
           /\ tested' = tested \cup {c}
           /\ pick' = IF w.similar[best][c] = 1 /\ (seen[c] < seen[pick] \/ (seen[c] = seen[pick] /\ pick # best /\ c < pick)) THEN c ELSE pick
           /\ UNCHANGED <<w, ph, seen, best>>
Tested == /\ ph = "test" /\ tested = C \ {best} /\ ph' = "done" /\ UNCHANGED <<w, seen, best, tested, pick>>
-----------------------------------------------------------------------------
Similar(b) == {c \in C \ {b} : w.similar[b][c] = 1}
Choice(b) == LET M == {b} \cup Similar(b)
                 small == {c \in M : \A x \in M : Size(c) <= Size(x)}
             IN IF b \in small THEN b ELSE First(small)
BestIsFirstTop == ph # "eval" => best = First(Top)
ChoiceMade == ph = "done" => pick = IF w.penalty = 1 THEN Choice(best) ELSE best
NeverLarger == ph # "eval" => Size(pick) <= Size(best)
OnlySimilar == ph # "eval" => pick = best \/ (w.penalty = 1 /\ w.similar[best][pick] = 1)
NoSmaller == ph = "done" /\ w.penalty = 1 => \A c \in Similar(best) : Size(pick) <= Size(c)
Symmetric == \A c \in C, f \in F, u, v \in V : u \in Explaining(c, f, v) <=> v \in Explaining(c, f, u)
NotItself == \A c \in C, f \in F, v \in V : v \notin Explaining(c, f, v)
=============================================================================
