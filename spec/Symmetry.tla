------------------------------ MODULE Symmetry -----------------------------
(* Renaming the variables renames the answer: the search for a causal order
   run side by side on a problem and on the same problem with the variables
   listed in another order (pi[v] is the new place of v), under the same
   evidence.  Nothing the search decides may depend on the places.           *)
EXTENDS DirectSearch
VARIABLES pi, p2, U2, K2, o2, s2
S == INSTANCE DirectSearch WITH prob <- p2, U <- U2, K <- K2, open <- o2, st <- s2
svars == <<dvars, pi, p2, U2, K2, o2, s2>>
Img(X) == {pi[v] : v \in X}
Renamed(q, f) == [q EXCEPT !.pk = [i \in 1..q.n |-> [j \in 1..q.n |-> q.pk[f[i]][f[j]]]]]
SStart(q, f, finv) == DStart(q) /\ pi = f /\ S!DStart(Renamed(q, finv))
SNext == /\ UNCHANGED pi
         /\ \/ CheckPK /\ S!CheckPK
            \/ Stuck /\ S!Stuck
            \/ Finish /\ S!Finish
            \/ \E v \in 1..prob.n : Place(v) /\ S!Place(pi[v])
SameProgress == st = s2
SameChoices == st = "run" => S!Cand = Img(Cand) /\ S!Unaffected = Img(Unaffected)
SameOrder == K2 = [k \in 1..Len(K) |-> pi[K[k]]]
SamePredictors == st = "done" => \A v \in 1..prob.n : S!Predictors(pi[v]) = Img(Predictors(v))
=============================================================================
