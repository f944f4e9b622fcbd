------------------------------ MODULE IcaOrder ------------------------------
(* ICALiNGAM: from an unmixing matrix to a causal order.
   An entry of an n x n matrix W is the weight of variable c in the r-th
   independent component.  Only two comparisons matter, and both are inputs
   here as integers:
     cost[r][p]     grows with 1/|W(r,p)|; component r may stand for variable p
     size[r][p][c]  |W(r,c) / W(r,p)|: if component r stands for p, the size of
                    the direct effect of c on p (0 iff there is none)
   1 match every variable with one component, at the least total cost;
   2 drop the n(n+1)/2 weakest effects, then one at a time the next weakest,
     until no cycle is left;
   3 peel variables without remaining causes off the graph that is left.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
VARIABLES w, match, dropped, kept, order, ph
ivars == <<w, match, dropped, kept, order, ph>>

N == w.n
V == 1..N
Perms(n) == {f \in [1..n -> 1..n] : \A a, b \in 1..n : f[a] = f[b] => a = b}
\* match[p] is the component that stands for the variable p
CostOf(f) == FoldSet(LAMBDA p, a : a + w.cost[f[p]][p], 0, V)
LeastCost == Min({CostOf(f) : f \in Perms(N)})
Matches == LET all == Perms(N)
               least == Min({CostOf(f) : f \in all})
           IN  {f \in all : CostOf(f) <= least + w.tol}

Size(f, p, c) == IF p = c THEN 0 ELSE w.size[f[p]][p][c]
\* the effects that may be left once the k weakest entries (the diagonal counts)
\* are dropped; entries of equal size may be dropped in either order
KeptSets(f, k) ==
    LET below(e) == Cardinality({q \in V \X V : Size(f, q[1], q[2]) < Size(f, e[1], e[2])})
        upto(e)  == Cardinality({q \in V \X V : Size(f, q[1], q[2]) <= Size(f, e[1], e[2])})
        edges == {e \in V \X V : Size(f, e[1], e[2]) > 0}
        sure  == {e \in edges : below(e) >= k}
        open  == {e \in edges : below(e) < k /\ upto(e) > k}
        need  == (N * N) - k - Cardinality(sure)
    IN  IF open = {} THEN {sure} ELSE {sure \cup S : S \in kSubset(need, open)}
First == (N * (N + 1)) \div 2

RECURSIVE Sorted(_, _)
Sorted(E, U) == IF U = {} THEN TRUE
                ELSE LET S == {v \in U : \A c \in U : <<v, c>> \notin E}
                     IN S # {} /\ Sorted(E, U \ S)
AcyclicE(E) == Sorted(E, V)
Topological(E, o) == \A a, b \in 1..Len(o) : <<o[a], o[b]>> \in E => b < a

IStart(q) == w = q /\ match = <<>> /\ dropped = 0 /\ kept = {} /\ order = <<>> /\ ph = "match"
Match == /\ ph = "match"
         /\ match' \in Matches /\ dropped' = First
         /\ \E E \in KeptSets(match', First) : kept' = E
         /\ ph' = "drop" /\ UNCHANGED <<w, order>>
DropOne == /\ ph = "drop" /\ ~AcyclicE(kept)
           /\ dropped' = dropped + 1
           /\ \E E \in KeptSets(match, dropped + 1) : E \subseteq kept /\ kept' = E
           /\ UNCHANGED <<w, match, order, ph>>
Acyc == /\ ph = "drop" /\ AcyclicE(kept)
        /\ ph' = "peel" /\ UNCHANGED <<w, match, dropped, kept, order>>
Left == V \ ToSet(order)
Peel(v) == /\ ph = "peel" /\ v \in Left
           /\ \A c \in Left : <<v, c>> \notin kept
           /\ order' = Append(order, v)
           /\ ph' = IF Len(order') = N THEN "done" ELSE "peel"
           /\ UNCHANGED <<w, match, dropped, kept>>

\* properties of the specification itself
NeverStuck == /\ ph = "peel" => \E v \in Left : \A c \in Left : <<v, c>> \notin kept
              /\ (ph = "drop" /\ ~AcyclicE(kept)) => \E E \in KeptSets(match, dropped + 1) : E \subseteq kept
Permutation == ph = "done" => ToSet(order) = V /\ Len(order) = N
OrderSound == ph = "done" => Topological(kept, order)
\* nothing that was dropped is stronger than something that was kept
WeakestFirst == ph \in {"drop", "peel", "done"} =>
    \A e \in kept, q \in V \X V : q \notin kept => Size(match, q[1], q[2]) <= Size(match, e[1], e[2])
Count == ph \in {"drop", "peel", "done"} => Cardinality(kept) <= (N * N) - dropped
DropsBounded == dropped < N * N
\* the specification read declaratively: which final graphs are possible
Possible(f, E) == \E k \in First..(N * N - 1) :
    /\ E \in KeptSets(f, k) /\ AcyclicE(E)
    /\ k = First \/ \E D \in KeptSets(f, k - 1) : E \subseteq D /\ ~AcyclicE(D)
ReachedIsPossible == ph = "done" => Possible(match, kept)
=============================================================================
