------------------------------- MODULE RESIT -------------------------------
(* Regression with subsequent independence test.  Phase 1 takes sinks off the
   set S one at a time (first the last of the order); phase 2 goes through the
   order from the second variable and through its parents in ascending order,
   dropping a parent when the regression on the other current parents already
   leaves independent residuals; the last parent is never dropped.           *)
EXTENDS Naturals, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
VARIABLES n, S, order, pa, k, todo, st
svars == <<n, S, order, pa, k, todo, st>>
SStart(q) == /\ n = q /\ S = 1..q /\ order = <<>> /\ pa = [i \in 1..q |-> {}]
             /\ k = 0 /\ todo = <<>> /\ st = "order"
Take(v) == /\ st = "order" /\ v \in S /\ S' = S \ {v} /\ order' = <<v>> \o order
           /\ pa' = [pa EXCEPT ![v] = S \ {v}] /\ UNCHANGED <<n, k, todo, st>>
Up(T) == SetToSortSeq(T, LAMBDA a, b : a < b)
StartPrune == /\ st = "order" /\ S = {} /\ st' = "prune" /\ k' = 1 /\ todo' = <<>>
              /\ UNCHANGED <<n, S, order, pa>>
NextVar == /\ st = "prune" /\ todo = <<>> /\ k < n
           /\ k' = k + 1 /\ todo' = Up(pa[order[k + 1]]) /\ UNCHANGED <<n, S, order, pa, st>>
Others == pa[order[k]] \ {Head(todo)}       \* parents the residual is taken on
Keep == /\ st = "prune" /\ todo # <<>> /\ todo' = Tail(todo) /\ UNCHANGED <<n, S, order, pa, k, st>>
Drop == /\ st = "prune" /\ todo # <<>> /\ Others # {}
        /\ pa' = [pa EXCEPT ![order[k]] = Others] /\ todo' = Tail(todo)
        /\ UNCHANGED <<n, S, order, k, st>>
Finish == /\ st = "prune" /\ todo = <<>> /\ k = n /\ st' = "done" /\ UNCHANGED <<n, S, order, pa, k, todo>>
Pos(v) == CHOOSE i \in 1..Len(order) : order[i] = v
Permutation == S \cap ToSet(order) = {} /\ S \cup ToSet(order) = 1..n
ParentsPrecede == \A v \in ToSet(order) : \A p \in pa[v] : p \in S \/ Pos(p) < Pos(v)
OneLeft == st = "done" => \A i \in 2..n : pa[order[i]] # {}
=============================================================================
