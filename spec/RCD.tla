-------------------------------- MODULE RCD --------------------------------
(* Repetitive causal discovery (RCD, MultiGroupRCD, extract_ancestors).
   M[i] is the set of known ancestors of i.  Sweeps over all sets U of l+1
   variables, in lexicographic order; within a set the effects of the common
   ancestors H are removed first; if exactly one member is a sink of U, the
   others become its ancestors.  A sweep that changed something restarts with
   pairs, otherwise l grows up to its bound.                                 *)
EXTENDS Naturals, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
VARIABLES n, lmax, M, l, pos, tested, changed, st
rvars == <<n, lmax, M, l, pos, tested, changed, st>>

LexLt(A, B) == LET D == (A \ B) \cup (B \ A) IN D # {} /\ Min(D) \in A
Sweep == SetToSortSeq({U \in SUBSET (1..n) : Cardinality(U) = l + 1}, LexLt)
RStart(k, lm) == /\ n = k /\ lmax = lm /\ M = [i \in 1..k |-> {}] /\ l = 1 /\ pos = 1
                 /\ tested = {} /\ changed = FALSE /\ st = "sweep"
Common(U) == {a \in 1..n : \A j \in U : a \in M[j]}
Known(U) == <<U, Common(U)>> \in tested       \* examined before with the same common ancestors
\* members that may still turn out to be the sink of U
Eligible(U) == {i \in U : (\A j \in U \ {i} : i \notin M[j]) /\ ~(U \ {i} \subseteq M[i])}
AtSet == st = "sweep" /\ pos <= Len(Sweep)
Cur == Sweep[pos]

Skip == /\ AtSet /\ pos' = pos + 1 /\ UNCHANGED <<n, lmax, M, l, tested, changed, st>>
\* U was non-Gaussian and mutually correlated; sinks is the set of its sinks
Examine(U, sinks) ==
    /\ AtSet /\ U = Cur /\ ~Known(U) /\ sinks \subseteq Eligible(U)
    /\ IF Cardinality(sinks) = 1
       THEN LET i == CHOOSE x \in sinks : TRUE
            IN M' = [M EXCEPT ![i] = @ \cup (U \ {i})] /\ changed' = (changed \/ M' # M)
       ELSE UNCHANGED <<M, changed>>
    /\ tested' = {p \in tested : p[1] # U} \cup {<<U, Common(U)>>}
    /\ pos' = pos + 1 /\ UNCHANGED <<n, lmax, l, st>>
EndSweep == /\ st = "sweep" /\ pos > Len(Sweep)
            /\ IF changed THEN l' = 1 /\ st' = st
               ELSE IF l < lmax THEN l' = l + 1 /\ st' = st
               ELSE l' = l /\ st' = "done"
            /\ pos' = 1 /\ changed' = FALSE /\ UNCHANGED <<n, lmax, M, tested>>

NoSelf == \A i \in 1..n : i \notin M[i]
Antisymmetric == \A i, j \in 1..n : ~(i \in M[j] /\ j \in M[i])
\* common ancestors never belong to the set they are removed from
CommonOutside == AtSet => Common(Cur) \cap Cur = {}
Grows == [][\A i \in 1..n : M[i] \subseteq M'[i]]_rvars
=============================================================================
