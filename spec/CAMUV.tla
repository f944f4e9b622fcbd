------------------------------- MODULE CAMUV -------------------------------
(* Causal additive models with unobserved variables (CAMUV, MultiGroupCAMUV).
   near[i]   variables dependent on i
   ban       pairs <<a, b>>: a cannot cause b (prior knowledge)
   P[i]      parents found so far
   Sets U of t variables without a known edge among them are examined in
   lexicographic order; one member may get all others as parents.  A sweep
   that changed something restarts with pairs.  Finally parents that are not
   needed are pruned, one variable after the other.                          *)
EXTENDS Naturals, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
VARIABLES prob, P, t, pos, changed, st
cvars == <<prob, P, t, pos, changed, st>>
V == 1..prob.n
LexLt(A, B) == LET D == (A \ B) \cup (B \ A) IN D # {} /\ Min(D) \in A
Sweep == SetToSortSeq({U \in SUBSET V : Cardinality(U) = t}, LexLt)
CStart(q) == /\ prob = q /\ P = [i \in 1..q.n |-> {}] /\ t = 2 /\ pos = 1
             /\ changed = FALSE /\ st = "search"
AtSet == st = "search" /\ pos <= Len(Sweep)
Cur == Sweep[pos]
NoEdgeIn(U) == \A i, j \in U : j \notin P[i]
\* members of U that may become the child of the others
Children(U) == {c \in U : /\ \A a \in U \ {c} : <<a, c>> \notin prob.ban
                          /\ U \ {c} \subseteq prob.near[c]}
Skip == /\ AtSet /\ pos' = pos + 1 /\ UNCHANGED <<prob, P, t, changed, st>>
Attach(U, c) == /\ AtSet /\ U = Cur /\ NoEdgeIn(U) /\ c \in Children(U)
                /\ P' = [P EXCEPT ![c] = @ \cup (U \ {c})]
                /\ changed' = TRUE /\ pos' = pos + 1 /\ UNCHANGED <<prob, t, st>>
EndSweep == /\ st = "search" /\ pos > Len(Sweep)
            /\ IF changed THEN t' = 2 /\ st' = st
               ELSE IF t + 1 > prob.tmax THEN t' = t /\ st' = "prune"
               ELSE t' = t + 1 /\ st' = st
            /\ pos' = 1 /\ changed' = FALSE /\ UNCHANGED <<prob, P>>
\* variable number pos loses the parents in D
Prune(D) == /\ st = "prune" /\ pos <= prob.n /\ D \subseteq P[pos]
            /\ P' = [P EXCEPT ![pos] = @ \ D] /\ pos' = pos + 1
            /\ UNCHANGED <<prob, t, changed, st>>
Finish == /\ st = "prune" /\ pos > prob.n /\ st' = "done" /\ UNCHANGED <<prob, P, t, pos, changed>>

NoSelf == \A i \in V : i \notin P[i]
Antisymmetric == \A i, j \in V : ~(i \in P[j] /\ j \in P[i])
BanRespected == \A i \in V : \A a \in P[i] : <<a, i>> \notin prob.ban
OnlyDependent == \A i \in V : P[i] \subseteq prob.near[i]
=============================================================================
