---------------------------- MODULE Intervention ---------------------------
(* Interventions in a linear structural model.  Under do(I = v) variable I has
   value v and every other variable the sum of its parents' contributions plus
   its expected noise.  The machine evaluates variables in any order in which
   parents come first; alpha is the coefficient of v in each value.          *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions, TLC
VARIABLES sem, todo, val, alpha
nvars == <<sem, todo, val, alpha>>
N == Len(sem.B)
Par(k) == {q \in 1..N : sem.B[k][q] # 0}
NStart(m) == /\ sem = m /\ todo = (1..Len(m.B)) \ {m.i}
             /\ val = [k \in 1..Len(m.B) |-> IF k = m.i THEN m.v ELSE 0]
             /\ alpha = [k \in 1..Len(m.B) |-> IF k = m.i THEN 1 ELSE 0]
SumOver(S, f(_)) == FoldSet(LAMBDA q, a : a + f(q), 0, S)
Evaluate(k) == /\ k \in todo /\ Par(k) \cap todo = {}
               /\ val' = [val EXCEPT ![k] = SumOver(1..N, LAMBDA q : sem.B[k][q] * val[q]) + sem.e[k]]
               /\ alpha' = [alpha EXCEPT ![k] = SumOver(1..N, LAMBDA q : sem.B[k][q] * alpha[q])]
               /\ todo' = todo \ {k} /\ UNCHANGED sem
Done == todo = {}
\* the values solve the structural equations, whatever the schedule was
Solved == Done => \A k \in 1..N : val[k] = IF k = sem.i THEN sem.v
            ELSE SumOver(1..N, LAMBDA q : sem.B[k][q] * val[q]) + sem.e[k]
RECURSIVE Peel(_, _)
Peel(B, S) == LET f == {k \in S : \A q \in S : B[k][q] = 0} IN IF f = {} THEN S ELSE Peel(B, S \ f)
IsDAG(B) == Peel(B, 1..Len(B)) = {}
\* direct definition
RECURSIVE Rounds(_, _, _, _, _, _)
Rounds(B, e, i, v, x, r) == IF r = 0 THEN x ELSE
    Rounds(B, e, i, v, TLCEval([k \in 1..Len(B) |-> IF k = i THEN v
        ELSE SumOver(1..Len(B), LAMBDA q : B[k][q] * x[q]) + e[k]]), r - 1)
Values(B, e, i, v) == Rounds(B, e, i, v, [k \in 1..Len(B) |-> 0], Len(B))   \* for acyclic B
Confluent == (Done /\ IsDAG(sem.B)) => val = Values(sem.B, sem.e, sem.i, sem.v)
Linear == (Done /\ IsDAG(sem.B)) => LET z == Values(sem.B, sem.e, sem.i, 0) IN \A k \in 1..N : val[k] = z[k] + alpha[k] * sem.v
\* stuck exactly on cycles that avoid the intervened variable
Progress == (~Done /\ IsDAG(sem.B)) => \E k \in todo : Par(k) \cap todo = {}
=============================================================================
