---------------------------- MODULE HighDimTrace ----------------------------
(* Decides a recorded fit of HighDimDirectLiNGAM: was every variable the next
   root according to the ranks of the measured dependences, and is every row
   of the matrix the sparse regression on the variables before it?
   tau[v][1 + mask of C][u]: ranks; up[1 + r]: rank of alpha times value r;
   rowok[k][p] = 1 iff the row of the k-th variable of the recorded order is
   the regression on exactly its first p - 1 variables.                      *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json
T == JsonDeserialize("traces.json").traces
VARIABLES prob, theta, stat, cut, tid, bad
tr == T[tid]
H == INSTANCE HighDim
vars == <<prob, theta, stat, cut, tid, bad>>
Init == /\ \E k \in 1..Len(T) : tid = k
        /\ H!HStart([n |-> tr.n, J |-> tr.J, big |-> tr.big, up |-> tr.up, tau |-> tr.tau]) /\ bad = {"-"}
Wellformed == Len(tr.order) = tr.n /\ ToSet(tr.order) = 1..tr.n
Running == bad = {"-"}
Follow == /\ Running /\ tr.out = "ok" /\ Wellformed /\ Len(theta) < tr.n
          /\ LET r == tr.order[Len(theta) + 1] IN
             IF H!CanPeel(r) THEN H!Peel(r) /\ UNCHANGED <<tid, bad>>
             ELSE IF Len(theta) = tr.n - 1 THEN H!LastOne /\ UNCHANGED <<tid, bad>>
             ELSE bad' = {"placed-a-variable-that-is-not-the-next-root"} /\ UNCHANGED <<prob, theta, stat, cut, tid>>
Rows == \A k \in 1..tr.n : tr.rowok[k][k] = 1
Verdict == IF bad # {"-"} THEN bad
           ELSE IF tr.out # "ok" THEN {"unexpected-" \o tr.out}
           ELSE IF ~Wellformed THEN {"order-is-not-a-permutation"}
           ELSE {c \in {"row-not-the-regression-on-the-variables-before"} : tr.mat = 1 /\ ~Rows}
                \cup {c \in {"matrix-although-not-asked-for"} : tr.mat = 0 /\ tr.has = 1}
                \cup {c \in {"few-samples-not-warned-about"} : tr.few # tr.warned}
Judge == /\ bad # {"judged"}
         /\ (tr.out # "ok" \/ ~Wellformed \/ Len(theta) = tr.n \/ bad # {"-"})
         /\ PrintT(<<"JUDGED", ToJson([tid |-> tid, bad |-> SetToSeq(Verdict)])>>)
         /\ bad' = {"judged"} /\ UNCHANGED <<prob, theta, stat, cut, tid>>
Next == Follow \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
