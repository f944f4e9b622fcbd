--------------------------- MODULE SymmetryTrace ---------------------------
(* Decides pairs of recorded fits: of data, and of the same data with the
   variables in other places (pi), in other units (values times 2^e, sign g,
   shifted), the samples in another order, the data sets in another order
   (gp), or represented differently.  order: sequences of blocks; B: per data
   set or lag, times 10000.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json
T == JsonDeserialize("traces.json").traces
NAN == 99999
VARIABLES tid, done
C(x, y) == IF x THEN {} ELSE {y}
Abs(z) == IF z < 0 THEN 0 - z ELSE z
Img(t, s) == {t.pi[v] : v \in ToSet(s)}
SameOrders(t) == Len(t.o1) = Len(t.o2) /\ \A d \in 1..Len(t.o1) :
    /\ Len(t.o1[d]) = Len(t.o2[t.op[d]])
    /\ \A k \in 1..Len(t.o1[d]) : Img(t, t.o1[d][k]) = ToSet(t.o2[t.op[d]][k])
\* effects in the new units
Entry(t, a, b, i, j) == LET x == a[i][j]  y == b[t.pi[i]][t.pi[j]] IN
    IF x = NAN \/ y = NAN THEN x = y
    ELSE /\ (x = 0) <=> (y = 0)
         /\ Abs(y * t.g[j] * 2^t.e[j] - x * t.g[i] * 2^t.e[i]) <= t.tol
SameEffects(t) == Len(t.B1) = Len(t.B2) /\ \A d \in 1..Len(t.B1) : \A i, j \in 1..t.n : Entry(t, t.B1[d], t.B2[t.gp[d]], i, j)
Clauses(t) == IF t.out1 # t.out2 THEN {"one-accepted-the-other-" \o t.out1 \o "/" \o t.out2}
              ELSE IF t.out1 # "ok" THEN {}
              ELSE C(SameOrders(t), "order-not-preserved-by-" \o t.how) \cup C(SameEffects(t), "effects-not-preserved-by-" \o t.how)
                   \cup C(t.rest = 1, "answers-not-preserved-by-" \o t.how)
Init == \E k \in 1..Len(T) : tid = k /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ PrintT(<<"JUDGED", ToJson([tid |-> tid, bad |-> SetToSeq(Clauses(T[tid]))])>>)
Spec == Init /\ [][Next]_<<tid, done>>
=============================================================================
