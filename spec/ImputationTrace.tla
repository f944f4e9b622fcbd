--------------------------- MODULE ImputationTrace -------------------------
(* Decides recorded runs with the default imputer and model.  For replicate i:
   idx   row numbers drawn; holes[i] = 1 the reported imputations are exactly
   at the missing entries; order/adj[i] = 1 equal to the joint fit of the
   completed data sets; rep = number of completed data sets.                 *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json
T == JsonDeserialize("traces.json").traces
VARIABLES tid, done
Init == \E k \in 1..Len(T) : tid = k /\ done = FALSE
C(b, x) == IF b THEN {} ELSE {x}
Clauses(t) ==
    IF t.out # "ok" THEN {"unexpected-" \o t.out}
    ELSE C(Len(t.idx) = t.k /\ Len(t.fits) = t.k /\ Len(t.holes) = t.k, "wrong-number-of-replicates")
      \cup C(\A i \in 1..Len(t.idx) : Len(t.idx[i]) = t.m /\ ToSet(t.idx[i]) \subseteq 1..t.m, "indices-are-not-rows")
      \cup C(UNION {ToSet(t.idx[i]) : i \in 1..Len(t.idx)} = 1..t.m \/ t.k < 25, "some-row-is-never-drawn")
      \cup C(\A i \in 1..Len(t.idx) : Cardinality(ToSet(t.idx[i])) < t.m, "drawn-without-replacement")
      \cup C(\A i, j \in 1..Len(t.idx) : i # j => t.idx[i] # t.idx[j], "replicates-repeat")
      \cup C(\A i \in 1..Len(t.holes) : t.holes[i] = 1, "imputations-not-exactly-at-missing-entries")
      \cup C(\A i \in 1..Len(t.reps) : t.reps[i] = t.r, "wrong-number-of-imputed-data-sets")
      \cup C(\A i \in 1..Len(t.fits) : t.fits[i] = 1, "results-are-not-the-joint-fit-of-the-completed-data")
      \cup C(t.varied = 1, "imputations-are-not-drawn-anew")
      \cup C(t.again = 1, "same-random-state-gives-other-results")
      \cup C(t.intact = 1, "data-modified")
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ PrintT(<<"JUDGED", ToJson([tid |-> tid, bad |-> SetToSeq(Clauses(T[tid]))])>>)
Spec == Init /\ [][Next]_<<tid, done>>
=============================================================================
