--------------------------- MODULE ContractsTrace --------------------------
(* Decides recorded requests: op, req, out (ok, ValueError, TypeError, or
   another exception), same = 1 if the given arguments were left unchanged.  *)
EXTENDS Contracts, SequencesExt, Json
T == JsonDeserialize("traces.json").traces
VARIABLES tid, done
C(x, y) == IF x THEN {} ELSE {y}
Clauses(t) ==
    LET want == Outcomes(t.op, t.req) IN
    C(want # {OK} \/ t.out = OK, "admissible-request-refused")
    \cup C(want = {OK} \/ t.out # OK, "inadmissible-request-carried-out")
    \cup C(want = {OK} \/ t.out = OK \/ t.out \in want, "refused-with-the-wrong-exception")
    \cup C(t.same = 1, "arguments-modified")
Init == \E k \in 1..Len(T) : tid = k /\ done = FALSE /\ CStart(T[k].op, T[k].req)
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<tid, cvars>>
        /\ PrintT(<<"JUDGED", ToJson([tid |-> tid, bad |-> SetToSeq(Clauses(T[tid]))])>>)
Spec == Init /\ [][Next]_<<cvars, tid, done>>
=============================================================================
