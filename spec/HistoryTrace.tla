---------------------------- MODULE HistoryTrace ---------------------------
(* Replays a recorded life of two objects.  got is the number of the data set
   whose fresh answer (same settings) equals the answer observed, 0 for a
   rejection, -1 for an answer that equals none, -2 if a query changed the
   model, -3 if the given data were modified.                                 *)
EXTENDS History, Json, SequencesExt
T == JsonDeserialize("traces.json").traces
VARIABLES tid, k, bad
tvars == <<tid, k, bad>>
Op == T[tid].ops[k]
Why(got, op) == IF got = 0 - 3 THEN "input-modified" ELSE IF got = 0 - 2 THEN "query-changed-the-model"
                ELSE op \o "-depends-on-history"
Init == \E i \in 1..Len(T) : tid = i /\ k = 1 /\ bad = {} /\ HStart(T[i].works)
Do == \/ (Op.op = "fit" /\ Fit(Op.o, Op.d))
      \/ (Op.op = "bad" /\ FitBad(Op.o))
      \/ (Op.op = "boot" /\ Boot(Op.o, Op.d))
      \/ (Op.op = "ask" /\ Ask(Op.o))
\* a query recorded although the specification knows of no standing fit: the fit was wrongly accepted
Stray == Op.op = "ask" /\ life[Op.o] = 0
Next == \/ /\ k <= Len(T[tid].ops) /\ Stray /\ k' = k + 1 /\ bad' = bad \cup {"fit-depends-on-history"} /\ UNCHANGED <<tid, hvars>>
        \/ /\ k <= Len(T[tid].ops) /\ Do /\ k' = k + 1 /\ tid' = tid
           /\ bad' = IF Op.got = hist'[Len(hist')].ans THEN bad ELSE bad \cup {Why(Op.got, Op.op)}
        \/ /\ k = Len(T[tid].ops) + 1 /\ k' = k + 1 /\ UNCHANGED <<tid, bad, hvars>>
           /\ PrintT(<<"JUDGED", ToJson([tid |-> tid, bad |-> SetToSeq(bad)])>>)
Spec == Init /\ [][Next]_<<tvars, hvars>>
=============================================================================
