------------------------------ MODULE PKTrace ------------------------------
(* Decides recorded fits with prior knowledge, whatever the method.
   level[v]: position of the entry of the causal order containing v;
   free: variables whose mutual order the method leaves open;
   forbid: pairs <<t, f>> that must not be joined by an edge f -> t.         *)
EXTENDS PriorKnowledge, Json, TLC, SequencesExt
T == JsonDeserialize("traces.json").traces
VARIABLES tid, done
HasOrder(t) == t.mode = "hard"
EdgeClauses(t) == IF \A M \in ToSet(t.mats) : NoForbiddenEdge(t.pk, M) THEN {} ELSE {"forbidden-edge-estimated"}
OrderClauses(t) ==
    IF ~HasOrder(t) THEN {}
    ELSE (IF \A p \in PathPairs(t.pk) :
               (p[1] \in ToSet(t.free) /\ p[2] \in ToSet(t.free)) \/ t.level[p[1]] < t.level[p[2]]
          THEN {} ELSE {"known-path-against-the-order"})
         \cup (IF \A p \in NoPathPairs(t.pk) :
               (p[1] \in ToSet(t.free) /\ p[2] \in ToSet(t.free)) \/ t.level[p[1]] < t.level[p[2]]
          THEN {} ELSE {"excluded-path-follows-the-order"})
RejectClauses(t) ==
    IF t.mode # "hard" THEN (IF t.out = "ok" \/ CyclicPrecedence(t.pk) THEN {} ELSE {"unexpected-" \o t.out})
    ELSE IF Contradictory(t.pk) THEN (IF t.out = "ValueError" THEN {} ELSE {"contradiction-accepted"})
    ELSE IF ~CyclicPrecedence(t.pk) THEN (IF t.out = "ok" THEN {} ELSE {"consistent-prior-knowledge-rejected-" \o t.out})
    ELSE {}
\* statements given to the helper: every statement must be encoded, nothing else
MakeClauses(t) ==
    LET said(a, b) == (IF a \in ToSet(t.exo) \/ b \in ToSet(t.sinks) \/ <<b, a>> \in ToSet(t.nopaths) THEN {0} ELSE {})
                      \cup (IF <<b, a>> \in ToSet(t.paths) THEN {1} ELSE {})
    IN IF t.out # "ok" THEN {"unexpected-" \o t.out}
       ELSE IF \A a, b \in 1..t.n : IF a = b THEN t.got[a][b] = -1
                                    ELSE t.got[a][b] \in (IF said(a, b) = {} THEN {-1} ELSE said(a, b))
            THEN {} ELSE {"helper-matrix-wrong"}
Clauses(t) == IF t.kind = "make" THEN MakeClauses(t)
              ELSE RejectClauses(t) \cup (IF t.out = "ok" THEN EdgeClauses(t) \cup OrderClauses(t) ELSE {})
Init == \E k \in 1..Len(T) : tid = k /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ PrintT(<<"JUDGED", ToJson([tid |-> tid, bad |-> SetToSeq(Clauses(T[tid]))])>>)
Spec == Init /\ [][Next]_<<tid, done>>
=============================================================================
