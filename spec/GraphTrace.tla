----------------------------- MODULE GraphTrace ----------------------------
(* Decides recorded graph queries: path enumeration, total effect, sinks,
   exogenous variables, distances from the roots.                           *)
EXTENDS Paths, Json
Data == JsonDeserialize("traces.json")
T == Data.traces
VARIABLES tid, bad
tvars == <<pvars, tid, bad>>

Query(t) == IF t.kind = "query" THEN [B |-> t.B, fr |-> 1, to |-> 1, thr2 |-> 0]
            ELSE [B |-> t.B, fr |-> t.fr, to |-> t.to, thr2 |-> t.thr2]
Init == \E k \in 1..Len(T) : tid = k /\ bad = "?" /\ PathsStart(Query(T[k]))

Bag(s) == [x \in ToSet(s) |-> Cardinality({k \in 1..Len(s) : s[k] = x})]

DiscreteOnPath(t) == \E k \in 1..Len(found) : \E m \in 2..Len(found[k]) : t.cont[found[k][m]] = 0

PathClauses(t) ==
    (IF st = "cyclic" THEN (IF t.out = "ValueError" THEN {} ELSE {"cyclic-not-rejected"})
     ELSE IF t.out # "ok" THEN {"unexpected-" \o t.out}
     ELSE (IF Len(t.paths) = Len(t.effects) THEN {} ELSE {"paths-effects-length"})
          \cup (IF Bag(t.paths) = Bag(found) THEN {} ELSE {"wrong-paths"})
          \cup (IF Len(t.paths) = Len(t.effects) /\ ~(\A k \in 1..Len(t.paths) :
                     t.effects[k] = PathEffect(g.B, t.paths[k]))
                THEN {"wrong-effect"} ELSE {}))
TotalClauses(t) ==
    IF st = "cyclic" THEN (IF t.out = "ValueError" THEN {} ELSE {"cyclic-not-rejected"})
    ELSE IF DiscreteOnPath(t) THEN (IF t.out = "ValueError" THEN {} ELSE {"discrete-not-rejected"})
    ELSE IF t.out # "ok" THEN {"unexpected-" \o t.out}
    ELSE IF t.total = Total THEN {} ELSE {"wrong-total"}

MaxD(t) == IF t.maxd = 0 THEN Dim(t.B) ELSE t.maxd
DistOK(t) == LET L == Distances(t.B)
             IN  /\ {d \in 1..Len(t.dist) : t.dist[d] # <<>>} = 1..Min({Len(L), MaxD(t) + 1})
                 /\ \A d \in 1..Len(t.dist) : t.dist[d] # <<>> => ToSet(t.dist[d]) = L[d] /\ IsSimple(t.dist[d])
QueryClauses(t) ==
    (IF t.sinkout = "ok" /\ ToSet(t.sinks) = Sinks(t.B) /\ IsSimple(t.sinks) THEN {} ELSE {"wrong-sinks"})
    \cup (IF t.exoout = "ok" /\ ToSet(t.exos) = Exos(t.B) /\ IsSimple(t.exos) THEN {} ELSE {"wrong-exogenous"})
    \cup (IF Roots(t.B) = {} THEN (IF t.distout = "ValueError" THEN {} ELSE {"no-root-not-rejected"})
          ELSE IF t.distout # "ok" THEN {"unexpected-distance-" \o t.distout}
          ELSE IF DistOK(t) THEN {} ELSE {"wrong-distances"})

Judge == LET t == T[tid]
             b == IF t.kind = "query" THEN QueryClauses(t)
                  ELSE IF t.kind = "total" THEN TotalClauses(t) ELSE PathClauses(t)
         IN  /\ bad = "?"
             /\ t.kind = "query" \/ st # "run"
             /\ bad' = IF b = {} THEN "ok" ELSE "rejected"
             /\ PrintT(<<"JUDGED", ToJson([tid |-> tid, bad |-> SetToSeq(b)])>>)
             /\ UNCHANGED <<pvars, tid>>
Next == Judge \/ (T[tid].kind # "query" /\ PathsNext /\ UNCHANGED <<tid, bad>>)
Spec == Init /\ [][Next]_tvars
=============================================================================
