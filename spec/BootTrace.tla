----------------------------- MODULE BootTrace -----------------------------
EXTENDS BootStats, Json
Data == JsonDeserialize("traces.json")
T == Data.traces
VARIABLES tid, bad
Init == \E k \in 1..Len(T) : tid = k /\ bad = "?" /\ BStart(T[k])

Desc(s) == \A k \in 1..(Len(s) - 1) : s[k] >= s[k+1]
Distinct(s) == IsSimple(s)
Want(t, f) == IF t.top = 0 THEN Cardinality(DOMAIN f)
              ELSE IF t.top < Cardinality(DOMAIN f) THEN t.top ELSE Cardinality(DOMAIN f)
\* keys/counts listed by the implementation against the accumulated function f
Ranking(t, keys, counts, f) ==
    IF Len(keys) # Len(counts) THEN {"ragged-result"}
    ELSE IF ~(ToSet(keys) \subseteq DOMAIN f) THEN {"entry-that-never-occurred"}
    ELSE (IF Distinct(keys) THEN {} ELSE {"duplicate-entry"})
      \cup (IF \A k \in 1..Len(keys) : counts[k] = f[keys[k]] THEN {} ELSE {"wrong-count"})
      \cup (IF Desc(counts) THEN {} ELSE {"not-sorted"})
      \cup (IF Len(keys) = Want(t, f) THEN {} ELSE {"wrong-length"})
      \cup (IF \A d \in DOMAIN f \ ToSet(keys), k \in 1..Len(keys) : f[d] <= f[keys[k]]
            THEN {} ELSE {"not-the-top-entries"})

DirClauses(t) == Ranking(t, [k \in 1..Len(t.to) |-> <<t.to[k], t.from[k], t.sign[k]>>], t.count, dirs)
DagClauses(t) ==
    LET key(d) == {<<d.to[k], d.from[k], d.sign[k]>> : k \in 1..Len(d.to)}
    IN (IF \A k \in 1..Len(t.dags) : Cardinality(key(t.dags[k])) = Len(t.dags[k].to)
        THEN {} ELSE {"duplicate-edge"})
       \cup Ranking(t, [k \in 1..Len(t.dags) |-> key(t.dags[k])], t.count, dags)
ProbClauses(t) ==
    LET B1 == t.Bs[1]  n == Len(B1)  m == Len(B1[1]) \div n
    IN  IF Len(t.probs) # m \/ ~(\A b \in 1..Len(t.probs) : Len(t.probs[b]) = n /\ \A i \in 1..Len(t.probs[b]) : Len(t.probs[b][i]) = n)
        THEN {"wrong-shape"}
        ELSE IF \A b \in 1..m, i \in 1..n, j \in 1..n :
                  t.probs[b][i][j] = Cardinality({k \in 1..Len(t.Bs) : IsEdge(t.Bs[k], i, (b-1)*n + j, t.thr2)})
             THEN {} ELSE {"wrong-probability"}
TotClauses(t) ==
    LET keys == [k \in 1..Len(t.to) |-> <<t.to[k], t.from[k]>>]
        rk == Ranking(t, keys, t.count, totc)
    IN rk \cup (IF rk = {} /\ ~(\A k \in 1..Len(keys) : t.eff2[k] = Median2(tots[keys[k]]))
                THEN {"wrong-median-effect"} ELSE {})
PathClauses(t) ==
    LET cnt == [p \in DOMAIN pths |-> Len(pths[p])]
        rk == Ranking(t, t.paths, t.count, cnt)
    IN rk \cup (IF rk = {} /\ ~(\A k \in 1..Len(t.paths) : t.eff2[k] = Median2(pths[t.paths[k]]))
                THEN {"wrong-median-effect"} ELSE {})

Clauses(t) ==
    IF t.kind = "reject" THEN (IF t.out = "ValueError" THEN {} ELSE {"invalid-argument-accepted"})
    ELSE IF t.out # "ok" THEN {"unexpected-" \o t.out}
    ELSE CASE t.kind = "dir" -> DirClauses(t) [] t.kind = "dag" -> DagClauses(t)
           [] t.kind = "prob" -> ProbClauses(t) [] t.kind = "tot" -> TotClauses(t)
           [] t.kind = "path" -> PathClauses(t)
Judge == /\ bad = "?" /\ AllRead
         /\ LET b == Clauses(T[tid]) IN
              /\ bad' = IF b = {} THEN "ok" ELSE "rejected"
              /\ PrintT(<<"JUDGED", ToJson([tid |-> tid, bad |-> SetToSeq(b)])>>)
         /\ UNCHANGED <<bvars, tid>>
Next == Judge \/ (Read /\ UNCHANGED <<tid, bad>>)
Spec == Init /\ [][Next]_<<bvars, tid, bad>>
=============================================================================
