--------------------------- MODULE BootstrapTrace --------------------------
(* Decides a recorded bootstrap.  reps[i].idx[g] is the sequence of rows of
   group g the i-th fit saw (0 = a row that does not come from the data);
   same[i] = 1 the stored graphs are those of that fit; te[i] = 1 the stored
   total effects are those of the stored graph.                              *)
EXTENDS Bootstrap, Json, SequencesExt
T == JsonDeserialize("traces.json").traces
VARIABLES tid, bad
tr == T[tid]
Init == \E q \in 1..Len(T) : tid = q /\ bad = {}
          /\ BStart([rows |-> T[q].rows, k |-> T[q].k, mode |-> T[q].mode])
i == Len(results) + 1
Ok == tr.out = "ok" /\ bad = {} /\ tr.seen = 1 /\ Len(tr.reps) = tr.k
\* for time series the rows drawn are residuals, of which there may be fewer
DrawT == /\ st = "draw" /\ i <= tr.k
         /\ LET d == tr.reps[i].idx IN
            IF Len(d) # Len(tr.rows) \/ \E g \in 1..Len(d) : Len(d[g]) # tr.rows[g]
              THEN bad' = {"wrong-number-of-rows"} /\ UNCHANGED bvars
            ELSE IF \E g \in 1..Len(d) : \E r \in 1..Len(d[g]) : d[g][r] \notin 1..tr.src[g]
              THEN bad' = {"replicate-contains-rows-that-are-not-in-the-data"} /\ UNCHANGED bvars
            ELSE IF tr.mode = "common" /\ \E g \in 1..Len(d) : d[g] # d[1]
              THEN bad' = {"time-points-resampled-differently"} /\ UNCHANGED bvars
            ELSE draw' = d /\ st' = "fit" /\ UNCHANGED <<cfg, model, results, bad>>
FitT == Fit /\ UNCHANGED bad
StoreT == Store /\ bad' = (IF tr.reps[i].same = 1 THEN {} ELSE {"stored-graph-is-not-the-fit-of-the-replicate"})
                       \cup (IF tr.reps[i].te = 1 THEN {} ELSE {"stored-total-effects-are-not-those-of-the-graph"})
Run == Ok /\ st # "done" /\ (DrawT \/ FitT \/ StoreT \/ (Return /\ UNCHANGED bad)) /\ UNCHANGED tid
Rows(g) == UNION {ToSet(results[r][g]) : r \in 1..Len(results)}
Global == (IF \A g \in Groups : Rows(g) = 1..tr.src[g] THEN {} ELSE {"some-row-is-never-drawn"})
          \cup (IF \A r, s \in 1..Len(results) : r # s => results[r] # results[s] THEN {} ELSE {"replicates-repeat"})
          \cup (IF \A r \in 1..Len(results) : \A g \in Groups : Cardinality(ToSet(results[r][g])) < Len(results[r][g])
                THEN {} ELSE {"drawn-without-replacement"})
          \cup (IF cfg.mode = "separate" /\ \E g, h \in Groups : g # h /\ cfg.rows[g] = cfg.rows[h] /\ \E r \in 1..Len(results) : results[r][g] = results[r][h]
                THEN {"groups-resampled-alike"} ELSE {})
Verdict == IF tr.out # "ok" THEN {"unexpected-" \o tr.out}
           ELSE IF tr.seen = 0 THEN {}
           ELSE IF Len(tr.reps) # tr.k THEN {"wrong-number-of-replicates"}
           ELSE IF bad # {} THEN bad ELSE Global
Judge == /\ bad # {"judged"} /\ (~Ok \/ st = "done")
         /\ PrintT(<<"JUDGED", ToJson([tid |-> tid, bad |-> SetToSeq(Verdict)])>>)
         /\ bad' = {"judged"} /\ UNCHANGED <<bvars, tid>>
Next == Judge \/ Run
Spec == Init /\ [][Next]_<<bvars, tid, bad>>
=============================================================================
