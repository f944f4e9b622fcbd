--------------------------- MODULE NonlinearTrace ---------------------------
(* Decides a recorded figure: panels = what each panel shows (class, points
   per position, curve per percentile, quartile boxes, title and labels right).  NAN: a value
   that is not a multiple of the unit.                                       *)
EXTENDS NonlinearEffect, TLC, Json
T == JsonDeserialize("traces.json").traces
VARIABLES tid, done
tr == T[tid]
Norm(p) == [p EXCEPT !.discrete = (p.discrete = 1)]
Init == /\ \E k \in 1..Len(T) : tid = k
        /\ NStart(Norm(tr.prob)) /\ done = FALSE
Near(v) == v <= 1 /\ v >= 0 - 1
SortedSeq(s) == SortSeq(s, <)
PanelBad(q) ==
    IF q.class \notin DOMAIN info THEN {"panel-for-a-class-that-does-not-exist"}
    ELSE LET i == info[q.class] IN
         {c \in {"points-are-not-the-mean-predictions-under-intervention"} :
             tr.box = 0 /\ ~(Len(q.points) = Len(i) /\ \A k \in 1..Len(i) : SortedSeq(q.points[k]) = SortedSeq(i[k]))}
         \cup {c \in {"boxes-are-not-the-quartiles-at-their-positions"} :
             tr.box = 1 /\ ~\A k \in 1..Len(i) : /\ Len(q.boxes[k]) = 1
                                               /\ Near(Percentile(i[k], 25) - q.boxes[k][1][1])
                                               /\ Near(Percentile(i[k], 75) - q.boxes[k][1][2])}
         \cup {c \in {"curves-are-not-the-percentiles-over-the-replicates"} :
             ~(Len(q.curves) = Len(tr.per) /\ \A a \in 1..Len(tr.per) : \A k \in 1..Len(i) :
                  LET v == Percentile(i[k], tr.per[a]) - q.curves[a][k] IN v <= 1 /\ v >= 0 - 1)}
         \cup {c \in {"wrong-labels"} : q.labels = 0}
Clauses == IF tr.out # tr.want THEN {"unexpected-" \o tr.out}
           ELSE IF tr.out # "ok" THEN {}
           ELSE (IF {tr.panels[k].class : k \in 1..Len(tr.panels)} # DOMAIN info \/ Len(tr.panels) # Cardinality(DOMAIN info) THEN {"not-one-panel-per-class"} ELSE {})
                \cup UNION {PanelBad(tr.panels[k]) : k \in 1..Len(tr.panels)}
                \cup {c \in {"given-data-changed"} : tr.same = 0}
                \cup {c \in {"given-figure-not-used"} : tr.own = 0}
Judge == /\ ~done /\ (Finished \/ tr.out # "ok" \/ tr.want # "ok") /\ done' = TRUE
         /\ PrintT(<<"JUDGED", ToJson([tid |-> tid, bad |-> SetToSeq(Clauses)])>>)
         /\ UNCHANGED <<nvars, tid>>
Next == Judge \/ (~done /\ tr.out = "ok" /\ tr.want = "ok" /\ Replicate /\ UNCHANGED <<tid, done>>)
Spec == Init /\ [][Next]_<<nvars, tid, done>>
=============================================================================
