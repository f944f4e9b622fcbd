---------------------------- MODULE TuningTrace ----------------------------
(* Decides recorded runs of OutOfSampleCausalTuning.fit.                    *)
EXTENDS Tuning, Json, SequencesExt
T == JsonDeserialize("traces.json").traces
VARIABLE tid
tr == T[tid]
G(m) == {<<i, j>> \in (1..Len(m)) \X (1..Len(m)) : m[i][j] # 0}
Pairs(k) == [b \in 1..k |-> [c \in 1..k |-> 0]]
Case(t) == [n |-> t.n, k |-> Len(t.graphs), f |-> t.f,
            graphs |-> [c \in 1..Len(t.graphs) |-> [f \in 1..t.f |-> G(t.graphs[c][f])]],
            others |-> t.others, rank |-> t.rank,
            similar |-> [b \in 1..Len(t.graphs) |-> [c \in 1..Len(t.graphs) |-> IF t.p[c] > t.thr THEN 1 ELSE 0]],
            penalty |-> t.penalty]
Init == \E k \in 1..Len(T) : tid = k /\ TStart(Case(T[k]))
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Best == First(Top)
SizesRight == \A c \in C : tr.exact[c] = 1 => tr.size[c] = Size(c)
\* blankets the reference predictions are made of
OracleRight == \A c \in C, f \in F, v \in V : ToSet(tr.exps[c][f][v]) = Explaining(c, f, v)
PerfRight == \A c \in C : Abs(tr.perf[c] - tr.oracle[c]) <= tr.ptol
PValues == IF tr.penalty = 0 THEN tr.keys = <<0>>
           ELSE /\ ToSet(tr.keys) = C \ {Best}
                /\ \A c \in C \ {Best} : tr.op[c] < 0 \/ Abs(tr.p[c] - tr.op[c]) <= tr.otol[c]
Bad ==
    IF tr.out # tr.expect THEN {"unexpected-" \o tr.out}
    ELSE IF tr.out # "ok" THEN {}
    ELSE (IF \A c \in C : tr.trained[c] = 1 THEN {} ELSE {"configuration-not-fitted-on-exactly-the-training-part-of-each-fold"})
      \cup (IF tr.once = 1 THEN {} ELSE {"answers-differ-between-equal-runs"})
      \cup (IF tr.kept = 1 THEN {} ELSE {"input-modified"})
      \cup (IF SizesRight THEN {} ELSE {"average-blanket-size"})
      \cup (IF tr.stubbed = 0 \/ (OracleRight /\ PerfRight) THEN {} ELSE {"performance-is-not-that-of-out-of-sample-predictions-from-the-blankets"})
      \cup (IF PValues THEN {} ELSE {"permutation-test"})
      \cup (IF tr.best = (IF tr.penalty = 1 THEN Choice(Best) ELSE Best) THEN {} ELSE {"chosen-configuration"})
Judge == /\ ph = "eval" /\ PrintT(<<"JUDGED", ToJson([tid |-> tid, bad |-> SetToSeq(Bad)])>>)
         /\ ph' = "judged" /\ UNCHANGED <<w, seen, best, tested, pick, tid>>
Spec == Init /\ [][Judge]_<<tvars, tid>>
=============================================================================
