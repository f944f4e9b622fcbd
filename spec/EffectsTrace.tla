---------------------------- MODULE EffectsTrace ---------------------------
(* Decides recorded answers of estimate_total_effect, estimate_total_effect2
   and get_error_independence_p_values.
   Series v of D (a variable, a variable at a time point, or an error) is
   observed at samples s; in time series, the first samples lack the history.
   am: what the fitted matrices say (0, 1, NAN) in the row of the source, one
   column per entry of cols = <<series, lag>>.  c[k] = <<series, lag, weight>>:
   how the destination was composed.                                         *)
EXTENDS Effects, Json
T == JsonDeserialize("traces.json").traces
VARIABLES tid, done
C(x, y) == IF x THEN {} ELSE {y}
\* the source and its direct causes, shifted by the lag of the source
Predictors(t) == {<<t.src, t.fl>>} \cup {<<t.cols[k][1], t.cols[k][2] + t.fl>> : k \in {j \in 1..Len(t.am) : t.am[j] \notin {0, NAN}}}
\* the samples whose predictors were all observed
History(t) == CHOOSE l \in {p[2] : p \in Predictors(t)} : \A p \in Predictors(t) : p[2] <= l
Lagged(x, l, s) == x[s - l]
Composed(t) == LET m == Len(t.D[1]) IN
    /\ \A k \in 1..Len(t.c) : t.c[k][3] = 0 \/ <<t.c[k][1], t.c[k][2]>> \in Predictors(t)
    /\ \A s \in (History(t) + 1)..m : t.D[t.dst][s] = t.c0 + SumSeq([k \in 1..Len(t.c) |-> t.c[k][3] * Lagged(t.D[t.c[k][1]], t.c[k][2], s)])
Weight(t) == SumSeq([k \in 1..Len(t.c) |-> IF <<t.c[k][1], t.c[k][2]>> = <<t.src, t.fl>> THEN t.c[k][3] ELSE 0])
Confounded(t) == NAN \in ToSet(t.am)
Backwards(t) == IF t.anc # <<>> THEN t.anc[1] = 1 ELSE t.fl = 0 /\ t.level[t.v2] < t.level[t.v1]
\* several data sets are asked at once, one trace each, answers in order
Estimate(t) ==
    IF Confounded(t) THEN C(t.ans = NAN /\ t.warned = 1, "effect-of-a-confounded-source-claimed")
    ELSE IF ~Composed(t) THEN {"machinery-composition"}
    ELSE C(Abs(t.ans - 1000 * Weight(t)) <= 1, "not-the-effect-adjusted-for-the-causes-of-the-source")
         \cup C(t.warned = (IF Backwards(t) THEN 1 ELSE 0), "warning-about-the-order-wrong")
Summed(t) ==
    IF Confounded(t) THEN C(t.ans = NAN /\ t.warned = 1, "effect-of-a-confounded-source-claimed")
    ELSE C(t.num = 1, "not-the-sum-over-the-paths")
         \cup (IF t.exact = 1 THEN C(t.ans = 1000 * Effect(t.B, t.src)[t.dst], "not-the-sum-over-the-paths") ELSE {})
         \cup C(t.dst \in Descendants(t.B, t.src) \/ t.ans = 0, "effect-without-a-path")
         \cup C(t.warned = (IF Backwards(t) THEN 1 ELSE 0), "warning-about-the-order-wrong")
\* P: 0 zero, 1 the p-value of the errors, 2 another value, NAN undefined
PValues(t) ==
    LET n == Len(t.P)  unk == {i \in 1..n : \E j \in 1..n : t.N[i][j] = 1 \/ t.N[j][i] = 1} IN
    C(\A i \in 1..n : t.P[i][i] = 0 \/ t.undef = 1, "diagonal-not-zero")
    \cup C(\A i, j \in 1..n : i # j => t.P[i][j] = (IF i \in unk \/ j \in unk \/ t.undef = 1 THEN NAN ELSE 1), "not-the-p-value-of-the-errors")
Clauses(t) == IF t.out # "ok" THEN {"unexpected-" \o t.out}
              ELSE CASE t.kind = "te" -> Estimate(t) [] t.kind = "te2" -> Summed(t) [] t.kind = "pv" -> PValues(t)
Init == \E k \in 1..Len(T) : tid = k /\ done = FALSE /\ EStart(<<>>)
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<tid, evars>>
        /\ PrintT(<<"JUDGED", ToJson([tid |-> tid, bad |-> SetToSeq(Clauses(T[tid]))])>>)
Spec == Init /\ [][Next]_<<evars, tid, done>>
=============================================================================
