-------------------------- MODULE TimeSeriesTrace --------------------------
(* Decides recorded fits of VARLiNGAM and VARMALiNGAM.  X, B0 and given
   coefficients are integers; residuals R, coefficients B (lags) and O (errors)
   are recorded times sc.  src: "given" or "estimated" coefficients (Mg, Hg);
   crit[k]: rank of the k-th candidate order by the information criterion
   (0: no search, the last candidate is to be used), ord the lags or
   [p, q] of candidate k; rowok[i][P]: the recorded row of i is the sparse
   regression on the contemporary set P and everything lagged.               *)
EXTENDS TimeSeries, Json
TR == JsonDeserialize("traces.json").traces
VARIABLES tid, done
Abs(z) == IF z < 0 THEN 0 - z ELSE z
C(x, y) == IF x THEN {} ELSE {y}
Near(x, y, tol) == \A k \in 1..Len(x) : Abs(x[k] - y[k]) <= tol
Scale(s, x) == [k \in 1..Len(x) |-> s * x[k]]
ScaleM(s, A) == [k \in 1..Len(A) |-> Scale(s, A[k])]
Mask(S) == FoldSet(LAMBDA v, a : a + 2^(v - 1), 1, S)
\* time index of the first residual: n of them, aligned with the end of the data
T0(t) == Len(t.X) - Len(t.R)
Chosen(t) == IF t.crit = <<>> THEN t.ord[Len(t.ord)]
             ELSE t.ord[CHOOSE k \in 1..Len(t.crit) : (\A j \in 1..Len(t.crit) : t.crit[k] <= t.crit[j]) /\ (\A j \in 1..(k - 1) : t.crit[j] > t.crit[k])]
Shape(t) ==
    LET o == Chosen(t)  n == Len(t.B0) IN
    C(<<Len(t.B), Len(t.O)>> = o, "not-the-best-order")
    \cup C(Len(t.R) = (IF t.cls = "varma" /\ t.src = "estimated" THEN Len(t.X) ELSE Len(t.X) - Max({o[1], o[2]})), "residuals-missing")
    \cup C(t.same = 1, "structure-not-sought-among-the-residuals")
    \cup C(t.order = t.wantorder, "order-not-that-of-the-residuals")
\* residuals of the reduced form with given coefficients
Residuals(t) ==
    LET n == Len(t.B0)  q == Len(t.Hg) IN
    C(\A k \in 1..Len(t.R) : k <= q \/ LET s == T0(t) + k IN
        Near(t.R[k], Sub(Sub(Scale(t.sc, t.X[s]), Scale(t.sc, VSum(n, Len(t.Mg), LAMBDA l : Mul(t.Mg[l], t.X[s - l])))),
                         VSum(n, q, LAMBDA l : Mul(t.Hg[l], t.R[k - l]))), 2 + q * n * 8), "residual-wrong")
Recovered(t) ==
    C(\A k \in 1..Len(t.Mg) : t.B[k] = ScaleM(t.sc, MM(IMinus(t.B0), t.Mg[k])), "lagged-effects-wrong")
    \cup C(\A k \in 1..Len(t.Hg) : MM(t.O[k], IMinus(t.B0)) = ScaleM(t.sc, MM(IMinus(t.B0), t.Hg[k])), "error-effects-wrong")
\* estimated lags: the structural equation holds with the mixed residuals, and those
\* are orthogonal to everything they were regressed on
Equation(t) ==
    LET n == Len(t.B0) IN
    C(\A k \in 1..Len(t.R) : LET s == T0(t) + k IN
        Near(Mul(IMinus(t.B0), t.R[k]), Sub(Scale(t.sc, Mul(IMinus(t.B0), t.X[s])), VSum(n, Len(t.B), LAMBDA l : Mul(t.B[l], t.X[s - l]))), t.tol),
      "structural-equation-violated")
Orthogonal(t) ==
    LET n == Len(t.B0) IN
    C(\A l \in 1..Len(t.B), a \in 1..n, b \in 1..n :
        Abs(SumTo(Len(t.R), LAMBDA k : t.R[k][a] * t.X[T0(t) + k - l][b])) <= t.otol, "residuals-not-those-of-the-regression")
Before(t, i) == ToSet(SubSeq(t.order, 1, (CHOOSE k \in 1..Len(t.order) : t.order[k] = i) - 1))
Pruned(t) ==
    C(\A i \in 1..Len(t.order) : t.rowok[i][Mask(Before(t, i))] = 1, "row-not-the-regression-on-predecessors-and-lags")
Clauses(t) ==
    IF t.out # "ok" THEN {"unexpected-" \o t.out}
    ELSE LET s == Shape(t) IN
      IF s # {} THEN s
      ELSE (IF t.src = "given" THEN Residuals(t) ELSE IF t.cls = "var" THEN Orthogonal(t) ELSE C(t.fit = 1, "not-the-maximum-likelihood-fit"))
           \cup (IF t.prune = 1 THEN Pruned(t)
                 ELSE C(t.B0got = ScaleM(t.sc, t.B0), "instantaneous-effects-not-those-of-the-residuals")
                      \cup (IF t.src = "given" THEN Recovered(t) ELSE IF t.cls = "var" THEN Equation(t) ELSE {}))
Init == \E k \in 1..Len(TR) : tid = k /\ done = FALSE /\ TStart([B0 |-> TR[k].B0, B |-> <<>>, O |-> <<>>])
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<tid, tvars>>
        /\ PrintT(<<"JUDGED", ToJson([tid |-> tid, bad |-> SetToSeq(Clauses(TR[tid]))])>>)
Spec == Init /\ [][Next]_<<tvars, tid, done>>
=============================================================================
