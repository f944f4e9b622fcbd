------------------------- MODULE LongitudinalTrace -------------------------
(* Decides recorded fits of LongitudinalLiNGAM.  X[t][s]: sample s at time t
   (integers); R: residuals times sc; B[t][1 + lag]: effects times k, <<>> where
   the matrix is "not a number"; order[t] = <<>> if undefined; found[t] = 1 iff
   order and instantaneous effects at t are those DirectLiNGAM finds among the
   residuals at t.  With prior knowledge A the fit is one over the stacked
   variables: pk is the stacked knowledge under which the blocks G[t][1 + lag]
   and orders gorder[t] were found.                                          *)
EXTENDS TimeSeries, Json
TR == JsonDeserialize("traces.json").traces
VARIABLES tid, done
Abs(z) == IF z < 0 THEN 0 - z ELSE z
C(x, y) == IF x THEN {} ELSE {y}
Scale(s, x) == [k \in 1..Len(x) |-> s * x[k]]
Undefined(t) ==
    C(\A s \in 1..t.L : t.order[s] = <<>> /\ \A l \in 1..t.L + 1 : t.B[s][l] = <<>>, "effects-before-enough-history")
    \cup C(\A s \in t.L + 1..t.T : ToSet(t.order[s]) = 1..t.p /\ Len(t.order[s]) = t.p /\ \A l \in 1..t.L + 1 : t.B[s][l] # <<>>, "effects-missing")
\* residuals are those of the regression (with intercept) on the last L time points
Regression(t) ==
    C(\A s \in t.L + 1..t.T, l \in 1..t.L, a \in 1..t.p, b \in 1..t.p :
        LET m == Len(t.X[1]) IN
        Abs(m * SumTo(m, LAMBDA i : t.R[s][i][a] * t.X[s - l][i][b])
            - SumTo(m, LAMBDA i : t.R[s][i][a]) * SumTo(m, LAMBDA i : t.X[s - l][i][b])) <= t.otol,
      "residuals-not-those-of-the-regression-on-the-past")
Equation(t) ==
    C(\A s \in t.L + 1..t.T, i \in 1..Len(t.X[1]), a \in 1..t.p :
        LET b0 == t.B[s][1][a] IN
        Abs((t.k * t.R[s][i][a] - Dot(b0, t.R[s][i]))
            - t.sc * ((t.k * t.X[s][i][a] - Dot(b0, t.X[s][i])) - SumTo(t.L, LAMBDA l : Dot(t.B[s][1 + l][a], t.X[s - l][i])))) <= t.tol,
      "structural-equation-violated")
Found(t) == C(\A s \in t.L + 1..t.T : t.found[s] = 1, "instantaneous-effects-not-those-of-the-residuals")
Known(t) ==
    C(t.pk = Stacked(t.A, t.T, t.L, t.p), "machinery-stacked-knowledge")
    \cup C(t.out = t.gout, "prior-knowledge-not-honoured")
    \cup (IF t.out # "ok" THEN {} ELSE
          C(\A s \in t.L + 1..t.T : t.B[s] = t.G[s], "effects-not-those-under-the-prior-knowledge")
          \cup C(\A s \in t.L + 1..t.T : t.order[s] = t.gorder[s], "orders-not-those-under-the-prior-knowledge"))
Clauses(t) ==
    IF t.kind = "pk" THEN (IF t.out = "ok" THEN Undefined(t) ELSE {}) \cup Known(t)
    ELSE IF t.out # "ok" THEN {"unexpected-" \o t.out}
    ELSE LET u == Undefined(t) IN IF u # {} THEN u ELSE Regression(t) \cup Equation(t) \cup Found(t)
Init == \E k \in 1..Len(TR) : tid = k /\ done = FALSE /\ TStart([B0 |-> <<>>, B |-> <<>>, O |-> <<>>])
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<tid, tvars>>
        /\ PrintT(<<"JUDGED", ToJson([tid |-> tid, bad |-> SetToSeq(Clauses(TR[tid]))])>>)
Spec == Init /\ [][Next]_<<tvars, tid, done>>
=============================================================================
