-------------------------- MODULE InterventionTrace ------------------------
(* Decides recorded answers of CausalEffect.  mu, sd: mean and standard
   deviation of the data; c, b: coefficients and intercept of the predictor
   over the variables other than the target (c[target] = 0), s: its squared
   term on the first of them (index s, weight w).                            *)
EXTENDS Intervention, Json
T == JsonDeserialize("traces.json").traces
VARIABLES tid, done
Noise(t) == [k \in 1..Len(t.B) |-> t.mu[k] - SumOver(1..Len(t.B), LAMBDA q : t.B[k][q] * t.mu[q])]
Pred(t, x) == SumOver(1..Len(t.B), LAMBDA q : t.c[q] * x[q]) + t.b + (IF t.w = 0 THEN 0 ELSE t.w * x[t.s] * x[t.s])
DoPred(t, e, i, v) == LET x == Values(t.B, e, i, v) IN Pred(t, x)
Abs(z) == IF z < 0 THEN 0 - z ELSE z
C(x, y) == IF x THEN {} ELSE {y}
Effects(t) ==
    LET V == 1..Len(t.B)  e == TLCEval(Noise(t)) IN
    C(\A i \in V : LET m == DoPred(t, e, i, t.mu[i]) IN
        /\ t.eff[i][1] = t.k * Abs(m - DoPred(t, e, i, t.mu[i] + t.sd[i]))
        /\ t.eff[i][2] = t.k * Abs(m - DoPred(t, e, i, t.mu[i] - t.sd[i])), "effect-on-prediction-wrong")
Optimal(t) ==
    LET e == TLCEval(Noise(t))  c0 == DoPred(t, e, t.i, 0)  c1 == DoPred(t, e, t.i, 1) - c0
    IN IF c1 = 0 THEN {} ELSE C(t.opt # <<>> /\ c1 * t.opt[1] = (t.want - c0) * t.opt[2], "intervention-does-not-reach-the-desired-output")
Clauses(t) == IF ~IsDAG(t.B) THEN C(t.out = "ValueError", "cyclic-model-accepted")
              ELSE IF t.out # "ok" THEN {"unexpected-" \o t.out}
              ELSE IF t.kind = "effects" THEN Effects(t) ELSE Optimal(t)
Init == \E k \in 1..Len(T) : tid = k /\ done = FALSE /\ NStart([B |-> T[k].B, i |-> 1, v |-> 0, e |-> T[k].mu])
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<tid, nvars>>
        /\ PrintT(<<"JUDGED", ToJson([tid |-> tid, bad |-> SetToSeq(Clauses(T[tid]))])>>)
Spec == Init /\ [][Next]_<<nvars, tid, done>>
=============================================================================
