--------------------------- MODULE SimulatorTrace --------------------------
(* A recorded history of one CausalBasedSimulator: trainings and runs in any
   order.  Every run is decided against the last successful training only.    *)
EXTENDS Simulator, Json
T == JsonDeserialize("traces.json").traces
VARIABLES tid, k, cur, bad
tvars == <<tid, k, cur, bad>>
Op(j) == T[tid].ops[j]
\* expanded variables of a time-series model: block l holds the data l steps back
DataOf(o) == LET nf == Len(o.X[1])  m == Len(o.X) IN
             [v \in 1..(nf * (o.lags + 1)) |-> LET l == (v - 1) \div nf  f == ((v - 1) % nf) + 1
                IN [r \in 1..(m - o.lags) |-> o.X[o.lags - l + r][f]]]
Model(o) == LET D == TLCEval(DataOf(o)) IN
            [D |-> D, par |-> [v \in 1..Len(D) |-> ToSet(o.par[v])], w |-> o.w, b |-> o.b, disc |-> o.disc]
C(x, y) == IF x THEN {} ELSE {y}
TrainClauses(o) ==
    LET m == Model(o) IN
    IF o.valid = FALSE THEN C(o.out \notin {"ok"}, "unusable-training-accepted")
    ELSE IF ~Acyclic(m.par) THEN C(o.out = "ValueError", "cyclic-graph-accepted")
    ELSE IF o.out # "ok" THEN {"training-failed-" \o o.out}
    ELSE C(\A v \in 1..NV(m) : ToSet(o.names[v]) = m.par[v] /\ Len(o.names[v]) = Cardinality(m.par[v]), "trained-on-other-causes")
         \cup C(\A v \in 1..NV(m) : m.disc[v] \/ o.resid[v] = Error(m, v), "trained-errors-wrong")
         \cup C(o.mutated = FALSE, "inputs-modified")
RunClauses(o, t) ==
    LET m == TLCEval(Model(t))
        c == TLCEval(Change(m, {[v |-> d.v, par |-> ToSet(d.par), w |-> d.w, b |-> d.b] : d \in ToSet(o.chg)},
                               {[v |-> d.v, e |-> d.e] : d \in ToSet(o.exog)},
                               {[v |-> d.v, e |-> d.e] : d \in ToSet(o.fix)}))
        n == NV(m)  R == NR(m)  con == {v \in 1..n : ~m.disc[v] /\ c.F[v] = <<>>}
        \* the error each simulated value implies
        imp == TLCEval([r \in 1..R |-> [v \in con |-> o.sim[v][r] - (IF c.par[v] = {} THEN 0
                          ELSE Pred(m, c.par, c.w, c.b, v, [q \in 1..n |-> o.sim[q][r]]))]])
        org == TLCEval([r \in 1..R |-> [v \in con |-> c.E[v][r]]])
        count(s, x) == Cardinality({r \in 1..R : s[r] = x})
    IN IF o.valid = FALSE THEN C(o.out \notin {"ok"}, "unusable-request-accepted")
       ELSE IF ~Acyclic(c.par) THEN C(o.out = "ValueError", "cyclic-change-accepted")
       ELSE IF o.out # "ok" THEN {"run-failed-" \o o.out}
       ELSE IF Len(o.sim) # n \/ \E v \in 1..n : Len(o.sim[v]) # R THEN {"wrong-shape"}
       ELSE C(\A v \in 1..n : v \notin con => o.sim[v] = Column(m, c, IdPerm(m), v, o.sim), "discrete-or-imposed-variable-wrong")
            \cup (IF o.shuf THEN C(\A r \in 1..R : count(imp, org[r]) = count(org, org[r]), "errors-are-not-one-permutation-of-the-samples")
                  ELSE C(imp = org, "simulated-values-wrong"))
            \cup C(o.same, "same-seed-gives-another-run") \cup C(o.mutated = FALSE, "inputs-modified")
Init == \E i \in 1..Len(T) : /\ tid = i /\ k = 1 /\ cur = 0 /\ bad = {}
                             /\ SStart([D |-> <<<<0>>>>, par |-> <<{}>>, w |-> <<<<0>>>>, b |-> <<0>>, disc |-> <<FALSE>>], [par |-> <<{}>>, F |-> <<<<>>>>], <<1>>)
StepTrain == LET o == Op(k) IN /\ o.op = "train" /\ bad' = bad \cup TrainClauses(o)
                               /\ cur' = IF o.out = "ok" THEN k ELSE cur
StepRun == LET o == Op(k) IN /\ o.op = "run" /\ cur' = cur
                             /\ bad' = bad \cup (IF cur = 0 THEN C(o.out = "RuntimeError", "run-before-training") ELSE RunClauses(o, Op(cur)))
Next == \/ /\ k <= Len(T[tid].ops) /\ k' = k + 1 /\ (StepTrain \/ StepRun) /\ UNCHANGED <<tid, svars>>
        \/ /\ k = Len(T[tid].ops) + 1 /\ k' = k + 1 /\ UNCHANGED <<tid, cur, bad, svars>>
           /\ PrintT(<<"JUDGED", ToJson([tid |-> tid, bad |-> SetToSeq(bad)])>>)
Spec == Init /\ [][Next]_<<tvars, svars>>
=============================================================================
