-------------------------- MODULE DualAscentTrace --------------------------
(* Decides recorded runs of LiNA.  scripted = 1: ws are the optimiser's answers
   in order; calls[i]: the i-th question (start: which answer it starts from, 0
   for zero; rho, alpha deduced from the objective; obj, grad, bnds: objective
   and gradient are those of the loss with these weights, diagonal fixed);
   W: the matrix returned.  scripted = 0: a run with the real optimiser, Z its
   zero pattern, small = 1 if some entry lies below the threshold.            *)
EXTENDS DualAscent, SequencesExt, Json
T == JsonDeserialize("traces.json").traces
VARIABLES tid, bad, done
t == T[tid]
C(x, y) == IF x THEN {} ELSE {y}
Question(c) ==
    C(c.start = start, "does-not-continue-from-the-accepted-solution")
    \cup C(c.rho = rho /\ c.alpha = alpha, "weights-of-the-cycles-wrong")
    \cup C(c.obj = 1, "objective-wrong") \cup C(c.grad = 1, "gradient-is-not-that-of-the-objective")
    \cup C(c.bnds = 1, "bounds-wrong")
RECURSIVE Reach(_, _)
Reach(Z, R) == LET R3 == R \cup {pr \in (1..Len(Z)) \X (1..Len(Z)) : \E m \in 1..Len(Z) : <<pr[1], m>> \in R /\ <<m, pr[2]>> \in R}
               IN IF R3 = R THEN R ELSE Reach(Z, R3)
Acyclic(Z) == LET R == Reach(Z, {pr \in (1..Len(Z)) \X (1..Len(Z)) : Z[pr[1]][pr[2]] = 1}) IN \A i \in 1..Len(Z) : <<i, i>> \notin R
Result ==
    C(t.meas = 1, "measurement-matrix-not-that-of-the-factor-analysis")
    \cup C(t.same = 1, "data-modified-or-answer-not-kept")
    \cup (IF t.scripted = 1 THEN C(t.W = Drop(t.ws[start], t.thr), "not-the-last-solution-above-the-threshold")
          ELSE C(t.small = 0, "effect-below-the-threshold-kept") \cup C(\A i \in 1..t.d : t.Z[i][i] = 0, "factor-causes-itself")
               \cup C(t.conv = 0 \/ Acyclic(t.Z), "cyclic-graph"))
Init == \E i \in 1..Len(T) : tid = i /\ bad = {} /\ done = FALSE
          /\ DStart([outer |-> T[i].outer, rhomax |-> T[i].rhomax, tol |-> T[i].tol])
\* TLC follows the recorded questions
Follow == /\ ~done /\ t.out = "ok" /\ t.scripted = 1 /\ dst = "ask" /\ k < Len(t.calls)
          /\ bad' = bad \cup Question(t.calls[k + 1]) /\ Answer(Cycles(t.ws[k + 1])) /\ UNCHANGED <<tid, done>>
Judge == /\ ~done /\ ~(t.out = "ok" /\ t.scripted = 1 /\ dst = "ask" /\ k < Len(t.calls))
         /\ LET b == IF t.out # "ok" THEN {"unexpected-" \o t.out}
                     ELSE IF t.scripted = 0 THEN Result
                     ELSE IF dst = "ask" THEN bad \cup {"gave-up-early"}
                     ELSE IF k < Len(t.calls) THEN bad \cup {"did-not-stop"} ELSE bad \cup Result
            IN /\ bad' = b /\ PrintT(<<"JUDGED", ToJson([tid |-> tid, bad |-> SetToSeq(b)])>>)
         /\ done' = TRUE /\ UNCHANGED <<tid, dvars>>
Next == Follow \/ Judge
Spec == Init /\ [][Next]_<<dvars, tid, bad, done>>
=============================================================================
