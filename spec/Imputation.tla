----------------------------- MODULE Imputation ----------------------------
(* bootstrap_with_imputation as a protocol between the loop, an imputer and a
   causal-discovery model.  What the two collaborators return is chosen by the
   environment (the number of data sets is the same for all replicates, as the
   shape of the result demands); any answer that violates their contract ends the run with a
   ValueError, and every call sees the data of the current replicate.
   log  sequence of <<callee, replicate>>; out  results stored so far        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS K, REPEATS
ImpBad == {"rows", "features", "nan-left", "flat"}
CdBad == {"not-a-tuple", "three", "duplicate", "short", "shape", "nan-matrix"}
VARIABLES rep, phase, log, script, out, st
ivars == <<rep, phase, log, script, out, st>>
IStart == rep = 1 /\ phase = "draw" /\ log = <<>> /\ script = <<>> /\ out = <<>> /\ st = "run"
Draw == /\ st = "run" /\ phase = "draw" /\ rep <= K /\ phase' = "before"
        /\ UNCHANGED <<rep, log, script, out, st>>
Before == /\ st = "run" /\ phase = "before" /\ log' = Append(log, <<"before", rep>>)
          /\ phase' = "impute" /\ UNCHANGED <<rep, script, out, st>>
Impute(a) == /\ st = "run" /\ phase = "impute" /\ log' = Append(log, <<"impute", rep>>)
             /\ script' = Append(script, <<a, "none">>)
             /\ IF a \in ImpBad THEN st' = "ValueError" /\ phase' = phase ELSE st' = st /\ phase' = "fit"
             /\ UNCHANGED <<rep, out>>
Fit(b) == /\ st = "run" /\ phase = "fit" /\ log' = Append(log, <<"fit", rep>>)
          /\ script' = [script EXCEPT ![rep] = <<@[1], b>>]
          /\ IF b \in CdBad THEN st' = "ValueError" /\ UNCHANGED <<rep, phase, out>>
             ELSE /\ out' = Append(out, rep) /\ rep' = rep + 1 /\ phase' = "draw" /\ st' = st
Return == /\ st = "run" /\ phase = "draw" /\ rep > K /\ st' = "done" /\ UNCHANGED <<rep, phase, log, script, out>>
Next == Draw \/ Before \/ Return
        \/ (\E r \in REPEATS : (\A i \in 1..Len(script) : script[i][1] = ToString(r)) /\ Impute(ToString(r))) \/ (\E a \in ImpBad : Impute(a))
        \/ (\E b \in CdBad \cup {"good"} : Fit(b))
Spec == IStart /\ [][Next]_ivars /\ WF_ivars(Next)
\* every replicate is announced, imputed and fitted in that order, exactly once
Ordered == \A i \in 1..Len(log) : log[i] = <<(<<"before", "impute", "fit">>)[((i - 1) % 3) + 1], ((i - 1) \div 3) + 1>>
AllOrNothing == (st = "done" => out = [i \in 1..K |-> i]) /\ (st = "ValueError" => Len(out) < K)
Ends == <>(st \in {"done", "ValueError"})
=============================================================================
