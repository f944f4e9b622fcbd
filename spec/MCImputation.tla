---------------------------- MODULE MCImputation ---------------------------
EXTENDS Imputation, Json
Emit == st \in {"done", "ValueError"} =>
          PrintT(<<"CASE", ToJson([script |-> script, log |-> log, st |-> st, out |-> out])>>)
=============================================================================
