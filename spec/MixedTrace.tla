----------------------------- MODULE MixedTrace -----------------------------
(* Decides recorded fits of LiM: first phase only, both phases, first phase
   again, all on one object with the same seed.                             *)
EXTENDS MixedSearch, Json, SequencesExt
T == JsonDeserialize("traces.json").traces
VARIABLE tid
tr == T[tid]
Mat(m) == {<<i, j>> \in (1..Len(m)) \X (1..Len(m)) : m[i][j] # 0}
Init == \E k \in 1..Len(T) : tid = k /\ w = [n |-> T[k].n, pen |-> T[k].pen, sc |-> T[k].sc, tol |-> T[k].tol, start |-> IF T[k].out = "ok" THEN Mat(T[k].est) ELSE {}]
                             /\ ph = "turn" /\ base = {} /\ todo = {} /\ best = {}
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Final == Mat(tr.fin)
WeightsKept == \A e \in Final : tr.fin[e[1]][e[2]] = IF e \in w.start THEN tr.est[e[1]][e[2]] ELSE tr.S
Bad ==
    IF tr.out # "ok" THEN {"unexpected-" \o tr.out}
    ELSE (IF \A e \in w.start : e[1] # e[2] /\ Abs(tr.est[e[1]][e[2]]) + 1 >= tr.thr THEN {} ELSE {"weak-or-self-effect-kept-by-the-global-phase"})
      \cup (IF tr.again = 1 THEN {} ELSE {"global-phase-answers-otherwise-after-a-full-fit"})
      \cup (IF tr.chosen = <<>> \/ tr.chosen = tr.est THEN {} ELSE {"global-phase-did-not-return-the-thresholded-optimum"})
      \cup (IF tr.judgeable = 0 THEN {}
            ELSE (IF Final \in Results THEN {} ELSE {"local-search-did-not-return-a-best-graph"})
              \cup (IF WeightsKept THEN {} ELSE {"weights-of-kept-or-new-edges"}))
Judge == /\ ph = "turn" /\ PrintT(<<"JUDGED", ToJson([tid |-> tid, bad |-> SetToSeq(Bad)])>>)
         /\ ph' = "judged" /\ UNCHANGED <<w, base, todo, best, tid>>
Spec == Init /\ [][Judge]_<<mvars, tid>>
=============================================================================
