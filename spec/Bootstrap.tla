----------------------------- MODULE Bootstrap -----------------------------
(* The bootstrap protocol.  A data set is a sequence of rows, a draw is a
   function from row positions to rows.  mode "separate": every group gets its
   own draw; "common": all groups (time points) share one draw.
   model    what the estimator was fitted to last ("none" or a draw)
   results  draws whose fit was stored, one per replicate                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES cfg, draw, model, results, st
bvars == <<cfg, draw, model, results, st>>
None == <<>>
Groups == 1..Len(cfg.rows)
Draws(g) == [1..cfg.rows[g] -> 1..cfg.rows[g]]
BStart(c) == cfg = c /\ draw = None /\ model = None /\ results = <<>> /\ st = "draw"
Draw(d) == /\ st = "draw" /\ Len(results) < cfg.k
           /\ \A g \in Groups : d[g] \in Draws(g)
           /\ cfg.mode = "common" => \A g, h \in Groups : d[g] = d[h]
           /\ draw' = d /\ st' = "fit" /\ UNCHANGED <<cfg, model, results>>
Fit == /\ st = "fit" /\ model' = draw /\ st' = "store" /\ UNCHANGED <<cfg, draw, results>>
Store == /\ st = "store" /\ results' = Append(results, model) /\ st' = "draw"
         /\ UNCHANGED <<cfg, draw, model>>
Return == /\ st = "draw" /\ Len(results) = cfg.k /\ st' = "done" /\ UNCHANGED <<cfg, draw, model, results>>
\* what a caller may rely on
OnePerReplicate == st = "done" => Len(results) = cfg.k
EachIsADraw == \A i \in 1..Len(results) : \A g \in Groups : results[i][g] \in Draws(g)
CommonRows == cfg.mode = "common" => \A i \in 1..Len(results) : \A g, h \in Groups : results[i][g] = results[i][h]
Frozen == [][\A i \in 1..Len(results) : results'[i] = results[i]]_bvars
=============================================================================
