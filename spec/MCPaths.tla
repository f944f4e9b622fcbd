------------------------------ MODULE MCPaths ------------------------------
(* All queries on all graphs with N nodes and weights W; every finished
   behaviour is emitted for replay in the implementation.                   *)
EXTENDS Paths, Json
CONSTANTS N, W, THR, SELF
W3 == {0, 1, -2}
W4 == {0, 1, -2, NAN}
WS == {0, 1, -1, NAN}
W2 == {0, 3}
OffDiag == {<<i, j>> \in (1..N) \X (1..N) : i # j}
ZeroDiag == IF SELF THEN [1..N -> [1..N -> W]]
            ELSE {[i \in 1..N |-> [j \in 1..N |-> IF i = j THEN 0 ELSE f[<<i, j>>]]]
                    : f \in [OffDiag -> W]}
Init == \E B \in ZeroDiag, f \in 1..N, t \in 1..N, h \in THR :
            f # t /\ PathsStart([B |-> B, fr |-> f, to |-> t, thr2 |-> h])
Spec == Init /\ [][PathsNext]_pvars
Emit == st \in {"done", "cyclic"} =>
    PrintT(<<"CASE", ToJson([B |-> g.B, fr |-> g.fr, to |-> g.to, thr2 |-> g.thr2,
                             st |-> st, found |-> found, eff |-> Effects, total |-> Total])>>)
=============================================================================
