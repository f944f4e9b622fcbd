----------------------------- MODULE CAMUVTrace ----------------------------
(* Decides a recorded fit.  Oracle values are integers, larger is more
   independent; a value above hi passes the test, one below lo does not, and
   in between it is too close to call.
   pair["i:S|j:R"]    residual of i on S against the residual of j on R, i < j
   with["i:S|j:R;.."] residual of i on S against the matrix of residuals of
                      the candidate parents j (on R), ascending              *)
EXTENDS CAMUV, Json
T == JsonDeserialize("traces.json").traces
VARIABLES tid, res
tr == T[tid]
Bits(S) == FoldSet(LAMBDA v, a : a + 2^(v - 1), 0, S)
Node(i, S) == ToString(i) \o ":" \o ToString(Bits(S))
PairVal(i, S, j, R) == IF i < j THEN tr.pair[Node(i, S) \o "|" \o Node(j, R)]
                       ELSE tr.pair[Node(j, R) \o "|" \o Node(i, S)]
WithVal(c, U) ==
    LET ps == SetToSortSeq(U \ {c}, LAMBDA a, b : a < b)
        right == FoldSeq(LAMBDA j, s : Node(j, P[j]) \o ";" \o s, "", ps)
    IN tr.with[Node(c, (U \ {c}) \cup P[c]) \o "|" \o right]
Is(v) == IF v > tr.hi THEN 1 ELSE IF v < tr.lo THEN 0 ELSE 2
Near0(k) == [i \in 1..T[k].n |-> {j \in 1..T[k].n : i # j /\ T[k].near[i][j] = 1}]
Init == \E k \in 1..Len(T) :
    /\ tid = k /\ res = "open"
    /\ CStart([n |-> T[k].n, tmax |-> T[k].tmax, near |-> Near0(k), ban |-> {<<p[1], p[2]>> : p \in ToSet(T[k].ban)}])
Do(a) == a /\ UNCHANGED <<tid, res>>
Unsure == res' = "unsure" /\ UNCHANGED <<cvars, tid>>
Visit == LET U == Cur IN
    IF ~NoEdgeIn(U) \/ Children(U) = {} THEN Do(Skip)
    ELSE LET val == [c \in Children(U) |-> WithVal(c, U)]
             top == Max({val[c] : c \in Children(U)})
             best == {c \in Children(U) : val[c] >= top - tr.tol}
         IN IF Is(top) = 0 THEN Do(Skip)
            ELSE IF Is(top) = 2 \/ Cardinality(best) > 1 THEN Unsure
            ELSE LET c == CHOOSE x \in best : TRUE
                     alone == {Is(PairVal(c, P[c], a, P[a])) : a \in U \ {c}}
                 IN IF 1 \in alone THEN Do(Skip)
                    ELSE IF 2 \in alone THEN Unsure ELSE Do(Attach(U, c))
PruneT == LET v == [a \in P[pos] |-> Is(PairVal(pos, P[pos] \ {a}, a, P[a]))]
          IN IF \E a \in P[pos] : v[a] = 2 THEN Unsure ELSE Do(Prune({a \in P[pos] : v[a] = 1}))
Step == /\ res = "open" /\ tr.out = "ok" /\ tr.sure = 1
        /\ IF AtSet THEN Visit ELSE IF st = "prune" /\ pos <= prob.n THEN PruneT ELSE Do(EndSweep \/ Finish)
\* final graph
Edge(i, j) == tr.adj[i][j] = 1
GraphOK == \A i, j \in V : i # j =>
    /\ Edge(i, j) <=> j \in P[i]
    /\ LET u == j \notin P[i] /\ i \notin P[j] /\ j \in prob.near[i]
           d == IF u THEN Is(PairVal(i, P[i], j, P[j])) ELSE 1
       IN d = 2 \/ (tr.adj[i][j] = 99999 <=> (u /\ d = 0))
\* facts that hold whatever the tests answered
Structure ==
    (IF \A i, j \in V : ~(Edge(i, j) /\ Edge(j, i)) THEN {} ELSE {"edges-in-both-directions"})
    \cup (IF \A i, j \in V : Edge(i, j) => <<j, i>> \notin prob.ban THEN {} ELSE {"excluded-cause-reported"})
    \cup (IF \A i, j \in V : (tr.adj[i][j] = 99999) <=> (tr.adj[j][i] = 99999) THEN {} ELSE {"unknown-pair-not-symmetric"})
    \cup (IF \A i, j \in V : tr.adj[i][j] \in {0, 1, 99999} THEN {} ELSE {"entry-neither-0-1-nor-nan"})
Verdict == IF tr.out # "ok" THEN {"unexpected-" \o tr.out}
           ELSE Structure \cup (IF st # "done" \/ GraphOK THEN {} ELSE {"graph-disagrees"})
Judge == /\ res # "judged" /\ (st = "done" \/ res = "unsure" \/ tr.out # "ok" \/ tr.sure = 0)
         /\ PrintT(<<"JUDGED", ToJson([tid |-> tid, bad |-> SetToSeq(Verdict)])>>)
         /\ res' = "judged" /\ UNCHANGED <<cvars, tid>>
Next == Judge \/ Step
Spec == Init /\ [][Next]_<<cvars, tid, res>>
=============================================================================
