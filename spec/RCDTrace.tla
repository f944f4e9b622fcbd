------------------------------ MODULE RCDTrace -----------------------------
(* Decides a recorded fit.  Oracle tables, masks are 1 + bit mask, values
   1 yes / 0 no / 2 too close to call:
   ng[j][H]      residual of j on H is non-Gaussian
   cor[i][j][H]  residuals of i and j on H are correlated
   ind[i][P][H]  residual of the regression of i (less H) on P (less H) is
                 independent of every member of P
   par[i][j]     given the recorded ancestors, j passes the parent test of i
   conf[i][j]    given the recorded parents, residuals of i and j correlate
   rowok[g][i]   coefficients of i in data set g are least squares on parents *)
EXTENDS RCD, Json
T == JsonDeserialize("traces.json").traces
VARIABLES tid, res
tr == T[tid]
Mask(S) == FoldSet(LAMBDA v, a : a + 2^(v - 1), 1, S)
Ng(j, H) == tr.ng[j][Mask(H)]
Cor(i, j, H) == tr.cor[i][j][Mask(H)]
Ind(i, P, H) == tr.ind[i][Mask(P)][Mask(H)]
Init == \E k \in 1..Len(T) : tid = k /\ res = "open" /\ RStart(T[k].n, T[k].lmax)
Pairs(U) == {p \in U \X U : p[1] < p[2]}
Unsure == res' = "unsure" /\ UNCHANGED <<rvars, tid>>
Do(a) == a /\ UNCHANGED <<tid, res>>
Visit == LET U == Cur  H == Common(Cur) IN
    IF Known(U) THEN Do(Skip)
    ELSE IF (\E j \in U : Ng(j, H) = 0) \/ (\E p \in Pairs(U) : Cor(p[1], p[2], H) = 0)
         THEN IF (\E j \in U : Ng(j, H) = 0) \/ (\A j \in U : Ng(j, H) = 1) THEN Do(Skip) ELSE Unsure
    ELSE IF (\E j \in U : Ng(j, H) = 2) \/ (\E p \in Pairs(U) : Cor(p[1], p[2], H) = 2) THEN Unsure
    ELSE IF \E i \in Eligible(U) : Ind(i, U \ {i}, H) = 2 THEN Unsure
    ELSE Do(Examine(U, {i \in Eligible(U) : Ind(i, U \ {i}, H) = 1}))
Follow == res = "open" /\ tr.out = "ok" /\ AtSet /\ Visit
Turn == res = "open" /\ tr.out = "ok" /\ Do(EndSweep)

\* the graph: parents among the ancestors, unknown pairs, coefficients
V == 1..tr.n
Anc(i) == ToSet(tr.anc[i])
Par(g, i) == {j \in V : tr.nz[g][i][j] = 1}
GraphClauses ==
    UNION {
      (IF \A i \in V : /\ Par(g, i) \subseteq Anc(i)
                       /\ \A j \in Anc(i) : tr.par[i][j] = 2 \/ (tr.par[i][j] = 1 <=> j \in Par(g, i))
       THEN {} ELSE {"parents-are-not-the-ancestors-with-a-direct-effect"})
      \cup (IF \A i, j \in V : LET u == i # j /\ j \notin Par(g, i) /\ i \notin Par(g, j) IN
                 tr.conf[i][j] = 2 \/ (tr.nan[g][i][j] = 1 <=> (u /\ tr.conf[i][j] = 1))
            THEN {} ELSE {"unknown-pairs-are-not-the-correlated-non-parents"})
      \cup (IF \A i \in V : tr.rowok[g][i] = 1 THEN {} ELSE {"coefficients-are-not-the-regression-on-the-parents"})
      : g \in 1..Len(tr.nz)}
Verdict == IF tr.out # "ok" THEN {"unexpected-" \o tr.out}
           ELSE (IF res = "unsure" \/ \A i \in V : Anc(i) = M[i] THEN {} ELSE {"ancestors-disagree"})
                \cup (IF tr.graph = 1 THEN GraphClauses ELSE {})
Judge == /\ res # "judged" /\ (st = "done" \/ res = "unsure" \/ tr.out # "ok")
         /\ PrintT(<<"JUDGED", ToJson([tid |-> tid, bad |-> SetToSeq(Verdict)])>>)
         /\ res' = "judged" /\ UNCHANGED <<rvars, tid>>
Next == Judge \/ Follow \/ Turn
Spec == Init /\ [][Next]_<<rvars, tid, res>>
=============================================================================
