---------------------------- MODULE BlocksTrace -----------------------------
(* Decides recorded calls of the building blocks.  X is integer data (row per
   sample), answers are fixed point numbers in units of 1/S.                 *)
EXTENDS Blocks, Json
T == JsonDeserialize("traces.json").traces
VARIABLES tid, done
tr == T[tid]
Init == \E k \in 1..Len(T) : tid = k /\ done = FALSE /\ BStart(<<>>, {})
Fail(c, x) == IF c THEN {} ELSE {x}
AbsV(x) == IF x < 0 THEN -x ELSE x
M == Len(tr.X)
Samples == 1..M
Cols == 1..Len(tr.X[1])
SumOver(I, op(_)) == FoldSet(LAMBDA t, a : a + op(t), 0, I)
Big == 1 + SumOver(Samples, LAMBDA t : SumOver(Cols, LAMBDA c : AbsV(tr.X[t][c])))

\* r (one number per sample) is the residual of column f on the columns P:
\* it sums to zero, is orthogonal to P, and differs from f by a combination of P
ResidualOf(r, f, P, C) ==
    /\ AbsV(SumOver(Samples, LAMBDA t : r[t])) <= M
    /\ \A p \in ToSet(P) : AbsV(SumOver(Samples, LAMBDA t : r[t] * tr.X[t][p])) <= Big
    /\ \A t \in Samples :
         AbsV((r[t] - r[1]) - (tr.S * (tr.X[t][f] - tr.X[1][f]))
              + SumOver(1..Len(P), LAMBDA k : C[k] * (tr.X[t][P[k]] - tr.X[1][P[k]]))) <= Big

\* ---------------------------------------------------------- remove_effect
Kept == Cols \ ToSet(tr.P)
RemoveBad ==
       Fail(\A t \in Samples, p \in ToSet(tr.P) : tr.Y[t][p] = tr.S * tr.X[t][p], "removed-features-changed")
  \cup Fail({k.f : k \in ToSet(tr.C)} = Kept /\ Len(tr.C) = Cardinality(Kept)
            /\ \A k \in ToSet(tr.C) : Len(k.c) = Len(tr.P), "coefficients-not-per-remaining-feature")
  \cup Fail(\A k \in ToSet(tr.C) : k.f \in Kept /\ Len(k.c) = Len(tr.P) =>
              ResidualOf([t \in Samples |-> tr.Y[t][k.f]], k.f, tr.P, k.c), "not-the-residuals-of-the-regression")
  \cup Fail(tr.plain = 1, "answer-depends-on-return_coefs")
\* ------------------------------------------------- predict_adaptive_lasso
Chosen == {k \in 1..Len(tr.P) : tr.nz[k] = 1}
LassoBad ==
       Fail(tr.nz = tr.want, "other-predictors-than-the-criterion-selects")
  \cup Fail(\A k \in 1..Len(tr.P) : tr.nz[k] = 0 => tr.c[k] = 0, "coefficient-without-selection")
  \cup Fail(LET P == SetToSeq({tr.P[k] : k \in Chosen})
                C == [i \in 1..Len(P) |-> tr.c[CHOOSE k \in 1..Len(tr.P) : tr.P[k] = P[i]]]
                r == [t \in Samples |-> (tr.S * tr.X[t][tr.f]) - SumOver(1..Len(P), LAMBDA i : C[i] * tr.X[t][P[i]])]
                mean == SumOver(Samples, LAMBDA t : r[t]) \div M
            IN  \A p \in ToSet(P) : AbsV(SumOver(Samples, LAMBDA t : (r[t] - mean) * tr.X[t][p])) <= tr.slack,
            "not-the-least-squares-coefficients")
\* --------------------------------------------------- numbers and relations
NumbersBad ==
       Fail(\A k \in 1..Len(tr.got) : AbsV(tr.got[k] - tr.ref[k]) <= tr.tol[k], "wrong-value")
  \cup Fail(\A p \in ToSet(tr.equal) : AbsV(tr.got[p[1]] - tr.got[p[2]]) <= tr.tol[p[1]] + tr.tol[p[2]], "should-agree")
  \cup Fail(\A k \in ToSet(tr.unit) : tr.got[k] >= -tr.tol[k] /\ tr.got[k] <= tr.S + tr.tol[k], "outside-zero-to-one")
\* -------------------------------------------------------------- printing
\* a line for each direction, in order: destination, source, sign, percentage (tenths)
LineOK(l, d) == /\ l.f = d.f /\ l.t = d.t /\ l.s = d.s
                /\ 2 * AbsV((l.p * tr.n) - (1000 * d.c)) <= tr.n
DirsBad == Fail(Len(tr.lines) = Len(tr.dirs) /\ \A k \in 1..Len(tr.lines) : LineOK(tr.lines[k], tr.dirs[k]), "printed-directions-differ")
DagOK(l, d) == /\ l.k = d.k /\ 2 * AbsV((l.p * tr.n) - (1000 * d.c)) <= tr.n /\ l.e = d.e
DagsBad == Fail(Len(tr.lines) = Len(tr.dirs) /\ \A k \in 1..Len(tr.lines) : DagOK(tr.lines[k], tr.dirs[k]), "printed-graphs-differ")

\* ------------------------------------------------------ evaluate_model_fit
\* the equations describe the matrix: fixed coefficients, and one unobserved
\* cause per unknown pair, shared by its two variables and by no others
NaN == 99999
VV == 1..tr.n
Unk == {p \in VV \X VV : p[1] < p[2] /\ tr.B[p[1]][p[2]] = NaN}
HasEq(v) == \E u \in VV : tr.B[v][u] # 0
ObsOf(v) == {<<u, tr.B[v][u]>> : u \in {x \in VV : tr.B[v][x] # 0 /\ tr.B[v][x] # NaN}}
Users(l) == {e.v : e \in {x \in ToSet(tr.eqs) : l \in ToSet(x.lat)}}
ModelBad ==
       Fail({e.v : e \in ToSet(tr.eqs)} = {v \in VV : HasEq(v)} /\ Len(tr.eqs) = Cardinality({e.v : e \in ToSet(tr.eqs)}), "equations-missing-or-extra")
  \cup Fail(\A e \in ToSet(tr.eqs) : {<<o[1], o[2]>> : o \in ToSet(e.obs)} = ObsOf(e.v) /\ Len(e.obs) = Cardinality(ObsOf(e.v)), "coefficients-differ")
  \cup Fail(/\ {Users(l) : l \in ToSet(tr.latent)} = {{p[1], p[2]} : p \in Unk}
            /\ Len(tr.latent) = Cardinality(Unk)
            /\ \A e \in ToSet(tr.eqs) : ToSet(e.lat) \subseteq ToSet(tr.latent) /\ Len(e.lat) = Cardinality(ToSet(e.lat)), "unobserved-causes-differ")
  \cup Fail(ToSet(tr.ord) = ToSet(tr.ordinal) /\ Len(tr.ord) = Cardinality(ToSet(tr.ord)), "ordinal-variables-differ")
  \cup Fail(tr.data = 1, "fitted-to-other-data")

Bad == IF tr.out # tr.expect THEN {"expected-" \o tr.expect \o "-got-" \o tr.out}
       ELSE IF tr.out # "ok" THEN {}
       ELSE CASE tr.kind = "remove" -> RemoveBad
              [] tr.kind = "lasso" -> LassoBad
              [] tr.kind = "numbers" -> NumbersBad
              [] tr.kind = "model" -> ModelBad
              [] tr.kind = "dirs" -> DirsBad
              [] tr.kind = "dags" -> DagsBad
              [] OTHER -> {}
Judge == /\ ~done /\ done' = TRUE /\ PrintT(<<"JUDGED", ToJson([tid |-> tid, bad |-> SetToSeq(Bad)])>>)
         /\ UNCHANGED <<bvars, tid>>
Spec == Init /\ [][Judge]_<<bvars, tid, done>>
=============================================================================
