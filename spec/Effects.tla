------------------------------- MODULE Effects -----------------------------
(* What a fitted model says about total effects.  The machine asks one query
   of a linear structural model with independent errors and answers it in the
   two ways the estimators do: by regressing the destination on the source and
   the source's direct causes, and by summing the products along the paths.  *)
EXTENDS Graph, TLC
VARIABLES q, byreg, bypath
evars == <<q, byreg, bypath>>
\* (I - B)^-1 column f
RECURSIVE Col(_, _, _, _)
Col(B, f, x, k) == IF k = 0 THEN x ELSE
    Col(B, f, TLCEval([i \in Nodes(B) |-> (IF i = f THEN 1 ELSE 0) + SumSeq([j \in Nodes(B) |-> Val(B[i][j]) * x[j]])]), k - 1)
Effect(B, f) == Col(B, f, [i \in Nodes(B) |-> 0], Dim(B))
\* covariances: errors of variance d[i]
Mix(B) == [f \in Nodes(B) |-> Effect(B, f)]
Cov(B, d) == LET A == TLCEval(Mix(B)) IN [i \in Nodes(B) |-> [j \in Nodes(B) |-> SumSeq([k \in Nodes(B) |-> A[k][i] * A[k][j] * d[k]])]]
RECURSIVE Det(_)
Minor(M, c) == [i \in 1..Len(M) - 1 |-> [j \in 1..Len(M) - 1 |-> M[i + 1][IF j < c THEN j ELSE j + 1]]]
Det(M) == IF Len(M) = 0 THEN 1 ELSE SumSeq([c \in 1..Len(M) |-> (IF c % 2 = 1 THEN 1 ELSE -1) * M[1][c] * Det(Minor(M, c))])
\* coefficient of P[1] in the regression of t on P, as numerator and denominator
Regress(S, P, t) == LET n == Len(P) IN
    << Det([i \in 1..n |-> [j \in 1..n |-> IF j = 1 THEN S[P[i]][t] ELSE S[P[i]][P[j]]]]),
       Det([i \in 1..n |-> [j \in 1..n |-> S[P[i]][P[j]]]]) >>
Adjust(B, f) == <<f>> \o SetToSeq(Parents(B, f, 0))
EStart(m) == q = m /\ byreg = <<>> /\ bypath = <<>>
Answer == /\ byreg = <<>>
          /\ byreg' = Regress(Cov(q.B, q.d), Adjust(q.B, q.fr), q.to)
          /\ bypath' = <<SumSeq([k \in 1..Cardinality(AllPaths(q.B, 0, q.fr, q.to)) |->
                            PathEffect(q.B, SetToSeq(AllPaths(q.B, 0, q.fr, q.to))[k])])>>
          /\ UNCHANGED q
\* adjusting for the direct causes of the source gives the total effect: also where there is none
Adjusted == byreg # <<>> => byreg[2] # 0 /\ byreg[1] = byreg[2] * Effect(q.B, q.fr)[q.to]
PathsAgree == bypath # <<>> => bypath[1] = Effect(q.B, q.fr)[q.to]
NoneBackwards == (byreg # <<>> /\ q.to \notin Descendants(q.B, q.fr)) => byreg[1] = 0 /\ bypath[1] = 0
=============================================================================
