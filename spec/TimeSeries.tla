----------------------------- MODULE TimeSeries ----------------------------
(* Structural models through time.  At every time t
     x(t) = B0 x(t) + B1 x(t-1) + .. + Bp x(t-p) + e(t) + O1 e(t-1) + .. + Oq e(t-q)
   with acyclic B0.  What an estimator can see first is the reduced form
     x(t) = M1 x(t-1) + .. + Mp x(t-p) + n(t) + H1 n(t-1) + .. + Hq n(t-q);
   it recovers the structure from B0 (found among the n(t)) by
     Bk = (I - B0) Mk  and  Ok (I - B0) = (I - B0) Hk.
   The machine produces a series step by step; the invariants say that the
   recovery is right and that the residuals of the reduced form are the mixed
   errors, so that B0 can be found among them.                               *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions, TLC
VARIABLES mod, xs, es
tvars == <<mod, xs, es>>
SumTo(k, f(_)) == FoldFunction(+, 0, [q \in 1..k |-> f(q)])
Dot(r, x) == SumTo(Len(r), LAMBDA q : r[q] * x[q])
Mul(A, x) == [k \in 1..Len(A) |-> Dot(A[k], x)]
MM(A, B) == [k \in 1..Len(A) |-> [j \in 1..Len(B[1]) |-> SumTo(Len(B), LAMBDA q : A[k][q] * B[q][j])]]
Add(x, y) == [k \in 1..Len(x) |-> x[k] + y[k]]
Sub(x, y) == [k \in 1..Len(x) |-> x[k] - y[k]]
Zero(n) == [k \in 1..n |-> 0]
IMinus(B) == [k \in 1..Len(B) |-> [j \in 1..Len(B) |-> (IF k = j THEN 1 ELSE 0) - B[k][j]]]
\* sum of f(1) .. f(k), vectors of length n
VSum(n, k, f(_)) == FoldLeftDomain(LAMBDA a, i : Add(a, f(i)), Zero(n), [i \in 1..k |-> 0])
RECURSIVE Solve(_, _, _, _)
\* the x with x = B x + r, for acyclic B
Solve(B, r, x, k) == IF k = 0 THEN x ELSE Solve(B, r, TLCEval(Add(Mul(B, x), r)), k - 1)
Inv(B, r) == Solve(B, r, Zero(Len(B)), Len(B))
Column(A, j) == [k \in 1..Len(A) |-> A[k][j]]
\* (I - B0)^-1 A
InvM(B, A) == LET c == TLCEval([j \in 1..Len(A) |-> Inv(B, Column(A, j))]) IN [k \in 1..Len(A) |-> [j \in 1..Len(A) |-> c[j][k]]]

N == Len(mod.B0)
At(s, t) == IF t < 1 THEN Zero(N) ELSE s[t]
TStart(m) == mod = m /\ xs = <<>> /\ es = <<>>
Emit(e) == LET t == Len(xs) + 1
               past == Add(VSum(N, Len(mod.B), LAMBDA k : Mul(mod.B[k], At(xs, t - k))),
                           VSum(N, Len(mod.O), LAMBDA k : Mul(mod.O[k], At(es, t - k))))
           IN /\ es' = Append(es, e) /\ xs' = Append(xs, Inv(mod.B0, Add(past, e))) /\ UNCHANGED mod
M == [k \in 1..Len(mod.B) |-> InvM(mod.B0, mod.B[k])]
H == [k \in 1..Len(mod.O) |-> MM(InvM(mod.B0, mod.O[k]), IMinus(mod.B0))]
\* residuals of the reduced form, given those before
RECURSIVE Resid(_)
Resid(t) == IF t < 1 THEN Zero(N) ELSE
    Sub(Sub(xs[t], VSum(N, Len(mod.B), LAMBDA k : Mul(M[k], At(xs, t - k)))),
        VSum(N, Len(mod.O), LAMBDA k : Mul(H[k], Resid(t - k))))
StructuralLags == \A k \in 1..Len(mod.B) : MM(IMinus(mod.B0), M[k]) = mod.B[k]
StructuralErrors == \A k \in 1..Len(mod.O) : MM(mod.O[k], IMinus(mod.B0)) = MM(IMinus(mod.B0), H[k])
ResidualsAreMixedErrors == \A t \in 1..Len(xs) : Mul(IMinus(mod.B0), Resid(t)) = es[t]
\* what the adjacency matrices say about the data, without the reduced form
StructuralEquation == \A t \in 1..Len(xs) :
    Mul(IMinus(mod.B0), xs[t]) = Add(es[t], Add(VSum(N, Len(mod.B), LAMBDA k : Mul(mod.B[k], At(xs, t - k))),
                                                VSum(N, Len(mod.O), LAMBDA k : Mul(mod.O[k], At(es, t - k)))))

\* prior knowledge over the time points, stacked: A[t][1 + lag] constrains time t
\* by time t - lag; within the window it may be unknown (-1), outside it there is nothing
Stacked(A, T, L, n) == [i \in 1..T * n |-> [j \in 1..T * n |->
    LET t == 1 + ((i - 1) \div n)  s == 1 + ((j - 1) \div n)  a == 1 + ((i - 1) % n)  b == 1 + ((j - 1) % n) IN
    IF s > t \/ t - s > L THEN 0 ELSE LET v == A[t][t - s + 1][a][b] IN IF v \in {0, 1} THEN v ELSE 0 - 1]]
=============================================================================
