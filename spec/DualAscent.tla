----------------------------- MODULE DualAscent -----------------------------
(* Search of LiNA for an acyclic graph of latent factors: an optimiser is asked
   again and again for the minimiser of
       loss(W) + rho/2 h(W)^2 + alpha h(W) + lambda |W|
   where h(W) measures the cycles of W.  The answers of the optimiser are the
   environment.  prob: size d, answers in the order given (matrices of integers),
   outer (number of accepted answers allowed), rhomax (a power of ten), tol
   (S(d) times the tolerance of h).                                           *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
VARIABLES dprob, k, start, rho, alpha, h, accepted, dst
dvars == <<dprob, k, start, rho, alpha, h, accepted, dst>>
INF == 2000000000
SumTo(n, f(_)) == FoldSet(LAMBDA i, a : a + f(i), 0, 1..n)
\* S(d) h(W) with A the squares of W:  h = trace((I + A/d)^d) - d
S(d) == IF d = 2 THEN 4 ELSE 27
Cycles(W) ==
    LET d == Len(W)
        A == [i \in 1..d |-> [j \in 1..d |-> W[i][j] * W[i][j]]]
        t1 == SumTo(d, LAMBDA i : A[i][i])
        t2 == SumTo(d, LAMBDA i : SumTo(d, LAMBDA j : A[i][j] * A[j][i]))
        t3 == SumTo(d, LAMBDA i : SumTo(d, LAMBDA j : SumTo(d, LAMBDA l : A[i][j] * A[j][l] * A[l][i])))
    IN IF d = 2 THEN 4 * t1 + t2 ELSE 27 * t1 + 9 * t2 + t3
DStart(p) == /\ dprob = p /\ k = 0 /\ start = 0 /\ rho = 1 /\ alpha = 0 /\ h = INF
             /\ accepted = 0 /\ dst = "ask"
\* the next answer has hn: accepted if cycles fell to a quarter, or if the weight is exhausted
Answer(hn) ==
    /\ dst = "ask" /\ k' = k + 1 /\ UNCHANGED dprob
    /\ LET worse == h # INF /\ 4 * hn > h
           r == IF worse THEN 10 * rho ELSE rho
           take == ~worse \/ r >= dprob.rhomax
       IN /\ rho' = r
          /\ IF take THEN /\ start' = k + 1 /\ h' = hn /\ alpha' = alpha + r * hn /\ accepted' = accepted + 1
                          /\ dst' = IF hn <= dprob.tol \/ r >= dprob.rhomax \/ accepted + 1 = dprob.outer THEN "done" ELSE "ask"
             ELSE UNCHANGED <<start, h, alpha, accepted, dst>>
Drop(W, thr) == [i \in 1..Len(W) |-> [j \in 1..Len(W) |-> IF 10 * (IF W[i][j] < 0 THEN 0 - W[i][j] ELSE W[i][j]) < thr THEN 0 ELSE W[i][j]]]
=============================================================================
