----------------------------- MODULE BootStats -----------------------------
(* The summaries a bootstrap result offers over its replicates.  The machine
   reads one replicate at a time and accumulates
     dirs : <<to, from, sign>> -> number of replicates containing the edge
     dags : set of edges       -> number of replicates with exactly that graph
     tots : <<to, from>>       -> sequence of non-zero total effects
     pths : path               -> sequence of its effects
   sign is 0 unless edges are told apart by the sign of their coefficient.   *)
EXTENDS Graph, TLC
VARIABLES job, r, dirs, dags, tots, totc, pths
bvars == <<job, r, dirs, dags, tots, totc, pths>>

Rows(B) == 1..Len(B)
Cols(B) == 1..Len(B[1])
EdgesOf(B, thr2, split) ==
    {<<e[1], e[2], IF split THEN Sign(B[e[1]][e[2]]) ELSE 0>>
       : e \in {x \in Rows(B) \X Cols(B) : IsEdge(B, x[1], x[2], thr2)}}

Bump(f, k) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = @ + 1] ELSE f @@ (k :> 1)
Push(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = Append(@, v)] ELSE f @@ (k :> <<v>>)
RECURSIVE BumpAll(_, _)
BumpAll(f, S) == IF S = {} THEN f ELSE LET k == CHOOSE k \in S : TRUE IN BumpAll(Bump(f, k), S \ {k})
RECURSIVE PushAll(_, _)
PushAll(f, S) == IF S = {} THEN f ELSE LET k == CHOOSE k \in S : TRUE IN PushAll(Push(f, k[1], k[2]), S \ {k})

\* --- time expansion -------------------------------------------------------
\* static: the matrix itself.  lagged ("var"): node (lag L, variable v) is
\* L*n+v; an edge from lag M to lag L (L <= M) carries the lag-(M-L) block, and
\* only the first p lag blocks are used.  long: node (time t, variable v) is
\* (t-t0)*n+v and the edge from time u to time t carries block [t][t-u].
VarExpand(B, n, p) ==
    [i \in 1..(n*(p+1)) |-> [j \in 1..(n*(p+1)) |->
        LET L == (i-1) \div n   M == (j-1) \div n
            v == ((i-1) % n) + 1  w == ((j-1) % n) + 1
        IN  IF L <= M THEN B[v][(M-L)*n + w] ELSE 0]]
LongExpand(B, n, t0, t1) ==
    [i \in 1..(n*(t1-t0+1)) |-> [j \in 1..(n*(t1-t0+1)) |->
        LET a == (i-1) \div n   b == (j-1) \div n
            v == ((i-1) % n) + 1  w == ((j-1) % n) + 1
        IN  IF b <= a /\ a - b + 1 <= Len(B[t0+a]) THEN B[t0+a][a-b+1][v][w] ELSE 0]]
Expanded(q, B) == CASE q.cls = "static" -> B
                    [] q.cls = "var"    -> VarExpand(B, q.n, q.p)
                    [] q.cls = "long"   -> LongExpand(B, q.n, q.t0, q.t1)

RECURSIVE PathsVia(_, _, _, _, _)
PathsVia(B, thr2, x, t, Seen) ==
    IF x = t THEN {<<x>>}
    ELSE {<<x>> \o p : p \in UNION {PathsVia(B, thr2, c, t, Seen \cup {x})
                                    : c \in Children(B, x, thr2) \ (Seen \cup {x})}}
PathItems(q, B) == LET E == Expanded(q, B)
                   IN {<<p, PathEffect(E, p)>> : p \in PathsVia(E, q.thr2, q.fr, q.to, {})}

BStart(q) == /\ job = q /\ r = 0 /\ dirs = <<>> /\ dags = <<>> /\ tots = <<>> /\ totc = <<>> /\ pths = <<>>

NonZeroTot(M) == {<<<<e[1], e[2]>>, M[e[1]][e[2]]>> : e \in {x \in Rows(M) \X Cols(M) : Val(M[x[1]][x[2]]) # 0}}

ReadEdges == /\ job.kind \in {"dir", "dag", "prob", "all"}
             /\ LET B == job.Bs[r+1]
                    E == EdgesOf(B, job.thr2, job.split)
                IN  dirs' = BumpAll(dirs, E) /\ dags' = Bump(dags, E)
             /\ UNCHANGED <<tots, totc, pths>>
ReadTotals == /\ job.kind = "tot"
              /\ LET M == job.Bs[r+1]
                 IN  /\ tots' = PushAll(tots, NonZeroTot(M))
                     /\ totc' = BumpAll(totc, {<<e[1], e[2]>> : e \in EdgesOf(M, job.thr2, FALSE)})
              /\ UNCHANGED <<dirs, dags, pths>>
ReadPaths == /\ job.kind = "path"
             /\ pths' = PushAll(pths, PathItems(job, job.Bs[r+1]))
             /\ UNCHANGED <<dirs, dags, tots, totc>>
Skip == job.kind = "reject" /\ UNCHANGED <<dirs, dags, tots, totc, pths>>
Read == /\ r < Len(job.Bs) /\ r' = r + 1 /\ UNCHANGED job
        /\ (ReadEdges \/ ReadTotals \/ ReadPaths \/ Skip)
AllRead == r = Len(job.Bs)

\* --- medians (doubled, so that they stay integers) ------------------------
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
Median2(s) == LET o == Sorted(s)  m == Len(o)
              IN  IF m % 2 = 1 THEN 2 * o[(m+1) \div 2] ELSE o[m \div 2] + o[m \div 2 + 1]

\* --- what holds of the summaries themselves -------------------------------
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN f[k] + SumOver(f, S \ {k})
DagsPartitionReplicates == job.kind = "all" => SumOver(dags, DOMAIN dags) = r
EdgeCountIsDagCount == \A e \in DOMAIN dirs :
    dirs[e] = SumOver(dags, {d \in DOMAIN dags : e \in d}) /\ dirs[e] \in 1..r
UnsplitIsSumOfSigns == (job.kind = "all" /\ job.split) =>
    \A e \in DOMAIN dirs :
        LET i == e[1] j == e[2] IN
        SumOver(dirs, {x \in DOMAIN dirs : x[1] = i /\ x[2] = j})
          = Cardinality({k \in 1..r : IsEdge(job.Bs[k], i, j, job.thr2)})
=============================================================================
