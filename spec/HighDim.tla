------------------------------ MODULE HighDim ------------------------------
(* High-dimensional LiNGAM (Wang and Drton): roots are peeled one by one.  For
   every variable v left and every other variable u a statistic stat[v][u] is
   kept, the smallest dependence tau found so far between v's residual and u.
   In each round v is regressed on all conditioning sets that contain the last
   root and otherwise roots that are not pruned for v (stat above the cut-off),
   of the largest possible size up to J; the variable whose largest statistic
   against those left is smallest becomes the next root, and the cut-off rises
   to alpha times that statistic.

   Only comparisons matter, so tau and the cut-off are ranks.  The problem:
   n, J, tau[v][1 + bit mask of C][u] the rank of the dependence, up[1 + r] the
   rank of alpha times the value of rank r, big the rank of the initial
   statistic; 0 is the rank of zero.                                          *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
VARIABLES prob, theta, stat, cut

hvars == <<prob, theta, stat, cut>>
V == 1..prob.n
J == prob.J
Big == prob.big
MaskOf(C) == FoldSet(LAMBDA c, a : a + 2^(c - 1), 1, C)
Tau(v, C, u) == prob.tau[v][MaskOf(C)][u]
Scaled(r) == prob.up[1 + r]
Left == V \ ToSet(theta)
MinN(a, b) == IF a < b THEN a ELSE b
MaxN(a, b) == IF a > b THEN a ELSE b
\* the conditioning sets of v
Kept(v) == {u \in ToSet(theta) : stat[v][u] > cut}
CondSets(v) == IF theta = <<>> THEN {{}}
    ELSE LET last == theta[Len(theta)]
             cond == Kept(v) \cup {last}
             size == MinN(J, Cardinality(cond))
         IN {S \cup {last} : S \in kSubset(size - 1, cond \ {last})}
\* what is measured against u: everything left, and the kept roots outside the set (and the last one)
Against(v, C) == (Left \ {v}) \cup (IF theta = <<>> THEN {} ELSE (Kept(v) \ C) \cup {theta[Len(theta)]})
NewStat(v, u) == LET s == {Tau(v, C, u) : C \in {D \in CondSets(v) : u \in Against(v, D)}}
                 IN IF s = {} THEN Big ELSE MinN(Big, Min(s))
Updated == [v \in V |-> [u \in V |-> IF v \notin Left THEN stat[v][u]
                                     ELSE IF u = v THEN 0 ELSE MinN(stat[v][u], NewStat(v, u))]]
Worst(st, v) == Max({st[v][u] : u \in Left})
Roots(st) == {v \in Left : \A w \in Left : Worst(st, v) <= Worst(st, w)}
HStart(p) == prob = p /\ theta = <<>> /\ cut = 0 /\ stat = [v \in 1..p.n |-> [u \in 1..p.n |-> IF u = v THEN 0 ELSE p.big]]
Peel(r) == /\ Cardinality(Left) > 1
           /\ LET st == Updated IN
                 /\ r \in Roots(st)
                 /\ stat' = st
                 /\ cut' = MaxN(cut, Scaled(Worst(st, r)))
           /\ theta' = Append(theta, r) /\ UNCHANGED prob
CanPeel(r) == Cardinality(Left) > 1 /\ r \in Roots(Updated)
LastOne == /\ Cardinality(Left) = 1
        /\ theta' = Append(theta, CHOOSE v \in Left : TRUE)
        /\ UNCHANGED <<prob, stat, cut>>
=============================================================================
