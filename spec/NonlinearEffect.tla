-------------------------- MODULE NonlinearEffect --------------------------
(* Non-linear causal effects of one variable on another, as drawn by
   visualize_nonlinear_causal_effect.  For every replicate (a graph and the
   rows it was found in) a model is trained on exactly those rows, explaining
   the effect by the cause and the direct causes of the cause (never by the
   effect itself); the effect at a position is the mean prediction over those
   rows with the cause set to the position everywhere.  Curves are percentiles
   over the replicates.  The model is an integer function of what it was
   trained on, so that the specification can compute its predictions:
   weight w[v] per explaining variable plus a check sum of the training data.
   Units: positions are times 9; numeric predictions times 9, probabilities
   times 60.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
VARIABLES prob, rep, info

nvars == <<prob, rep, info>>
ONE == 100      \* entries are times 100; only an entry of one marks a cause
Sum(s) == FoldSeq(LAMBDA a, b : a + b, 0, s)
Explaining(p, r) == ({p.cause} \cup {v \in 1..p.n : p.mats[r][p.cause][v] = ONE}) \ {p.effect}
WSum(S, f(_)) == FoldSet(LAMBDA v, a : a + f(v), 0, S)
Check(p, r) == Sum([k \in 1..Len(p.rows[r]) |->
    LET i == p.rows[r][k]  y == p.x[i][p.effect] IN y * y + WSum(Explaining(p, r), LAMBDA v : p.w[v] * p.x[i][v]) * (y + 1)]) % 101
Score9(p, r, i, pos) == WSum(Explaining(p, r), LAMBDA v : p.w[v] * (IF v = p.cause THEN pos ELSE 9 * p.x[i][v])) + 9 * Check(p, r)
Classes(p, r) == IF p.discrete THEN {p.x[p.rows[r][k]][p.effect] : k \in 1..Len(p.rows[r])} ELSE {0}
\* sum of the predictions over the rows (the mean times the number of rows)
Effect(p, r, pos, c) == Sum([k \in 1..Len(p.rows[r]) |->
    LET s == Score9(p, r, p.rows[r][k], pos) IN IF p.discrete THEN (s + 7 * c) % 60 ELSE s])
AllClasses(p) == IF p.discrete THEN {p.x[i][p.effect] : i \in 1..Len(p.x)} ELSE {0}

NStart(p) == prob = p /\ rep = 0 /\ info = [c \in AllClasses(p) |-> [k \in 1..Len(p.pos) |-> <<>>]]
Replicate == /\ rep < Len(prob.mats)
             /\ rep' = rep + 1
             /\ info' = [c \in AllClasses(prob) |-> [k \in 1..Len(prob.pos) |->
                   IF c \in Classes(prob, rep') THEN Append(info[c][k], Effect(prob, rep', prob.pos[k], c)) ELSE info[c][k]]]
             /\ UNCHANGED prob
\* 100 times the percentile (linear interpolation between order statistics)
Percentile(s, q) == LET t == SortSeq(s, <)
                        a == q * (Len(s) - 1)
                        k == a \div 100
                        f == a % 100
                    IN 100 * t[k + 1] + (IF f = 0 THEN 0 ELSE f * (t[k + 2] - t[k + 1]))
Finished == rep = Len(prob.mats)
=============================================================================
