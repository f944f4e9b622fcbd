------------------------- MODULE MCNonlinearEffect -------------------------
(* Over all small graphs and samples: the effect is not moved by rows outside
   the sample, by entries other than one, or by other rows of the matrix; a
   curve lies between the smallest and the largest replicate; the median of
   one replicate is that replicate.                                          *)
EXTENDS NonlinearEffect, TLC
CONSTANT N, M
Entries == {0, 50, 100}
Data == <<<<3, 0, 1>>, <<5, 1, 0>>, <<2, 1, 4>>>>
W == <<2, 3, 5>>
Rows == {<<a, b>> : a \in 1..M, b \in 1..M}
Matrix(row, c) == [i \in 1..N |-> IF i = c THEN row ELSE [j \in 1..N |-> 0]]
Init == \E c \in 1..N, e \in 1..N, r1, r2 \in [1..N -> Entries], a \in Rows, b \in Rows, d \in BOOLEAN :
            /\ c # e
            /\ NStart([n |-> N, x |-> Data, w |-> W, cause |-> c, effect |-> e, discrete |-> d,
                       mats |-> <<Matrix(r1, c), Matrix(r2, c)>>, rows |-> <<a, b>>, pos |-> <<0, 9>>])
Next == Replicate
Spec == Init /\ [][Next]_nvars /\ WF_nvars(Next)
\* what a replicate depends on
Same(p, q, r) == \A k \in 1..Len(p.pos), c \in AllClasses(p) : Effect(p, r, p.pos[k], c) = Effect(q, r, p.pos[k], c)
Unseen(p, r) == [p EXCEPT !.x = [i \in 1..Len(p.x) |-> IF i \in ToSet(p.rows[r]) THEN p.x[i] ELSE [v \in 1..N |-> 7]]]
Rest(p) == [p EXCEPT !.mats = [r \in 1..Len(p.mats) |-> [i \in 1..N |-> IF i = p.cause THEN [j \in 1..N |-> IF p.mats[r][i][j] = ONE /\ j # p.effect THEN ONE ELSE 0] ELSE [j \in 1..N |-> ONE]]]]
OnlySample == rep > 0 => Same(prob, Unseen(prob, rep), rep)
OnlyCauses == rep > 0 => Same(prob, Rest(prob), rep)
NoEffect == rep > 0 => prob.effect \notin Explaining(prob, rep) /\ prob.cause \in Explaining(prob, rep)
Between == Finished => \A c \in AllClasses(prob), k \in 1..Len(prob.pos) : LET s == info[c][k] IN
    s # <<>> => \A q \in {5, 50, 95} : Percentile(s, q) >= 100 * Min(ToSet(s)) /\ Percentile(s, q) <= 100 * Max(ToSet(s))
One == rep = 1 => \A c \in Classes(prob, 1), k \in 1..Len(prob.pos) : Percentile(info[c][k], 50) = 100 * info[c][k][1]
Done == <>Finished
=============================================================================
