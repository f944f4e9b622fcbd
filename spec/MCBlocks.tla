------------------------------ MODULE MCBlocks ------------------------------
EXTENDS Blocks
CONSTANTS D, TOP
\* features 1..D-1 are multiples of one coordinate each; two more features are arbitrary
Coords == [0..D -> (0 - TOP)..TOP]
Unit(k, c) == [i \in 0..D |-> IF i = k THEN c ELSE 0]
Init == \E a \in Coords, b \in Coords :
          BStart([f \in 1..(D + 1) |-> IF f < D THEN Unit(f, 2) ELSE IF f = D THEN a ELSE b], 1..(D - 1))
Next == \E S \in SUBSET wh : TakeOut(S)
Spec == Init /\ [][Next]_bvars
=============================================================================
