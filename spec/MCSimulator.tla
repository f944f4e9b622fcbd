---------------------------- MODULE MCSimulator ----------------------------
EXTENDS Simulator
CONSTANTS NVar
V == 1..NVar
Graphs == {p \in [V -> SUBSET V] : \A v \in V : v \notin p[v]}
W == [v \in V |-> [q \in V |-> IF (v + q) % 2 = 0 THEN 2 ELSE 0 - 1]]
Dat == [v \in V |-> <<v, 1 - v>>]
Init == \E g \in {p \in Graphs : Acyclic(p)}, d \in [V -> BOOLEAN], t \in V :
          \E np \in SUBSET (V \ {t}), ex \in {{}, {[v |-> t, e |-> <<5, 0 - 3>>]}}, has \in BOOLEAN, fx \in {{}, {[v |-> t, e |-> <<7, 7>>]}}, p \in {<<1, 2>>, <<2, 1>>} :
            LET m == [D |-> Dat, par |-> g, w |-> W, b |-> [v \in V |-> 1 - v], disc |-> d]
            IN SStart(m, Change(m, IF has THEN {[v |-> t, par |-> np, w |-> [q \in V |-> 3], b |-> 0]} ELSE {}, ex, fx), p)
Next == \E v \in V : Evaluate(v)
Spec == Init /\ [][Next]_svars
=============================================================================
