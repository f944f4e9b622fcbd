---------------------------- MODULE DrawingTrace ----------------------------
(* Decides what a recorded call of make_dot ("dot") or make_dot_highlight
   ("hl") drew.                                                              *)
EXTENDS Drawing, Json
T == JsonDeserialize("traces.json").traces
VARIABLES tid, done
tr == T[tid]
Init == \E k \in 1..Len(T) : tid = k /\ done = FALSE /\ LStart({}, 1, 1, 1, 0)
Fail(c, x) == IF c THEN {} ELSE {x}
NoDup(s) == Cardinality(ToSet(s)) = Len(s)

\* ------------------------------------------------------------------ make_dot
DE == Strong(tr.B, tr.thr)
DP == IF tr.path = <<>> THEN {} ELSE PathEdges(DE, tr.path[1], tr.path[2])
DC == IF tr.cyc = 1 THEN CycleEdges(DE) ELSE {}
In(x, S) == IF x \in S THEN 1 ELSE 0
WantNodes == {[v |-> u, hl |-> In(u, Ends(DP)), per |-> In(u, ToSet(tr.path))] : u \in Cols(tr.B)}
WantEdges == {[f |-> e[1], t |-> e[2], lab |-> Round2(tr.B[e[2]][e[1]]), hl |-> In(e, DP), dash |-> In(e, DC)] : e \in DE}
WantUnknown == Unknown(tr.B)
PredWeight(k) == IF tr.pmode = "coef" THEN Round2(tr.pcoef[k]) ELSE IF tr.pmode = "imp" THEN tr.pcoef[k] ELSE 0
WantPred == {[f |-> tr.pidx[k], lab |-> PredWeight(k)] :
             k \in {q \in 1..Len(tr.pidx) : tr.pmode # "coef" \/ Abs(tr.pcoef[q]) > tr.thr}}
Dot == Fail(ToSet(tr.nodes) = WantNodes /\ NoDup(tr.nodes), "nodes-or-their-highlighting-differ")
  \cup Fail(ToSet(tr.edges) = WantEdges /\ NoDup(tr.edges), "edges-or-their-labels-or-highlighting-differ")
  \cup Fail({<<p[1], p[2]>> : p \in ToSet(tr.unknown)} = WantUnknown /\ NoDup(tr.unknown), "unknown-pairs-differ")
  \cup Fail(ToSet(tr.pred) = WantPred /\ Len(tr.pred) = Cardinality(WantPred), "prediction-edges-differ")
  \cup Fail(tr.target = (IF tr.pidx = <<>> THEN 0 ELSE 1), "prediction-target-missing-or-extra")

\* -------------------------------------------------------- make_dot_highlight
HE == AtLeast(tr.B, tr.thr)
HN == 1..tr.n
DD(u) == Dist(HE, tr.node, u, tr.n)
AD(u) == Dist(Flip(HE), tr.node, u, tr.n)
\* places of a variable: 0 target, k descendant, -k ancestor, 99 others
Places(u) ==
    IF u = tr.node THEN {0}
    ELSE LET S == (IF DD(u) <= tr.maxd THEN {DD(u)} ELSE {}) \cup (IF AD(u) <= tr.maxa THEN {-AD(u)} ELSE {})
         IN IF S = {} THEN {99} ELSE S
Shown(u) == IF tr.others = 1 THEN Places(u) ELSE Places(u) \ {99}
HP == IF tr.path = <<>> THEN {} ELSE PathEdges(HE, tr.path[1], tr.path[2])
HC == IF tr.cyc = 1 THEN CycleEdges(HE) ELSE {}
HWantNodes == UNION {{[v |-> u, d |-> k, hl |-> In(u, Ends(HP)), per |-> In(u, ToSet(tr.path))] : k \in Shown(u)} : u \in HN}
HWantEdges == UNION {{[f |-> e[1], fd |-> p[1], t |-> e[2], td |-> p[2], lab |-> Round2(tr.B[e[2]][e[1]]),
                       hl |-> In(e, HP), dash |-> In(e, HC)] : p \in Shown(e[1]) \X Shown(e[2])} : e \in HE}
Bare(x) == [v |-> x.v, d |-> x.d, hl |-> x.hl, per |-> x.per]
\* ancestors above, descendants below, one row per distance, no two nodes in one place
PosOK == /\ \A x \in ToSet(tr.nodes) : x.y = (IF x.d = 99 THEN 0 ELSE -(x.d * tr.vm))
         /\ \A a, b \in 1..Len(tr.nodes) : a # b => <<tr.nodes[a].x, tr.nodes[a].y>> # <<tr.nodes[b].x, tr.nodes[b].y>>
Hl == Fail({Bare(x) : x \in ToSet(tr.nodes)} = HWantNodes /\ Len(tr.nodes) = Cardinality(HWantNodes), "nodes-layers-or-highlighting-differ")
  \cup Fail(ToSet(tr.edges) = HWantEdges /\ NoDup(tr.edges), "edges-or-their-labels-or-highlighting-differ")
  \cup Fail(PosOK, "layers-not-placed-by-distance")
Bad == IF tr.out # tr.expect THEN {"expected-" \o tr.expect \o "-got-" \o tr.out}
       ELSE IF tr.out # "ok" THEN {}
       ELSE IF tr.kind = "dot" THEN Dot ELSE Hl
Judge == /\ ~done /\ done' = TRUE /\ PrintT(<<"JUDGED", ToJson([tid |-> tid, bad |-> SetToSeq(Bad)])>>)
         /\ UNCHANGED <<lvars, tid>>
Spec == Init /\ [][Judge]_<<lvars, tid, done>>
=============================================================================
