---------------------------- MODULE MCDualAscent ----------------------------
(* all answers of an optimiser drawn from a few matrices of two factors *)
EXTENDS DualAscent, Json, Functions
CONSTANTS NS, OUTERS, RHOMAXS, TOLS
VARIABLE log
vars == <<dvars, log>>
\* matrices with product of the two opposite effects p, so 4 h = 2 p^2
W(p) == <<<<0, p>>, <<IF p = 0 THEN 0 ELSE 1, 0>>>>
HS == {Cycles(W(p)) : p \in NS}
Init == \E o \in OUTERS, r \in RHOMAXS, t \in TOLS :
          /\ DStart([outer |-> o, rhomax |-> r, tol |-> t]) /\ log = <<>>
Next == \E p \in NS : /\ Answer(Cycles(W(p)))
                      /\ log' = Append(log, [p |-> p, start |-> start, rho |-> rho, alpha |-> alpha])
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(dst = "done")
Powers == rho \in {1, 10, 100, 1000, 10000} /\ rho <= dprob.rhomax
Shrinks == [][accepted' = accepted + 1 /\ h # INF /\ rho' < dprob.rhomax => 4 * h' <= h]_vars
Monotone == [][rho' >= rho /\ alpha' >= alpha /\ (rho' = rho \/ rho' = 10 * rho)]_vars
Done == dst = "done" => /\ start = k
                        /\ (h <= dprob.tol \/ rho >= dprob.rhomax \/ accepted = dprob.outer)
Latest == start <= k /\ accepted <= k /\ accepted <= dprob.outer
Emit == dst = "done" => PrintT(<<"CASE", ToJson([prob |-> dprob, log |-> log, final |-> start])>>)
=============================================================================
