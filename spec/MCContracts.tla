----------------------------- MODULE MCContracts ----------------------------
(* every operation with every value class of every parameter, and with every
   pair of unusual parameters                                                *)
EXTENDS Contracts, Json
CONSTANT PAIRS
One(op) == {[Usual(op) EXCEPT ![p] = c] : p \in DOMAIN Params[op], c \in {"usual"}}
           \cup UNION {{[Usual(op) EXCEPT ![p] = c] : c \in DOMAIN Kinds[Params[op][p]]} : p \in DOMAIN Params[op]}
Two(op) == UNION {UNION {{[Usual(op) EXCEPT ![p] = c, ![q] = d] : c \in DOMAIN Kinds[Params[op][p]], d \in DOMAIN Kinds[Params[op][q]]} : q \in DOMAIN Params[op]} : p \in DOMAIN Params[op]}
Requests(op) == IF PAIRS THEN Two(op) ELSE One(op)
Init == \E op \in DOMAIN Params : \E r \in Requests(op) : CStart(op, r)
Spec == Init /\ [][CAnswer]_cvars /\ WF_cvars(CAnswer)
Answered == <>(cst # "asked")
\* carried out iff nothing is wrong; mending a parameter never turns a success into a refusal
Sound == cst = OK => \A p \in DOMAIN Params[cop] : Kinds[Params[cop][p]][creq[p]] = OK
Mending == \A p \in DOMAIN Params[cop] : OK \in Outcomes(cop, creq) => Outcomes(cop, [creq EXCEPT ![p] = "usual"]) = {OK}
Blame == cst \notin {"asked", OK} => \E p \in DOMAIN Params[cop] : Kinds[Params[cop][p]][creq[p]] = cst
UsualIsOk == \A op \in DOMAIN Params : Outcomes(op, Usual(op)) = {OK}
Emit == cst = "asked" => PrintT(<<"CASE", ToJson([op |-> cop, req |-> creq, params |-> Params[cop]])>>)
=============================================================================
