------------------------------ MODULE Simulator -----------------------------
(* Causal-based simulation.  A trained simulator is a structural model with one
   error per variable and sample; a run applies changes (new causes and model of
   a variable, new errors, imposed values, one permutation of the samples for all errors) and
   evaluates the variables in any order in which causes come first.
     tr : [D, par, w, b, disc]     D[v] = training data of variable v
     ch : [par, w, b, model, E]    the model after the changes                *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
VARIABLES tr, ch, perm, sim
svars == <<tr, ch, perm, sim>>
NV(m) == Len(m.D)
NR(m) == Len(m.D[1])
Lin(par, w, b, v, x) == b[v] + FoldSet(LAMBDA q, a : a + w[v][q] * x[q], 0, par[v])
Pred(m, par, w, b, v, x) == LET z == Lin(par, w, b, v, x) IN IF m.disc[v] THEN (IF z >= 0 THEN 1 ELSE 0) ELSE z
Row(D, r) == [v \in 1..Len(D) |-> D[v][r]]
\* errors implied by training: what the model does not explain
Error(m, v) == [r \in 1..NR(m) |-> IF m.par[v] = {} THEN m.D[v][r]
                                   ELSE m.D[v][r] - Pred(m, m.par, m.w, m.b, v, Row(m.D, r))]
RECURSIVE Strip(_, _)
Strip(par, S) == LET f == {v \in S : par[v] \cap S = {}} IN IF f = {} THEN S ELSE Strip(par, S \ f)
Acyclic(par) == Strip(par, 1..Len(par)) = {}
\* c: set of [v, par, w, b] (other causes and model); x: set of [v, e] (other errors);
\* f: set of [v, e] (values imposed on the variable itself, which then has no causes)
Change(m, c, x, f) ==
    LET hit(v) == {d \in c : d.v = v}  ex(v) == {d \in x : d.v = v}  fx(v) == {d \in f : d.v = v} IN
    [F |-> [v \in 1..NV(m) |-> IF fx(v) = {} THEN <<>> ELSE (CHOOSE d \in fx(v) : TRUE).e],
     par |-> [v \in 1..NV(m) |-> IF fx(v) # {} THEN {} ELSE IF hit(v) = {} THEN m.par[v] ELSE (CHOOSE d \in hit(v) : TRUE).par],
     w |-> [v \in 1..NV(m) |-> IF hit(v) = {} THEN m.w[v] ELSE (CHOOSE d \in hit(v) : TRUE).w],
     b |-> [v \in 1..NV(m) |-> IF hit(v) = {} THEN m.b[v] ELSE (CHOOSE d \in hit(v) : TRUE).b],
     E |-> [v \in 1..NV(m) |-> IF ex(v) = {} THEN Error(m, v) ELSE (CHOOSE d \in ex(v) : TRUE).e]]
\* value of variable v in sample r given the simulated causes; p permutes the errors
Value(m, c, p, v, r, x) ==
    IF c.F[v] # <<>> THEN c.F[v][r] ELSE
    IF c.par[v] = {} THEN (IF m.disc[v] THEN m.D[v][r] ELSE c.E[v][p[r]])
    ELSE Pred(m, c.par, c.w, c.b, v, x) + (IF m.disc[v] THEN 0 ELSE c.E[v][p[r]])
Column(m, c, p, v, s) == [r \in 1..NR(m) |-> Value(m, c, p, v, r, [q \in 1..NV(m) |-> IF s[q] = <<>> THEN 0 ELSE s[q][r]])]
SStart(m, c, p) == tr = m /\ ch = c /\ perm = p /\ sim = [v \in 1..NV(m) |-> <<>>]
Evaluate(v) == /\ sim[v] = <<>> /\ \A q \in ch.par[v] : sim[q] # <<>>
               /\ sim' = [sim EXCEPT ![v] = Column(tr, ch, perm, v, sim)] /\ UNCHANGED <<tr, ch, perm>>
SDone == \A v \in 1..NV(tr) : sim[v] # <<>>
Solves(m, c, p, s) == \A v \in 1..NV(m) : s[v] = Column(m, c, p, v, s)
\* --- what a user relies on -------------------------------------------------
IdPerm(m) == [r \in 1..NR(m) |-> r]
SolvedAtEnd == SDone => Solves(tr, ch, perm, sim)
Desc(par, S) == LET RECURSIVE up(_) up(Z) == LET y == Z \cup {v \in 1..Len(par) : par[v] \cap Z # {}} IN IF y = Z THEN Z ELSE up(y) IN up(S)
Touched(m, c) == {v \in 1..NV(m) : c.par[v] # m.par[v] \/ c.w[v] # m.w[v] \/ c.b[v] # m.b[v] \/ c.F[v] # <<>> \/ c.E[v] # Error(m, v)}
Cls(m) == {v \in 1..NV(m) : m.disc[v]}
\* without shuffling, a variable that no change and no discrete variable can reach keeps its data
Locality == (SDone /\ perm = IdPerm(tr)) => \A v \in 1..NV(tr) :
              v \notin Desc(ch.par, Touched(tr, ch) \cup Cls(tr)) => sim[v] = tr.D[v]
NeverStuck == (~SDone /\ Acyclic(ch.par)) => \E v \in 1..NV(tr) : sim[v] = <<>> /\ \A q \in ch.par[v] : sim[q] # <<>>
OnlyAcyclicFinish == SDone => Acyclic(ch.par)
=============================================================================
