------------------------------- MODULE Paths -------------------------------
(* The depth-first enumeration of the paths between two variables, and what a
   caller may rely on about its result.                                     *)
EXTENDS Graph, TLC
VARIABLES g,      \* the query: [B, fr, to, thr2]
          stack,  \* sequence of nodes being explored
          todo,   \* per stack level: children not visited yet
          found,  \* paths found so far
          st      \* "run" | "done" | "cyclic"
pvars == <<g, stack, todo, found, st>>

PathsStart(q) ==
    /\ g = q
    /\ stack = <<q.fr>>
    /\ todo = <<Children(q.B, q.fr, q.thr2)>>
    /\ found = <<>>
    /\ st = "run"

Pop(s) == SubSeq(s, 1, Len(s) - 1)

TooDeep == /\ st = "run" /\ Len(stack) > Dim(g.B)
           /\ st' = "cyclic" /\ UNCHANGED <<g, stack, todo, found>>
Arrive  == /\ st = "run" /\ Len(stack) \in 1..Dim(g.B)
           /\ Last(stack) = g.to
           /\ found' = Append(found, stack)
           /\ stack' = Pop(stack) /\ todo' = Pop(todo)
           /\ UNCHANGED <<g, st>>
Descend == /\ st = "run" /\ Len(stack) \in 1..Dim(g.B)
           /\ Last(stack) # g.to /\ Last(todo) # {}
           /\ LET c == Min(Last(todo)) IN
                /\ stack' = Append(stack, c)
                /\ todo' = Append([todo EXCEPT ![Len(todo)] = @ \ {c}],
                                  Children(g.B, c, g.thr2))
           /\ UNCHANGED <<g, found, st>>
Retreat == /\ st = "run" /\ Len(stack) \in 1..Dim(g.B)
           /\ Last(stack) # g.to /\ Last(todo) = {}
           /\ stack' = Pop(stack) /\ todo' = Pop(todo)
           /\ UNCHANGED <<g, found, st>>
Finish  == /\ st = "run" /\ stack = <<>>
           /\ st' = "done" /\ UNCHANGED <<g, stack, todo, found>>

PathsNext == TooDeep \/ Arrive \/ Descend \/ Retreat \/ Finish

\* ---- what holds ----------------------------------------------------------
FoundAreRealPaths == \A k \in 1..Len(found) :
    /\ PathOK(g.B, g.thr2, found[k]) /\ IsSimple(found[k])
    /\ found[k][1] = g.fr /\ Last(found[k]) = g.to
NoDuplicates == IsSimple(found)
Complete == st = "done" => ToSet(found) = AllPaths(g.B, g.thr2, g.fr, g.to)
CyclicExactly == /\ st = "cyclic" => CycleFrom(g.B, g.thr2, g.fr, g.to)
                 /\ st = "done" => ~CycleFrom(g.B, g.thr2, g.fr, g.to)
Effects == [k \in 1..Len(found) |-> PathEffect(g.B, found[k])]
Total == SumSeq(Effects)
=============================================================================
