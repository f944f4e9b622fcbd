------------------------------- MODULE History ------------------------------
(* Life of several estimator objects.  Each object has settings; a fit or a
   bootstrap may succeed or be rejected (Works), queries may be asked while a
   fit stands.  Every answer is a function of the object's settings and of the
   data of the last fit alone:  Answer(o, d).  Nothing else is remembered.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Objs, Datas
VARIABLES life,    \* life[o]: data set of the standing fit, 0 if none or undefined
          works,   \* works[o][d]: does a fresh object accept the data
          hist
hvars == <<life, works, hist>>
Bad == 0
HStart(w) == life = [o \in Objs |-> 0] /\ works = w /\ hist = <<>>
Log(k, o, d, a) == hist' = Append(hist, [op |-> k, o |-> o, d |-> d, ans |-> a])
\* the answer of a fit to data d: the data set's number, 0 for a rejection
Fit(o, d) == /\ life' = [life EXCEPT ![o] = IF works[o][d] THEN d ELSE 0]
             /\ Log("fit", o, d, IF works[o][d] THEN d ELSE 0) /\ UNCHANGED works
FitBad(o) == life' = [life EXCEPT ![o] = 0] /\ Log("bad", o, 0, 0) /\ UNCHANGED works
\* a bootstrap leaves the object fitted to some replicate
Boot(o, d) == /\ life' = [life EXCEPT ![o] = 0]
              /\ Log("boot", o, d, IF works[o][d] THEN d ELSE 0) /\ UNCHANGED works
Ask(o) == life[o] # 0 /\ Log("ask", o, life[o], life[o]) /\ UNCHANGED <<life, works>>
HNext == \E o \in Objs : (\E d \in Datas : Fit(o, d) \/ Boot(o, d)) \/ FitBad(o) \/ Ask(o)
\* the answer to a fit never depends on what happened before or to other objects
Memoryless == \A i, j \in DOMAIN hist :
    (hist[i].op = hist[j].op /\ hist[i].o = hist[j].o /\ hist[i].d = hist[j].d) => hist[i].ans = hist[j].ans
LastFitStands == \A i \in DOMAIN hist : hist[i].op = "ask" =>
    \E j \in 1..(i - 1) : /\ hist[j].op = "fit" /\ hist[j].o = hist[i].o /\ hist[j].ans = hist[i].ans
                          /\ \A m \in (j + 1)..(i - 1) : hist[m].o = hist[i].o => hist[m].op = "ask"
=============================================================================
