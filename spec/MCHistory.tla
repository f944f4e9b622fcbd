----------------------------- MODULE MCHistory -----------------------------
EXTENDS History, Json
CONSTANTS MaxLen, Emit
Init == \E w \in [Objs -> [Datas -> BOOLEAN]] : (Emit => \A o \in Objs, d \in Datas : w[o][d]) /\ HStart(w)
Next == Len(hist) < MaxLen /\ HNext
        /\ ((Emit /\ Len(hist) + 1 = MaxLen /\ hist'[MaxLen].op \in {"fit", "ask", "boot"} /\ hist'[MaxLen].ans # 0) =>
               PrintT(<<"CASE", ToJson([i \in 1..MaxLen |-> <<hist'[i].op, hist'[i].o, hist'[i].d>>])>>))
Spec == Init /\ [][Next]_hvars
=============================================================================
