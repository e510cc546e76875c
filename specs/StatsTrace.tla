----------------------------- MODULE StatsTrace -----------------------------
EXTENDS Stats, Json, IOUtils, TLC
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<svars, i>>
E == Tr[i]
Is(e) == i <= Len(Tr) /\ E.ev = e /\ i' = i + 1
Init == i = 1 /\ Empty
Reset == Is("reset") /\ k' = 0 /\ sum' = 0 /\ sq' = W(0) /\ hs' = <<>>
AddS == Is("add") /\ Sample(E.x)
Get == Is("get") /\ UNCHANGED svars /\ E.k = k /\ MeanOk(E.mean) /\ VarOk(E.var) /\ DevOk(E.std)
Region == Is("region") /\ hs' = E.hs /\ UNCHANGED <<k, sum, sq>> /\ E.listed = [j \in 1..Len(E.hs) |-> j]
Point == /\ Is("point") /\ UNCHANGED svars /\ E.rx = E.x /\ E.ry = E.y
         /\ E.viol = Violated(E.x, E.y)
         /\ E.inside = (IF Violated(E.x, E.y) = <<>> THEN 1 ELSE 0)
         /\ \A j \in 1..Len(hs) : E.each[j] = (IF InHalf(hs[j], E.x, E.y) THEN 1 ELSE 0)
Next == Reset \/ AddS \/ Get \/ Region \/ Point
Spec == Init /\ [][Next]_vars
Track == TLCSet(1, IF i > TLCGet(1) THEN i ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"REACHED", TLCGet(1), Len(Tr) + 1>>) /\ TLCGet(1) = Len(Tr) + 1
=============================================================================
