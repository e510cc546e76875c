------------------------------ MODULE RadixTrace ------------------------------
EXTENDS Radix, Json, IOUtils, TLC
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<gvars, i>>
E == Tr[i]
Is(e) == i <= Len(Tr) /\ E.ev = e /\ i' = i + 1
Init == i = 1 /\ bits = 64 /\ log = 1 /\ count = 1
Reset == Is("reset") /\ bits' = E.bits /\ log' = E.log /\ count' = E.count
Scalar == Is("scalar") /\ UNCHANGED gvars /\ Decomposes(E.x, E.d)
ScaleBy == Is("scale") /\ UNCHANGED gvars /\ E.v = Scale(E.x, E.j)
PolyD == /\ Is("poly") /\ UNCHANGED gvars /\ Len(E.d) = count
         /\ \A c \in 1..Len(E.x) : Decomposes(E.x[c], [j \in 1..count |-> E.d[j][c]])
Recompose == /\ Is("recompose") /\ UNCHANGED gvars
             /\ \A c \in 1..Len(E.x) : E.v[c] = Eager(Add(E.dst[c], Rounded(E.x[c])))
Next == Reset \/ Scalar \/ ScaleBy \/ PolyD \/ Recompose
Spec == Init /\ [][Next]_vars
Track == TLCSet(1, IF i > TLCGet(1) THEN i ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"REACHED", TLCGet(1), Len(Tr) + 1>>) /\ TLCGet(1) = Len(Tr) + 1
=============================================================================
