----------------------------- MODULE FourierTrace -----------------------------
EXTENDS Fourier, Json, IOUtils, TLC
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<fvars, i>>
E == Tr[i]
Is(e) == i <= Len(Tr) /\ E.ev = e /\ i' = i + 1
Init == i = 1 /\ n = 1 /\ bits = 64
Reset == Is("reset") /\ n' = E.n /\ bits' = E.bits
Round == Is("round") /\ UNCHANGED fvars /\ RoundTrip(E.x, E.y, E.mag)
Sum == Is("sum") /\ UNCHANGED fvars /\ SumTrip(E.x, E.x2, E.y, E.mag)
Mad == Is("mad") /\ UNCHANGED fvars /\ MadTrip(E.x, E.b, E.y, E.mag, E.lb)
Next == Reset \/ Round \/ Sum \/ Mad
Spec == Init /\ [][Next]_vars
Track == TLCSet(1, IF i > TLCGet(1) THEN i ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"REACHED", TLCGet(1), Len(Tr) + 1>>) /\ TLCGet(1) = Len(Tr) + 1
=============================================================================
