---------------------------- MODULE SecurityTrace ----------------------------
EXTENDS Security, Json, IOUtils, TLC
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, prev
vars == <<i, prev>>
E == Tr[i]
Is(e) == i <= Len(Tr) /\ E.ev = e /\ i' = i + 1
None == [l |-> 0, s |-> 0, p |-> 1, n |-> 0]
Init == i = 1 /\ prev = None
Reset == Is("reset") /\ prev' = None
Level ==
    /\ Is("level")
    /\ InRegion(E.d, E.lm, 5) => E.f.ok = 1
    /\ OutRegion(E.d, E.lm, 5) => Refused(E.f)
    /\ IF E.f.ok = 1
       THEN \* more security needs more noise, a larger dimension less
            /\ prev.n > 0 => E.f.s > prev.s
            /\ E.fup.ok = 1 => E.fup.s <= E.f.s
            \* there and back; the region of the inverse starts at 386 dimensions
            /\ (E.d >= 386 /\ InRegion(E.d, E.lm, 600)) => E.b.ok = 1
            /\ E.b.ok = 1 => Abs(E.b.l - E.lm) <= Tolerance
            /\ E.b.ok # 2 /\ E.up.ok # 2 /\ E.more.ok # 2
            /\ (E.b.ok = 1 /\ E.up.ok = 1) => E.up.l >= E.b.l
            /\ (E.b.ok = 1 /\ E.more.ok = 1) => E.more.l >= E.b.l
            /\ prev' = [l |-> E.lm, s |-> E.f.s, p |-> 1, n |-> prev.n + 1]
       ELSE E.f.ok = 0 /\ Refused(E.f) /\ prev' = prev
Far == Is("far") /\ Refused(E.b) /\ UNCHANGED prev
(* tail probability (log10, millionths): falls as the distance grows, without jumps *)
Tail2 ==
    /\ Is("tail") /\ E.p <= 0
    /\ prev.n > 0 => /\ E.p < prev.p
                     /\ prev.p - E.p <= (E.st * (4400 * E.i + 500000)) \div 100 + 2000
                     /\ prev.p - E.p >= (E.st * (4200 * E.i - 1500)) \div 100 - 2000
    /\ (E.i = 100 => Abs(E.p + 498516) <= 5)                  \* 31.73 % beyond one deviation
    /\ prev' = [prev EXCEPT !.p = E.p, !.n = 1]
Next == Reset \/ Level \/ Far \/ Tail2
Spec == Init /\ [][Next]_vars
Track == TLCSet(1, IF i > TLCGet(1) THEN i ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"REACHED", TLCGet(1), Len(Tr) + 1>>) /\ TLCGet(1) = Len(Tr) + 1
=============================================================================
