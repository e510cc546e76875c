----------------------------- MODULE CombosTrace -----------------------------
EXTENDS Combos, Json, IOUtils, TLC
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<ovars, i>>
E == Tr[i]
Is(e) == i <= Len(Tr) /\ E.ev = e /\ i' = i + 1
Init == i = 1 /\ n = 1 /\ t = 0 /\ cur = NoComb /\ done = FALSE
Reset == Is("reset") /\ (E.ok = 1) = Admissible(E.n, E.t) /\ Open(E.n, E.t)
NextC == Is("next") /\ (\/ E.ok = 1 /\ Deliver(E.c)
                        \/ E.ok = 0 /\ Exhausted)
Count == Is("count") /\ E.ok = 1 /\ NumEq(E.v, Binom(n, t)) /\ UNCHANGED ovars
InSet(c) == Len(c) = t /\ \A j \in 1..Len(c) : c[j] < n
RankE == Is("rank") /\ UNCHANGED ovars
         /\ IF InSet(E.c) THEN E.ok = 1 /\ NumEq(E.i, Rank(n, t, E.c)) ELSE E.ok = 0
At == Is("at") /\ UNCHANGED ovars
      /\ IF Lt(E.i, Binom(n, t)) THEN E.ok = 1 /\ IsComb(n, t, E.c) /\ NumEq(Rank(n, t, E.c), E.i)
         ELSE E.ok = 0
Ins == Is("insert") /\ UNCHANGED ovars /\ E.ok = 1 /\ <<E.p, E.r>> = Inserted(E.e, E.c)
Next == Reset \/ NextC \/ Count \/ RankE \/ At \/ Ins
Spec == Init /\ [][Next]_vars
Track == TLCSet(1, IF i > TLCGet(1) THEN i ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"REACHED", TLCGet(1), Len(Tr) + 1>>) /\ TLCGet(1) = Len(Tr) + 1
=============================================================================
