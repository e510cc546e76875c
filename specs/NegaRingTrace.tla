---------------------------- MODULE NegaRingTrace ----------------------------
EXTENDS NegaRing, Json, IOUtils, TLC
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<rvars, i>>
E == Tr[i]
Is(e) == i <= Len(Tr) /\ E.ev = e /\ i' = i + 1
Init == i = 1 /\ n = 1 /\ bits = 64 /\ regs = <<>>
Reset == Is("reset") /\ Open(E.n, E.bits, E.regs)
Fresh == Is("fresh") /\ Put(E.d, E.v)
(* every operation yields exactly its ring value and leaves its operands alone *)
Op == Is("op") /\ "v" \in DOMAIN E /\ E.same = 1 /\ Apply(E.op, E.d, E.a, E.b, E.k, E.s, E.v)
Next == Reset \/ Fresh \/ Op
Spec == Init /\ [][Next]_vars
Track == TLCSet(1, IF i > TLCGet(1) THEN i ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"REACHED", TLCGet(1), Len(Tr) + 1>>) /\ TLCGet(1) = Len(Tr) + 1
=============================================================================
