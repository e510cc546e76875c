----------------------------- MODULE FreshTrace -----------------------------
EXTENDS Fresh, Json, IOUtils, TLC
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Drawn(d) == Tr[d].words
vars == <<fvars, i>>
view == i
E == Tr[i]
Is(e) == i <= Len(Tr) /\ E.ev = e /\ i' = i + 1
Init == /\ i = 1 /\ par = [bits |-> 64] /\ drawn = <<>> /\ count = 0 /\ ones = [b \in 0..63 |-> 0] /\ sampled = 0
        /\ noise = <<>> /\ coins = <<>>
Reset == Is("reset") /\ Start([bits |-> E.bits, n |-> E.n, k |-> E.k, dim |-> E.dim, s |-> E.s])
Masks == Is("masks") /\ Draw(i, IF Len(E.words) < 60 THEN Len(E.words) ELSE 60)
Noises == Is("noise") /\ Noise(E.kind, E.e, E.s)
Bits == Is("bits") /\ Coins(E.kind, E.v)
Spreads == Is("spread") /\ UNCHANGED fvars /\ E.kind \in DOMAIN noise /\ Spread(noise[E.kind], IF par.s > 24 THEN 24 ELSE par.s, E.most)
Balance == Is("balance") /\ UNCHANGED fvars /\ E.kind \in DOMAIN coins /\ Fair(coins[E.kind])
Evens == Is("even") /\ UNCHANGED fvars /\ AllNew(E.order) /\ Even
LweEnc == Is("lweenc") /\ UNCHANGED fvars /\ E.ph = Add(E.m, E.e)
LpkEnc == Is("lpkenc") /\ UNCHANGED fvars /\ E.ct = LwePublic(E.z, E.r, E.e, E.m)
RlweEnc == /\ Is("rlweenc") /\ UNCHANGED fvars
           /\ E.a = VAdd(NegMul(E.p0, E.u), E.e0)
           /\ E.b = VAdd(VAdd(NegMul(E.p1, E.u), E.e1), E.m)
Next == Reset \/ Masks \/ Noises \/ Bits \/ Spreads \/ Balance \/ Evens \/ LweEnc \/ LpkEnc \/ RlweEnc
Spec == Init /\ [][Next]_vars
Track == TLCSet(1, IF i > TLCGet(1) THEN i ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"REACHED", TLCGet(1), Len(Tr) + 1>>) /\ TLCGet(1) = Len(Tr) + 1
=============================================================================
