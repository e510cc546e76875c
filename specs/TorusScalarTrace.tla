--------------------------- MODULE TorusScalarTrace ---------------------------
EXTENDS TorusScalar, Json, IOUtils, TLC
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<tvars, i>>
E == Tr[i]
Is(e) == i <= Len(Tr) /\ E.ev = e /\ i' = i + 1
Init == i = 1 /\ bits = 64 /\ regs = <<>>
Reset == Is("reset") /\ bits' = E.bits /\ regs' = E.regs
R(k) == regs[k + 1]
SetR == Is("set") /\ Put(E.d, E.v)
Enc == Is("encode") /\ E.v = Encode(E.m, E.p) /\ Decode(E.v, E.p) = Eager(Low(E.m, E.p)) /\ Put(E.d, E.v)
Dec == Is("decode") /\ E.m = Decode(R(E.a), E.p) /\ UNCHANGED tvars
Dist == /\ Is("dist") /\ UNCHANGED tvars
        /\ Close(E.mag, Distance(R(E.a), R(E.b)))
        /\ \/ NumEq(E.mag, <<0>>)
           \/ Sub(R(E.a), R(E.b)) = Sub(R(E.b), R(E.a))
           \/ E.neg = (IF Forward(R(E.a), R(E.b)) THEN 0 ELSE 1)
        /\ Close(E.norm, R(E.a))
Sw == /\ Is("switch") /\ UNCHANGED tvars
      /\ \A j \in 1..3 : Low(E.v[j], E.lm) = Switch(R(E.x[j]), E.lc, E.lv, E.lm)
(* narrowing gives one of the two adjacent representable values *)
Narrow == /\ Is("smaller") /\ UNCHANGED tvars
          /\ LET t == Eager(Ext(Shr(R(E.a), bits - 32), 4)) IN E.v = t \/ (bits > 32 /\ E.v = Add(t, FromNat(1, 4)))
Op == Is("op") /\ E.v = Eager(Value(E.op, R(E.d), R(E.a), R(E.b), E.k, E.s)) /\ Put(E.d, E.v)
RDiv == Is("rdiv") /\ UNCHANGED tvars /\ E.q = RoundDiv(E.x, E.y, E.signed)
Next == Reset \/ SetR \/ Enc \/ Dec \/ Dist \/ Sw \/ Narrow \/ Op \/ RDiv
Spec == Init /\ [][Next]_vars
Track == TLCSet(1, IF i > TLCGet(1) THEN i ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"REACHED", TLCGet(1), Len(Tr) + 1>>) /\ TLCGet(1) = Len(Tr) + 1
=============================================================================
