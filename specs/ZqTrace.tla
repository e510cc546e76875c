------------------------------- MODULE ZqTrace -------------------------------
EXTENDS ZqRing, Json, IOUtils, TLC
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<zvars, i>>
E == Tr[i]
Is(e) == i <= Len(Tr) /\ E.ev = e /\ i' = i + 1
Init == i = 1 /\ q = <<3>> /\ w = 1 /\ regs = <<>>
Reset == Is("reset") /\ OpenRing(E.q, E.w)
(* the result of an operation, put into its destination *)
Op(e, x) == Is(e) /\ E.ok = 1 /\ E.v = x /\ Canonical(x) /\ Set(E.d, x)
A == regs[E.a]
B == regs[E.b]
Ops == \/ Op("load", E.x)
       \/ Op("add", RAdd(A, B)) \/ Op("sub", RSub(A, B)) \/ Op("mul", RMul(A, B)) \/ Op("neg", RNeg(A))
       \/ Op("from", RFrom(E.x, E.s)) \/ Op("ser", A) \/ Op("zero", RZero) \/ Op("one", ROne)
Inv == Is("inv") /\ E.ok = 1 /\ Canonical(E.v) /\ RMul(A, E.v) = ROne /\ Set(E.d, E.v)
Try == Is("try") /\ UNCHANGED zvars
       /\ IF Lt(E.x, q) THEN E.ok = 1 /\ E.v = E.x ELSE E.ok = 0
Cmp == Is("cmp") /\ UNCHANGED zvars
       /\ E.eq = (IF A = B THEN 1 ELSE 0) /\ E.z = (IF A = RZero THEN 1 ELSE 0)
       /\ E.ord = (IF A = B THEN 0 ELSE IF Lt(A, B) THEN -1 ELSE 1)
Modulus == Is("mod") /\ UNCHANGED zvars /\ NumEq(E.v, q) /\ NumEq(E.h, Shr(q, 1))
Extend == Is("ext") /\ UNCHANGED zvars /\ NumEq(E.v, A) /\ Len(E.v) = 128
(* small rings, all pairs: plain integer arithmetic *)
Pair == /\ Is("pair") /\ UNCHANGED zvars
        /\ LET m == ToNat(q) x == E.x y == E.y IN
           /\ ToNat(E.a) = x /\ ToNat(E.b) = y
           /\ ToNat(E.add) = (x + y) % m /\ ToNat(E.sub) = (x - y) % m /\ ToNat(E.mul) = (x * y) % m /\ ToNat(E.neg) = (-x) % m
           /\ E.eq = (IF x = y THEN 1 ELSE 0)
           /\ E.inv # <<>> => (x * ToNat(E.inv)) % m = 1 /\ ToNat(E.inv) < m
Next == Reset \/ Ops \/ Inv \/ Try \/ Cmp \/ Modulus \/ Extend \/ Pair
Spec == Init /\ [][Next]_vars
Track == TLCSet(1, IF i > TLCGet(1) THEN i ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"REACHED", TLCGet(1), Len(Tr) + 1>>) /\ TLCGet(1) = Len(Tr) + 1
AllCanonical == \A j \in 1..Len(regs) : Canonical(regs[j])
=============================================================================
