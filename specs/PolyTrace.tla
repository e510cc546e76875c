------------------------------ MODULE PolyTrace ------------------------------
EXTENDS RingPoly, Json, IOUtils, TLC
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<zvars, i>>
E == Tr[i]
Is(e) == i <= Len(Tr) /\ E.ev = e /\ i' = i + 1
Init == i = 1 /\ q = <<3>> /\ w = 1 /\ regs = <<>>
Reset == Is("reset") /\ q' = E.q /\ w' = E.w /\ regs' = <<<<>>, <<>>, <<>>, <<>>>>
A == regs[E.a]
B == regs[E.b]
Valid(p) == \A j \in 1..Len(p) : Canonical(p[j])
Op(e, x) == Is(e) /\ E.ok = 1 /\ Valid(E.v) /\ Same(E.v, x) /\ Set(E.d, E.v)
One == <<ROne>>
Ops == \/ Op("load", E.v) \/ Op("add", PAdd(A, B)) \/ Op("sub", PSub(A, B)) \/ Op("mul", PMul(A, B))
       \/ Op("neg", PNeg(A)) \/ Op("scale", PScale(A, E.s))
       \/ (Is("copy") /\ E.ok = 1 /\ (E.v = A \/ E.v = One \/ E.v = <<>>) /\ Set(E.d, E.v))
Eval == Is("eval") /\ UNCHANGED zvars /\ E.ok = 1 /\ E.v = Horner(A, E.s)
Eq == Is("eq") /\ UNCHANGED zvars /\ E.e1 = E.e2 /\ E.e1 = (IF Same(E.x, E.y) THEN 1 ELSE 0)
Deg == Is("deg") /\ UNCHANGED zvars
       /\ IF IsZero(A) THEN E.ok = 0 /\ E.z = 1 ELSE E.ok = 1 /\ E.v = Degree(A) /\ E.z = 0
Div2 == Is("div") /\ UNCHANGED zvars
       /\ IF Monic(E.y) THEN E.ok = 1 /\ Valid(E.q) /\ Valid(E.r) /\ DivRem(E.x, E.y, E.q, E.r) ELSE E.ok = 0
Both == Is("ops") /\ UNCHANGED zvars /\ Same(E.add, PAdd(E.x, E.y)) /\ Same(E.sub, PSub(E.x, E.y)) /\ Same(E.mul, PMul(E.x, E.y))
Next == Reset \/ Ops \/ Eval \/ Eq \/ Deg \/ Div2 \/ Both
Spec == Init /\ [][Next]_vars
Track == TLCSet(1, IF i > TLCGet(1) THEN i ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"REACHED", TLCGet(1), Len(Tr) + 1>>) /\ TLCGet(1) = Len(Tr) + 1
=============================================================================
