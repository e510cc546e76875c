------------------------------ MODULE RingPoly ------------------------------
(* Polynomials over the integers modulo q as coefficient sequences; two       *)
(* sequences denote the same polynomial when they agree up to leading zeros.  *)
EXTENDS ZqRing

Coef(p, i) == IF i <= Len(p) THEN p[i] ELSE RZero
MaxLen(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
Same(a, b) == \A i \in 1..MaxLen(a, b) : Coef(a, i) = Coef(b, i)
IsZero(a) == Same(a, <<>>)
Degree(a) == CHOOSE d \in 0..Len(a)-1 : Coef(a, d + 1) # RZero /\ \A j \in d+2..Len(a) : Coef(a, j) = RZero
Monic(a) == ~IsZero(a) /\ a[Degree(a) + 1] = ROne

PAdd(a, b) == Eager([i \in 1..MaxLen(a, b) |-> RAdd(Coef(a, i), Coef(b, i))])
PNeg(a) == Eager([i \in 1..Len(a) |-> RNeg(a[i])])
PSub(a, b) == Eager([i \in 1..MaxLen(a, b) |-> RSub(Coef(a, i), Coef(b, i))])
PScale(a, s) == Eager([i \in 1..Len(a) |-> RMul(a[i], s)])
RECURSIVE Conv(_, _, _, _)
Conv(a, b, k, i) == IF i > Len(a) \/ i > k THEN RZero ELSE RAdd(RMul(a[i], Coef(b, k - i + 1)), Conv(a, b, k, i + 1))
PMul(a, b) == Eager([k \in 1..Len(a) + Len(b) |-> Conv(a, b, k, 1)])
RECURSIVE Horner(_, _)
Horner(a, s) == IF a = <<>> THEN RZero ELSE RAdd(Head(a), RMul(s, Horner(Tail(a), s)))

(* the quotient and remainder by a monic polynomial are unique *)
DivRem(x, y, qq, r) == Same(x, PAdd(PMul(qq, y), r)) /\ (IsZero(r) \/ Degree(r) < Degree(y))
=============================================================================
