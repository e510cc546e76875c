------------------------------- MODULE ZqRing -------------------------------
(* A register machine over the integers modulo q.  Elements are canonical     *)
(* representatives, w-byte words.                                             *)
EXTENDS Integers, Sequences, Wide

VARIABLES q, w, regs
zvars == <<q, w, regs>>

Canonical(x) == Len(x) = w /\ Lt(x, q)
RMod(x) == Rem(x, q)                                   \* any width -> w bytes
RAdd(x, y) == RMod(Add(Ext(x, w + 1), y))
RNeg(x) == IF NumEq(x, <<0>>) THEN x ELSE Sub(q, x)
RSub(x, y) == RAdd(x, RNeg(y))
RMul(x, y) == RMod(MulFull(x, y))
RZero == FromInt(0, w)
ROne == RMod(FromInt(1, w))
(* the element congruent to a signed or unsigned machine integer *)
RFrom(x, signed) == IF signed = 1 /\ Negative(x) THEN RNeg(RMod(Negate(SExt(x, Len(x) + 1)))) ELSE RMod(x)

OpenRing(m, k) == q' = m /\ w' = k /\ regs' = <<FromInt(0, k), Rem(FromInt(1, k), m), FromInt(0, k), FromInt(0, k)>>
Set(d, x) == regs' = [regs EXCEPT ![d] = x] /\ UNCHANGED <<q, w>>
=============================================================================
