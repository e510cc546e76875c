------------------------------- MODULE Wide -------------------------------
(* The operators of WideDef; TLC evaluates them with specs/java/Wide.java.    *)
LOCAL D == INSTANCE WideDef
Ext(a, b) == D!Ext(a, b)
SExt(a, b) == D!SExt(a, b)
Add(a, b) == D!Add(a, b)
Sub(a, b) == D!Sub(a, b)
Mul(a, b) == D!Mul(a, b)
MulFull(a, b) == D!MulFull(a, b)
Lt(a, b) == D!Lt(a, b)
Le(a, b) == D!Le(a, b)
NumEq(a, b) == D!NumEq(a, b)
SLt(a, b) == D!SLt(a, b)
Bit(a, b) == D!Bit(a, b)
Shl(a, b) == D!Shl(a, b)
Shr(a, b) == D!Shr(a, b)
Sar(a, b) == D!Sar(a, b)
And(a, b) == D!And(a, b)
Or(a, b) == D!Or(a, b)
Xor(a, b) == D!Xor(a, b)
Low(a, b) == D!Low(a, b)
Div(a, b) == D!Div(a, b)
Rem(a, b) == D!Rem(a, b)
FromNat(a, b) == D!FromNat(a, b)
FromInt(a, b) == D!FromInt(a, b)
VAdd(a, b) == D!VAdd(a, b)
VSub(a, b) == D!VSub(a, b)
VScale(a, b) == D!VScale(a, b)
MonoMul(a, b) == D!MonoMul(a, b)
NegMul(a, b) == D!NegMul(a, b)
VWithin(a, b, c) == D!VWithin(a, b, c)
Eager(a) == D!Eager(a)
Not(a) == D!Not(a)
Negate(a) == D!Negate(a)
Negative(a) == D!Negative(a)
ToNat(a) == D!ToNat(a)
ToInt(a) == D!ToInt(a)
VNeg(a) == D!VNeg(a)
Zeros(a) == D!Zeros(a)
=============================================================================
