------------------------------ MODULE WideDef ------------------------------
(* Fixed-width words as little-endian byte sequences (TLC integers are 32     *)
(* bits).  These are the definitions; module Wide gives the same operators    *)
(* with a Java implementation that WideTest compares with these.              *)
EXTENDS Integers, Sequences

B == 256
Byte(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Zeros(n) == [i \in 1..n |-> 0]

(* zero-extension or truncation to n bytes; sign-extension or truncation *)
Ext(a, n) == [i \in 1..n |-> Byte(a, i)]
Negative(a) == Len(a) > 0 /\ a[Len(a)] >= 128
SExt(a, n) == [i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE IF Negative(a) THEN 255 ELSE 0]

RECURSIVE Carry(_, _)
(* carry-normalise a sequence of natural "digits", dropping the final carry *)
Carry(d, c) == IF d = <<>> THEN <<>>
               ELSE LET s == Head(d) + c IN <<s % B>> \o Carry(Tail(d), s \div B)

Add(a, b) == Carry([i \in 1..Len(a) |-> a[i] + Byte(b, i)], 0)
Not(a) == [i \in 1..Len(a) |-> 255 - a[i]]
Negate(a) == Carry([i \in 1..Len(a) |-> 255 - a[i]], 1)
Sub(a, b) == Carry([i \in 1..Len(a) |-> a[i] + (255 - Byte(b, i))], 1)

RECURSIVE SumTo(_, _, _, _)
(* sum over j in 1..k of a[j] * b[k - j + 1] *)
SumTo(a, b, k, j) == IF j > k THEN 0 ELSE Byte(a, j) * Byte(b, k - j + 1) + SumTo(a, b, k, j + 1)
MulN(a, b, n) == Carry([k \in 1..n |-> SumTo(a, b, k, 1)], 0)
Mul(a, b) == MulN(a, b, Len(a))
MulFull(a, b) == MulN(a, b, Len(a) + Len(b))

(* the sequence itself; TLC then evaluates its elements once *)
Eager(s) == s

Max2(x, y) == IF x > y THEN x ELSE y
RECURSIVE Cmp(_, _, _)
Cmp(a, b, i) == IF i = 0 THEN 0 ELSE IF Byte(a, i) < Byte(b, i) THEN -1
                ELSE IF Byte(a, i) > Byte(b, i) THEN 1 ELSE Cmp(a, b, i - 1)
Lt(a, b) == Cmp(a, b, Max2(Len(a), Len(b))) < 0
Le(a, b) == Cmp(a, b, Max2(Len(a), Len(b))) <= 0
NumEq(a, b) == Cmp(a, b, Max2(Len(a), Len(b))) = 0
SLt(a, b) == LET n == Max2(Len(a), Len(b)) + 1 IN
             LET x == SExt(a, n) y == SExt(b, n) IN
             IF Negative(x) # Negative(y) THEN Negative(x) ELSE Lt(x, y)

Pow2(k) == 2 ^ k
Bit(a, k) == (Byte(a, k \div 8 + 1) \div Pow2(k % 8)) % 2      \* k counts from 0
FromBits(f, n) == [i \in 1..n |-> f[8*(i-1)] + 2*f[8*(i-1)+1] + 4*f[8*(i-1)+2] + 8*f[8*(i-1)+3]
                     + 16*f[8*(i-1)+4] + 32*f[8*(i-1)+5] + 64*f[8*(i-1)+6] + 128*f[8*(i-1)+7]]
Bits(a) == [k \in 0..8 * Len(a) - 1 |-> Bit(a, k)]
Shl(a, k) == FromBits([j \in 0..8 * Len(a) - 1 |-> IF j >= k THEN Bit(a, j - k) ELSE 0], Len(a))
Shr(a, k) == FromBits([j \in 0..8 * Len(a) - 1 |-> Bit(a, j + k)], Len(a))
Sar(a, k) == FromBits([j \in 0..8 * Len(a) - 1 |-> IF j + k < 8 * Len(a) THEN Bit(a, j + k) ELSE IF Negative(a) THEN 1 ELSE 0], Len(a))
And(a, b) == FromBits([j \in 0..8 * Len(a) - 1 |-> Bit(a, j) * Bit(b, j)], Len(a))
Or(a, b) == FromBits([j \in 0..8 * Len(a) - 1 |-> IF Bit(a, j) + Bit(b, j) > 0 THEN 1 ELSE 0], Len(a))
Xor(a, b) == FromBits([j \in 0..8 * Len(a) - 1 |-> (Bit(a, j) + Bit(b, j)) % 2], Len(a))
(* keep the k low bits *)
Low(a, k) == FromBits([j \in 0..8 * Len(a) - 1 |-> IF j < k THEN Bit(a, j) ELSE 0], Len(a))

RECURSIVE DivStep(_, _, _, _, _)
(* long division: bit k down to 0; r has one byte more than q *)
DivStep(a, q, k, r, quo) ==
    IF k < 0 THEN <<quo, r>>
    ELSE LET r2 == Carry([i \in 1..Len(r) |-> 2 * r[i]], Bit(a, k)) IN
         IF Lt(r2, q) THEN DivStep(a, q, k - 1, r2, [quo EXCEPT ![k] = 0])
         ELSE DivStep(a, q, k - 1, Sub(r2, q), [quo EXCEPT ![k] = 1])
DivMod(a, q) == DivStep(a, q, 8 * Len(a) - 1, Zeros(Len(q) + 1), [k \in 0..8 * Len(a) - 1 |-> 0])
Div(a, q) == FromBits(DivMod(a, q)[1], Len(a))
Rem(a, q) == Ext(DivMod(a, q)[2], Len(q))

RECURSIVE FromNat(_, _)
FromNat(x, n) == IF n = 0 THEN <<>> ELSE <<x % B>> \o FromNat(x \div B, n - 1)
FromInt(x, n) == IF x >= 0 THEN FromNat(x, n) ELSE Negate(FromNat(-x, n))
RECURSIVE ToNat(_)
ToNat(a) == IF a = <<>> THEN 0 ELSE Head(a) + B * ToNat(Tail(a))
ToInt(a) == IF Negative(a) THEN -ToNat(Negate(a)) ELSE ToNat(a)

(* vectors of words, and polynomials modulo X^n + 1 *)
VAdd(v, w) == [i \in 1..Len(v) |-> Add(v[i], w[i])]
VSub(v, w) == [i \in 1..Len(v) |-> Sub(v[i], w[i])]
VNeg(v) == [i \in 1..Len(v) |-> Negate(v[i])]
VScale(v, s) == [i \in 1..Len(v) |-> Mul(v[i], s)]
(* X^k * v for any integer k *)
MonoMul(v, k) == LET n == Len(v) IN
    [i \in 1..n |-> LET j == (i - 1 - k) % (2 * n) IN IF j < n THEN v[j + 1] ELSE Negate(v[j - n + 1])]
RECURSIVE NegMulFrom(_, _, _)
NegMulFrom(v, w, i) == IF i > Len(v) THEN [k \in 1..Len(w) |-> Zeros(Len(w[k]))]
                       ELSE VAdd(VScale(MonoMul(w, i - 1), v[i]), NegMulFrom(v, w, i + 1))
(* negacyclic product; the width is that of the second operand's coefficients *)
NegMul(v, w) == NegMulFrom(v, w, 1)
(* every coefficient of v is within 2^k of w's, around the circle; equal to it when k < 0 *)
Within(a, b, k) == IF k < 0 THEN a = b ELSE IF k >= 8 * Len(a) THEN TRUE
                   ELSE LET d == Sub(a, b) lim == Shl(FromNat(1, Len(a)), k) IN Lt(d, lim) \/ Lt(Negate(d), lim)
VWithin(v, w, k) == Len(v) = Len(w) /\ \A i \in 1..Len(v) : Within(v[i], w[i], k)
=============================================================================
