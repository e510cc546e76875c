----------------------------- MODULE WideTest -----------------------------
(* The Java evaluation of Wide agrees with the definitions in WideDef.        *)
EXTENDS Integers, Sequences, TLC, Wide
D == INSTANCE WideDef
Rb == IF RandomElement(1..3) = 1 THEN RandomElement({0, 1, 127, 128, 255}) ELSE RandomElement(0..255)
Rw(n) == [i \in 1..n |-> Rb]
Rv(k, n) == [i \in 1..k |-> Rw(n)]
Same(k) ==
  LET n == RandomElement(1..9) m == RandomElement(1..9) IN
  LET a == Rw(n) b == Rw(n) c == Rw(m) s == RandomElement(0..8*n+3)
      q == [Rw(m) EXCEPT ![RandomElement(1..m)] = RandomElement(1..255)]
      x == RandomElement(-100000..100000) p == 2^RandomElement(0..3)
      v == Rv(p, n) w == Rv(p, n) sm == <<Rb, Rb, RandomElement(0..127)>> IN
  /\ Ext(a, m) = D!Ext(a, m) /\ SExt(a, m) = D!SExt(a, m)
  /\ Add(a, c) = D!Add(a, c) /\ Sub(a, c) = D!Sub(a, c) /\ Negate(a) = D!Negate(a) /\ Not(a) = D!Not(a)
  /\ Mul(a, c) = D!Mul(a, c) /\ MulFull(a, c) = D!MulFull(a, c)
  /\ Lt(a, c) = D!Lt(a, c) /\ Le(a, c) = D!Le(a, c) /\ NumEq(a, c) = D!NumEq(a, c) /\ SLt(a, c) = D!SLt(a, c)
  /\ Lt(a, a) = D!Lt(a, a) /\ Le(a, a) = D!Le(a, a) /\ NumEq(a, Ext(a, n + 1)) = D!NumEq(a, Ext(a, n + 1))
  /\ Bit(a, s) = D!Bit(a, s) /\ Shl(a, s) = D!Shl(a, s) /\ Shr(a, s) = D!Shr(a, s) /\ Sar(a, s) = D!Sar(a, s)
  /\ And(a, b) = D!And(a, b) /\ Or(a, b) = D!Or(a, b) /\ Xor(a, b) = D!Xor(a, b) /\ Low(a, s) = D!Low(a, s)
  /\ Div(a, q) = D!Div(a, q) /\ Rem(a, q) = D!Rem(a, q)
  /\ FromInt(x, m) = D!FromInt(x, m) /\ ToNat(sm) = D!ToNat(sm) /\ ToInt(<<sm[1], sm[2]>>) = D!ToInt(<<sm[1], sm[2]>>)
  /\ VAdd(v, w) = D!VAdd(v, w) /\ VSub(v, w) = D!VSub(v, w) /\ VNeg(v) = D!VNeg(v) /\ VScale(v, a) = D!VScale(v, a)
  /\ MonoMul(v, x) = D!MonoMul(v, x) /\ NegMul(v, w) = D!NegMul(v, w)
  /\ LET e == s - 2 u == VAdd(v, [j \in 1..p |-> IF e < 0 THEN Zeros(n) ELSE Sar(Rw(n), 8 * n - e)]) IN
     VWithin(u, v, e) = D!VWithin(u, v, e) /\ VWithin(v, w, e) = D!VWithin(v, w, e) /\ VWithin(v, v, e)
  /\ Negative(a) = D!Negative(a) /\ Zeros(n) = D!Zeros(n)
ASSUME \A k \in 1..300 : Same(k) \/ (PrintT("Wide differs from WideDef") /\ FALSE)
VARIABLE x
Init == x = 0
Next == x' = x
Spec == Init /\ [][Next]_x
=============================================================================
