----------------------------- MODULE TorusScalar -----------------------------
(* Scalars of the torus Z/2^bits, encoding of p-bit messages, shortest distance *)
(* and modulus switching; a register machine over words.                        *)
EXTENDS Wide, Integers, Sequences
VARIABLES bits, regs
tvars == <<bits, regs>>
W == bits \div 8
RoundShr(x, k) == IF k = 0 THEN x ELSE Eager(Add(Shr(x, k), FromNat(Bit(x, k - 1), W)))
(* p-bit messages sit on 2^p equispaced positions *)
Encode(m, p) == Eager(Shl(m, bits - p))
(* the nearest position, as a message *)
Decode(x, p) == Eager(Low(RoundShr(x, bits - p), p))
Min(x, y) == IF Lt(y, x) THEN y ELSE x
Distance(a, b) == Eager(Min(Sub(a, b), Sub(b, a)))
Forward(a, b) == Le(Sub(b, a), Sub(a, b))      \* b is reached from a by going up
(* the double nearest to an integer, as an integer *)
Close(m, x) == LET big == 32 mm == Ext(m, big) xx == Ext(x, big)
                   d == Eager(IF Lt(mm, xx) THEN Sub(xx, mm) ELSE Sub(mm, xx)) IN
               Le(Shl(d, 52), xx)
(* position on a circle of 2^lm positions, of which only multiples of 2^lv are used,  *)
(* after dropping the lc leading bits                                                 *)
Switch(x, lc, lv, lm) == Eager(Low(Shl(RoundShr(Shl(x, lc), bits - (lm - lv)), lv), lm))
Put(d, v) == regs' = [regs EXCEPT ![d + 1] = v] /\ UNCHANGED bits
Value(op, c, a, b, k, s) ==
    CASE op = "add" -> Add(a, b) [] op = "sub" -> Sub(a, b) [] op = "neg" -> Negate(a)
      [] op = "mul" -> Mul(a, s) [] op = "mad" -> Add(Mul(a, s), b) [] op = "and" -> And(a, b)
      [] op = "shl" -> Shl(a, k) [] op = "shr" -> Shr(a, k) [] op = "acc" -> Add(c, a)
      [] op = "dec" -> Sub(c, a) [] op = "sum" -> Add(Add(a, b), c)
(* quotient rounded to the nearest integer, halves away from zero *)
Abs(x, sg) == Eager(IF sg = 1 /\ Negative(x) THEN Negate(x) ELSE x)
RoundDiv(x, y, sg) ==
    LET len == Len(x) wide == len + 1
        ax == Ext(Abs(x, sg), wide) ay == Ext(Abs(y, sg), wide)
        q == Eager(Div(ax, ay)) r == Eager(Rem(ax, ay))
        up == ~Lt(Ext(Shl(Ext(r, wide + 1), 1), wide + 1), Ext(ay, wide + 1))
        m == Eager(Ext(IF up THEN Add(q, FromNat(1, wide)) ELSE q, len))
    IN Eager(IF sg = 1 /\ Negative(x) # Negative(y) THEN Negate(m) ELSE m)
=============================================================================
