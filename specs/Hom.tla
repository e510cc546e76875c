--------------------------------- MODULE Hom ---------------------------------
(* Homomorphic evaluation seen through decryption. A register holds the phase   *)
(* of a ciphertext: what decryption yields before decoding, a polynomial over   *)
(* the torus integers (an LWE ciphertext has one coefficient). A selector is a   *)
(* GGSW ciphertext: its message and the size of the noise its rows may carry.   *)
(* Each transition is one operation of the library: the phase of its result is  *)
(* the operation applied to the phases of its operands, exactly for linear      *)
(* operations and otherwise within the error budget that the parameters give.   *)
EXTENDS Wide, Integers, Sequences
VARIABLES bits, regs, sels
hvars == <<bits, regs, sels>>
W == bits \div 8

Log2Up(x) == CHOOSE k \in 0..30 : 2^k >= x /\ (k = 0 \/ 2^(k - 1) < x)
Half(x) == (x + 1) \div 2
Max(x, y) == IF x > y THEN x ELSE y

(* y is x up to an error below 2^tol; exactly x when tol < 0 *)
NearAll(y, x, tol) == VWithin(y, x, tol)
Near(y, x, tol) == NearAll(<<y>>, <<x>>, tol)
Zero(n) == [j \in 1..n |-> Zeros(W)]

(* ---- error budgets, as exponents of two; -1 means none ---- *)
(* fresh noise of standard deviation 2^s *)
Fresh(s) == IF s < 0 THEN -1 ELSE s + 5
(* sum of m noises *)
Sum(s, m) == IF s < 0 THEN -1 ELSE s + 5 + Half(Log2Up(m))
(* products of decomposed operands with rows of noise 2^s (standard deviation): *)
(* noise (digits average to a half and derived rows may err all in one direction, *)
(* hence the second bound), rounding of the decomposition times a message of norm 2^m1, and the   *)
(* precision of the Fourier domain                                              *)
Terms(P) == (P.k + 1) * P.cnt * P.n
Rounding(P, m1) == IF P.cnt * P.log >= bits THEN -1
                   ELSE bits - P.cnt * P.log - 1 + Half(Log2Up(P.k * P.n + 1)) + 2 + m1
FourierErr(P) == IF P.fft = 0 THEN -1
                 ELSE Max(0, bits + P.log - 1 - 53 + Half(Log2Up(Terms(P))) + Half(Log2Up(P.k * P.n + 1)) + 4)
Budget(P, s, m1) ==
    LET noise == IF s < 0 THEN -1 ELSE s + Max(P.log + 3 + Half(Log2Up(Terms(P))), Log2Up(Terms(P)))
        top == Max(noise, Max(Rounding(P, m1), FourierErr(P)))
    IN IF top < 0 THEN -1 ELSE top + 2
Plus(a, b) == IF a < 0 THEN b ELSE IF b < 0 THEN a ELSE Max(a, b) + 1
Times(a, k) == IF a < 0 THEN -1 ELSE a + k

(* ---- messages ---- *)
RoundShr(x, k) == IF k = 0 THEN x ELSE Eager(Add(Shr(x, k), FromNat(Bit(x, k - 1), W)))
Encode(m, p) == Eager(Shl(m, bits - p))
Decode(x, p) == Eager(Low(RoundShr(x, bits - p), p))
Map(F(_), p) == Eager([j \in 1..Len(p) |-> F(p[j])])
EncodeAll(ms, p) == Eager([j \in 1..Len(ms) |-> Encode(ms[j], p)])
DecodeAll(xs, p) == Eager([j \in 1..Len(xs) |-> Decode(xs[j], p)])
(* with c extra leading bits that are dropped *)
DecodeCarry(x, p, c) == Eager(Low(RoundShr(x, bits - p - c), p))

(* decryption of a raw ciphertext: the body minus the masks times the key *)
RECURSIVE MaskSum(_, _, _)
MaskSum(a, s, j) == IF j > Len(a) THEN Zero(Len(s[1])) ELSE Eager(VAdd(NegMul(s[j], a[j]), MaskSum(a, s, j + 1)))
Phase(a, b, s) == Eager(VSub(b, MaskSum(a, s, 1)))
RECURSIVE Dot(_, _, _)
Dot(a, s, j) == IF j > Len(a) THEN Zeros(W) ELSE Eager(Add(Mul(a[j], s[j]), Dot(a, s, j + 1)))

(* ---- operations on phases ---- *)
(* linear operations; c is the destination's previous value *)
Linear(op, c, a, b, k, s, p) ==
    CASE op = "add" -> VAdd(a, b)
      [] op = "sub" -> VSub(a, b)
      [] op = "neg" -> VNeg(a)
      [] op = "acc" -> VAdd(c, a)
      [] op = "smad" -> VAdd(c, VScale(a, s))
      [] op = "pmad" -> VAdd(c, NegMul(p, a))
      [] op = "shift" -> [j \in 1..Len(a) |-> Add(a[j], s)]
      [] op = "mono" -> MonoMul(a, k)
      [] op = "extract" -> <<a[k + 1]>>
      [] op = "same" -> a
      [] op = "trace" -> [j \in 1..Len(a) |-> IF j = 1 THEN VScale(<<a[1]>>, FromNat(Len(a), W))[1] ELSE Zeros(W)]

Product(m, a) == Eager(NegMul(m, a))
Select(m, d0, d1) == Eager(VAdd(d0, Product(m, Eager(VSub(d1, d0)))))

(* sum of input phases times given polynomials *)
RECURSIVE Combine(_, _, _)
Combine(fs, xs, j) == IF j > Len(fs) THEN Zero(Len(fs[1]))
                      ELSE Eager(VAdd(VScale(fs[j], xs[j][1]), Combine(fs, xs, j + 1)))

(* ---- programmable bootstrapping ---- *)
(* The input lands on a circle of 2n places. Dropping lc leading bits and       *)
(* rounding to every 2^lv-th place moves it by up to half such a step for each of *)
(* the h masks, and the body, that are not at such a place. A message of p bits   *)
(* under one bit of padding owns a 2^(p+1)-th of the circle around its encoding;  *)
(* the input is certain to be read as m if it stays in there whatever the         *)
(* roundings are.                                                                 *)
Dist(x, y) == LET d == Eager(Sub(x, y)) e == Eager(Negate(d)) IN IF Lt(d, e) THEN d ELSE e
Certain(x, m, p, lc, lv, n, h) ==
    LET step == bits - Log2Up(2 * n) + lv
        slot == bits - p - 1
        err == Eager(Dist(Shl(x, lc), Shl(m, slot)))
        drift == Eager(Shl(FromNat(h, W + 1), step - 1))
    IN slot >= step /\ Lt(Eager(Add(Ext(err, W + 1), drift)), Shl(FromNat(1, W + 1), slot - 1))
(* the padded half of the circle gives the entries, the other half their negations *)
Entry(T, m, p) == IF m < 2^p THEN Encode(T[m + 1], p) ELSE Eager(Negate(Encode(T[m + 1 - 2^p], p)))

Store(d, v) == regs' = [regs EXCEPT ![d + 1] = v] /\ UNCHANGED <<bits, sels>>
Keep == UNCHANGED hvars
=============================================================================
