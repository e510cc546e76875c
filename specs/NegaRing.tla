------------------------------ MODULE NegaRing ------------------------------
(* Polynomials over the torus integers Z/2^bits, modulo X^n + 1, as a register  *)
(* machine: the abstract state is the register contents, each transition is one *)
(* operation of the library. Words are little-endian byte sequences.            *)
EXTENDS Wide, Integers, Sequences
VARIABLES n, bits, regs
rvars == <<n, bits, regs>>
W == bits \div 8
OneW == FromNat(1, W)
Word(x) == Len(x) = W
Poly(p) == Len(p) = n /\ \A j \in 1..n : Word(p[j])

(* x / 2^k rounded to the nearest integer, halves up *)
ShrRound(x, k) == IF k = 0 THEN x ELSE Eager(Add(Shr(x, k), FromNat(Bit(x, k - 1), W)))

(* p(X^k) for odd k *)
PowK(p, k) == LET kk == k % (2 * n)
                  at == [j \in 0..n-1 |-> CHOOSE t \in 0..n-1 : (t * kk) % n = j] IN
    [j \in 1..n |-> LET t == at[j - 1] IN
        IF ((t * kk) \div n) % 2 = 0 THEN p[t + 1] ELSE Negate(p[t + 1])]

Result(op, c, a, b, k, s) ==
    CASE op \in {"add", "opadd", "addplain"} -> VAdd(a, b)
      [] op \in {"sub", "opsub"} -> VSub(a, b)
      [] op \in {"addassign", "opaddassign"} -> VAdd(c, a)
      [] op \in {"subassign", "opsubassign"} -> VSub(c, a)
      [] op = "neg" -> VNeg(c)
      [] op = "smul" -> VScale(a, s)
      [] op \in {"smad", "smallmad"} -> VAdd(c, VScale(a, s))
      [] op \in {"extmad", "wrapmad", "mad"} -> VAdd(c, NegMul(a, b))
      [] op = "opmul" -> NegMul(a, b)
      [] op \in {"pos", "mono"} -> MonoMul(c, k)
      [] op = "negm" -> MonoMul(c, -k)
      [] op \in {"powk", "pow_minus"} -> PowK(a, k)
      [] op = "shr" -> [j \in 1..n |-> ShrRound(a[j], k)]
      [] op = "set" -> a
Open(nn, bb, rr) == n' = nn /\ bits' = bb /\ regs' = rr
Put(d, v) == regs' = [regs EXCEPT ![d + 1] = v] /\ UNCHANGED <<n, bits>>
Apply(op, d, a, b, k, s, v) ==
    /\ v = Eager(Result(op, regs[d + 1], regs[a + 1], regs[b + 1], k, s))
    /\ Put(d, v)
WellFormed == \A r \in 1..Len(regs) : Poly(regs[r])
=============================================================================
