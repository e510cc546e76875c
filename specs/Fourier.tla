------------------------------- MODULE Fourier -------------------------------
(* What the Fourier domain must compute: the identity, sums, and sums of       *)
(* negacyclic products, exactly while everything fits a double's 53 bits and   *)
(* otherwise up to a rounding bound relative to the size of the operands.      *)
EXTENDS Wide, Integers, Sequences
VARIABLES n, bits
fvars == <<n, bits>>
W == bits \div 8
Log2(x) == CHOOSE k \in 0..31 : 2^k <= x /\ x < 2^(k + 1)
Near(y, x, tol) == LET d == Eager(Sub(y, x)) e == Eager(Negate(d)) IN
                   IF tol < 0 THEN y = x ELSE Lt(d, Shl(FromNat(1, 24), tol)) \/ Lt(e, Shl(FromNat(1, 24), tol))
(* bits of rounding error allowed for results of the given magnitude *)
Slack(size) == IF size <= 49 THEN -1 ELSE size - 49
NearAll(y, x, tol) == Len(y) = Len(x) /\ \A j \in 1..Len(x) : Near(y[j], x[j], tol)
RECURSIVE Products(_, _, _)
Products(xs, bs, k) == IF k > Len(xs) THEN [j \in 1..n |-> Zeros(W)]
                       ELSE Eager(VAdd(NegMul(xs[k], bs[k]), Products(xs, bs, k + 1)))
RoundTrip(x, y, mag) == NearAll(y, x, Slack(mag + 1))
SumTrip(x, x2, y, mag) == NearAll(y, Eager(VAdd(x, x2)), Slack(mag + 2))
MadTrip(xs, bs, y, mag, lb) == NearAll(y, Products(xs, bs, 1), Slack(mag + lb + Log2(n)))
=============================================================================
