-------------------------------- MODULE Radix --------------------------------
(* Signed gadget decomposition of a torus word into `count` digits base 2^log. *)
EXTENDS Wide, Integers, Sequences
VARIABLES bits, log, count
gvars == <<bits, log, count>>
W == bits \div 8
Unused == bits - log * count
(* the value rounded to the represented precision *)
Rounded(x) == IF Unused = 0 THEN x
              ELSE Eager(Shl(Add(Shr(x, Unused), FromNat(Bit(x, Unused - 1), W)), Unused))
(* weight of the j-th digit counted from the least significant one *)
RECURSIVE Weighted(_, _)
Weighted(d, j) == IF j > Len(d) THEN Zeros(W)
                  ELSE Eager(Add(Shl(d[j], Unused + log * (j - 1)), Weighted(d, j + 1)))
(* |d| <= 2^(log-1) *)
Bounded(d) == LET a == Eager(IF Negative(d) THEN Negate(d) ELSE d) IN Le(a, Shl(FromNat(1, W), log - 1))
Decomposes(x, d) == Len(d) = count /\ (\A j \in 1..count : Bounded(d[j])) /\ Weighted(d, 1) = Rounded(x)
Scale(x, j) == Eager(Mul(x, Shl(FromNat(1, W), bits - log * (j + 1))))
=============================================================================
