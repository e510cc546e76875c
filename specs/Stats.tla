-------------------------------- MODULE Stats --------------------------------
(* Sample statistics and half-space regions.                                  *)
EXTENDS Integers, Sequences, Wide
VARIABLES k, sum, sq,     \* number, sum and sum of squares (sq is an 8-byte word) of the samples
          hs              \* the half-spaces <<a, b, c>>: a*x + b*y <= c
svars == <<k, sum, sq, hs>>
W(x) == FromInt(x, 8)
Empty == k = 0 /\ sum = 0 /\ sq = W(0) /\ hs = <<>>
Sample(x) == k' = k + 1 /\ sum' = sum + x /\ sq' = Add(sq, W(x * x)) /\ UNCHANGED hs

(* the recorded numbers are rounded: the mean times k in hundredths, the variance times k*k in hundredths,
   the deviation in thousandths *)
Near(a, b, tol) == LET d == Sub(a, b) IN ~SLt(W(tol), d) /\ ~SLt(d, W(-tol))
MeanOk(m) == Near(m, Mul(W(sum), W(100)), 1)
VarNum == Sub(Mul(W(k), sq), Mul(W(sum), W(sum)))             \* k * sq - sum^2 = k^2 * variance
VarOk(v) == Near(v, Mul(VarNum, W(100)), 3)
(* (s - 2)^2 k^2 <= 10^6 VarNum <= (s + 2)^2 k^2 *)
DevOk(s) == LET up == Add(s, W(2)) lo == IF SLt(s, W(2)) THEN W(0) ELSE Sub(s, W(2)) kk == W(k * k) x == Mul(VarNum, W(1000000)) IN
            /\ ~Negative(s) /\ ~SLt(Mul(Mul(up, up), kk), x) /\ ~SLt(x, Mul(Mul(lo, lo), kk))

InHalf(h, x, y) == h[1] * x + h[2] * y <= h[3]
Violated(x, y) == SelectSeq([j \in 1..Len(hs) |-> j], LAMBDA j : ~InHalf(hs[j], x, y))
=============================================================================
