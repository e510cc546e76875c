------------------------------- MODULE Combos -------------------------------
(* Combinations of t elements out of 0..n-1: enumeration as a state machine,  *)
(* ranking and unranking.  Counts are 8-byte words (Wide).                    *)
EXTENDS Integers, Sequences, Wide

VARIABLES n, t,      \* the set being enumerated
          cur,       \* the combination last delivered (<<-1>> before the first)
          done       \* the enumeration is exhausted
ovars == <<n, t, cur, done>>

NoComb == <<-1>>
W(x) == FromInt(x, 8)

IsComb(m, k, c) == /\ Len(c) = k
                   /\ \A i \in 1..k : c[i] \in 0..m-1
                   /\ \A i \in 1..k-1 : c[i] < c[i+1]
First(k) == [i \in 1..k |-> i - 1]

(* lexicographic order *)
LexLt(c, d) == \E i \in 1..Len(c) : c[i] < d[i] /\ \A j \in 1..i-1 : c[j] = d[j]

(* the successor: raise the last element that can be raised, restart the rest *)
CanRaise(m, k, c) == {i \in 1..k : c[i] # m - k + i - 1}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
HasSucc(m, k, c) == CanRaise(m, k, c) # {}
Succ(m, k, c) == LET i == MaxOf(CanRaise(m, k, c)) IN
                 [j \in 1..k |-> IF j < i THEN c[j] ELSE c[i] + 1 + (j - i)]

(* binomial coefficients: Pascal's triangle up to 66, a falling product for few elements *)
PMax == 66
RECURSIVE PRow(_)
PRow(m) == IF m = 0 THEN [k \in 0..PMax |-> IF k = 0 THEN W(1) ELSE W(0)]
           ELSE LET p == PRow(m - 1) IN [k \in 0..PMax |-> IF k = 0 THEN W(1) ELSE Add(p[k], p[k-1])]
RECURSIVE PTab(_)
PTab(m) == IF m = 0 THEN <<PRow(0)>>
           ELSE LET q == PTab(m - 1) p == q[m] IN
                Append(q, [k \in 0..PMax |-> IF k = 0 THEN W(1) ELSE Add(p[k], p[k-1])])
Pascal == PTab(PMax)
RECURSIVE Falling(_, _)
Falling(m, k) == IF k = 0 THEN FromInt(1, 16) ELSE Mul(Falling(m, k - 1), FromInt(m - k + 1, 16))
RECURSIVE Fact(_)
Fact(k) == IF k = 0 THEN 1 ELSE k * Fact(k - 1)
Min2(x, y) == IF x < y THEN x ELSE y
Binom(m, k) == IF k < 0 \/ k > m THEN W(0)
               ELSE IF m <= PMax THEN Pascal[m + 1][k]
               ELSE LET s == Min2(k, m - k) IN Ext(Div(Falling(m, s), FromInt(Fact(s), 16)), 8)

(* how many combinations precede c *)
RECURSIVE SumB(_, _, _, _)
(* sum of Binom(m - 1 - v, r) for v in lo..hi *)
SumB(m, r, lo, hi) == IF lo > hi THEN W(0) ELSE Add(Binom(m - 1 - lo, r), SumB(m, r, lo + 1, hi))
RECURSIVE RankFrom(_, _, _, _)
RankFrom(m, k, c, j) == IF j > k THEN W(0)
                        ELSE Add(SumB(m, k - j, IF j = 1 THEN 0 ELSE c[j-1] + 1, c[j] - 1), RankFrom(m, k, c, j + 1))
Rank(m, k, c) == RankFrom(m, k, c, 1)

(* ---- the enumeration *)
Open(m, k) == n' = m /\ t' = k /\ cur' = NoComb /\ done' = FALSE
Admissible(m, k) == m > 0 /\ k <= m
Deliver(c) == /\ ~done
              /\ IF cur = NoComb THEN c = First(t) ELSE HasSucc(n, t, cur) /\ c = Succ(n, t, cur)
              /\ cur' = c /\ UNCHANGED <<n, t, done>>
Exhausted == /\ done \/ (cur # NoComb /\ ~HasSucc(n, t, cur))
             /\ done' = TRUE /\ UNCHANGED <<n, t, cur>>

RECURSIVE Below(_, _)
(* how many elements of c are smaller than e *)
Below(c, e) == IF c = <<>> THEN 0 ELSE (IF Head(c) < e THEN 1 ELSE 0) + Below(Tail(c), e)
(* inserting an element into a combination of the set without it *)
Inserted(e, c) == LET k == Below(c, e) IN
                  <<k, [i \in 1..Len(c)+1 |-> IF i <= k THEN c[i] ELSE IF i = k + 1 THEN e ELSE c[i-1] + 1]>>
=============================================================================
