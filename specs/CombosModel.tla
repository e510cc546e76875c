----------------------------- MODULE CombosModel -----------------------------
(* The enumeration for every small n and t: it visits every combination once, *)
(* in lexicographic order, and Rank is its position.                          *)
EXTENDS Combos, FiniteSets
CONSTANT MaxN
VARIABLE pos, prev, seen
mvars == <<ovars, pos, prev, seen>>
All(m, k) == {c \in [1..k -> 0..m-1] : \A i \in 1..k-1 : c[i] < c[i+1]}
Init == /\ n \in 1..MaxN /\ t \in 0..MaxN /\ t <= n /\ cur = NoComb /\ done = FALSE /\ pos = -1 /\ prev = NoComb /\ seen = {}
Step == \E c \in All(n, t) : Deliver(c) /\ pos' = pos + 1 /\ prev' = cur /\ seen' = seen \cup {c}
Stop == Exhausted /\ UNCHANGED <<pos, prev, seen>>
Next == Step \/ Stop
Spec == Init /\ [][Next]_mvars
Positions == cur # NoComb => /\ IsComb(n, t, cur) /\ NumEq(Rank(n, t, cur), W(pos))
                             /\ (prev # NoComb => LexLt(prev, cur))
                             /\ Cardinality(seen) = pos + 1
Complete == done => seen = All(n, t) /\ NumEq(Binom(n, t), W(Cardinality(seen)))
Progress == done \/ ENABLED Step \/ ENABLED Stop
=============================================================================
