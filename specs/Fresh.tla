------------------------------- MODULE Fresh -------------------------------
(* What encryption draws at random. State: every draw of mask words so far      *)
(* (named by an id; Words(id) is what it drew, which keeps the words themselves *)
(* out of TLC's state), and, for each kind of encryption, a tally of the noise  *)
(* its phases showed. No word may be drawn twice; the tallies must be those of  *)
(* centred noise of the configured spread.                                      *)
(* Noise is counted in 64ths of the configured deviation.                       *)
EXTENDS Wide, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
CONSTANT Words(_)
VARIABLES par, drawn, count, ones, sampled, noise, coins
fvars == <<par, drawn, count, ones, sampled, noise, coins>>
(* noise: kind -> [n, sum, hi, lo (sum of squares = hi * 4096 + lo), zeros, tiny, same]   coins: kind -> [n, ones] *)

None == [n |-> 0, sum |-> 0, hi |-> 0, lo |-> 0, zeros |-> 0, tiny |-> 0]
NoCoins == [n |-> 0, ones |-> 0]
Of(f, kind, dflt) == IF kind \in DOMAIN f THEN f[kind] ELSE dflt
With(f, kind, v) == [k \in DOMAIN f \cup {kind} |-> IF k = kind THEN v ELSE f[k]]
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Root(_, _)
Root(x, r) == IF r * r >= x THEN r ELSE Root(x, r + 1)
Sqrt(x) == IF x > 1000000 THEN Root(x, 1000) ELSE IF x > 10000 THEN Root(x, 100) ELSE Root(x, 0)   \* rounded up

Start(p) == /\ par' = p /\ drawn' = <<>> /\ count' = 0 /\ ones' = [b \in 0..63 |-> 0] /\ sampled' = 0
            /\ noise' = <<>> /\ coins' = <<>>

(* ---- masks: never one seen before ---- *)
Draw(id, sample) ==
    /\ drawn' = Append(drawn, id)
    /\ count' = count + Len(Words(id))
    /\ sampled' = sampled + sample
    /\ ones' = [b \in 0..63 |-> FoldSet(LAMBDA j, acc : acc + Bit(Words(id)[j], b), ones[b], 1..sample)]
    /\ UNCHANGED <<par, noise, coins>>
(* No word twice. The order is a witness: it names every word drawn, as <<draw, place>>, in ascending order. *)
(* Strictly ascending words are different words, so as many places as there are words are all of them.      *)
AllNew(order) ==
    LET At(r) == Words(drawn[r[1]])[r[2]] IN
    /\ Len(order) = count
    /\ \A j \in 1..Len(order) - 1 : Lt(At(order[j]), At(order[j + 1]))
(* and every bit of them is a fair coin *)
Even == \A b \in 0..63 : Abs((2 * ones[b]) - sampled) <= 7 * Sqrt(sampled)

(* ---- noise ---- *)
Unit(e, s) == IF s >= 6 THEN e \div (2 ^ (s - 6)) ELSE e * (2 ^ (6 - s))
Tally(t, e, s) ==
    FoldLeft(LAMBDA acc, x :
        LET u == Unit(x, s) q == acc.lo + (u * u) IN
        [n |-> acc.n + 1, sum |-> acc.sum + u, hi |-> acc.hi + (q \div 4096), lo |-> q % 4096,
         zeros |-> acc.zeros + (IF x = 0 THEN 1 ELSE 0), tiny |-> acc.tiny + (IF u \in {-1, 0} THEN 1 ELSE 0)], t, e)
(* no value is far out, and within one ciphertext or key the values are all different but for chance *)
Plausible(e, s) ==
    /\ \A j \in 1..Len(e) : Abs(Unit(e[j], s)) < 64 * 64
    /\ (s >= 18) => Len(e) - Cardinality({e[j] : j \in 1..Len(e)}) <= 8 + ((Len(e) * (Len(e) \div 16)) \div (2 ^ (s - 4)))
Noise(kind, e, s) ==
    /\ Plausible(e, s)
    /\ noise' = With(noise, kind, Tally(Of(noise, kind, None), e, s))
    /\ UNCHANGED <<par, drawn, count, ones, sampled, coins>>
(* the tally of n independent values of the configured deviation; a row encrypted under a public key has *)
(* the noise of the key in it, up to `most` times the variance                                           *)
Spread(t, s, most) ==
    /\ t.n > 0
    \* `floor` moves the mean by half a unit
    /\ (most = 1) => Abs(t.sum + (t.n \div 2)) <= 7 * 64 * Sqrt(t.n)
    /\ IF most = 1 THEN Abs(t.hi - t.n) <= 10 + (10 * Sqrt(t.n))
       ELSE t.hi >= t.n \div 2 /\ t.hi <= most * t.n
    /\ t.tiny <= (t.n \div 60) + 10 + (7 * Sqrt(t.n \div 60))
    /\ t.zeros <= 12 + (2 * (t.n \div ((5 * (2 ^ s)) \div 2)))

(* ---- coins: bits of secrets and of the randomness of public-key encryption ---- *)
Coins(kind, v) ==
    /\ \A j \in 1..Len(v) : v[j] \in {0, 1}
    /\ LET c == Of(coins, kind, NoCoins) IN
       coins' = With(coins, kind, [n |-> c.n + Len(v), ones |-> FoldLeft(LAMBDA acc, x : acc + x, c.ones, v)])
    /\ UNCHANGED <<par, drawn, count, ones, sampled, noise>>
Fair(c) == Abs((2 * c.ones) - c.n) <= 7 * Sqrt(c.n)

(* ---- the randomness an encryption hands back is the one it used ---- *)
Sum(vs, zero) == FoldLeft(LAMBDA acc, v : VAdd(acc, v), zero, vs)
LwePublic(z, r, e, m) ==      \* rows of the public key the bits of r select, plus e, plus the message on the body
    LET n == Len(e)
        zero == [j \in 1..n |-> Zeros(Len(m))]
        picked == Sum([j \in 1..Len(r) |-> IF ToNat(r[j]) = 1 THEN z[j] ELSE zero], e) IN
    [picked EXCEPT ![n] = Add(@, m)]
=============================================================================
