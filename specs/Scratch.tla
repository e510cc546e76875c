------------------------------ MODULE Scratch ------------------------------
(* Temporary buffers handed out by a per-thread pool.

   The state is the set of buffers held at the moment: where each lies, how long
   it is, and what its owner last wrote into each of its segments.  A buffer may be
   placed anywhere that is suitably aligned and used by no other held buffer.

   Addresses are pairs <<h, l>> standing for h * 2^24 + l, because TLC's integers
   have 32 bits.

   held[t] counts the bytes thread t's pool keeps, in use or not: releasing must
   make space reusable, so it stays within what the largest number of buffers
   held at once needs.                                                            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Simd           \* alignment every buffer has at least
VARIABLES live, peak, big
svars == <<live, peak, big>>

Unit == 16777216
End(b) == IF b.addr[2] + b.bytes >= Unit THEN <<b.addr[1] + 1, b.addr[2] + b.bytes - Unit>> ELSE <<b.addr[1], b.addr[2] + b.bytes>>
Leq(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
Apart(a, b) == a.bytes = 0 \/ b.bytes = 0 \/ Leq(End(a), b.addr) \/ Leq(End(b), a.addr)
Max(a, b) == IF a > b THEN a ELSE b
At(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
HeldBy(t) == {k \in DOMAIN live : live[k].thr = t}

SInit == live = <<>> /\ peak = <<>> /\ big = <<>>
(* The interface promises `bytes' = count * size of the element, at this address. *)
Take(id, t, count, size, algn, addr, segs) ==
    LET b == [addr |-> addr, bytes |-> count * size, thr |-> t, val |-> [s \in 1..segs |-> -1]] IN
    /\ id \notin DOMAIN live
    /\ addr[2] % Max(Simd, algn) = 0
    /\ (\A k \in DOMAIN live : Apart(b, live[k])) = TRUE   \* "= TRUE": one verdict, not one branch per disjunct
    /\ live' = With(live, id, b)
    /\ peak' = With(peak, t, Max(At(peak, t, 0), Cardinality(HeldBy(t)) + 1))
    /\ big' = With(big, t, Max(At(big, t, 0), count * size))
Fill(id, s, v) == /\ id \in DOMAIN live
                  /\ live' = [live EXCEPT ![id].val[s] = v]
                  /\ UNCHANGED <<peak, big>>
(* -1 marks what the owner has not written: it may hold anything. *)
Reads(id, vals) == /\ id \in DOMAIN live
                   /\ Len(vals) = Len(live[id].val)
                   /\ (\A s \in DOMAIN vals : live[id].val[s] # -1 => vals[s] = live[id].val[s]) = TRUE
                   /\ UNCHANGED svars
Release(id) == id \in DOMAIN live /\ live' = Without(live, id) /\ UNCHANGED <<peak, big>>
(* What a pool that reuses released space can need: one block for each buffer held
   at the worst moment, each as large as the largest request, with room for
   bookkeeping; twice that, to allow for other policies. *)
Bound(t) == 2 * At(peak, t, 0) * (At(big, t, 0) + 1024) + 4096
Overlapping == \E a, b \in DOMAIN live : a # b /\ ~Apart(live[a], live[b])
=============================================================================
