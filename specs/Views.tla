------------------------------- MODULE Views -------------------------------
(* Layout of the structured objects of the encryption scheme.

   Every object is one flat run of elements.  Its kind and the parameters

     n, n2  LWE dimensions          N  polynomial degree      k  GLWE size
     l      number of digits        c  a count (list length, or inputs of a
                                       functional key switch)

   fix how many elements it has (Size) and how each view cuts a range of them
   into consecutive parts (View: first element, elements per part, parts).
   Parts of one view never overlap, by construction, and cover the range.

   A traversal is a cursor: a window [lo, hi) of parts, from which parts are
   taken at either end, or which is split in two (parallel traversal).
   Whatever the traversal, part j is the same run of elements.                 *)
EXTENDS Integers, Sequences
VARIABLES par, kind, cur
vvars == <<par, kind, cur>>

RECURSIVE Log2(_)
Log2(x) == IF x <= 1 THEN 0 ELSE 1 + Log2(x \div 2)
Tri(x) == (x * (x + 1)) \div 2

(* In the Fourier domain a polynomial of degree N has N/2 complex elements. *)
PolyLen(p, f) == IF f THEN p.N \div 2 ELSE p.N
LweLen(m) == m + 1
LevLen(p, m) == p.l * LweLen(m)
GlweLen(p, f) == (p.k + 1) * PolyLen(p, f)
GlevLen(p, f) == p.l * GlweLen(p, f)
GgswLen(p, f) == (p.k + 1) * GlevLen(p, f)
GkskLen(p, f) == p.k * GlevLen(p, f)
PfksLen(p, c) == c * (p.n + 1) * GlevLen(p, FALSE)

Size(kd, p) ==
  CASE kd = "Lwe" -> LweLen(p.n)
    [] kd = "LweSk" -> p.n
    [] kd = "LweList" -> p.c * LweLen(p.n)
    [] kd = "Lev" -> LevLen(p, p.n)
    [] kd = "LweKsk" -> p.n * LevLen(p, p.n2)
    [] kd = "LwePk" -> p.n * LweLen(p.n)
    [] kd = "Poly" -> p.N
    [] kd = "PolyFft" -> p.N \div 2
    [] kd = "PolyList" -> p.c * p.N
    [] kd = "GlweSk" -> p.k * p.N
    [] kd = "Glwe" -> GlweLen(p, FALSE)
    [] kd = "GlweFft" -> GlweLen(p, TRUE)
    [] kd = "GlweList" -> p.c * GlweLen(p, FALSE)
    [] kd = "Glev" -> GlevLen(p, FALSE)
    [] kd = "GlevFft" -> GlevLen(p, TRUE)
    [] kd = "Ggsw" -> GgswLen(p, FALSE)
    [] kd = "GgswFft" -> GgswLen(p, TRUE)
    [] kd = "GlweKsk" -> GkskLen(p, FALSE)
    [] kd = "GlweKskFft" -> GkskLen(p, TRUE)
    [] kd = "Automorphism" -> Log2(p.N) * GkskLen(p, FALSE)
    [] kd = "AutomorphismFft" -> Log2(p.N) * GkskLen(p, TRUE)
    [] kd = "Shift" -> Log2(p.N) * GgswLen(p, FALSE)
    [] kd = "ShiftFft" -> Log2(p.N) * GgswLen(p, TRUE)
    [] kd = "Bootstrap" -> p.n * GgswLen(p, FALSE)
    [] kd = "BootstrapFft" -> p.n * GgswLen(p, TRUE)
    [] kd = "PrivateFks" -> PfksLen(p, p.c)
    [] kd = "CbsKsk" -> (p.k + 1) * PfksLen(p, 1)
    [] kd = "PublicFks" -> p.n * GlevLen(p, FALSE)
    [] kd = "SchemeSwitch" -> Tri(p.k) * GlevLen(p, FALSE)
    [] kd = "SchemeSwitchFft" -> Tri(p.k) * GlevLen(p, TRUE)
    [] kd = "RlwePk" -> GlweLen(p, FALSE)
    [] kd = "Lut" -> GlweLen(p, FALSE)

(* The view of kd: <<first element, elements per part, number of parts>>.  Every
   kind has at most one repeated part; the single parts follow below.            *)
View(kd, p) ==
  CASE kd = "LweList" -> <<0, LweLen(p.n), p.c>>
    [] kd = "Lev" -> <<0, LweLen(p.n), p.l>>
    [] kd = "LweKsk" -> <<0, LevLen(p, p.n2), p.n>>
    [] kd = "LwePk" -> <<0, LweLen(p.n), p.n>>
    [] kd = "PolyList" -> <<0, p.N, p.c>>
    [] kd = "GlweSk" -> <<0, p.N, p.k>>
    [] kd = "Glwe" -> <<0, PolyLen(p, FALSE), p.k>>         \* the mask
    [] kd = "GlweFft" -> <<0, PolyLen(p, TRUE), p.k>>
    [] kd = "GlweList" -> <<0, GlweLen(p, FALSE), p.c>>
    [] kd = "Glev" -> <<0, GlweLen(p, FALSE), p.l>>
    [] kd = "GlevFft" -> <<0, GlweLen(p, TRUE), p.l>>
    [] kd = "Ggsw" -> <<0, GlevLen(p, FALSE), p.k + 1>>
    [] kd = "GgswFft" -> <<0, GlevLen(p, TRUE), p.k + 1>>
    [] kd = "GlweKsk" -> <<0, GlevLen(p, FALSE), p.k>>
    [] kd = "GlweKskFft" -> <<0, GlevLen(p, TRUE), p.k>>
    [] kd = "Automorphism" -> <<0, GkskLen(p, FALSE), Log2(p.N)>>
    [] kd = "AutomorphismFft" -> <<0, GkskLen(p, TRUE), Log2(p.N)>>
    [] kd = "Shift" -> <<0, GgswLen(p, FALSE), Log2(p.N)>>
    [] kd = "ShiftFft" -> <<0, GgswLen(p, TRUE), Log2(p.N)>>
    [] kd = "Bootstrap" -> <<0, GgswLen(p, FALSE), p.n>>
    [] kd = "BootstrapFft" -> <<0, GgswLen(p, TRUE), p.n>>
    [] kd = "PrivateFks" -> <<0, GlevLen(p, FALSE), (p.n + 1) * p.c>>
    [] kd = "CbsKsk" -> <<0, PfksLen(p, 1), p.k + 1>>
    [] kd = "PublicFks" -> <<0, GlevLen(p, FALSE), p.n>>
    [] kd = "SchemeSwitch" -> <<0, GlevLen(p, FALSE), Tri(p.k)>>
    [] kd = "SchemeSwitchFft" -> <<0, GlevLen(p, TRUE), Tri(p.k)>>

(* Single parts: <<first element, elements>>. *)
Mask(kd, p) == CASE kd = "Lwe" -> <<0, p.n>> [] kd = "RlwePk" -> <<0, p.N>>
Body(kd, p) == CASE kd = "Lwe" -> <<p.n, 1>>
                 [] kd = "Glwe" -> <<p.k * p.N, p.N>>
                 [] kd = "GlweFft" -> <<p.k * (p.N \div 2), p.N \div 2>>
                 [] kd = "RlwePk" -> <<p.N, p.N>>
All(kd, p) == <<0, Size(kd, p)>>
Part(j) == LET v == View(kind, par) IN <<v[1] + j * v[2], v[2]>>

(* The entry for a pair of key polynomials, in either order: pairs (i, j) with
   i <= j counted row by row.                                                     *)
PairIndex(i, j, n) == LET a == IF i <= j THEN i ELSE j  b == IF i <= j THEN j ELSE i IN
                      a * n - Tri(a - 1) + (b - a)
Pairs(n) == [x \in 1..Tri(n) |-> CHOOSE q \in {<<i, j>> : i \in 0..(n - 1), j \in 0..(n - 1)} :
                                   q[1] <= q[2] /\ PairIndex(q[1], q[2], n) = x - 1]

(* ---- transitions ---- *)
VInit == par = [n |-> 1, n2 |-> 1, N |-> 2, k |-> 1, l |-> 1, c |-> 1] /\ kind = "Lwe" /\ cur = <<>>
Setup(p) == par' = p /\ kind' = "Lwe" /\ cur' = <<>>
(* Only the declared size is accepted as an object of this kind. *)
Object(kd, len, valid) == /\ kind' = kd /\ cur' = <<>> /\ UNCHANGED par
                          /\ len = Size(kd, par)
                          /\ \A d \in DOMAIN valid : valid[d][2] = (valid[d][1] = Size(kd, par))
With(f, key, v) == [x \in DOMAIN f \cup {key} |-> IF x = key THEN v ELSE f[x]]
Open(id) == /\ cur' = With(cur, id, <<0, View(kind, par)[3]>>) /\ UNCHANGED <<par, kind>>
Left(id) == cur[id][2] - cur[id][1]
Nothing == <<>>
TakeFront(id, skip, got) ==
    /\ got = IF Left(id) > skip THEN Part(cur[id][1] + skip) ELSE Nothing
    /\ cur' = [cur EXCEPT ![id] = IF Left(id) > skip THEN <<@[1] + skip + 1, @[2]>> ELSE <<@[2], @[2]>>]
    /\ UNCHANGED <<par, kind>>
TakeBack(id, skip, got) ==
    /\ got = IF Left(id) > skip THEN Part(cur[id][2] - 1 - skip) ELSE Nothing
    /\ cur' = [cur EXCEPT ![id] = IF Left(id) > skip THEN <<@[1], @[2] - skip - 1>> ELSE <<@[1], @[1]>>]
    /\ UNCHANGED <<par, kind>>
Remaining(id, got) == got = Left(id) /\ UNCHANGED vvars
Split(id, at, a, b) ==
    /\ at <= Left(id)
    /\ cur' = With(With(cur, a, <<cur[id][1], cur[id][1] + at>>), b, <<cur[id][1] + at, cur[id][2]>>)
    /\ UNCHANGED <<par, kind>>
(* A whole traversal at once, in order or reversed. *)
Collect(rev, got) == LET m == View(kind, par)[3] IN
    /\ got = [j \in 1..m |-> Part(IF rev THEN m - j ELSE j - 1)]
    /\ UNCHANGED vvars
Single(which, got) == /\ got = (CASE which = "mask" -> Mask(kind, par) [] which = "body" -> Body(kind, par)
                                  [] which = "all" -> All(kind, par))
                      /\ UNCHANGED vvars
AtPair(i, j, got) == got = Part(PairIndex(i, j, par.k)) /\ UNCHANGED vvars
PairsOf(n, got) == got = Pairs(n) /\ UNCHANGED vvars
=============================================================================
