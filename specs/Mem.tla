-------------------------------- MODULE Mem --------------------------------
(* The guest memory of the Parasol computer: a map from 32-bit addresses to bytes, mapped in pages, with
   allocations carved out of it and a stack that grows downwards.
   An address is a pair <<page, offset>>; a length likewise <<whole pages, rest>>.  A byte is 0..255 when plain and
   256 + v when encrypted.  Bytes of mapped pages that were never written read 0. *)
EXTENDS Integers, Sequences, FiniteSets, Functions, SequencesExt, TLC
CONSTANTS PageSize, Pages        \* bytes per page, pages in the address space

VARIABLES
  mapped,     \* pages that exist
  mem,        \* what was written, by address
  sp,         \* stack pointer
  owned       \* live allocations: <<first address, first address behind>>
memvars == <<mapped, mem, sp, owned>>

Plus(a, l) == LET s == a[2] + l[2] IN <<a[1] + l[1] + (s \div PageSize), s % PageSize>>
Span(n) == <<n \div PageSize, n % PageSize>>
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Leq(a, b) == a = b \/ Less(a, b)
\* b - a for b >= a not far apart
Dist(a, b) == (b[1] - a[1]) * PageSize + (b[2] - a[2])
Before(a) == IF a[2] = 0 THEN <<a[1] - 1, PageSize - 1>> ELSE <<a[1], a[2] - 1>>
LastOf(a, l) == Before(Plus(a, l))
\* the range of length l # 0 at a lies in the address space
Fits(a, l) == LastOf(a, l)[1] < Pages
Touched(a, l) == a[1] .. LastOf(a, l)[1]
AllMapped(a, l) == Fits(a, l) /\ \A p \in Touched(a, l) : p \in mapped
Aligned(a, n) == IF n <= PageSize THEN (a[2] % n) = 0 ELSE TRUE
Disjoint(a, l) == \A o \in owned : Leq(o[2], a) \/ Leq(Plus(a, l), o[1])

At(a) == IF a \in DOMAIN mem THEN mem[a] ELSE 0
Read(a, n) == [i \in 1..n |-> At(Plus(a, Span(i - 1)))]
\* the addresses of n bytes at a, and the memory after storing the sequence b there
Put(m, a, b) == [x \in {Plus(a, Span(i - 1)) : i \in 1..Len(b)} |-> b[1 + Dist(a, x)]] @@ m
-----------------------------------------------------------------------------
MemInit(stack, ssz, segs) ==
  /\ mapped' = Touched(stack, ssz) \cup UNION {Touched(segs[i].at, segs[i].sz) : i \in DOMAIN segs}
  /\ mem' = FoldLeft(LAMBDA m, s : Put(m, s.at, s.data), <<>>, segs)
  /\ sp' = Plus(stack, ssz)
  /\ owned' = {<<stack, Plus(stack, ssz)>>} \cup {<<segs[i].at, Plus(segs[i].at, segs[i].sz)>> : i \in DOMAIN segs}

Nothing == UNCHANGED memvars

\* A new allocation: nobody else's bytes, all mapped, all zero.  Small ones are always granted.
Grant(a, l) ==
  /\ Fits(a, l)
  /\ Disjoint(a, l)
  /\ mapped' = mapped \cup Touched(a, l)
  /\ owned' = owned \cup {<<a, Plus(a, l)>>}
MayRefuse(l) == l = <<0, 0>> \/ l[1] >= Pages \div 2

Allocate(l, ok, a) ==
  IF ok THEN l # <<0, 0>> /\ Grant(a, l) /\ UNCHANGED <<mem, sp>>
        ELSE MayRefuse(l) /\ Nothing

SubAllocate(l, align, ok, a) ==
  IF ok THEN l # <<0, 0>> /\ Aligned(a, align) /\ Grant(a, l) /\ UNCHANGED <<mem, sp>>
        ELSE MayRefuse(l) /\ Nothing

AllocateValue(l, b, ok, a) ==
  /\ ok
  /\ Grant(a, l)
  /\ mem' = Put(mem, a, b)
  /\ UNCHANGED sp

\* Where an argument of n bytes goes: the highest aligned address that leaves room below the stack pointer.
RECURSIVE Down(_, _)
Down(a, n) == IF n = 0 THEN a ELSE IF n > a[2] /\ a[2] > 0 THEN Down(<<a[1], 0>>, n - a[2])
              ELSE IF n >= PageSize THEN Down(<<a[1] - 1, a[2]>>, n - PageSize)
              ELSE IF a[2] >= n THEN <<a[1], a[2] - n>> ELSE <<a[1] - 1, (PageSize + a[2]) - n>>
Lower(a, align) == <<a[1], a[2] - (a[2] % align)>>
PushAt(n, align) == Lower(Down(sp, n), align)
Room(n, align) ==
  LET a == PushAt(n, align) IN
  /\ a[1] >= 0
  /\ a = sp \/ \A p \in a[1] .. Before(sp)[1] : p \in mapped
Push(b, align, ok, a, newsp) ==
  LET n == Len(b)
      to == PushAt(n, align)
      pad == Dist(to, sp) - n
  IN IF ok THEN /\ Room(n, align)
                /\ a = to /\ newsp = to
                /\ sp' = to
                /\ mem' = Put(mem, to, b \o [i \in 1..pad |-> 0])
                /\ UNCHANGED <<mapped, owned>>
           ELSE /\ ~Room(n, align)
                /\ newsp = sp
                /\ Nothing

Plain(b) == \A i \in DOMAIN b : b[i] < 256
Cipher(b) == \A i \in DOMAIN b : b[i] >= 256

Write(a, align, b, ok, err) ==
  LET l == Span(Len(b)) IN
  IF ok THEN /\ Aligned(a, align)
             /\ AllMapped(a, l)
             /\ mem' = Put(mem, a, b)
             /\ UNCHANGED <<mapped, sp, owned>>
        ELSE /\ \/ (~Aligned(a, align) /\ err = "unaligned")
                \/ (~AllMapped(a, l) /\ err \in {"access", "overflow"})
             /\ Nothing

Load(a, align, enc, n, ok, b, err) ==
  LET l == Span(n) IN
  /\ IF ok THEN /\ Aligned(a, align)
                /\ AllMapped(a, l)
                /\ b = Read(a, n)
                /\ IF enc THEN Cipher(b) ELSE Plain(b)
           ELSE \/ (~Aligned(a, align) /\ err = "unaligned")
                \/ (~AllMapped(a, l) /\ err \in {"access", "overflow"})
                \/ (AllMapped(a, l) /\ err = "encryption" /\ LET v == Read(a, n) IN IF enc THEN ~Cipher(v) ELSE ~Plain(v))
  /\ Nothing

Check(a, l, ok) == (ok <=> AllMapped(a, l)) /\ Nothing
=============================================================================
