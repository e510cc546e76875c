------------------------------ MODULE MemModel ------------------------------
(* The allocation and stack algorithms of parasol_cpu/src/memory over a small address space: first fit over the pages,
   sub-allocation out of one chunk, pushing with padding.  Every step is one the byte map (Mem) allows. *)
EXTENDS Mem
CONSTANTS MaxLen, Stack, StackSize
VARIABLES chunk     \* <<base page, bytes, next free offset>> or <<>>
StackAt == <<4, 1>>
StackLen == <<1, 2>>
mvars == <<memvars, chunk>>

FirstFit(n) == LET free == {b \in 1..(Pages - 1) : b + n < Pages /\ \A p \in b..(b + n - 1) : p \notin mapped}
               IN IF free = {} THEN 0 ELSE CHOOSE b \in free : \A c \in free : b <= c
Ceil(n) == (n + PageSize - 1) \div PageSize
Init == /\ mapped = Touched(Stack, StackSize) /\ mem = <<>> /\ sp = Plus(Stack, StackSize)
        /\ owned = {<<Stack, Plus(Stack, StackSize)>>} /\ chunk = <<>>
Own(a, l) == owned' = owned \cup {<<a, Plus(a, l)>>}
DoAlloc(n) == LET b == FirstFit(Ceil(n)) IN
  /\ b # 0
  /\ mapped' = mapped \cup b..(b + Ceil(n) - 1)
  /\ Own(<<b, 0>>, Span(n))
  /\ UNCHANGED <<mem, sp, chunk>>
DoSub(n, align) ==
  LET padded == IF chunk = <<>> THEN 0 ELSE ((chunk[3] + align - 1) \div align) * align
      b == FirstFit(Ceil(n))
  IN IF chunk # <<>> /\ padded + n <= chunk[2]
     THEN /\ chunk' = <<chunk[1], chunk[2], padded + n>>
          /\ Own(Plus(<<chunk[1], 0>>, Span(padded)), Span(n))
          /\ UNCHANGED <<mapped, mem, sp>>
     ELSE /\ b # 0
          /\ mapped' = mapped \cup b..(b + Ceil(n) - 1)
          /\ Own(<<b, 0>>, Span(n))
          /\ chunk' = <<b, Ceil(n) * PageSize, n>>
          /\ UNCHANGED <<mem, sp>>
Addr(a) == a[1] * PageSize + a[2]
DoPush(n, align) ==
  LET top == Addr(sp)
      at == ((top - n) \div align) * align
  IN /\ top >= n
     /\ at = top \/ \A p \in (at \div PageSize)..((top - 1) \div PageSize) : p \in mapped
     /\ sp' = Span(at)
     /\ mem' = Put(mem, Span(at), [k \in 1..n |-> k] \o [k \in 1..(top - at - n) |-> 0])
     /\ UNCHANGED <<mapped, owned, chunk>>
Lens == {1, 4, MaxLen}
Aligns == {1, 4}
Next == \/ \E n \in Lens : DoAlloc(n)
        \/ \E n \in Lens, al \in Aligns : DoSub(n, al)
        \/ \E n \in {0, 1, 2, 5}, al \in Aligns : DoPush(n, al)
Spec == Init /\ [][Next]_mvars
-----------------------------------------------------------------------------
OwnedDisjoint == \A x, y \in owned : x = y \/ Leq(x[2], y[1]) \/ Leq(y[2], x[1])
OwnedMapped == \A x \in owned : \A p \in x[1][1] .. Before(x[2])[1] : p \in mapped
NoNull == \A x \in owned : x[1][1] > 0
\* what was pushed stays: the bytes from the stack pointer up are only ever added to
Pushes == [][\A a \in DOMAIN mem : mem'[a] = mem[a]]_mvars
\* every step is one of the byte map's
Refines == [][
  \/ (\E o \in owned' \ owned : LET l == Span(Dist(o[1], o[2])) IN
        \/ Allocate(l, TRUE, o[1])
        \/ \E al \in Aligns : SubAllocate(l, al, TRUE, o[1]))
  \/ (owned' = owned /\ \E n \in 0..MaxLen, al \in Aligns :
        \E b \in {[k \in 1..n |-> k]} : Push(b, al, TRUE, sp', sp'))]_mvars
Bound == Cardinality(owned) <= 4 /\ TLCGet("level") <= 7
=============================================================================
