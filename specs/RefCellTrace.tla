---------------------------- MODULE RefCellTrace ----------------------------
(* Recorded histories of AtomicRefCell must be linearizable with respect to   *)
(* RefCell, and the data accesses ordered by happens-before.                  *)
EXTENDS RefCell, HB, Integers, Sequences, Json, IOUtils, TLC

Tr == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, pend, leaked
vars == <<cvars, hvars, i, pend, leaked>>

(* pend[t]: the call in progress on t: op, guard, whether it took effect, and with what result *)
NoCall == [op |-> "none", g |-> 0, done |-> FALSE, ok |-> FALSE, v |-> 0]

Reset == /\ CellInit(7) /\ HBInit /\ pend = [t \in Threads |-> NoCall]
Init == i = 1 /\ Reset /\ leaked = {}

E == Tr[i]
Is(e) == i <= Len(Tr) /\ E.ev = e /\ i' = i + 1

NextHistory == /\ Is("reset") /\ leaked' = {}
               /\ shared' = {} /\ excl' = {} /\ val' = 7
               /\ clk' = [t \in Threads |-> [u \in Threads |-> IF u = t THEN 1 ELSE 0]]
               /\ rel' = [l \in Locs |-> Zero] /\ pendA' = [t \in Threads |-> Zero]
               /\ pendR' = [t \in Threads |-> Zero] /\ lastW' = Zero /\ lastR' = Zero
               /\ pend' = [t \in Threads |-> NoCall]

Call == /\ Is("call") /\ pend[E.t].op = "none"
        /\ pend' = [pend EXCEPT ![E.t] = [op |-> E.op, g |-> E.g, done |-> FALSE, ok |-> FALSE, v |-> 0]]
        /\ UNCHANGED <<cvars, hvars, leaked>>

(* the instant at which a call in progress takes effect *)
Effect(t) ==
    LET p == pend[t] IN
    /\ ~p.done /\ p.op # "none" /\ UNCHANGED <<hvars, i, leaked>>
    /\ \/ p.op = "borrow" /\ Borrow(p.g) /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].ok = TRUE]
       \/ p.op = "borrow" /\ BorrowRefused /\ pend' = [pend EXCEPT ![t].done = TRUE]
       \/ p.op = "borrow_mut" /\ BorrowMut(p.g) /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].ok = TRUE]
       \/ p.op = "borrow_mut" /\ BorrowMutRefused /\ pend' = [pend EXCEPT ![t].done = TRUE]
       \/ p.op = "drop" /\ Release(p.g) /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].ok = TRUE]
       (* a clone holds a shared borrow while it copies the value *)
       \/ p.op = "clone" /\ Borrow(p.g) /\ pend' = [pend EXCEPT ![t].op = "clone2"]
       \/ p.op = "clone" /\ BorrowRefused /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].v = -1]
       \/ p.op = "clone2" /\ Release(p.g) /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].ok = TRUE, ![t].v = val]

Return == /\ Is("ret")
          /\ LET p == pend[E.t] IN
             /\ p.done /\ p.g = E.g /\ p.ok = E.ok
             /\ E.op = "clone" => p.v = E.val
          /\ pend' = [pend EXCEPT ![E.t] = NoCall]
          /\ UNCHANGED <<cvars, hvars, leaked>>

AtomicStep == Is("atom") /\ Atomic(E.t, E.loc % 16, E.k, E.acq, E.rel) /\ UNCHANGED <<cvars, pend, leaked>>
Rd == Is("rd") /\ Read(E.g, E.val) /\ DataRead(E.t) /\ UNCHANGED <<pend, leaked>>
Wr == Is("wr") /\ Write(E.g, E.val) /\ DataWrite(E.t) /\ UNCHANGED <<pend, leaked>>

(* a leaked guard keeps its borrow for ever *)
Forget == Is("forget") /\ E.g \in shared \cup excl /\ leaked' = leaked \cup {E.g} /\ UNCHANGED <<cvars, hvars, pend>>

(* no operation of the cell waits, so nothing may be stuck at the end *)
End == /\ Is("end") /\ E.stuck = <<>> /\ shared \cup excl = leaked
       /\ \A t \in Threads : pend[t].op = "none"
       /\ UNCHANGED <<cvars, hvars, pend, leaked>>

Next == NextHistory \/ Call \/ Return \/ AtomicStep \/ Rd \/ Wr \/ Forget \/ End \/ \E t \in Threads : Effect(t)
Spec == Init /\ [][Next]_vars

Track == TLCSet(1, IF i > TLCGet(1) THEN i ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"REACHED", TLCGet(1), Len(Tr) + 1>>) /\ TLCGet(1) = Len(Tr) + 1
=============================================================================
