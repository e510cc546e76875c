----------------------------- MODULE LockTrace ------------------------------
(* Recorded histories of Spinlock must be linearizable with respect to Lock,  *)
(* with the data accesses ordered by happens-before.                          *)
EXTENDS Lock, HB, Integers, Sequences, SequencesExt, Json, IOUtils, TLC

Tr == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, pend
vars == <<lvars, hvars, i, pend>>

NoCall == [op |-> "none", g |-> 0, done |-> FALSE, ok |-> FALSE]
Init == i = 1 /\ LockInit(7) /\ HBInit /\ pend = [t \in Threads |-> NoCall]

E == Tr[i]
Is(e) == i <= Len(Tr) /\ E.ev = e /\ i' = i + 1

NextHistory == /\ Is("reset")
               /\ holder' = {} /\ kept' = FALSE /\ val' = 7
               /\ clk' = [t \in Threads |-> [u \in Threads |-> IF u = t THEN 1 ELSE 0]]
               /\ rel' = [l \in Locs |-> Zero] /\ pendA' = [t \in Threads |-> Zero]
               /\ pendR' = [t \in Threads |-> Zero] /\ lastW' = Zero /\ lastR' = Zero
               /\ pend' = [t \in Threads |-> NoCall]

Call == /\ Is("call") /\ pend[E.t].op = "none"
        /\ pend' = [pend EXCEPT ![E.t] = [op |-> E.op, g |-> E.g, done |-> FALSE, ok |-> FALSE]]
        /\ UNCHANGED <<lvars, hvars>>

Effect(t) ==
    LET p == pend[t] IN
    /\ ~p.done /\ p.op # "none" /\ UNCHANGED <<hvars, i>>
    /\ \/ p.op \in {"lock", "try_lock"} /\ Acquire(p.g) /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].ok = TRUE]
       \/ p.op = "try_lock" /\ TryRefused /\ pend' = [pend EXCEPT ![t].done = TRUE]
       \/ p.op = "drop" /\ Unlock(p.g) /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].ok = TRUE]
       \/ p.op = "keep" /\ Keep(p.g) /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].ok = TRUE]

Return == /\ Is("ret")
          /\ pend[E.t].done /\ pend[E.t].g = E.g /\ pend[E.t].ok = E.ok
          /\ pend' = [pend EXCEPT ![E.t] = NoCall]
          /\ UNCHANGED <<lvars, hvars>>

AtomicStep == Is("atom") /\ Atomic(E.t, E.loc % 16, E.k, E.acq, E.rel) /\ UNCHANGED <<lvars, pend>>
Rd == Is("rd") /\ LRead(E.g, E.val) /\ DataRead(E.t) /\ UNCHANGED pend
Wr == Is("wr") /\ LWrite(E.g, E.val) /\ DataWrite(E.t) /\ UNCHANGED pend

(* a thread may be waiting at the end only for a lock that was kept *)
End == /\ Is("end") /\ holder = {}
       /\ ToSet(E.stuck) = {t \in Threads : pend[t].op # "none"}
       /\ \A t \in ToSet(E.stuck) : pend[t].op = "lock" /\ ~pend[t].done /\ kept
       /\ UNCHANGED <<lvars, hvars, pend>>

Next == NextHistory \/ Call \/ Return \/ AtomicStep \/ Rd \/ Wr \/ End \/ \E t \in Threads : Effect(t)
Spec == Init /\ [][Next]_vars

Track == TLCSet(1, IF i > TLCGet(1) THEN i ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"REACHED", TLCGet(1), Len(Tr) + 1>>) /\ TLCGet(1) = Len(Tr) + 1
=============================================================================
