---------------------------- MODULE RefCellImpl -----------------------------
(* The algorithm of AtomicRefCell, one action per atomic instruction: a state *)
(* word that is 1 when free, 0 when mutably borrowed, n+1 with n readers; a   *)
(* shared borrow loads the word and compare-exchanges it upwards, a refused   *)
(* borrow leaves it alone.  TLC checks that it refines RefCell.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, MaxOps, Protocol   \* Protocol: "cas" (current) or "add" (increment first, as before the fix)

VARIABLES word, pc, old, live, shared, excl, val, nops, bad
vars == <<word, pc, old, live, shared, excl, val, nops, bad>>

(* live[t]: the sequence of borrows thread t holds: <<kind, id>> *)
Init == /\ word = 1 /\ pc = [t \in Threads |-> "idle"] /\ old = [t \in Threads |-> 0]
        /\ live = [t \in Threads |-> <<>>] /\ shared = {} /\ excl = {} /\ val = 0 /\ nops = 0 /\ bad = FALSE

Id == nops + 1
Go(t, s) == pc' = [pc EXCEPT ![t] = s]

StartBorrow(t) == /\ pc[t] = "idle" /\ nops < MaxOps /\ Go(t, "b_load") /\ nops' = nops + 1
                  /\ UNCHANGED <<word, old, live, shared, excl, val, bad>>
BLoad(t) == /\ pc[t] = "b_load" /\ Protocol = "cas"
            /\ IF word = 0 THEN Go(t, "idle") /\ UNCHANGED old      \* refused
               ELSE Go(t, "b_cas") /\ old' = [old EXCEPT ![t] = word]
            /\ UNCHANGED <<word, live, shared, excl, val, nops, bad>>
BCas(t) == /\ pc[t] = "b_cas"
           /\ IF word = old[t]
              THEN /\ word' = word + 1 /\ Go(t, "idle")
                   /\ live' = [live EXCEPT ![t] = Append(@, <<"R", nops * 10 + t>>)]
                   /\ shared' = shared \cup {nops * 10 + t} /\ UNCHANGED <<old, bad>>
              ELSE IF word = 0 THEN Go(t, "idle") /\ UNCHANGED <<word, old, live, shared, bad>>
              ELSE old' = [old EXCEPT ![t] = word] /\ UNCHANGED <<word, pc, live, shared, bad>>
           /\ UNCHANGED <<excl, val, nops>>
(* the defective protocol, kept to show that the refinement check can fail *)
BAdd(t) == /\ pc[t] = "b_load" /\ Protocol = "add"
           /\ word' = word + 1 /\ Go(t, "idle")
           /\ IF word = 0 THEN UNCHANGED <<live, shared>>
              ELSE /\ live' = [live EXCEPT ![t] = Append(@, <<"R", nops * 10 + t>>)]
                   /\ shared' = shared \cup {nops * 10 + t}
           /\ UNCHANGED <<old, excl, val, nops, bad>>
StartMut(t) == /\ pc[t] = "idle" /\ nops < MaxOps /\ nops' = nops + 1 /\ Go(t, "m_cas")
               /\ UNCHANGED <<word, old, live, shared, excl, val, bad>>
MCas(t) == /\ pc[t] = "m_cas" /\ Go(t, "idle")
           /\ IF word = 1
              THEN /\ word' = 0 /\ live' = [live EXCEPT ![t] = Append(@, <<"M", nops * 10 + t>>)]
                   /\ excl' = excl \cup {nops * 10 + t}
              ELSE UNCHANGED <<word, live, excl>>
           /\ UNCHANGED <<old, shared, val, nops, bad>>
Drop(t) == /\ pc[t] = "idle" /\ live[t] # <<>>
           /\ LET b == Head(live[t]) IN
              /\ live' = [live EXCEPT ![t] = Tail(@)]
              /\ IF b[1] = "R" THEN word' = word - 1 /\ shared' = shared \ {b[2]} /\ UNCHANGED excl
                 ELSE word' = 1 /\ excl' = excl \ {b[2]} /\ UNCHANGED shared
           /\ UNCHANGED <<pc, old, val, nops, bad>>

Next == \E t \in Threads : StartBorrow(t) \/ BLoad(t) \/ BCas(t) \/ BAdd(t) \/ StartMut(t) \/ MCas(t) \/ Drop(t)
Spec == Init /\ [][Next]_vars

Abs == INSTANCE RefCell
Exclusive == Abs!Exclusive
WordOk == word = (IF excl # {} THEN 0 ELSE 1 + Cardinality(shared))
(* every step is an abstract step or invisible *)
AbsNext == \E g \in 0..99 : Abs!Borrow(g) \/ Abs!BorrowMut(g) \/ Abs!Release(g)
Refines == [][AbsNext]_<<shared, excl, val>>
(* a refusal happens only while a conflicting borrow is live *)
RefusalJustified == [][\A t \in Threads : /\ (pc[t] = "m_cas" /\ pc'[t] = "idle" /\ excl' = excl) => (excl # {} \/ shared # {})
                                          /\ (pc[t] \in {"b_load", "b_cas"} /\ pc'[t] = "idle" /\ shared' = shared) => excl # {}]_vars
=============================================================================
