------------------------------ MODULE LockImpl ------------------------------
(* The algorithm of Spinlock, one action per atomic instruction, with waiting *)
(* threads under weak fairness.                                               *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Threads, MaxOps, AllowKeep
VARIABLES word, pc, holder, kept, val, nops
vars == <<word, pc, holder, kept, val, nops>>

Init == word = FALSE /\ pc = [t \in Threads |-> "idle"] /\ holder = {} /\ kept = FALSE /\ val = 0
        /\ nops = [t \in Threads |-> 0]
Go(t, s) == pc' = [pc EXCEPT ![t] = s]
Start(t, s) == /\ pc[t] = "idle" /\ nops[t] < MaxOps /\ Go(t, s) /\ nops' = [nops EXCEPT ![t] = @ + 1]
               /\ UNCHANGED <<word, holder, kept, val>>
Spin(t) == /\ pc[t] = "spin"
           /\ IF word THEN UNCHANGED <<word, pc, holder>>
              ELSE word' = TRUE /\ Go(t, "crit") /\ holder' = holder \cup {t}
           /\ UNCHANGED <<kept, val, nops>>
Try(t) == /\ pc[t] = "try"
          /\ IF word THEN Go(t, "idle") /\ UNCHANGED <<word, holder>>
             ELSE word' = TRUE /\ Go(t, "crit") /\ holder' = holder \cup {t}
          /\ UNCHANGED <<kept, val, nops>>
Unlock(t) == /\ pc[t] = "crit" /\ word' = FALSE /\ Go(t, "idle") /\ holder' = holder \ {t}
             /\ UNCHANGED <<kept, val, nops>>
Keep(t) == /\ pc[t] = "crit" /\ AllowKeep /\ kept' = TRUE /\ Go(t, "idle") /\ holder' = holder \ {t}
           /\ UNCHANGED <<word, val, nops>>
Next == \E t \in Threads : Start(t, "spin") \/ Start(t, "try") \/ Spin(t) \/ Try(t) \/ Unlock(t) \/ Keep(t)
Spec == Init /\ [][Next]_vars
        /\ \A t \in Threads : SF_vars(Spin(t) /\ pc'[t] = "crit") /\ WF_vars(Unlock(t)) /\ WF_vars(Try(t))
Abs == INSTANCE Lock
MutualExclusion == Abs!MutualExclusion
WordOk == word = (holder # {} \/ kept)
Refines == [][\E t \in Threads : Abs!Acquire(t) \/ Abs!Unlock(t) \/ Abs!Keep(t)]_<<holder, kept, val>>
KeptForever == Abs!KeptForever
(* a waiting thread enters unless the lock is kept *)
Progress == \A t \in Threads : (pc[t] = "spin") ~> (pc[t] = "crit" \/ kept)
=============================================================================
