-------------------------------- MODULE Lock --------------------------------
(* What parasol_concurrency's Spinlock promises.                              *)
EXTENDS Naturals, FiniteSets

VARIABLES holder,   \* ids of the live handles (never more than one)
          kept,     \* the lock was deliberately left locked
          val

lvars == <<holder, kept, val>>

LockInit(v) == holder = {} /\ kept = FALSE /\ val = v

Free          == holder = {} /\ ~kept
Acquire(g)    == Free /\ holder' = {g} /\ UNCHANGED <<kept, val>>
TryRefused    == ~Free /\ UNCHANGED lvars
Unlock(g)     == g \in holder /\ holder' = holder \ {g} /\ UNCHANGED <<kept, val>>
Keep(g)       == g \in holder /\ holder' = holder \ {g} /\ kept' = TRUE /\ UNCHANGED val
LRead(g, v)   == g \in holder /\ v = val /\ UNCHANGED lvars
LWrite(g, v)  == g \in holder /\ val' = v /\ UNCHANGED <<holder, kept>>

MutualExclusion == Cardinality(holder) <= 1 /\ (kept => holder = {})
KeptForever     == [][kept => kept']_lvars
=============================================================================
