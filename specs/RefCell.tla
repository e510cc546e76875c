------------------------------ MODULE RefCell ------------------------------
(* What parasol_concurrency's AtomicRefCell promises: shared borrows exclude   *)
(* a mutable borrow, a mutable borrow excludes everything, a borrow is refused *)
(* exactly when a conflicting borrow is live, and a refusal changes nothing.   *)
EXTENDS Naturals, FiniteSets

VARIABLES shared,   \* ids of the live shared borrows
          excl,     \* ids of the live mutable borrows (never more than one)
          val       \* the protected value

cvars == <<shared, excl, val>>

CellInit(v) == shared = {} /\ excl = {} /\ val = v

Borrow(g)        == excl = {} /\ shared' = shared \cup {g} /\ UNCHANGED <<excl, val>>
BorrowRefused    == excl # {} /\ UNCHANGED cvars
BorrowMut(g)     == excl = {} /\ shared = {} /\ excl' = {g} /\ UNCHANGED <<shared, val>>
BorrowMutRefused == (excl # {} \/ shared # {}) /\ UNCHANGED cvars
Release(g)       == /\ g \in shared \cup excl
                    /\ shared' = shared \ {g} /\ excl' = excl \ {g} /\ UNCHANGED val
Read(g, v)       == g \in shared \cup excl /\ v = val /\ UNCHANGED cvars
Write(g, v)      == g \in excl /\ val' = v /\ UNCHANGED <<shared, excl>>

Exclusive == Cardinality(excl) <= 1 /\ (excl # {} => shared = {})
=============================================================================
