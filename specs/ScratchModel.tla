---------------------------- MODULE ScratchModel ----------------------------
(* The pool as sunscreen_tfhe/src/scratch.rs implements it: a stack of free blocks
   per thread; a request pops the top block and replaces it if it is too small or
   not aligned enough; a release pushes the block.  Refines Scratch.  An address
   space of Places units stands in for the memory underneath.                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Sizes, Aligns, MaxLive, Places
VARIABLES pool, held
(* pool[t] : sequence of blocks; held : id -> [blk, n, al, thr]; a block: [at, n, al] *)
ids == 1..MaxLive
Blocks == UNION {{pool[t][i] : i \in DOMAIN pool[t]} : t \in Threads} \cup {held[k].blk : k \in DOMAIN held}
Used(bs) == UNION {b.at .. (b.at + b.n - 1) : b \in bs}
Free(bs, n, al) == {a \in 0..(Places - n) : a % al = 0 /\ (a..(a + n - 1)) \cap Used(bs) = {}}
VARIABLES pk      \* most buffers held at once, per thread
vars == <<pool, held, pk>>
Init == pool = [t \in Threads |-> <<>>] /\ held = <<>> /\ pk = [t \in Threads |-> 0]
HeldT(t) == {k \in DOMAIN held : held[k].thr = t}
Give(t, id, b, n, al, p) ==
    /\ held' = [k \in DOMAIN held \cup {id} |-> IF k = id THEN [blk |-> b, n |-> n, al |-> al, thr |-> t] ELSE held[k]]
    /\ pool' = [pool EXCEPT ![t] = p]
    /\ pk' = [pk EXCEPT ![t] = IF Cardinality(HeldT(t)) + 1 > @ THEN Cardinality(HeldT(t)) + 1 ELSE @]
Alloc(t, id, n, al) ==
    /\ id \notin DOMAIN held
    /\ IF pool[t] = <<>>
       THEN \E a \in Free(Blocks, n, al) : Give(t, id, [at |-> a, n |-> n, al |-> al], n, al, <<>>)
       ELSE LET top == pool[t][Len(pool[t])]  rest == SubSeq(pool[t], 1, Len(pool[t]) - 1) IN
            IF top.n < n \/ top.al < al
            THEN \E a \in Free(Blocks \ {top}, n, al) : Give(t, id, [at |-> a, n |-> n, al |-> al], n, al, rest)
            ELSE Give(t, id, top, n, al, rest)
Drop(id) == /\ id \in DOMAIN held
            /\ pool' = [pool EXCEPT ![held[id].thr] = Append(@, held[id].blk)]
            /\ held' = [k \in DOMAIN held \ {id} |-> held[k]]
            /\ UNCHANGED pk
Next == \/ \E t \in Threads, id \in ids, n \in Sizes, al \in Aligns : Alloc(t, id, n, al)
        \/ \E id \in DOMAIN held : Drop(id)
Spec == Init /\ [][Next]_vars

Region(h) == h.blk.at .. (h.blk.at + h.n - 1)
Separate == \A a, b \in DOMAIN held : a # b => Region(held[a]) \cap Region(held[b]) = {}
Fits == \A a \in DOMAIN held : held[a].blk.n >= held[a].n /\ held[a].blk.at % held[a].al = 0
(* Releasing makes space reusable: never more blocks than buffers held at the worst moment. *)
Bounded == \A t \in Threads : Len(pool[t]) + Cardinality(HeldT(t)) <= pk[t]
=============================================================================
