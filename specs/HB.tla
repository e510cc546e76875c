--------------------------------- MODULE HB ---------------------------------
(* Happens-before by vector clocks for the release/acquire fragment of the    *)
(* C++/Rust memory model: release sequences, fences, relaxed accesses.        *)
(* Protected data must be accessed in happens-before order.                   *)
EXTENDS Naturals, FiniteSets

CONSTANT Threads   \* a finite set of thread numbers

VARIABLES clk,     \* clk[t]: vector clock of t
          rel,     \* rel[loc]: clock released to whoever acquires from loc
          pendA,   \* pendA[t]: clocks seen by relaxed loads, for a later acquire fence
          pendR,   \* pendR[t]: clock at the last release fence
          lastW,   \* clock of the last write to the data
          lastR    \* lastR[t]: t's component at its last read of the data

hvars == <<clk, rel, pendA, pendR, lastW, lastR>>

Zero == [t \in Threads |-> 0]
Join(a, b) == [t \in Threads |-> IF a[t] >= b[t] THEN a[t] ELSE b[t]]
Leq(a, b) == \A t \in Threads : a[t] <= b[t]

Locs == 0..15

HBInit == /\ clk = [t \in Threads |-> [u \in Threads |-> IF u = t THEN 1 ELSE 0]]
          /\ rel = [l \in Locs |-> Zero]
          /\ pendA = [t \in Threads |-> Zero]
          /\ pendR = [t \in Threads |-> Zero]
          /\ lastW = Zero
          /\ lastR = Zero

Tick(c, t) == [c EXCEPT ![t] = @ + 1]

(* an atomic operation of t on loc; k in {"ld","st","rmw","fence"} *)
Atomic(t, loc, k, acq, rls) ==
    LET seen == rel[loc]
        c1   == IF k \in {"ld", "rmw"} /\ acq THEN Join(clk[t], seen)
                ELSE IF k = "fence" /\ acq THEN Join(clk[t], pendA[t]) ELSE clk[t]
        out  == IF rls THEN c1 ELSE pendR[t]
    IN  /\ pendA' = IF k \in {"ld", "rmw"} THEN [pendA EXCEPT ![t] = Join(@, seen)] ELSE pendA
        /\ pendR' = IF k = "fence" /\ rls THEN [pendR EXCEPT ![t] = c1] ELSE pendR
        /\ rel' = CASE k = "st"  -> [rel EXCEPT ![loc] = out]
                    [] k = "rmw" -> [rel EXCEPT ![loc] = Join(seen, out)]
                    [] OTHER     -> rel
        /\ clk' = [clk EXCEPT ![t] = IF k = "ld" THEN c1 ELSE Tick(c1, t)]
        /\ UNCHANGED <<lastW, lastR>>

DataRead(t) == /\ Leq(lastW, clk[t])
               /\ lastR' = [lastR EXCEPT ![t] = clk[t][t]]
               /\ UNCHANGED <<clk, rel, pendA, pendR, lastW>>

DataWrite(t) == /\ Leq(lastW, clk[t])
                /\ Leq(lastR, clk[t])
                /\ lastW' = [Zero EXCEPT ![t] = clk[t][t]]
                /\ lastR' = Zero
                /\ UNCHANGED <<clk, rel, pendA, pendR>>
=============================================================================
