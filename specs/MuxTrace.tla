------------------------------ MODULE MuxTrace ------------------------------
(* Circuits built and transformed by the real library. *)
EXTENDS Mux, Json, IOUtils, TLC
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, cir
view == i
E == Tr[i]
Is(e) == i <= Len(Tr) /\ E.ev = e /\ i' = i + 1
Init == i = 1 /\ cir = <<>>
Reset == Is("reset") /\ cir' = <<>>
Built == Is("family") /\ Computes(E) /\ UNCHANGED cir
Given == Is("make") /\ WellFormed(E.cir) /\ cir' = E.cir
Optimized == Is("optimize") /\ Preserves(cir, E.cir, Same(cir), E.ops, E.lib) /\ Muxes(E.cir) <= Muxes(cir) /\ cir' = E.cir
Remapped == Is("remap") /\ Preserves(cir, E.cir, E.f, E.ops, E.lib) /\ cir' = E.cir
Restored == Is("restore") /\ Preserves(cir, E.cir, Same(cir), E.ops, E.lib) /\ cir' = E.cir
\* subtraction with borrow at a width
Borrowed ==
  /\ Is("borrow") /\ UNCHANGED cir
  /\ LET d == Sub(Sub(Ext(E.a, 17), Ext(E.b, 17)), Ext(E.c, 17)) IN
     E.got = <<Ext(Low(d, E.w), 16), Ext(<<Bit(d, E.w)>>, 16)>>
Next == Reset \/ Built \/ Given \/ Optimized \/ Remapped \/ Restored \/ Borrowed
Spec == Init /\ [][Next]_<<i, cir>>
Track == TLCSet(1, IF i > TLCGet(1) THEN i ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"REACHED", TLCGet(1), Len(Tr) + 1>>) /\ TLCGet(1) = Len(Tr) + 1
=============================================================================
