------------------------------ MODULE IsaTrace ------------------------------
(* Instructions encoded and words decoded by the real library. *)
EXTENDS Isa, Json, IOUtils, TLC
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
E == Tr[i]
Is(e) == i <= Len(Tr) /\ E.ev = e /\ i' = i + 1
Init == i = 1
\* the names registers go by
Reset == Is("reset") /\ E.regs = <<2, 5, 6, 7, 8, 10, 28, 29, 30, 31, 0, 1, 9, 17, 32, 62, 63>>
\* a well-formed instruction has one encoding, and that encodes nothing else
Encoded == Is("enc") /\ E.b = Encode(E.i) /\ Decode(E.b) = E.i /\ E.back = E.i
\* every word is decoded as the format says, or refused
Decoded == Is("dec") /\ E.i = Decode(E.b) /\ E.again = E.i
Next == Reset \/ Encoded \/ Decoded
Spec == Init /\ [][Next]_i
Track == TLCSet(1, IF i > TLCGet(1) THEN i ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"REACHED", TLCGet(1), Len(Tr) + 1>>) /\ TLCGet(1) = Len(Tr) + 1
=============================================================================
