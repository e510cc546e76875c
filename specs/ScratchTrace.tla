---------------------------- MODULE ScratchTrace ----------------------------
EXTENDS Scratch, Json, IOUtils, TLC
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<svars, i>>
E == Tr[i]
Is(e) == i <= Len(Tr) /\ E.ev = e /\ i' = i + 1
Init == i = 1 /\ SInit
Reset == Is("reset") /\ live' = <<>> /\ peak' = <<>> /\ big' = <<>>
TakeE == Is("take") /\ E.len = E.count /\ Take(E.id, E.thr, E.count, E.size, E.algn, E.addr, E.segs)
FillE == Is("fill") /\ Fill(E.id, E.s, E.v)
ReadE == Is("read") /\ Reads(E.id, E.v)
FreeE == Is("free") /\ Release(E.id)
HeldE == Is("held") /\ E.bytes <= Bound(E.thr) /\ UNCHANGED svars
Next == Reset \/ TakeE \/ FillE \/ ReadE \/ FreeE \/ HeldE
Spec == Init /\ [][Next]_vars
NoOverlap == ~Overlapping
Track == TLCSet(1, IF i > TLCGet(1) THEN i ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"REACHED", TLCGet(1), Len(Tr) + 1>>) /\ TLCGet(1) = Len(Tr) + 1
=============================================================================
