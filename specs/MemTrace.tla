------------------------------ MODULE MemTrace ------------------------------
(* Histories recorded from parasol_cpu::Memory, one per "reset" event. *)
EXTENDS Mem, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<memvars, i>>
view == i
E == Tr[i]
Is(e) == i <= Len(Tr) /\ E.ev = e /\ i' = i + 1
Init == i = 1 /\ mapped = {} /\ mem = <<>> /\ sp = <<0, 0>> /\ owned = {}
\* what the history's loader was given is loaded, and nothing is refused that could be
Reset == Is("reset") /\ E.sp # <<>> /\ MemInit(E.stack, E.ssz, E.segs) /\ sp' = E.sp
Sym == Is("sym") /\ E.got = E.want /\ ~E.other /\ Nothing
Bad == Is("bad") /\ ~E.ok /\ Nothing
Alloc == Is("alloc") /\ Allocate(E.len, E.ok, E.at)
Sub == Is("sub") /\ SubAllocate(E.len, E.align, E.ok, E.at)
AllocT == Is("alloctype") /\ AllocateValue(E.len, E.bytes, E.ok, E.at)
Pushed == Is("push") /\ Push(E.bytes, E.align, E.ok, E.at, E.sp)
Wrote == Is("write") /\ Write(E.at, E.align, E.bytes, E.ok, E.err)
Loaded == Is("read") /\ Load(E.at, E.align, E.enc, E.n, E.ok, E.bytes, IF E.ok THEN "" ELSE E.err)
Checked == Is("check") /\ Check(E.at, E.len, E.ok)
Next == Reset \/ Sym \/ Bad \/ Alloc \/ Sub \/ AllocT \/ Pushed \/ Wrote \/ Loaded \/ Checked
Spec == Init /\ [][Next]_vars
Track == TLCSet(1, IF i > TLCGet(1) THEN i ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"REACHED", TLCGet(1), Len(Tr) + 1>>) /\ TLCGet(1) = Len(Tr) + 1
=============================================================================
