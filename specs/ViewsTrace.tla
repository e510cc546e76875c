----------------------------- MODULE ViewsTrace -----------------------------
EXTENDS Views, Json, IOUtils, TLC
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<vvars, i>>
E == Tr[i]
Is(e) == i <= Len(Tr) /\ E.ev = e /\ i' = i + 1
Init == i = 1 /\ VInit
Reset == Is("reset") /\ Setup(E.p)
ObjectE == Is("object") /\ Object(E.kind, E.len, E.valid)
OpenE == Is("open") /\ Open(E.id)
NextE == Is("next") /\ TakeFront(E.id, E.skip, E.got)
BackE == Is("back") /\ TakeBack(E.id, E.skip, E.got)
LenE == Is("len") /\ Remaining(E.id, E.got)
SplitE == Is("split") /\ Split(E.id, E.at, E.a, E.b)
CollectE == Is("collect") /\ Collect(E.rev, E.got)
SingleE == Is("single") /\ Single(E.which, E.got)
PairE == Is("pair") /\ AtPair(E.i, E.j, E.got)
PairsE == Is("pairs") /\ PairsOf(E.n, E.got)
(* Copies hold the same elements, and anything that must be equal is. *)
SameE == Is("same") /\ E.ok = TRUE /\ UNCHANGED vvars
Next == Reset \/ ObjectE \/ OpenE \/ NextE \/ BackE \/ LenE \/ SplitE \/ CollectE \/ SingleE \/ PairE \/ PairsE \/ SameE
Spec == Init /\ [][Next]_vars
Track == TLCSet(1, IF i > TLCGet(1) THEN i ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"REACHED", TLCGet(1), Len(Tr) + 1>>) /\ TLCGet(1) = Len(Tr) + 1
=============================================================================
