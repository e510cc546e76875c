----------------------------- MODULE FluentTrace -----------------------------
(* Programs of the fluent API built, run and decrypted by the real library. *)
EXTENDS Fluent, Json, IOUtils, TLC
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
view == i
E == Tr[i]
Is(e) == i <= Len(Tr) /\ E.ev = e /\ i' = i + 1
Init == i = 1 /\ signed = FALSE /\ ints = <<>> /\ bits = <<>> /\ outs = <<>>
Reset == Is("reset") /\ Start(E.signed)
Op == Is("op") /\ Do(E)
\* however often it is run
Run == Is("run") /\ E.outs = outs /\ UNCHANGED vars
\* encryption keeps what the type has and refuses the rest
Plain == Is("plain") /\ UNCHANGED vars /\ E.got = (IF Has(E.w, E.v) THEN E.v ELSE <<>>)
Next == Reset \/ Op \/ Run \/ Plain
Spec == Init /\ [][Next]_<<i, vars>>
Track == TLCSet(1, IF i > TLCGet(1) THEN i ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"REACHED", TLCGet(1), Len(Tr) + 1>>) /\ TLCGet(1) = Len(Tr) + 1
=============================================================================
