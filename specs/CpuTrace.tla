----------------------------- MODULE CpuTrace ------------------------------
(* Calls recorded from real Parasol computers: each history is one guest memory and the calls made with it. *)
EXTENDS Cpu, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
view == <<i, status, steps>>
E == Tr[i]
Init ==
  /\ i = 1 /\ pages = {} /\ mem = <<>> /\ sp = 0 /\ regs = <<>> /\ pc = <<0, 0, 0, 0>> /\ gas = 0 /\ limit = -1 /\ dbg = <<>>
  /\ status = "idle" /\ errs = {} /\ async = FALSE /\ steps = 0
Is(e) == i <= Len(Tr) /\ E.ev = e
Reset ==
  /\ Is("reset") /\ status = "idle" /\ i' = i + 1
  /\ pages' = {E.pages[k] : k \in DOMAIN E.pages} /\ sp' = E.sp
  /\ mem' = FoldLeft(LAMBDA m, x : PutIn(m, x[1], x[2]), <<>>, E.init)
  /\ UNCHANGED <<regs, pc, gas, limit, dbg, status, errs, async, steps>>
Called == Is("call") /\ StartCall(E.pc, E.args, E.ra, E.rn, E.limit) /\ UNCHANGED i
Stepped == Is("call") /\ Step /\ UNCHANGED i
\* what was reported is what the machine reached
Returned(b) ==
  CASE E.rk = "raw" -> E.ok /\ E.ret = b
    [] E.rk = "p" -> IF \E k \in DOMAIN b : b[k] >= 256 THEN ~E.ok /\ E.err = "encryption" ELSE E.ok /\ E.ret = b
    [] E.rk = "c" -> IF \E k \in DOMAIN b : b[k] < 256 THEN ~E.ok /\ E.err = "encryption" ELSE E.ok /\ E.ret = b
Seen == [k \in DOMAIN E.dbg |-> <<E.dbg[k].h, E.dbg[k].pc, [k |-> E.dbg[k].k, w |-> E.dbg[k].w, v |-> E.dbg[k].v]>>]
MemoryAgrees == \A k \in DOMAIN E.mem : \A j \in DOMAIN E.mem[k][2] : E.mem[k][2][j] = At(E.mem[k][1] + j - 1)
Halted ==
  /\ status = "halt"
  /\ Seen = dbg
  /\ MemoryAgrees
  /\ E.sp = sp
  /\ LET l == Layout(E.args, E.ra, E.rn) IN Returned([k \in 1..E.rn |-> At(l.ret + k - 1)]) = TRUE
  /\ (E.ok => E.gas = gas) = TRUE
Faulted ==
  /\ status = "fault"
  /\ ~E.ok
  /\ E.sp = sp
  \* while encrypted values are computed, faults of later instructions may be noticed first
  /\ (async \/ (E.err \in errs /\ Seen = dbg /\ (E.epc # <<>> => E.epc = pc))) = TRUE
\* after a fault with encrypted computations pending, what was stored is unspecified: memory is what was found
Finish ==
  /\ Is("call") /\ (Halted \/ Faulted) /\ i' = i + 1
  /\ status' = "idle"
  /\ mem' = IF status = "halt" THEN mem ELSE FoldLeft(LAMBDA m, x : PutIn(m, x[1], x[2]), mem, E.mem)
  /\ UNCHANGED <<pages, sp, regs, pc, gas, limit, dbg, errs, async, steps>>
Next == Reset \/ Called \/ Stepped \/ Finish
Spec == Init /\ [][Next]_<<cpuvars, i>>
Track == TLCSet(1, IF i > TLCGet(1) THEN i ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"REACHED", TLCGet(1), Len(Tr) + 1>>) /\ TLCGet(1) = Len(Tr) + 1
=============================================================================
