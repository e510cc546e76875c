-------------------------------- MODULE Cpu --------------------------------
(* The Parasol computer executing one instruction after the other in program order: what a caller may rely on, however
   the implementation reorders instructions.  Programs live in guest memory as encoded words; a call lays its
   arguments out on the stack, runs until a Ret and reads the return value back.
   Memory bytes are 0..255 plain, 256 + v encrypted.  Addresses that matter are below 2^31. *)
EXTENDS Isa, Functions, FiniteSets, SequencesExt, TLC
CONSTANTS PageSize, Handlers    \* bytes per page; how many debug handlers are installed

VARIABLES
  pages,    \* mapped pages
  mem,      \* bytes that were written, by address
  sp,       \* top of the stack
  regs,     \* register file: 0..63 -> value
  pc,       \* program counter, 4 bytes
  gas,      \* gas used so far
  limit,    \* gas limit, -1 if none
  dbg,      \* what the debug handlers were shown: <<handler, pc, value>>
  status,   \* "idle", "run", "halt" or "fault"
  errs,     \* the classes the fault may be reported as
  async,    \* encrypted values were computed with
  steps
cpuvars == <<pages, mem, sp, regs, pc, gas, limit, dbg, status, errs, async, steps>>

Mapped(a) == a >= 0 /\ (a \div PageSize) \in pages
At(a) == IF a \in DOMAIN mem THEN mem[a] ELSE 0
PutIn(m, a, b) == [x \in a .. a + Len(b) - 1 |-> b[x - a + 1]] @@ m
\* a 4-byte address as a number, -1 if it is beyond what is ever mapped
Addr(a) == IF a[4] >= 128 THEN -1 ELSE ToNat(a)
Zero32 == P(32, <<0>>)
-----------------------------------------------------------------------------
(* The calling convention: arguments in order from the stack pointer upwards, each at the next multiple of its
   alignment, then the return slot; the block is a multiple of 16 bytes and as aligned as its most aligned member
   (at least 16).  X2 is the stack pointer, X10 points at the return slot. *)
NextMultiple(x, n) == ((x + n - 1) \div n) * n
RECURSIVE Offsets(_, _, _)
Offsets(args, k, at) == IF k > Len(args) THEN <<at>>
                        ELSE LET o == NextMultiple(at, args[k].a) IN <<o>> \o Offsets(args, k + 1, o + Len(args[k].b))
Layout(args, ra, rn) ==
  LET off == Offsets(args, 1, 0)
      used == off[Len(args) + 1]
      ret == NextMultiple(used, ra)
      size == NextMultiple(IF rn > 0 THEN ret + rn ELSE used, 16)
      align == Max({16} \cup {args[k].a : k \in DOMAIN args} \cup (IF rn > 0 THEN {ra} ELSE {}))
      end == sp - size
      base == end - (end % align)
  IN [base |-> base, off |-> off, ret |-> base + ret]

StartCall(entry, args, ra, rn, lim) ==
  LET l == Layout(args, ra, rn) IN
  /\ status = "idle" /\ status' = "run" /\ steps' = 0
  /\ \A x \in l.base .. sp - 1 : Mapped(x)
  /\ mem' = FoldLeft(LAMBDA m, k : PutIn(m, l.base + l.off[k], args[k].b),
                     PutIn(mem, l.base, [x \in 1..(sp - l.base) |-> 0]), [k \in 1..Len(args) |-> k])
  /\ regs' = [r \in 0..63 |-> IF r = 2 THEN P(32, FromNat(l.base, 4))
                              ELSE IF r = 10 /\ rn > 0 THEN P(32, FromNat(l.ret, 4)) ELSE Zero32]
  /\ pc' = entry /\ gas' = 0 /\ limit' = lim /\ dbg' = <<>> /\ errs' = {} /\ async' = FALSE
  /\ UNCHANGED <<pages, sp>>
-----------------------------------------------------------------------------
(* One instruction. *)
Fault(es) == status' = "fault" /\ errs' = es
Stop(es) == Fault(es) /\ UNCHANGED <<pages, mem, sp, regs, pc, gas, limit, dbg, async>>
\* the word at the program counter: [err, b]
Fetch ==
  LET a == Addr(pc) IN
  IF (pc[1] % 8) # 0 THEN [err |-> "unaligned", b |-> <<>>]
  ELSE IF ~Mapped(a) THEN [err |-> "access", b |-> <<>>]
  ELSE IF \E k \in 0..7 : At(a + k) >= 256 THEN [err |-> "encbyte", b |-> <<>>]
  ELSE [err |-> "", b |-> [k \in 1..8 |-> At(a + k - 1)]]
\* the address of a load or store of w bits: [err, a]
Target(x, imm, w) ==
  IF x.k = "c" THEN [err |-> "operands", a |-> 0]
  ELSE IF w % 8 # 0 THEN [err |-> "unsupported", a |-> 0]
  ELSE LET n == w \div 8
           ea == Add(Ext(Ext(x.v, 4), 5), SExt(imm, 5)) IN
       IF ea[5] # 0 THEN [err |-> "overflow", a |-> 0]
       ELSE IF n \notin Pow2s \/ (ea[1] % n) # 0 THEN [err |-> "unaligned", a |-> 0]
       ELSE [err |-> "", a |-> Addr(Ext(ea, 4))]
\* set the destinations; the last of two equal ones counts
SetRegs(d, vals) == [r \in 0..63 |-> IF Len(d) = 2 /\ d[2] = r THEN vals[2] ELSE IF Len(d) >= 1 /\ d[1] = r THEN vals[1] ELSE regs[r]]
NextPc == Add(pc, <<8, 0, 0, 0>>)
Jump(imm) == Add(pc, imm)

Exec(i) ==
  LET s == [k \in DOMAIN i.s |-> regs[i.s[k]]]
      cost == Gas(i, s)
      over == limit >= 0 /\ gas + cost > limit
      \* a fault of this instruction; if the instruction also exceeds the limit either is reported
      bad(e) == Stop(IF over THEN {e, "gas"} ELSE {e})
      charge == gas' = gas + cost
      rest == UNCHANGED <<pages, sp, limit, errs>>
  IN
  CASE i.op = "Load" ->
         LET t == Target(s[1], i.imm, i.w) n == i.w \div 8
             b == [k \in 1..n |-> At(t.a + k - 1)] IN
         IF t.err # "" THEN bad(t.err)
         ELSE IF over THEN Stop({"gas"})
         ELSE IF ~Mapped(t.a) THEN bad("access")
         ELSE IF b[1] < 256 /\ \E k \in 1..n : b[k] >= 256 THEN bad("notplain")
         ELSE IF b[1] >= 256 /\ \E k \in 1..n : b[k] < 256 THEN bad("notcipher")
         ELSE /\ regs' = SetRegs(i.d, <<Same(IF b[1] < 256 THEN "p" ELSE "c", i.w, [k \in 1..n |-> b[k] % 256])>>)
              /\ charge /\ pc' = NextPc /\ rest /\ UNCHANGED <<mem, dbg, async, status>>
    [] i.op = "Store" ->
         LET t == Target(s[1], i.imm, i.w) n == i.w \div 8 IN
         IF t.err # "" THEN bad(t.err)
         ELSE IF over THEN Stop({"gas"})
         ELSE IF ~Mapped(t.a) THEN bad("access")
         ELSE /\ mem' = PutIn(mem, t.a, [k \in 1..n |-> s[2].v[k] + (IF s[2].k = "c" THEN 256 ELSE 0)])
              /\ charge /\ pc' = NextPc /\ rest /\ UNCHANGED <<regs, dbg, async, status>>
    [] i.op \in {"BranchNonZero", "BranchZero"} ->
         IF s[1].k = "c" THEN bad("branch")
         ELSE IF over THEN Stop({"gas"})
         ELSE /\ pc' = IF (s[1].v # Zeros(16)) = (i.op = "BranchNonZero") THEN Jump(i.imm) ELSE NextPc
              /\ charge /\ rest /\ UNCHANGED <<mem, regs, dbg, async, status>>
    [] i.op = "Branch" ->
         IF over THEN Stop({"gas"})
         ELSE pc' = Jump(i.imm) /\ charge /\ rest /\ UNCHANGED <<mem, regs, dbg, async, status>>
    [] i.op = "Ret" ->
         /\ status' = "halt" /\ rest /\ UNCHANGED <<pc, gas, mem, regs, dbg, async>>
    [] i.op = "Dbg" ->
         IF over THEN Stop({"gas"})
         ELSE /\ dbg' = IF Ext(Shr(i.imm, 8), 4) = Zeros(4) /\ i.imm[1] < Handlers THEN Append(dbg, <<i.imm[1], pc, s[1]>>) ELSE dbg
              /\ charge /\ pc' = NextPc /\ rest /\ UNCHANGED <<mem, regs, async, status>>
    [] OTHER ->
         LET r == Result(i, s) IN
         IF over THEN Stop(IF r.err = "" THEN {"gas"} ELSE {"gas", r.err})
         ELSE IF r.err # "" THEN Stop({r.err})
         ELSE /\ regs' = SetRegs(i.d, r.out) /\ async' = (async \/ r.async)
              /\ charge /\ pc' = NextPc /\ rest /\ UNCHANGED <<mem, dbg, status>>

Step ==
  /\ status = "run" /\ steps' = steps + 1
  /\ LET f == Fetch IN
     IF f.err # "" THEN Stop({f.err})
     ELSE LET i == Decode(f.b) IN
          IF i.op = "illegal" THEN Stop({"illegal"}) ELSE Exec(i)

EndCall == status' = "idle" /\ UNCHANGED <<pages, mem, sp, regs, pc, gas, limit, dbg, errs, async, steps>>
=============================================================================
