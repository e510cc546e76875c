-------------------------------- MODULE Isa --------------------------------
(* The instruction set of the Parasol computer: the encoding of instructions as 64-bit words, what each instruction
   computes, which operands it refuses, and what it costs.
   A value is [k, w, v]: k is "p" (plain) or "c" (encrypted), w its width in bits, v its 16 bytes.  An instruction is
   [op, d, s, w, imm]: destination and source registers (0..63), the width field and the 32-bit field as 4 bytes. *)
EXTENDS Integers, Sequences, Wide
-----------------------------------------------------------------------------
(* Encoding: opcode, destination registers, source registers, fields; the bits behind them are zero except for the
   bits an instruction declares unused. *)
O(code, nd, ns, f, unused) == [code |-> code, nd |-> nd, ns |-> ns, f |-> f, unused |-> unused]
Ops == [
  Store |-> O(1, 0, 2, <<"w", "imm">>, 0), Load |-> O(9, 1, 1, <<"w", "imm">>, 0), LoadI |-> O(10, 1, 0, <<"imm", "w">>, 0),
  Trunc |-> O(17, 1, 1, <<"w">>, 7), Zext |-> O(21, 1, 1, <<"w">>, 7), Sext |-> O(22, 1, 1, <<"w">>, 7),
  Move |-> O(33, 1, 1, <<>>, 0), Not |-> O(49, 1, 1, <<>>, 0),
  And |-> O(50, 1, 2, <<>>, 0), Or |-> O(51, 1, 2, <<>>, 0), Xor |-> O(52, 1, 2, <<>>, 0),
  Add |-> O(65, 1, 2, <<>>, 0), AddC |-> O(66, 2, 3, <<>>, 0), Sub |-> O(69, 1, 2, <<>>, 0), SubB |-> O(70, 2, 3, <<>>, 0),
  Neg |-> O(73, 1, 1, <<>>, 0), Mul |-> O(81, 1, 2, <<>>, 0),
  Rotl |-> O(129, 1, 2, <<>>, 0), Rotr |-> O(130, 1, 2, <<>>, 0),
  Shl |-> O(133, 1, 2, <<>>, 0), Shr |-> O(134, 1, 2, <<>>, 0), Shra |-> O(135, 1, 2, <<>>, 0),
  CmpEq |-> O(145, 1, 2, <<>>, 0), CmpGt |-> O(149, 1, 2, <<>>, 0), CmpGtS |-> O(150, 1, 2, <<>>, 0),
  CmpGe |-> O(151, 1, 2, <<>>, 0), CmpGeS |-> O(152, 1, 2, <<>>, 0), CmpLt |-> O(153, 1, 2, <<>>, 0),
  CmpLtS |-> O(154, 1, 2, <<>>, 0), CmpLe |-> O(155, 1, 2, <<>>, 0), CmpLeS |-> O(156, 1, 2, <<>>, 0),
  BranchNonZero |-> O(177, 0, 1, <<"imm">>, 0), BranchZero |-> O(178, 0, 1, <<"imm">>, 0), Branch |-> O(181, 0, 0, <<"imm">>, 0),
  Ret |-> O(186, 0, 0, <<>>, 44),
  Cmux |-> O(193, 1, 3, <<>>, 0), Dbg |-> O(240, 0, 1, <<"imm">>, 0)]
OpNames == DOMAIN Ops
FieldBits(f) == IF f = "w" THEN 7 ELSE 32
\* where the n-th field starts
FieldAt(o, n) == 8 + 6 * (o.nd + o.ns) + (IF n = 1 THEN 0 ELSE FieldBits(o.f[1]))
UsedBits(o) == 8 + 6 * (o.nd + o.ns) + (IF Len(o.f) = 0 THEN 0 ELSE IF Len(o.f) = 1 THEN FieldBits(o.f[1]) ELSE 39)

Slice(b, at, n) == Low(Shr(b, at), n)
Illegal == [op |-> "illegal", d |-> <<>>, s |-> <<>>, w |-> 0, imm |-> <<0, 0, 0, 0>>]
Index(o, f) == IF Len(o.f) >= 1 /\ o.f[1] = f THEN 1 ELSE IF Len(o.f) >= 2 /\ o.f[2] = f THEN 2 ELSE 0
Decode(b) ==
  LET named == {n \in OpNames : Ops[n].code = b[1]} IN
  IF named = {} THEN Illegal ELSE
  LET op == CHOOSE n \in named : TRUE
      o == Ops[op]
      reg(k) == Slice(b, 8 + 6 * (k - 1), 6)[1]
      wi == Index(o, "w")
      ii == Index(o, "imm")
      w == IF wi = 0 THEN 0 ELSE Slice(b, FieldAt(o, wi), 7)[1]
  IN
  IF UsedBits(o) + o.unused < 64 /\ Shr(b, UsedBits(o) + o.unused) # Zeros(8) THEN Illegal ELSE
  [op |-> op,
   d |-> [k \in 1..o.nd |-> reg(k)],
   s |-> [k \in 1..o.ns |-> reg(o.nd + k)],
   w |-> IF wi > 0 /\ w = 0 THEN 128 ELSE w,
   imm |-> IF ii = 0 THEN <<0, 0, 0, 0>> ELSE Ext(Slice(b, FieldAt(o, ii), 32), 4)]

Place(x, at) == Shl(Ext(x, 8), at)
Encode(i) ==
  LET o == Ops[i.op]
      regs == i.d \o i.s
      placed(k) == Place(<<regs[k]>>, 8 + 6 * (k - 1))
      field(n) == IF n > Len(o.f) THEN Zeros(8)
                  ELSE Place(IF o.f[n] = "w" THEN <<i.w % 128>> ELSE i.imm, FieldAt(o, n))
      RECURSIVE all(_)
      all(k) == IF k = 0 THEN Ext(<<o.code>>, 8) ELSE Or(all(k - 1), placed(k))
  IN Or(Or(all(Len(regs)), field(1)), field(2))
-----------------------------------------------------------------------------
(* What instructions compute: Result gives [err, out, async]: the class of error ("" if none), the values of the
   destinations, and whether encrypted values had to be computed with. *)
P(w, v) == [k |-> "p", w |-> w, v |-> Low(Ext(v, 16), w)]
Same(k, w, v) == [k |-> k, w |-> w, v |-> Low(Ext(v, 16), w)]
One == <<1>>
Bool(b) == IF b THEN <<1>> ELSE <<0>>
\* the value as a signed number of 17 bytes
Signed(x) == IF Bit(x.v, x.w - 1) = 1 THEN Or(Ext(x.v, 17), Shl([i \in 1..17 |-> 255], x.w)) ELSE Ext(x.v, 17)
Fail(e) == [err |-> e, out |-> <<>>, async |-> FALSE]
Fine(vals, async) == [err |-> "", out |-> vals, async |-> async]
HasEnc(s) == \E i \in DOMAIN s : s[i].k = "c"
Kind(s) == IF HasEnc(s) THEN "c" ELSE "p"
Pow2s == {1, 2, 4, 8, 16, 32, 64, 128}
\* a shift amount, or 255 when larger than any width
Amount(x) == IF Ext(Shr(x.v, 8), 16) # Zeros(16) THEN 255 ELSE x.v[1]
\* a rotation amount: the amount modulo the width
Turns(x, w) == ToNat(Rem(x.v, <<w>>))
Shifted(op, x, n) ==
  LET w == x.w IN
  CASE op = "Shl" -> IF n >= w THEN Zeros(16) ELSE Shl(x.v, n)
    [] op = "Shr" -> IF n >= w THEN Zeros(16) ELSE Shr(x.v, n)
    [] op = "Shra" -> Ext(Sar(Signed(x), IF n >= w THEN w ELSE n), 16)
    [] op = "Rotl" -> Or(Shl(x.v, n), Shr(x.v, w - n))
    [] op = "Rotr" -> Or(Shr(x.v, n), Shl(x.v, w - n))
Rotation(op) == op \in {"Rotl", "Rotr"}
Compared(op, x, y) ==
  LET a == Ext(x.v, 17) b == Ext(y.v, 17) c == Signed(x) d == Signed(y) IN
  CASE op = "CmpEq" -> a = b [] op = "CmpGt" -> Lt(b, a) [] op = "CmpGe" -> Le(b, a) [] op = "CmpLt" -> Lt(a, b) [] op = "CmpLe" -> Le(a, b)
    [] op = "CmpGtS" -> SLt(d, c) [] op = "CmpGeS" -> ~SLt(c, d) [] op = "CmpLtS" -> SLt(c, d) [] op = "CmpLeS" -> ~SLt(d, c)
Comparisons == {"CmpEq", "CmpGt", "CmpGe", "CmpLt", "CmpLe", "CmpGtS", "CmpGeS", "CmpLtS", "CmpLeS"}
Shifts == {"Shl", "Shr", "Shra", "Rotl", "Rotr"}
Binary(op, a, b) ==
  CASE op = "And" -> And(a, b) [] op = "Or" -> Or(a, b) [] op = "Xor" -> Xor(a, b)
    [] op = "Add" -> Add(a, b) [] op = "Sub" -> Sub(a, b) [] op = "Mul" -> Mul(a, b)

Result(i, s) ==
  LET op == i.op k == Kind(s) IN
  CASE op = "LoadI" ->
         LET neg == Ext(SExt(i.imm, 16), 16) IN
         IF i.w >= 32 \/ Shr(i.imm, i.w) = Zeros(4) \/ Sar(i.imm, i.w - 1) = <<255, 255, 255, 255>>
         THEN Fine(<<P(i.w, i.imm)>>, FALSE) ELSE Fail("range")
    [] op = "Move" -> Fine(<<s[1]>>, FALSE)
    [] op = "Trunc" -> IF i.w > s[1].w THEN Fail("width") ELSE Fine(<<Same(k, i.w, s[1].v)>>, FALSE)
    [] op = "Zext" -> IF i.w < s[1].w THEN Fail("width") ELSE Fine(<<Same(k, i.w, s[1].v)>>, FALSE)
    [] op = "Sext" -> IF i.w < s[1].w THEN Fail("width") ELSE Fine(<<Same(k, i.w, Signed(s[1]))>>, FALSE)
    [] op = "Not" -> Fine(<<Same(k, s[1].w, Not(s[1].v))>>, k = "c")
    [] op = "Neg" -> Fine(<<Same(k, s[1].w, Negate(s[1].v))>>, k = "c")
    [] op \in {"And", "Or", "Xor", "Add", "Sub", "Mul"} ->
         IF s[1].w # s[2].w THEN Fail("width") ELSE Fine(<<Same(k, s[1].w, Binary(op, s[1].v, s[2].v))>>, k = "c")
    [] op \in {"AddC", "SubB"} ->
         IF s[1].w # s[2].w \/ s[3].w # 1 THEN Fail("width") ELSE
         LET w == s[1].w
             a == Ext(s[1].v, 17) b == Ext(s[2].v, 17) c == Ext(s[3].v, 17)
             r == IF op = "AddC" THEN Add(Add(a, b), c) ELSE Sub(Sub(a, b), c)
             carry == Bit(r, w)
         IN Fine(<<Same(k, w, r), Same(k, 1, <<carry>>)>>, k = "c")
    [] op \in Shifts ->
         IF s[2].k = "c" /\ Rotation(op) /\ s[1].w \notin Pow2s THEN Fail("unsupported") ELSE
         Fine(<<Same(k, s[1].w, Shifted(op, s[1], IF Rotation(op) THEN Turns(s[2], s[1].w) ELSE Amount(s[2])))>>, s[2].k = "c")
    [] op \in Comparisons ->
         IF s[1].w # s[2].w THEN Fail("width") ELSE Fine(<<Same(k, 1, Bool(Compared(op, s[1], s[2])))>>, k = "c")
    [] op = "Cmux" ->
         IF s[2].w # s[3].w \/ s[1].w # 1 THEN Fail("width") ELSE
         Fine(<<Same(k, s[2].w, IF s[1].v[1] # 0 THEN s[2].v ELSE s[3].v)>>, s[1].k = "c")
    [] OTHER -> Fine(<<>>, FALSE)

\* the cost of an instruction given its source values
Gas(i, s) ==
  CASE i.op = "Ret" -> 0
    [] i.op = "Mul" -> IF HasEnc(s) THEN 500000 ELSE 1
    [] i.op \in Shifts -> IF s[2].k = "c" THEN 100000 ELSE 1
    [] i.op \in {"Not", "Neg", "And", "Or", "Xor", "Add", "Sub", "AddC", "SubB", "Cmux"} \cup Comparisons -> IF HasEnc(s) THEN 100000 ELSE 1
    [] OTHER -> 1
=============================================================================
