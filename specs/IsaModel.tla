------------------------------ MODULE IsaModel ------------------------------
(* The encoding loses nothing: for every instruction, over the edges of every field, decoding gives it back; changing
   any bit of an encoding gives the encoding of another instruction or no instruction, or changes an unused bit. *)
EXTENDS Isa, TLC, FiniteSets
VARIABLE ins
Regs == {0, 1, 32, 63}
Widths == {1, 64, 127, 128}
Imms == {<<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<255, 255, 255, 255>>, <<0, 0, 0, 128>>, <<240, 255, 15, 0>>}
Instr(op) ==
  LET o == Ops[op] IN
  {[op |-> op, d |-> d, s |-> s, w |-> w, imm |-> m] :
     d \in [1..o.nd -> Regs], s \in [1..o.ns -> (IF o.ns + o.nd > 3 THEN {0, 32, 63} ELSE Regs)],
     w \in (IF Index(o, "w") > 0 THEN Widths ELSE {0}), m \in (IF Index(o, "imm") > 0 THEN Imms ELSE {<<0, 0, 0, 0>>})}
ASSUME \A a, b \in OpNames : Ops[a].code = Ops[b].code => a = b
ASSUME \A a \in OpNames : UsedBits(Ops[a]) + Ops[a].unused <= 64
Init == ins \in UNION {Instr(op) : op \in OpNames}
Next == UNCHANGED ins
Lossless == Decode(Encode(ins)) = ins
Flip(b, n) == Xor(b, Shl(Ext(<<1>>, 8), n))
Distinct ==
  \A n \in 0..63 :
    LET other == Decode(Flip(Encode(ins), n)) o == Ops[ins.op] IN
    \/ other # ins
    \/ n >= UsedBits(o) /\ n < UsedBits(o) + o.unused
\* what decodes to an instruction is its encoding but for unused bits
Canonical ==
  \A n \in 0..63 :
    LET b == Flip(Encode(ins), n) other == Decode(b) IN
    other.op # "illegal" => Low(Encode(other), UsedBits(Ops[other.op])) = Low(b, UsedBits(Ops[other.op]))
=============================================================================
