------------------------------- MODULE Fluent -------------------------------
(* Encrypted integer expressions: the values a program of the fluent API defines.
   A value is a width and that many bits (16 bytes, least significant first); all values of a program are unsigned or all
   are signed, two's complement.  How a value is encrypted, how often it is used and whether two uses are the same node of
   the circuit does not matter: ints and bits hold what was defined, in order; outs what was asked to be output. *)
EXTENDS Integers, Sequences, Wide
VARIABLES signed, ints, bits, outs
vars == <<signed, ints, bits, outs>>

Val(w, v) == [w |-> w, v |-> Ext(Low(v, w), 16)]
\* as an integer of the type: all 16 bytes
Read(x) == IF signed /\ Bit(x.v, x.w - 1) = 1 THEN Or(x.v, Ext(Shl([k \in 1..16 |-> 255], x.w), 16)) ELSE x.v
Truth(b) == IF b THEN 1 ELSE 0
Less(x, y) == IF signed THEN SLt(Read(x), Read(y)) ELSE Lt(Read(x), Read(y))
Equal(x, y) == Read(x) = Read(y)
Compare(f, x, y) ==
  CASE f = "gt" -> Less(y, x) [] f = "ge" -> ~Less(x, y) [] f = "lt" -> Less(x, y) [] f = "le" -> ~Less(y, x)
    [] f = "eq" -> Equal(x, y) [] f = "ne" -> ~Equal(x, y)
\* to a different width: unsigned values wrap around, signed ones keep their sign
Resized(x, w) ==
  IF signed /\ w < x.w THEN Val(w, Or(Low(x.v, w - 1), Shl(Ext(<<Bit(x.v, x.w - 1)>>, 16), w - 1))) ELSE Val(w, Read(x))
\* all bits of the product
Product(x, y) == Val(x.w + y.w, Mul(Read(x), Read(y)))

Start(s) == signed' = s /\ ints' = <<>> /\ bits' = <<>> /\ outs' = <<>>
Number(x) == ints' = Append(ints, x) /\ UNCHANGED <<signed, bits, outs>>
Bool(b) == bits' = Append(bits, b) /\ UNCHANGED <<signed, ints, outs>>
Out(x) == outs' = Append(outs, x) /\ UNCHANGED <<signed, ints, bits>>
Do(e) ==
  LET a == ints[e.a + 1] b == ints[e.b + 1] IN
  CASE e.op = "input" -> Number(Val(e.w, e.v))
    [] e.op = "same" -> Number(a)
    [] e.op = "add" -> a.w = b.w /\ Number(Val(a.w, Add(a.v, b.v)))
    [] e.op = "sub" -> a.w = b.w /\ Number(Val(a.w, Sub(a.v, b.v)))
    [] e.op = "and" -> a.w = b.w /\ Number(Val(a.w, And(a.v, b.v)))
    [] e.op = "mul" -> a.w = b.w /\ Number(Val(a.w, Mul(a.v, b.v)))
    [] e.op \in {"gt", "ge", "lt", "le", "eq", "ne"} -> Bool(Truth(Compare(e.op, a, b)))
    [] e.op = "bit" -> Bool(e.v)
    [] e.op = "select" -> a.w = b.w /\ Number(IF bits[e.s + 1] = 1 THEN a ELSE b)
    [] e.op = "resize" -> Number(Resized(a, e.w))
    [] e.op = "repack" -> ints' = Append(ints, a) /\ outs' = Append(outs, Read(a)) /\ UNCHANGED <<signed, bits>>
    [] e.op = "out" -> Out(Read(a))
    [] e.op = "outbit" -> Out(Ext(<<bits[e.a + 1]>>, 16))
    [] e.op = "product" -> e.lo = a.w /\ Out(Product(a, b).v)
\* whether a type of width w has the value (plain values are 128 bits)
Has(w, v) == w >= 128 \/ v = Read(Val(w, v))
=============================================================================
