-------------------------------- MODULE Mux --------------------------------
(* Multiplexer circuits: what a circuit computes, what the families of circuits are named for, and what
   transformations preserve.
   A circuit is given by its nodes, sources first: <<0>> zero, <<1>> one, <<2, i>> the i-th input, <<3, s, h, l>> the
   multiplexer that yields h where s is 1 and l elsewhere, <<4, s>> an output; outs lists <<o, s>>, output o being s, in
   order of o; ins lists where the circuit says its inputs are.
   Circuits are evaluated on many inputs at once: a wire carries one bit per sample. *)
EXTENDS Integers, Sequences, SequencesExt, Wide

\* exactly the inputs 0..k-1 and the outputs 0..m-1, each once
WellFormed(c) ==
  /\ c.bad = ""
  /\ \A k \in DOMAIN c.ins : c.ins[k] \in DOMAIN c.nodes /\ c.nodes[c.ins[k]] = <<2, k - 1>>
  /\ \A k \in DOMAIN c.nodes : c.nodes[k][1] = 2 => c.nodes[k][2] < Len(c.ins) /\ c.ins[c.nodes[k][2] + 1] = k
  /\ \A k \in DOMAIN c.outs : c.outs[k][1] = k - 1

\* the wires of a circuit on inputs given as wires of n bytes
Wires(c, in, n) ==
  LET ones == [k \in 1..n |-> 255]
      wire(w, nd) == CASE nd[1] = 0 -> Zeros(n)
                       [] nd[1] = 1 -> ones
                       [] nd[1] = 2 -> in[nd[2] + 1]
                       [] nd[1] = 3 -> Or(And(w[nd[2]], w[nd[3]]), And(Not(w[nd[2]]), w[nd[4]]))
                       [] nd[1] = 4 -> w[nd[2]]
  IN FoldLeft(LAMBDA w, nd : Append(w, wire(w, nd)), <<>>, c.nodes)
Outputs(c, in, n) == CHOOSE o \in {Eager([k \in DOMAIN c.outs |-> w[c.outs[k][2]]]) : w \in {Wires(c, in, n)}} : TRUE

\* the wires that carry, for each sample, the sequence of bits given for it
Bytes(bits) == [k \in 1..((Len(bits) + 7) \div 8) |->
                 LET b(j) == IF 8 * (k - 1) + j <= Len(bits) THEN bits[8 * (k - 1) + j] ELSE 0 IN
                 b(1) + 2 * b(2) + 4 * b(3) + 8 * b(4) + 16 * b(5) + 32 * b(6) + 64 * b(7) + 128 * b(8)]
Carry(rows, nin) == Eager([i \in 1..nin |-> Eager(Bytes(Eager([s \in DOMAIN rows |-> rows[s][i]])))])
-----------------------------------------------------------------------------
(* The families.  f has the operand widths n and m, whether there is a carry c, and what else selects the member. *)
BitsOf(x, from, to) == [i \in 1..(to - from) |-> Bit(x, from + i - 1)]
Backwards(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Interleaved(a, n, b, m) ==
  LET k == IF n < m THEN n ELSE m IN
  [i \in 1..(2 * k) |-> IF (i % 2) = 1 THEN Bit(a, (i - 1) \div 2) ELSE Bit(b, (i - 2) \div 2)]
    \o (IF n > m THEN BitsOf(a, m, n) ELSE BitsOf(b, n, m))
\* the four partial products of an n by m multiplication whose operands are cut at al and bl
Partial(f, a, b) ==
  LET a0 == Low(a, f.al) a1 == Shr(a, f.al) b0 == Low(b, f.bl) b1 == Shr(b, f.bl) IN <<Mul(a0, b0), Mul(a0, b1), Mul(a1, b0), Mul(a1, b1)>>
\* how operands are fed to the circuit
Fed(f, a, b, c) ==
  CASE f.fam \in {"add", "sub"} -> (IF f.c = 1 THEN <<Bit(c, 0)>> ELSE <<>>) \o Interleaved(a, f.n, b, f.m)
    [] f.fam = "neg" -> BitsOf(a, 0, f.n)
    [] f.fam = "mul" -> BitsOf(a, 0, f.n) \o BitsOf(b, 0, f.m)
    [] f.fam = "shift" -> Backwards(BitsOf(a, 0, f.n)) \o Backwards(BitsOf(b, 0, f.m))
    [] f.fam = "gsr" -> LET p == Partial(f, a, b) IN [i \in DOMAIN f.enc |-> Bit(p[f.enc[i][1] + 1], f.enc[i][2])]
    [] OTHER -> Interleaved(a, f.n, b, f.n)
OutBits(f) ==
  CASE f.fam = "add" -> (IF f.n > f.m THEN f.n ELSE f.m) + 1 [] f.fam = "sub" -> f.n + 1
    [] f.fam \in {"mul", "gsr"} -> f.n + f.m [] f.fam \in {"eq", "ne", "cmp", "scmp"} -> 1 [] OTHER -> f.n
Truth(b) == IF b THEN <<1>> ELSE <<0>>
SignExt(x, n) == IF Bit(x, n - 1) = 1 THEN Or(Ext(x, 17), Shl([k \in 1..17 |-> 255], n)) ELSE Ext(x, 17)
Amount(b, m) == IF Shr(Low(b, m), 15) # Zeros(16) THEN 32767 ELSE ToNat(Ext(b, 2))
\* the integer the outputs spell
Value(f, a, b, c) ==
  LET x == Ext(a, 17) y == Ext(b, 17) z == IF f.c = 1 THEN Ext(c, 17) ELSE Zeros(17) IN
  CASE f.fam = "add" -> Add(Add(x, y), z)
    [] f.fam = "sub" -> LET d == Sub(Sub(x, y), z) IN Or(Low(d, f.n), Shl(Low(Shr(d, f.n), 1), f.n))
    [] f.fam = "neg" -> Low(Negate(x), f.n)
    [] f.fam = "and" -> And(x, y) [] f.fam = "or" -> Or(x, y)
    [] f.fam \in {"mul", "gsr"} -> Mul(x, y)
    [] f.fam = "eq" -> Truth(x = y) [] f.fam = "ne" -> Truth(x # y)
    [] f.fam = "cmp" -> Truth(IF f.x THEN Lt(y, x) \/ (f.y /\ x = y) ELSE Lt(x, y) \/ (f.y /\ x = y))
    [] f.fam = "scmp" -> LET p == SignExt(a, f.n) q == SignExt(b, f.n) IN
                         Truth(IF f.x THEN SLt(q, p) \/ (f.y /\ p = q) ELSE SLt(p, q) \/ (f.y /\ p = q))
    [] f.fam = "shift" ->
         LET k == Amount(b, f.m) t == Amount(Low(b, f.m), f.m) % f.n IN
         IF f.mode = "rotation"
         THEN IF f.x THEN Low(Or(Shl(x, t), Shr(x, f.n - t)), f.n) ELSE Low(Or(Shr(x, t), Shl(x, f.n - t)), f.n)
         ELSE IF f.mode = "arithmetic" THEN Low(Sar(SignExt(a, f.n), IF k > f.n THEN f.n ELSE k), f.n)
         ELSE IF k >= f.n THEN Zeros(17) ELSE IF f.x THEN Low(Shl(x, k), f.n) ELSE Shr(x, k)
\* the output bits for one sample of operands
Spelt(f, op) == LET v == Ext(Value(f, op[1], op[2], op[3]), 17)
                    bits == BitsOf(v, 0, OutBits(f)) IN IF f.fam = "shift" THEN Backwards(bits) ELSE bits
\* the circuit computes its function on the samples, and so says the library
Computes(f) ==
  /\ WellFormed(f.cir)
  /\ Len(f.cir.outs) = OutBits(f)
  /\ \E rows \in {Eager([s \in DOMAIN f.ops |-> Eager(Fed(f, f.ops[s][1], f.ops[s][2], f.ops[s][3]))])} :
     /\ Len(f.cir.ins) = Len(rows[1])
     /\ \E in \in {Carry(rows, Len(f.cir.ins))} :
        \E out \in {Outputs(f.cir, in, (Len(f.ops) + 7) \div 8)} :
        \E want \in {Eager([s \in DOMAIN f.ops |-> Eager(Spelt(f, f.ops[s]))])} :
           /\ \A s \in DOMAIN f.ops : \A o \in 1..OutBits(f) : Bit(out[o], s - 1) = want[s][o]
           /\ \A s \in DOMAIN f.lib : f.lib[s] = want[s]
-----------------------------------------------------------------------------
(* Transformations: on each sample the new circuit gives what the old one gives when its k-th input is the new one's
   f[k]-th (counted from 0). *)
Preserves(old, new, f, ops, lib) ==
  /\ WellFormed(new)
  /\ Len(new.outs) = Len(old.outs)
  /\ \E rows \in {Eager([s \in DOMAIN ops |-> Eager(BitsOf(ops[s], 0, Len(new.ins)))])} :
     \E in \in {Carry(rows, Len(new.ins))} :
     \E a \in {Outputs(new, in, (Len(ops) + 7) \div 8)} :
     \E b \in {Outputs(old, Eager([k \in DOMAIN old.ins |-> in[f[k] + 1]]), (Len(ops) + 7) \div 8)} :
        /\ \A s \in DOMAIN ops : \A o \in DOMAIN a : Bit(a[o], s - 1) = Bit(b[o], s - 1)
        /\ \A s \in DOMAIN lib : lib[s] = [o \in DOMAIN a |-> Bit(a[o], s - 1)]
Same(c) == [k \in DOMAIN c.ins |-> k - 1]
Muxes(c) == Len(SelectSeq(c.nodes, LAMBDA n : n[1] = 3))
=============================================================================
