------------------------------ MODULE HomTrace ------------------------------
EXTENDS Hom, Json, IOUtils, TLC
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<hvars, i>>
E == Tr[i]
(* every operation leaves its operands as they were *)
Is(e) == i <= Len(Tr) /\ E.ev = e /\ E.kept = 1 /\ i' = i + 1
Init == i = 1 /\ bits = 64 /\ regs = <<>> /\ sels = <<>>
Slots == 16
Reset == Is("reset") /\ bits' = E.bits /\ regs' = [j \in 1..Slots |-> <<>>] /\ sels' = [j \in 1..Slots |-> <<>>]
R(x) == regs[x + 1]
S(x) == sels[x + 1]
P == E.x
Put(v, want, tol) == (NearAll(v, want, tol) = TRUE) /\ Store(E.d, v)

(* a fresh ciphertext of the given messages in p bits, cnt noises of size 2^s summed *)
Enc == Is("enc") /\ Put(E.v, EncodeAll(E.m, E.p), Sum(E.s, E.cnt))
Lin == Is("lin") /\ Put(E.v, Eager(Linear(E.op, R(E.c), R(E.a), R(E.b), E.k, E.s, E.p)), -1)
(* a ciphertext from elsewhere *)
Given == Is("given") /\ Store(E.d, E.v)
(* decryption itself, and decoding *)
Dec == Is("dec") /\ Keep /\ E.ph = Phase(E.a, E.b, E.key) /\ E.m = DecodeAll(E.ph, E.p)
DecLwe == Is("declwe") /\ Keep /\ E.ph = Eager(Sub(E.b, Dot(E.a, E.key, 1))) /\ E.m = Decode(E.ph, E.p)
          /\ ((E.c < 0 \/ E.mc = DecodeCarry(E.ph, E.p, E.c)) = TRUE)
DecReg == Is("decreg") /\ Keep /\ E.m = DecodeAll(R(E.a), E.p)
KeyOp == Is("keyop") /\ Keep /\ E.v = Eager(CASE E.op = "add" -> VAdd(E.x1, E.x2) [] E.op = "sub" -> VSub(E.x1, E.x2) [] E.op = "neg" -> VNeg(E.x1))

(* selectors *)
SetSel(d, m, m1, s) == sels' = [sels EXCEPT ![d + 1] = [m |-> m, m1 |-> m1, s |-> s]] /\ UNCHANGED <<bits, regs>>
(* E.got, when present, is what decrypting the selector returns *)
Sel == Is("sel") /\ SetSel(E.d, E.m, E.m1, E.s) /\ ((E.got = <<>> \/ E.got = E.m) = TRUE)
Product1 == Is("xprod") /\ Put(E.v, Product(S(E.sel).m, R(E.a)), Budget(P, S(E.sel).s, S(E.sel).m1))
ProductAcc == Is("xmad") /\ Put(E.v, Eager(VAdd(R(E.c), Product(S(E.sel).m, R(E.a)))), Budget(P, S(E.sel).s, S(E.sel).m1))
Cmux == Is("cmux") /\ Put(E.v, Select(S(E.sel).m, R(E.a), R(E.b)), Budget(P, S(E.sel).s, S(E.sel).m1))
RECURSIVE Weigh(_)
Weigh(bs) == IF bs = <<>> THEN 0 ELSE Head(bs) + 2 * Weigh(Tail(bs))
BlindRot == Is("brot") /\ Put(E.v, MonoMul(R(E.a), -E.k), Times(Budget(P, E.s, 0), Log2Up(Log2Up(P.n)) + 1))

(* switching *)
Switch == Is("switch") /\ Put(E.v, R(E.a), Budget(P, E.s, 0))
TraceOp == Is("trace") /\ Put(E.v, Linear("trace", <<>>, R(E.a), <<>>, 0, <<>>, <<>>), Times(Budget(P, E.s, 0), Log2Up(P.n) + 1))
(* phases are divided by 2^k, up to the rounding of each component: seen at the *)
(* old scale, as the quotient is only determined modulo the torus over 2^k      *)
DivPow == Is("divpow") /\ LET err == Log2Up(P.k * P.n + 1) + E.k IN
          (NearAll(VScale(E.v, Shl(FromNat(1, W), E.k)), R(E.a), err) = TRUE) /\ Store(E.d, E.v)
Functional == Is("functional") /\ LET want == Combine(E.f, [j \in 1..Len(E.in) |-> R(E.in[j])], 1) IN
              Put(E.v, want, Times(Budget(P, E.s, E.m1), Log2Up(Len(E.in) + 1)))
(* a GLev of m becomes a selector of m; its rows carry the switching error and  *)
(* the input's noise multiplied by the key                                      *)
RowNoise(b) == IF b < 0 THEN -1 ELSE Max(0, b - 1)
SchemeSwitch == Is("schemesw") /\ SetSel(E.d, E.m, E.m1,
                  RowNoise(Plus(Budget(P, E.s, 0), Times(Sum(E.sin, E.cnt), Half(Log2Up(P.k * P.n + 1)) + 1))))

(* Programmable bootstrapping: when the input is certain to be read as E.m, the  *)
(* j-th output is that entry of the j-th table. E.cm multiplexings add up.       *)
PbsBudget == Times(Budget(P, E.s, 0), Log2Up(E.cm + 1))
Reads(x, want(_)) ==
    LET sure == Certain(x, FromNat(E.m, W), E.p, E.lc, E.lv, P.n, E.h) IN
    /\ E.m < 2^(E.p + 1)
    /\ E.certain = (IF sure THEN 1 ELSE 0)
    /\ (sure => \A j \in 1..Len(E.v) : Near(E.v[j], want(j), PbsBudget)) = TRUE
    /\ Store(E.d, <<E.v[1]>>)
Pbs == Is("pbs") /\ LET want(j) == Entry(E.tables[j], E.m, E.p) IN Reads(R(E.a)[1], want)
(* of two inputs: the left one shifted up by its width, plus the right one *)
Pbs2 == Is("pbs2") /\ LET x == Eager(Add(Shl(R(E.a)[1], E.w), R(E.b)[1]))
                          z == 2^E.w
                          T == [k \in 1..2^E.p |-> E.table[(((k - 1) \div z) % z) + 1][((k - 1) % z) + 1]]
                          want(j) == Entry(T, E.m, E.p) IN Reads(x, want)
(* a table with one constant: the sign tells the half of the circle *)
PbsConst == Is("pbsconst") /\ E.p = 0
            /\ LET x == Eager(Sub(R(E.a)[1], Shl(FromNat(1, W), bits - 2)))
                   c == Encode(E.val, E.vp)
                   want(j) == IF E.m = 0 THEN c ELSE Eager(Negate(c)) IN Reads(x, want)

(* Circuit bootstrapping: a bit that is certain to be read as E.m becomes its     *)
(* selector. Rows come from one bootstrapping; then either the trace clears the   *)
(* other coefficients (which first divides by n) and scheme switching follows, or *)
(* a functional switch multiplies by the key.                                     *)
CbsRows == IF E.via = "trace"
           THEN RowNoise(Plus(Budget(E.xs, E.s, 0),
                    Times(Plus(Plus(PbsBudget, Log2Up(E.x.k * E.x.n + 1) + Log2Up(E.x.n)), Times(Budget(E.xt, E.s, 0), Log2Up(E.x.n) + 1)),
                          Half(Log2Up(E.x.k * E.x.n + 1)) + 1)))
           ELSE RowNoise(Plus(PbsBudget, Times(Budget(E.xs, E.s, 0), 1)))
Cbs == Is("cbs") /\ Certain(R(E.a)[1], FromNat(E.m, W), 0, 0, E.lv, E.x.n, E.h)
       /\ E.m \in {0, 1} /\ SetSel(E.d, <<FromNat(E.m, W)>> \o Zero(E.n1 - 1), 0, CbsRows)

Next == Reset \/ Enc \/ Given \/ Lin \/ Dec \/ DecLwe \/ DecReg \/ KeyOp \/ Sel \/ Product1 \/ ProductAcc \/ Cmux \/ BlindRot
        \/ Switch \/ TraceOp \/ DivPow \/ Functional \/ SchemeSwitch \/ Pbs \/ Pbs2 \/ PbsConst \/ Cbs
Spec == Init /\ [][Next]_vars
Track == TLCSet(1, IF i > TLCGet(1) THEN i ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"REACHED", TLCGet(1), Len(Tr) + 1>>) /\ TLCGet(1) = Len(Tr) + 1
=============================================================================
