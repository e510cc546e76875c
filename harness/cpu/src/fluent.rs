//! Encrypted integer expressions built with the fluent API and run by the circuit processor.
use std::sync::Arc;

use parasol_concurrency::AtomicRefCell;
use parasol_runtime::circuits::mul::{append_int_multiply, append_uint_multiply};
use parasol_runtime::fluent::*;
use parasol_runtime::*;
use vcommon::*;

use crate::rt::*;

pub trait Sd: Sign + 'static {
    const SIGNED: bool;
    /// The value whose low bits are these.
    fn plain(v: u128, n: usize) -> Self::PlaintextType;
    fn raw(v: Self::PlaintextType) -> u128;
}
impl Sd for Unsigned {
    const SIGNED: bool = false;
    fn plain(v: u128, n: usize) -> u128 {
        low(v, n)
    }
    fn raw(v: u128) -> u128 {
        v
    }
}
impl Sd for Signed {
    const SIGNED: bool = true;
    fn plain(v: u128, n: usize) -> i128 {
        if n >= 128 { v as i128 } else { ((v << (128 - n)) as i128) >> (128 - n) }
    }
    fn raw(v: i128) -> u128 {
        v as u128
    }
}
type D<'a, T, U> = DynamicGenericIntGraphNodes<'a, T, U>;
enum N<'a, U: Sign> {
    L0(D<'a, L0LweCiphertext, U>),
    L1(D<'a, L1LweCiphertext, U>),
    Gl(D<'a, L1GlweCiphertext, U>),
    Gg(D<'a, L1GgswCiphertext, U>),
    Gv(D<'a, L1GlevCiphertext, U>),
}
enum B {
    L0(BitNode<L0LweCiphertext>),
    L1(BitNode<L1LweCiphertext>),
    Gl(BitNode<L1GlweCiphertext>),
    Gg(BitNode<L1GgswCiphertext>),
    Gv(BitNode<L1GlevCiphertext>),
}
macro_rules! each {
    ($t:ident, $v:expr, $x:ident => $e:expr) => {
        match $v {
            $t::L0($x) => $e,
            $t::L1($x) => $e,
            $t::Gl($x) => $e,
            $t::Gg($x) => $e,
            $t::Gv($x) => $e,
        }
    };
}
macro_rules! conv {
    ($t:ident, $v:expr, $k:expr, $ctx:expr) => {
        each!($t, $v, x => match $k {
            0 => $t::L0(x.convert::<L0LweCiphertext>($ctx)),
            1 => $t::L1(x.convert::<L1LweCiphertext>($ctx)),
            2 => $t::Gl(x.convert::<L1GlweCiphertext>($ctx)),
            3 => $t::Gg(x.convert::<L1GgswCiphertext>($ctx)),
            _ => $t::Gv(x.convert::<L1GlevCiphertext>($ctx)),
        })
    };
}
/// GLEV ciphertexts become GGSW ones without bootstrapping, which lets the noise grow: whether a bit comes from one says
/// if it can be used as it is (once more, but not for another GLEV one).
type Worn = bool;
macro_rules! conv_w {
    ($t:ident, $v:expr, $worn:expr, $k:expr, $ctx:expr) => {{
        let (lev, gsw) = (matches!($v, $t::Gv(_)), matches!($v, $t::Gg(_)));
        let x = if $k == 4 && gsw && $worn { conv!($t, &conv!($t, $v, 1, $ctx), 4, $ctx) } else { conv!($t, $v, $k, $ctx) };
        (x, if $k == 4 { !lev || $worn } else { $k == 3 && (lev || gsw) && $worn })
    }};
}
/// To be used for another GLEV ciphertext or not.
macro_rules! ggsw {
    ($t:ident, $v:expr, $worn:expr, $glev:expr, $ctx:expr) => {{
        let x = if matches!($v, $t::Gv(_) | $t::Gg(_)) && $worn && $glev { conv!($t, &conv!($t, $v, 1, $ctx), 3, $ctx) } else { conv!($t, $v, 3, $ctx) };
        let $t::Gg(x) = x else { unreachable!() };
        x
    }};
}
fn kind<U: Sign>(n: &N<U>) -> usize {
    match n {
        N::L0(_) => 0,
        N::L1(_) => 1,
        N::Gl(_) => 2,
        N::Gg(_) => 3,
        N::Gv(_) => 4,
    }
}
impl<'a, U: Sign> N<'a, U> {
    fn w(&self) -> usize {
        each!(N, self, x => x.bits.len())
    }
}
fn input<'a, U: Sd>(k: usize, v: u128, w: usize, ctx: &'a FheCircuitCtx, z: &Rt, trivial: bool) -> N<'a, U> {
    fn one<'a, T: CiphertextOps, U: Sd>(v: u128, w: usize, ctx: &'a FheCircuitCtx, z: &Rt, trivial: bool) -> D<'a, T, U> {
        let p = U::plain(v, w);
        let i = if trivial { DynamicGenericInt::<T, U>::trivial(p, &z.enc, &z.eval, w) } else { DynamicGenericInt::<T, U>::encrypt_secret(p, &z.enc, &z.sk, w) };
        i.graph_inputs(ctx)
    }
    match k {
        0 => N::L0(one(v, w, ctx, z, trivial)),
        1 => N::L1(one(v, w, ctx, z, trivial)),
        2 => N::Gl(one(v, w, ctx, z, trivial)),
        3 => N::Gg(one(v, w, ctx, z, trivial)),
        _ => N::Gv(one(v, w, ctx, z, trivial)),
    }
}
fn select<'a, U: Sign>(s: &BitNode<L1GgswCiphertext>, a: &D<'a, L1GlweCiphertext, U>, b: &D<'a, L1GlweCiphertext, U>, ctx: &'a FheCircuitCtx) -> D<'a, L1GlweCiphertext, U> {
    macro_rules! at {
        ($($n:literal)*) => {
            match a.bits.len() {
                $($n => {
                    let (a, b): (GenericIntGraphNodes<$n, _, U>, GenericIntGraphNodes<$n, _, U>) = (a.resize(ctx, $n).into(), b.resize(ctx, $n).into());
                    s.select(&a, &b, ctx).into()
                })*
                _ => unreachable!(),
            }
        };
    }
    at!(1 2 3 4 5 6 7 8 9 10 11 12 13 16 32)
}
const WIDTHS: [usize; 15] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 32];
type Out = Box<dyn Fn() -> u128>;

fn program<U: Sd>(t: &mut Trace, r: &mut Rng, z: &'static Rt) {
    let ctx = &FheCircuitCtx::new();
    let mut ints: Vec<N<U>> = vec![];
    let mut bits: Vec<B> = vec![];
    let (mut wi, mut wb): (Vec<Worn>, Vec<Worn>) = (vec![], vec![]);
    let mut outs: Vec<Out> = vec![];
    t.begin(json!({"ev": "reset", "signed": U::SIGNED}));
    let wide = r.chance(1, 6);
    let width = |r: &mut Rng| if wide { WIDTHS[r.below(15)] } else { 1 + r.below(6) };
    let steps = 3 + r.below(18);
    for step in 0..steps {
        let any = |r: &mut Rng, n: usize| if r.chance(1, 3) { n - 1 } else { r.below(n) };
        let op = if ints.len() < 2 { 0 } else { r.below(17) };
        let e = guarded(|| -> Value {
            match op {
                0 | 1 => {
                    let (w, k) = (width(r), r.below(5));
                    let v = operand(r, w);
                    let tr = r.chance(1, 3);
                    wi.push(false);
                    ints.push(input(k, v, w, ctx, z, tr));
                    json!({"op": "input", "w": w, "v": b16(v)})
                }
                2 => {
                    let w = width(r);
                    let v = operand(r, w);
                    let p = U::plain(v, w);
                    let p: PackedDynamicGenericInt<L1GlweCiphertext, U> =
                        if r.chance(1, 3) { PackedDynamicGenericInt::trivial_encrypt(p, &z.enc, w) } else { PackedDynamicGenericInt::encrypt(p, &z.enc, &z.pk, w) };
                    wi.push(false);
                    ints.push(N::L1(p.graph_input(ctx).unpack(ctx)));
                    json!({"op": "input", "w": w, "v": b16(v)})
                }
                3 => {
                    let i = any(r, ints.len());
                    let k = r.below(5);
                    let (n, w) = conv_w!(N, &ints[i], wi[i], k, ctx);
                    ints.push(n);
                    wi.push(w);
                    json!({"op": "same", "a": i})
                }
                4..=7 => {
                    let i = any(r, ints.len());
                    let w = ints[i].w();
                    let same: Vec<usize> = (0..ints.len()).filter(|j| ints[*j].w() == w).collect();
                    let j = *r.pick(&same);
                    let f = *r.pick(&["add", "sub", "and", "mul"]);
                    let f = if f == "mul" && (w > 6 && w != 8) || f == "mul" && w == 8 && !r.chance(1, 8) { "add" } else { f };
                    let glev = r.chance(1, 2);
                    let a = ggsw!(N, &ints[i], wi[i], glev, ctx);
                    let b = if i == j && r.chance(1, 2) { None } else { Some(ggsw!(N, &ints[j], wi[j], glev, ctx)) };
                    let b = b.as_ref().unwrap_or(&a);
                    macro_rules! out {
                        ($m:ident) => {
                            if glev { N::Gv(a.$m::<L1GlevCiphertext>(b, ctx)) } else { N::Gl(a.$m::<L1GlweCiphertext>(b, ctx)) }
                        };
                    }
                    let n = match f {
                        "add" => out!(add),
                        "sub" => out!(sub),
                        "and" => out!(and),
                        _ => out!(mul),
                    };
                    ints.push(n);
                    wi.push(glev);
                    json!({"op": f, "a": i, "b": j})
                }
                8 | 9 => {
                    let (i, j) = (any(r, ints.len()), any(r, ints.len()));
                    let f = *r.pick(&["gt", "ge", "lt", "le", "eq", "ne"]);
                    let glev = r.chance(1, 2);
                    let (a, b) = (ggsw!(N, &ints[i], wi[i], glev, ctx), ggsw!(N, &ints[j], wi[j], glev, ctx));
                    macro_rules! out {
                        ($m:ident) => {
                            if glev { B::Gv(a.$m::<L1GlevCiphertext>(&b, ctx)) } else { B::Gl(a.$m::<L1GlweCiphertext>(&b, ctx)) }
                        };
                    }
                    wb.push(glev);
                    bits.push(match f {
                        "gt" => out!(gt),
                        "ge" => out!(ge),
                        "lt" => out!(lt),
                        "le" => out!(le),
                        "eq" => out!(eq),
                        _ => out!(neq),
                    });
                    json!({"op": f, "a": i, "b": j})
                }
                10 | 11 if !bits.is_empty() => {
                    let s = any(r, bits.len());
                    let i = any(r, ints.len());
                    let w = ints[i].w();
                    let same: Vec<usize> = (0..ints.len()).filter(|j| ints[*j].w() == w).collect();
                    let j = *r.pick(&same);
                    let (N::Gl(a), N::Gl(b)) = (conv!(N, &ints[i], 2, ctx), conv!(N, &ints[j], 2, ctx)) else { unreachable!() };
                    let c = ggsw!(B, &bits[s], wb[s], false, ctx);
                    wi.push(false);
                    ints.push(N::Gl(select(&c, &a, &b, ctx)));
                    json!({"op": "select", "s": s, "a": i, "b": j})
                }
                10 | 11 => {
                    let v = r.chance(1, 2);
                    let (tr, k) = (r.chance(1, 2), r.below(7));
                    fn one<T: CiphertextOps>(v: bool, ctx: &FheCircuitCtx, z: &Rt, tr: bool) -> BitNode<T> {
                        if tr { Bit::<T>::trivial_encryption(v, &z.enc, &z.eval) } else { Bit::<T>::encrypt_secret(v, &z.enc, &z.sk) }.graph_input(ctx)
                    }
                    wb.push(false);
                    bits.push(match k {
                        0 => B::L0(one(v, ctx, z, tr)),
                        1 => B::L1(one(v, ctx, z, tr)),
                        2 => B::Gl(one(v, ctx, z, tr)),
                        3 => B::Gg(one(v, ctx, z, tr)),
                        4 => B::Gv(one(v, ctx, z, tr)),
                        5 => B::Gv(if v { BitNode::one(ctx) } else { BitNode::zero(ctx) }),
                        _ => B::Gl(if v { BitNode::one(ctx) } else { BitNode::zero(ctx) }),
                    });
                    json!({"op": "bit", "v": v as u8})
                }
                12 | 13 => {
                    let i = any(r, ints.len());
                    let w = width(r);
                    // there is no such constant for the other kind
                    let k = if !U::SIGNED && kind(&ints[i]) == 1 { r.below(2) * 2 } else { kind(&ints[i]) };
                    let (n, worn) = conv_w!(N, &ints[i], wi[i], k, ctx);
                    let n = match n {
                        N::L0(x) => N::L0(x.resize(ctx, w)),
                        N::L1(x) => N::L1(x.resize(ctx, w)),
                        N::Gl(x) => N::Gl(x.resize(ctx, w)),
                        N::Gg(x) => N::Gg(x.resize(ctx, w)),
                        N::Gv(x) => N::Gv(x.resize(ctx, w)),
                    };
                    ints.push(n);
                    wi.push(worn);
                    json!({"op": "resize", "a": i, "w": w})
                }
                14 => {
                    let i = any(r, ints.len());
                    let N::Gl(a) = conv!(N, &ints[i], 2, ctx) else { unreachable!() };
                    let p = a.pack(ctx, &z.enc);
                    let o = p.collect_output(ctx, &z.enc);
                    outs.push(Box::new(move || U::raw(o.decrypt(&z.enc, &z.sk))));
                    if r.chance(1, 2) {
                        ints.push(N::L1(p.unpack(ctx)));
                        wi.push(false);
                        return json!({"op": "repack", "a": i});
                    }
                    json!({"op": "out", "a": i})
                }
                15 if !bits.is_empty() => {
                    let i = any(r, bits.len());
                    let k = r.below(5);
                    let b = if r.chance(1, 2) { conv_w!(B, &bits[i], wb[i], k, ctx).0 } else { conv!(B, &bits[i], 2, ctx) };
                    each!(B, b, x => {
                        let o = x.collect_output(ctx, &z.enc);
                        outs.push(Box::new(move || o.decrypt(&z.enc, &z.sk) as u128));
                    });
                    json!({"op": "outbit", "a": i})
                }
                _ => {
                    let i = any(r, ints.len());
                    each!(N, &ints[i], x => {
                        let o = x.collect_outputs(ctx, &z.enc);
                        outs.push(Box::new(move || U::raw(o.decrypt(&z.enc, &z.sk))));
                    });
                    json!({"op": "out", "a": i})
                }
            }
        });
        match e {
            Ok(mut e) => {
                e["ev"] = json!("op");
                t.ev(e);
            }
            Err(e) => {
                t.ev(json!({"ev": "failed", "step": step, "op": op, "how": e}));
                t.sync();
                return;
            }
        }
    }
    for (i, x) in ints.iter().enumerate() {
        if i + 1 < ints.len() && !r.chance(1, 3) {
            continue;
        }
        let o = guarded(|| {
            each!(N, x, x => {
                let o = x.collect_outputs(ctx, &z.enc);
                outs.push(Box::new(move || U::raw(o.decrypt(&z.enc, &z.sk))));
            })
        });
        match o {
            Ok(()) => t.ev(json!({"ev": "op", "op": "out", "a": i})),
            Err(e) => {
                t.ev(json!({"ev": "failed", "step": steps, "op": "out", "how": e}));
                t.sync();
                return;
            }
        }
    }
    run(t, r, z, &ctx.circuit.borrow(), outs);
}
fn run(t: &mut Trace, r: &mut Rng, z: &Rt, c: &FheCircuit, outs: Vec<Out>) {
    let (mut p, flow) = CircuitProcessor::new(1 + r.below(64), Some(r.pick(&z.pools).clone()), &z.eval, &z.enc);
    for _ in 0..1 + r.below(4) / 3 {
        let done = limit("run", || p.run_graph_blocking(c, &flow));
        let v: Vec<_> = match done {
            Ok(()) => outs.iter().map(|o| json!(b16(o()))).collect(),
            Err(e) => vec![json!(e.0)],
        };
        t.ev(json!({"ev": "run", "outs": v}));
    }
    t.sync();
}
/// The multiplication circuits also take operands of different lengths.
fn products<U: Sd>(t: &mut Trace, r: &mut Rng, z: &'static Rt) {
    t.begin(json!({"ev": "reset", "signed": U::SIGNED}));
    let ctx = FheCircuitCtx::new();
    let (w, x) = *r.pick(&[(5, 3), (3, 5), (17, 3), (18, 4), (4, 18), (17, 1), (2, 19), (16, 8), (20, 5), (8, 16), (17, 17), (18, 17), (1, 1), (7, 7)]);
    let (a, b) = (operand(r, w), operand(r, x));
    let (N::Gg(ia), N::Gg(ib)) = (input::<U>(3, a, w, &ctx, z, false), input::<U>(3, b, x, &ctx, z, false)) else { unreachable!() };
    t.ev(json!({"ev": "op", "op": "input", "w": w, "v": b16(a)}));
    t.ev(json!({"ev": "op", "op": "input", "w": x, "v": b16(b)}));
    let nodes = |d: &D<L1GgswCiphertext, U>| d.bits.iter().map(|b| b.node).collect::<Vec<_>>();
    let glev = r.chance(1, 2);
    let (na, nb) = (nodes(&ia), nodes(&ib));
    let res = guarded(|| {
        let mut c = ctx.circuit.borrow_mut();
        match (U::SIGNED, glev) {
            (false, true) => append_uint_multiply::<L1GlevCiphertext>(&mut c, &na, &nb),
            (false, false) => append_uint_multiply::<L1GlweCiphertext>(&mut c, &na, &nb),
            (true, true) => append_int_multiply::<L1GlevCiphertext>(&mut c, &na, &nb),
            (true, false) => append_int_multiply::<L1GlweCiphertext>(&mut c, &na, &nb),
        }
    });
    match res {
        Err(e) => {
            t.ev(json!({"ev": "failed", "step": 2, "op": "product", "how": e}));
        }
        Ok((lo, hi)) => {
            t.ev(json!({"ev": "op", "op": "product", "a": 0, "b": 1, "lo": lo.len()}));
            let cells: Vec<_> = lo
                .iter()
                .chain(&hi)
                .map(|n| {
                    let mut c = ctx.circuit.borrow_mut();
                    if glev {
                        let o = Arc::new(AtomicRefCell::new(L1GlevCiphertext::allocate(&z.enc)));
                        let k = c.add_node(FheOp::OutputGlev1(o.clone()));
                        c.add_edge(*n, k, FheEdge::Unary);
                        Box::new(move || o.borrow().decrypt(&z.enc, &z.sk)) as Box<dyn Fn() -> bool>
                    } else {
                        let o = Arc::new(AtomicRefCell::new(L1GlweCiphertext::allocate(&z.enc)));
                        let k = c.add_node(FheOp::OutputGlwe1(o.clone()));
                        c.add_edge(*n, k, FheEdge::Unary);
                        Box::new(move || CiphertextOps::decrypt(&*o.borrow(), &z.enc, &z.sk)) as Box<dyn Fn() -> bool>
                    }
                })
                .collect();
            let out: Out = Box::new(move || cells.iter().enumerate().map(|(i, f)| (f() as u128) << i).sum());
            run(t, r, z, &ctx.circuit.borrow(), vec![out]);
        }
    }
    t.sync();
}
/// Values a type does not have are refused, others are kept, at every width.
fn plain<U: Sd>(t: &mut Trace, r: &mut Rng, z: &Rt) {
    t.begin(json!({"ev": "reset", "signed": U::SIGNED}));
    for _ in 0..6 {
        let n = if r.chance(1, 4) { 128 } else if r.chance(1, 5) { 129 + r.below(200) } else { 1 + r.below(127) };
        let v = if r.chance(1, 2) { operand(r, n.min(128)) } else { operand(r, 128) };
        // as a value of the plaintext type
        let v = if U::SIGNED && r.chance(1, 2) { U::raw(U::plain(v, n)) } else { v };
        let p = U::plain(v, 128);
        let how = r.below(6);
        let got = guarded(|| match how {
            0 => U::raw(DynamicGenericInt::<L1GlweCiphertext, U>::encrypt(p, &z.enc, &z.pk, n).decrypt(&z.enc, &z.sk)),
            1 => U::raw(DynamicGenericInt::<L0LweCiphertext, U>::encrypt_secret(p, &z.enc, &z.sk, n).decrypt(&z.enc, &z.sk)),
            2 => U::raw(DynamicGenericInt::<L1GgswCiphertext, U>::trivial(p, &z.enc, &z.eval, n).decrypt(&z.enc, &z.sk)),
            3 => U::raw(DynamicGenericInt::<L1GlevCiphertext, U>::encrypt_secret(p, &z.enc, &z.sk, n).decrypt(&z.enc, &z.sk)),
            4 => U::raw(DynamicGenericInt::<L1LweCiphertext, U>::encrypt_secret(p, &z.enc, &z.sk, n).decrypt(&z.enc, &z.sk)),
            _ => U::raw(PackedDynamicGenericInt::<L1GlweCiphertext, U>::encrypt(p, &z.enc, &z.pk, n.min(127)).decrypt(&z.enc, &z.sk)),
        });
        let n = if how == 5 { n.min(127) } else { n };
        t.ev(json!({"ev": "plain", "w": n, "v": b16(v), "got": got.map(|g| json!(b16(g))).unwrap_or(json!([]))}));
    }
    t.sync();
}
pub fn fluent(a: &Args) {
    let mut r = Rng::new(a.seed);
    let mut t = Trace::new(&a.dir, a.shards);
    let z: &'static Rt = Box::leak(Box::new(Rt::new()));
    for k in 0..a.n {
        match k % 16 {
            0 => products::<Unsigned>(&mut t, &mut r, z),
            8 => products::<Signed>(&mut t, &mut r, z),
            1 => plain::<Signed>(&mut t, &mut r, z),
            2 => plain::<Unsigned>(&mut t, &mut r, z),
            k if k % 2 == 0 => program::<Unsigned>(&mut t, &mut r, z),
            _ => program::<Signed>(&mut t, &mut r, z),
        }
    }
    t.finish(&a.dir, json!({"histories": a.n}));
}
