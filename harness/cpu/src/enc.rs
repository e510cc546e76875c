//! Encoding and decoding of instructions, and words that are no instruction.
use crate::cpu::*;
use parasol_cpu::{assembly::IsaOp, register_names::*};
use std::sync::Arc;
use vcommon::*;

pub const NAMES: [&str; 37] = [
    "Store", "Load", "LoadI", "Trunc", "Zext", "Sext", "Move", "Not", "And", "Or", "Xor", "Add", "AddC", "Sub", "SubB", "Neg", "Mul", "Rotl", "Rotr", "Shl", "Shr", "Shra",
    "CmpEq", "CmpGt", "CmpGtS", "CmpGe", "CmpGeS", "CmpLt", "CmpLtS", "CmpLe", "CmpLeS", "BranchNonZero", "BranchZero", "Branch", "Ret", "Cmux", "Dbg",
];
/// Destinations, sources, width, immediate.
type Fields = (&'static str, Vec<usize>, Vec<usize>, u32, u32);
fn fields(i: &IsaOp) -> Fields {
    use IsaOp::*;
    macro_rules! two { ($n:literal, $d:expr, $a:expr) => { ($n, vec![$d.name], vec![$a.name], 0, 0) } }
    macro_rules! three { ($n:literal, $d:expr, $a:expr, $b:expr) => { ($n, vec![$d.name], vec![$a.name, $b.name], 0, 0) } }
    match i {
        Store(p, s, w, o) => ("Store", vec![], vec![p.name, s.name], *w, *o as u32),
        Load(d, s, w, o) => ("Load", vec![d.name], vec![s.name], *w, *o as u32),
        LoadI(d, v, w) => ("LoadI", vec![d.name], vec![], *w, *v),
        Trunc(d, s, w) => ("Trunc", vec![d.name], vec![s.name], *w, 0),
        Zext(d, s, w) => ("Zext", vec![d.name], vec![s.name], *w, 0),
        Sext(d, s, w) => ("Sext", vec![d.name], vec![s.name], *w, 0),
        Move(d, a) => two!("Move", d, a),
        Not(d, a) => two!("Not", d, a),
        Neg(d, a) => two!("Neg", d, a),
        And(d, a, b) => three!("And", d, a, b),
        Or(d, a, b) => three!("Or", d, a, b),
        Xor(d, a, b) => three!("Xor", d, a, b),
        Add(d, a, b) => three!("Add", d, a, b),
        Sub(d, a, b) => three!("Sub", d, a, b),
        Mul(d, a, b) => three!("Mul", d, a, b),
        Rotl(d, a, b) => three!("Rotl", d, a, b),
        Rotr(d, a, b) => three!("Rotr", d, a, b),
        Shl(d, a, b) => three!("Shl", d, a, b),
        Shr(d, a, b) => three!("Shr", d, a, b),
        Shra(d, a, b) => three!("Shra", d, a, b),
        CmpEq(d, a, b) => three!("CmpEq", d, a, b),
        CmpGt(d, a, b) => three!("CmpGt", d, a, b),
        CmpGtS(d, a, b) => three!("CmpGtS", d, a, b),
        CmpGe(d, a, b) => three!("CmpGe", d, a, b),
        CmpGeS(d, a, b) => three!("CmpGeS", d, a, b),
        CmpLt(d, a, b) => three!("CmpLt", d, a, b),
        CmpLtS(d, a, b) => three!("CmpLtS", d, a, b),
        CmpLe(d, a, b) => three!("CmpLe", d, a, b),
        CmpLeS(d, a, b) => three!("CmpLeS", d, a, b),
        AddC(d, e, a, b, c) => ("AddC", vec![d.name, e.name], vec![a.name, b.name, c.name], 0, 0),
        SubB(d, e, a, b, c) => ("SubB", vec![d.name, e.name], vec![a.name, b.name, c.name], 0, 0),
        BranchNonZero(a, o) => ("BranchNonZero", vec![], vec![a.name], 0, *o as u32),
        BranchZero(a, o) => ("BranchZero", vec![], vec![a.name], 0, *o as u32),
        Branch(o) => ("Branch", vec![], vec![], 0, *o as u32),
        Ret() => ("Ret", vec![], vec![], 0, 0),
        Cmux(d, c, a, b) => ("Cmux", vec![d.name], vec![c.name, a.name, b.name], 0, 0),
        Dbg(a, h) => ("Dbg", vec![], vec![a.name], 0, *h),
    }
}
fn build(n: &str, d: &[usize], s: &[usize], w: u32, imm: u32) -> IsaOp {
    use IsaOp::*;
    let (d, s) = (|k: usize| x(d[k]), |k: usize| x(s[k]));
    match n {
        "Store" => Store(s(0), s(1), w, imm as i32),
        "Load" => Load(d(0), s(0), w, imm as i32),
        "BranchNonZero" => BranchNonZero(s(0), imm as i32),
        "BranchZero" => BranchZero(s(0), imm as i32),
        "Branch" => Branch(imm as i32),
        "Ret" => Ret(),
        "Dbg" => Dbg(s(0), imm),
        "AddC" | "SubB" => crate::isa::make(n, d(0), d(1), s(0), s(1), s(2), w, imm),
        "Cmux" => crate::isa::make(n, d(0), d(0), s(0), s(1), s(2), w, imm),
        "LoadI" => crate::isa::make(n, d(0), d(0), d(0), d(0), d(0), w, imm),
        "Trunc" | "Zext" | "Sext" | "Move" | "Not" | "Neg" => crate::isa::make(n, d(0), d(0), s(0), s(0), s(0), w, imm),
        _ => crate::isa::make(n, d(0), d(0), s(0), s(1), s(0), w, imm),
    }
}
fn shape(n: &str) -> (usize, usize, bool, bool) {
    match n {
        "Store" => (0, 2, true, true),
        "Load" => (1, 1, true, true),
        "LoadI" => (1, 0, true, true),
        "Trunc" | "Zext" | "Sext" => (1, 1, true, false),
        "Move" | "Not" | "Neg" => (1, 1, false, false),
        "AddC" | "SubB" => (2, 3, false, false),
        "BranchNonZero" | "BranchZero" | "Dbg" => (0, 1, false, true),
        "Branch" => (0, 0, false, true),
        "Ret" => (0, 0, false, false),
        "Cmux" => (1, 3, false, false),
        _ => (1, 2, false, false),
    }
}
fn show(f: &Fields) -> serde_json::Value {
    json!({"op": f.0, "d": f.1, "s": f.2, "w": f.3, "imm": b4(f.4)})
}
fn decoded(v: u64) -> serde_json::Value {
    match guarded(|| IsaOp::try_from(v)) {
        Ok(Ok(i)) => show(&fields(&i)),
        Ok(Err(parasol_cpu::Error::IllegalInstruction(_))) => json!({"op": "illegal", "d": [], "s": [], "w": 0, "imm": [0, 0, 0, 0]}),
        Ok(Err(e)) => json!({"op": format!("error {e}"), "d": [], "s": [], "w": 0, "imm": [0, 0, 0, 0]}),
        Err(e) => json!({"op": format!("panic {e}"), "d": [], "s": [], "w": 0, "imm": [0, 0, 0, 0]}),
    }
}
fn instruction(r: &mut Rng, n: &'static str) -> IsaOp {
    let (nd, ns, w, imm) = shape(n);
    let reg = |r: &mut Rng| match r.below(4) {
        0 => *r.pick(&[0usize, 1, 2, 31, 32, 62, 63]),
        _ => r.below(64),
    };
    let d: Vec<usize> = (0..nd).map(|_| reg(r)).collect();
    let s: Vec<usize> = (0..ns).map(|_| reg(r)).collect();
    let any = 1 + r.below(128) as u32;
    let w = if w { *r.pick(&[1, 2, 8, 63, 64, 65, 127, 128, any]) } else { 0 };
    let imm = if imm {
        match r.below(4) {
            0 => *r.pick(&[0, 1, u32::MAX, 1 << 31, (1 << 31) - 1, 8, 0u32.wrapping_sub(8)]),
            1 => 1 << r.below(32),
            _ => r.word() as u32,
        }
    } else {
        0
    };
    build(n, &d, &s, w, imm)
}
fn raw(r: &mut Rng) -> u64 {
    let n = *r.pick(&NAMES);
    let i = u64::from(instruction(r, n));
    match r.below(7) {
        0 => r.u64(),
        1 => i ^ (1 << r.below(64)),
        2 => i ^ (1 << (32 + r.below(32))),
        3 => (r.u64() << 8) | (i & 255),
        4 => (i & !255) | r.below(256) as u64,
        5 => (i & ((1 << (8 + r.below(56))) - 1)) | (r.u64() << 63 >> r.below(40)),
        _ => r.u64() >> r.below(64),
    }
}
pub fn enc(a: &Args) {
    let mut r = Rng::new(a.seed);
    let mut t = Trace::new(&a.dir, a.shards);
    let names = [SP.name, T0.name, T1.name, T2.name, FP.name, RP.name, T3.name, T4.name, T5.name, T6.name, X0.name, X1.name, X9.name, X17.name, X32.name, X62.name, X63.name];
    for k in 0..a.n {
        t.begin(json!({"ev": "reset", "regs": names}));
        for j in 0..40 {
            let n = NAMES[(k * 40 + j) % NAMES.len()];
            let i = instruction(&mut r, n);
            let w = u64::from(i);
            t.ev(json!({"ev": "enc", "i": show(&fields(&i)), "b": b8(w), "back": decoded(w)}));
            let v = raw(&mut r);
            t.ev(json!({"ev": "dec", "b": b8(v), "i": decoded(v), "again": match guarded(|| IsaOp::try_from(v)) {
                Ok(Ok(i)) => decoded(u64::from(i)),
                _ => decoded(v),
            }}));
        }
        t.sync();
    }
    t.finish(&a.dir, json!({"histories": a.n}));
}
/// Programs around arbitrary words.
pub fn words(a: &Args) {
    let mut r = Rng::new(a.seed);
    let w = Arc::new(World::new());
    watchdog(60);
    let mut t = Trace::new(&a.dir, a.shards);
    let mut c = w.computer(&mut r);
    for k in 0..a.n {
        if k % 40 == 0 {
            c = w.computer(&mut r);
        }
        let mut code: Vec<u64> = (0..r.below(3)).map(|_| u64::from(IsaOp::LoadI(x(r.below(64)), r.below(64) as u32, 32))).collect();
        let at = code.len();
        code.push(raw(&mut r));
        for _ in 0..r.below(3) {
            code.push(u64::from(IsaOp::Dbg(x(r.below(64)), 0)));
        }
        code.push(u64::from(IsaOp::Ret()));
        let _ = at;
        let g = Guest::new(&w, &mut t, &code, &[], 4096, 0, None);
        g.call(&mut t, &mut c, g.entry(), &[], Ret::None, Some(30));
        t.sync();
    }
    t.finish(&a.dir, json!({"calls": a.n}));
}
