//! Single instructions over all operand widths and kinds.
use crate::cpu::*;
use parasol_cpu::assembly::IsaOp;
use std::sync::Arc;
use vcommon::*;

const OPS: [&str; 30] = [
    "LoadI", "Move", "Trunc", "Zext", "Sext", "Not", "Neg", "And", "Or", "Xor", "Add", "Sub", "Mul", "AddC", "SubB", "Shl", "Shr", "Shra", "Rotl", "Rotr", "CmpEq",
    "CmpGt", "CmpGe", "CmpLt", "CmpLe", "CmpGtS", "CmpGeS", "CmpLtS", "CmpLeS", "Cmux",
];
pub fn make(op: &str, d: Reg, d2: Reg, a: Reg, b: Reg, c: Reg, w: u32, imm: u32) -> IsaOp {
    use IsaOp::*;
    match op {
        "LoadI" => LoadI(d, imm, w),
        "Move" => Move(d, a),
        "Trunc" => Trunc(d, a, w),
        "Zext" => Zext(d, a, w),
        "Sext" => Sext(d, a, w),
        "Not" => Not(d, a),
        "Neg" => Neg(d, a),
        "And" => And(d, a, b),
        "Or" => Or(d, a, b),
        "Xor" => Xor(d, a, b),
        "Add" => Add(d, a, b),
        "Sub" => Sub(d, a, b),
        "Mul" => Mul(d, a, b),
        "AddC" => AddC(d, d2, a, b, c),
        "SubB" => SubB(d, d2, a, b, c),
        "Shl" => Shl(d, a, b),
        "Shr" => Shr(d, a, b),
        "Shra" => Shra(d, a, b),
        "Rotl" => Rotl(d, a, b),
        "Rotr" => Rotr(d, a, b),
        "CmpEq" => CmpEq(d, a, b),
        "CmpGt" => CmpGt(d, a, b),
        "CmpGe" => CmpGe(d, a, b),
        "CmpLt" => CmpLt(d, a, b),
        "CmpLe" => CmpLe(d, a, b),
        "CmpGtS" => CmpGtS(d, a, b),
        "CmpGeS" => CmpGeS(d, a, b),
        "CmpLtS" => CmpLtS(d, a, b),
        "CmpLeS" => CmpLeS(d, a, b),
        "Cmux" => Cmux(d, a, b, c),
        _ => panic!("{op}"),
    }
}
pub fn value(r: &mut Rng, w: u32) -> u128 {
    let m = if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
    m & match r.below(9) {
        0 => 0,
        1 => m,
        2 => 1u128 << (w - 1),
        3 => (1u128 << (w - 1)) - 1,
        4 => 1,
        5 => 1u128 << r.below(w as usize),
        _ => r.u128() >> r.below(w as usize),
    }
}
fn width(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 => *r.pick(&[1u32, 2, 4, 8, 16, 32, 64, 128]),
        1 => *r.pick(&[7u32, 9, 15, 17, 31, 33, 63, 65, 127, 126]),
        _ => 1 + r.below(128) as u32,
    }
}
fn slot(w: u32) -> u32 {
    w.div_ceil(8).next_power_of_two()
}

struct Build {
    code: Vec<IsaOp>,
    args: Vec<A>,
}
impl Build {
    /// A register with the given value: passed on the stack, loaded and cut to its width.
    fn operand(&mut self, reg: usize, w: u32, v: u128, enc: bool) {
        let n = slot(w);
        let at = 16 * self.args.len();
        self.args.push(A { align: 16, bytes: (0..n).map(|i| (v >> (8 * i)) as u8 as u16 + if enc { 256 } else { 0 }).collect(), typed: false });
        self.code.push(IsaOp::Load(x(reg), x(2), 8 * n, at as i32));
        if 8 * n != w {
            self.code.push(IsaOp::Trunc(x(reg), x(reg), w));
        }
    }
    fn test(&mut self, r: &mut Rng, op: &str, enc: bool, max: u32) {
        let mut w = width(r);
        let cap = match op {
            _ if !enc => 128,
            "Mul" => 9,
            "Shl" | "Shr" | "Shra" | "Rotl" | "Rotr" => 9,
            _ => max,
        };
        if w > cap {
            w = 1 + r.below(cap as usize) as u32;
        }
        let kind = |r: &mut Rng| enc && r.chance(2, 3);
        let (mut wa, mut wb, mut wc) = (w, w, 1);
        let (mut ka, mut kb, mut kc) = (kind(r), kind(r), kind(r));
        if enc && !ka && !kb && !kc {
            ka = true;
        }
        let mut imm = r.word() as u32;
        let mut vb = value(r, wb);
        let va = value(r, wa);
        match op {
            "LoadI" => {
                if w < 32 {
                    imm = match r.below(4) {
                        0 => imm & ((1 << w) - 1),
                        1 => (u32::MAX << (w - 1)) | imm,
                        2 => (1 << w) - r.below(3).min(1) as u32,
                        _ => (u32::MAX << (w - 1)).wrapping_add(r.below(3) as u32).wrapping_sub(1),
                    };
                }
            }
            "Trunc" | "Zext" | "Sext" => wa = if r.chance(1, 12) { width(r).min(if enc { max } else { 128 }) } else if op == "Trunc" { (w + r.below((129 - w) as usize) as u32).min(if enc { max.max(w) } else { 128 }) } else { 1 + r.below(w as usize) as u32 },
            "Shl" | "Shr" | "Shra" | "Rotl" | "Rotr" => {
                // encrypted amounts of few bits, plain ones of any width
                wb = if kb { 1 + r.below(5) as u32 } else { width(r) };
                vb = match r.below(4) {
                    0 => value(r, wb),
                    1 => w as u128 + r.below(3) as u128 - 1,
                    2 => r.below(2 * w as usize + 2) as u128,
                    _ => r.below(w as usize) as u128,
                };
                vb &= if wb == 128 { u128::MAX } else { (1 << wb) - 1 };
            }
            "Cmux" => (wa, wb, wc) = (1, w, w),
            _ => {
                if r.chance(1, 4) {
                    vb = va;
                } else if r.chance(1, 6) {
                    vb = va.wrapping_add(1) & if wb == 128 { u128::MAX } else { (1 << wb) - 1 };
                }
            }
        }
        // now and then operands that do not go together
        if r.chance(1, 30) {
            match r.below(3) {
                0 => wa = (wa + 1).min(128),
                1 => wb = (wb % 128).max(1),
                _ => wc = wc % 128 + 1,
            }
        }
        let mask = |w: u32| if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
        let (ra, mut rb, rc) = (11, 12, 13);
        self.operand(ra, wa, va & mask(wa), ka);
        if op != "Trunc" && op != "Zext" && op != "Sext" && op != "Not" && op != "Neg" && op != "Move" && op != "LoadI" {
            if r.chance(1, 10) {
                rb = ra;
            } else {
                self.operand(rb, wb, vb & mask(wb), kb);
            }
        }
        if matches!(op, "AddC" | "SubB" | "Cmux") {
            let vc = value(r, wc);
            self.operand(rc, wc, vc, kc);
        }
        let d = if r.chance(1, 4) { *r.pick(&[ra, rb, rc]) } else { 20 };
        let d2 = if r.chance(1, 6) { *r.pick(&[d, ra, rb, rc]) } else { 21 };
        self.code.push(make(op, x(d), x(d2), x(ra), x(rb), x(rc), w, imm));
        self.code.push(IsaOp::Dbg(x(d), 0));
        if matches!(op, "AddC" | "SubB") {
            self.code.push(IsaOp::Dbg(x(d2), 1));
        }
    }
}

pub fn ops(a: &Args) {
    let mut r = Rng::new(a.seed);
    let w = Arc::new(World::new());
    watchdog(60);
    let mut t = Trace::new(&a.dir, a.shards);
    let mut c = w.computer(&mut r);
    for k in 0..a.n {
        let enc = k % 2 == 0;
        let mut b = Build { code: vec![], args: vec![] };
        if enc {
            let op = OPS[(k / 2) % OPS.len()];
            let max = match r.below(12) {
                0 => 64,
                1 => 128,
                2..=5 => 20,
                _ => 8,
            };
            b.test(&mut r, op, true, max);
        } else {
            for _ in 0..6 {
                let op = *r.pick(&OPS);
                b.test(&mut r, op, false, 128);
            }
        }
        b.code.push(IsaOp::Ret());
        if k % 40 == 0 {
            c = w.computer(&mut r);
        }
        let g = Guest::new(&w, &mut t, &encode(&b.code), &[], 4096, 0, None);
        g.call(&mut t, &mut c, g.entry(), &b.args, Ret::None, None);
        t.sync();
    }
    t.finish(&a.dir, json!({"calls": a.n}));
}
