//! Whole programs: random dataflow over registers and memory with loops and branches, faults, gas limits and calls.
use crate::cpu::*;
use crate::isa::{make, value};
use parasol_cpu::assembly::IsaOp;
use std::sync::Arc;
use vcommon::*;

/// Registers 5..12 hold data of the program's width, of either kind.  20 points at the data, 21..27 hold plain numbers
/// used as addresses, counters and conditions, 13..15 are one bit wide.
const D: [usize; 8] = [5, 6, 7, 8, 9, 11, 12, 14];
const F: [usize; 3] = [13, 15, 16];
const N: [usize; 4] = [21, 22, 23, 24];
const CELLS: usize = 8;

struct Prog<'a> {
    r: &'a mut Rng,
    w: u32,
    code: Vec<IsaOp>,
    /// what the 4-byte cells behind the data hold: None when it differs between paths
    wide: [Option<bool>; 4],
    enc: bool,
    heavy: usize,
}
impl Prog<'_> {
    fn d(&mut self) -> Reg {
        x(*self.r.pick(&D))
    }
    fn f(&mut self) -> Reg {
        x(*self.r.pick(&F))
    }
    fn n(&mut self) -> usize {
        *self.r.pick(&N)
    }
    fn start(&mut self) {
        self.code.push(IsaOp::LoadI(x(20), DATA, 32));
        for d in D {
            let k = self.r.below(CELLS);
            let w = self.w;
            if self.r.chance(1, 4) {
                let v = value(self.r, w.min(31)) as u32;
                self.code.push(IsaOp::LoadI(x(d), v, w));
            } else {
                self.code.push(IsaOp::Load(x(d), x(20), w, (k as u32 * w / 8) as i32));
            }
        }
        for f in F {
            let v = self.r.below(2) as u32;
            if self.r.chance(1, 2) {
                self.code.push(IsaOp::LoadI(x(f), v, 1));
            } else {
                let d = self.d();
                self.code.push(IsaOp::Trunc(x(f), d, 1));
            }
        }
        for n in N {
            let v = self.r.below(5) as u32;
            self.code.push(IsaOp::LoadI(x(n), v, 32));
        }
    }
    /// An instruction on data; `stable` when the kinds of memory cells must stay as they are.
    fn data(&mut self, stable: bool) {
        let w = self.w;
        let (d, a, b) = (self.d(), self.d(), self.d());
        let (f, g, h) = (self.f(), self.f(), self.f());
        let pick = self.r.below(24);
        let light = self.heavy == 0;
        let cost = match pick {
            0..=4 => 1,
            5 => 2,
            6 => 3,
            _ => 0,
        };
        if cost > 0 && (light || (cost == 3 && w > 8)) {
            self.code.push(IsaOp::Move(d, a));
            return;
        }
        self.heavy -= cost.min(self.heavy);
        let i = match pick {
            0 => make(["Add", "Sub", "And", "Or", "Xor", "Not", "Neg"][self.r.below(7)], d, d, a, b, f, w, 0),
            1 => make(["CmpEq", "CmpGt", "CmpGe", "CmpLt", "CmpLe", "CmpGtS", "CmpGeS", "CmpLtS", "CmpLeS"][self.r.below(9)], f, f, a, b, f, w, 0),
            2 => IsaOp::Cmux(d, f, a, b),
            3 => make(["And", "Or", "Xor"][self.r.below(3)], f, f, g, h, f, 1, 0),
            4 => IsaOp::Cmux(f, g, h, f),
            5 => make(["AddC", "SubB"][self.r.below(2)], d, f, a, b, g, w, 0),
            6 => IsaOp::Mul(d, a, b),
            7 | 8 => make(["Shl", "Shr", "Shra", "Rotl", "Rotr"][self.r.below(5)], d, d, a, x(self.n()), f, w, 0),
            9 => IsaOp::Move(d, a),
            10 => IsaOp::Trunc(f, a, 1),
            11 => {
                self.code.push(IsaOp::Trunc(x(17), a, 1 + self.r.below(w as usize) as u32));
                make(["Zext", "Sext"][self.r.below(2)], d, d, x(17), b, f, w, 0)
            }
            12 => make(["Zext", "Sext"][self.r.below(2)], d, d, f, b, f, w, 0),
            13..=15 => IsaOp::Store(x(20), a, w, (self.r.below(CELLS) as u32 * w / 8) as i32),
            16..=18 => IsaOp::Load(d, x(20), w, (self.r.below(CELLS) as u32 * w / 8) as i32),
            19 => {
                // through a computed address
                let n = x(self.n());
                let m = x(self.n());
                self.code.push(IsaOp::LoadI(x(25), w / 8 * self.r.below(CELLS) as u32, 32));
                self.code.push(IsaOp::Add(x(26), x(20), x(25)));
                self.code.push(IsaOp::Move(n, m));
                if self.r.chance(1, 2) { IsaOp::Store(x(26), a, w, 0) } else { IsaOp::Load(d, x(26), w, 0) }
            }
            20 => {
                let n = self.n();
                let v = self.r.below(6) as u32;
                if self.r.chance(1, 2) { IsaOp::LoadI(x(n), v, 32) } else { IsaOp::Xor(x(n), x(self.n()), x(self.n())) }
            }
            // 4-byte cells hold encrypted or plain numbers; plain ones come back as addresses and conditions that may
            // have to wait for what was stored there before
            21 if !stable => {
                let c = self.r.below(4);
                self.code.push(IsaOp::Zext(x(18), a, 32));
                self.wide[c] = None;
                IsaOp::Store(x(20), x(18), 32, 64 + 4 * c as i32)
            }
            22 if !stable => {
                let c = self.r.below(4);
                self.wide[c] = Some(true);
                IsaOp::Store(x(20), x(self.n()), 32, 64 + 4 * c as i32)
            }
            _ => {
                let c = self.r.below(4);
                if self.wide[c] != Some(true) || (stable && pick >= 21) {
                    IsaOp::Move(d, a)
                } else {
                    IsaOp::Load(x(self.n()), x(20), 32, 64 + 4 * c as i32)
                }
            }
        };
        self.code.push(i);
    }
    fn block(&mut self, n: usize, stable: bool) {
        for _ in 0..n {
            self.data(stable);
        }
    }
    fn skip(&mut self) {
        let c = self.n();
        let at = self.code.len();
        self.code.push(IsaOp::Ret());
        let n = 1 + self.r.below(3);
        self.block(n, true);
        let by = 8 * (self.code.len() - at) as i32;
        self.code[at] = if self.r.chance(1, 2) { IsaOp::BranchZero(x(c), by) } else { IsaOp::BranchNonZero(x(c), by) };
    }
    fn looped(&mut self) {
        let (c, one) = (x(27), x(28));
        self.code.push(IsaOp::LoadI(c, 1 + self.r.below(3) as u32, 32));
        self.code.push(IsaOp::LoadI(one, 1, 32));
        let at = self.code.len();
        let n = 1 + self.r.below(4);
        let h = self.heavy;
        self.heavy = h.min(2);
        self.block(n, true);
        self.heavy = h.saturating_sub(3);
        self.code.push(IsaOp::Sub(c, c, one));
        let by = 8 * (at as i32 - self.code.len() as i32);
        self.code.push(IsaOp::BranchNonZero(c, by));
    }
    fn over(&mut self) {
        let at = self.code.len();
        self.code.push(IsaOp::Ret());
        let n = self.r.below(3);
        for _ in 0..n {
            self.code.push(IsaOp::Ret());
        }
        self.code[at] = IsaOp::Branch(8 * (n as i32 + 1));
    }
    fn body(&mut self) {
        for _ in 0..2 + self.r.below(5) {
            match self.r.below(5) {
                0 => self.skip(),
                1 => self.looped(),
                2 if self.r.chance(1, 3) => self.over(),
                _ => {
                    let n = 1 + self.r.below(4);
                    self.block(n, false)
                }
            }
            if self.r.chance(1, 4) {
                let d = self.d();
                self.code.push(IsaOp::Dbg(d, self.r.below(3) as u32));
            }
        }
    }
    fn end(&mut self) {
        for d in D.iter().chain(&F).chain(&N) {
            self.code.push(IsaOp::Dbg(x(*d), 0));
        }
        self.code.push(IsaOp::Ret());
    }
}
/// The program and the data it starts from.
fn program(r: &mut Rng, enc: bool) -> (Vec<IsaOp>, Vec<u16>, u32) {
    let w = if r.chance(3, 4) { 8 } else { 16 };
    let n = (CELLS as u32 * w / 8) as usize;
    let mut data = vec![0u16; 80];
    for cell in 0..CELLS {
        let k = if enc && r.chance(1, 2) { 256 } else { 0 };
        for i in 0..w as usize / 8 {
            data[cell * w as usize / 8 + i] = k + value(r, 8) as u16;
        }
    }
    let _ = n;
    let heavy = if enc { 2 + r.below(if w == 8 { 9 } else { 4 }) } else { 1000 };
    let mut p = Prog { r, w, code: vec![], wide: [Some(true); 4], enc, heavy };
    p.start();
    p.body();
    let _ = p.enc;
    (p.code, data, w)
}

pub fn prog(a: &Args) {
    let mut r = Rng::new(a.seed);
    let w = Arc::new(World::new());
    watchdog(60);
    let mut t = Trace::new(&a.dir, a.shards);
    let mut c = w.computer(&mut r);
    for k in 0..a.n {
        let enc = k % 4 != 0;
        let (mut code, data, width) = program(&mut r, enc);
        let mut p = Prog { r: &mut r, w: width, code: vec![], wide: [None; 4], enc, heavy: 0 };
        p.end();
        code.extend(p.code);
        if k % 20 == 0 {
            c = w.computer(&mut r);
        }
        let g = Guest::new(&w, &mut t, &encode(&code), &data, 4096, 0, None);
        for _ in 0..1 + r.below(2) {
            g.call(&mut t, &mut c, g.entry(), &[], Ret::None, None);
        }
        t.sync();
    }
    t.finish(&a.dir, json!({"programs": a.n}));
}

/// Programs with one thing wrong, gas limits around what they need, and well-behaved calls after either.
pub fn faults(a: &Args) {
    let mut r = Rng::new(a.seed);
    let w = Arc::new(World::new());
    watchdog(60);
    let mut t = Trace::new(&a.dir, a.shards);
    let mut c = w.computer(&mut r);
    for k in 0..a.n {
        let enc = k % 3 == 0;
        let (mut code, mut data, width) = program(&mut r, enc);
        let mut p = Prog { r: &mut r, w: width, code: vec![], wide: [None; 4], enc, heavy: 0 };
        p.end();
        code.extend(p.code);
        let mut words = encode(&code);
        // an encrypted byte and an encrypted address to trip over
        data[40] = 256 + r.below(256) as u16;
        for b in &mut data[44..48] {
            *b += 256;
        }
        let bad = r.chance(4, 5);
        if bad {
            // after a prefix of the program, before whatever follows
            let at = 1 + r.below(words.len() - 1);
            let d = x(5);
            let ld = IsaOp::LoadI(x(30), DATA, 32);
            let ct = [ld, IsaOp::Load(x(31), x(30), 32, 44)];
            let n = |k: u32| IsaOp::LoadI(x(29), k, 32);
            let off = *r.pick(&[4096i32, -1, -4096, 0x10000, i32::MAX, i32::MIN, 1 << 30]);
            let seq: Vec<u64> = match r.below(18) {
                0 => encode(&[n(DATA), IsaOp::Load(d, x(29), 8, off)]),
                1 => encode(&[n(DATA), IsaOp::Store(x(29), x(20), 8, off)]),
                2 => encode(&[n(r.word() as u32), IsaOp::Load(d, x(29), 8 << r.below(5), r.word() as i32)]),
                3 => encode(&[n(DATA), IsaOp::Load(d, x(29), *r.pick(&[16, 32, 64, 128]), 1 + r.below(3) as i32)]),
                4 => encode(&[n(DATA), IsaOp::Store(x(29), d, 1 + r.below(128) as u32, r.below(16) as i32)]),
                5 => encode(&[n(DATA), IsaOp::Load(d, x(29), 1 + r.below(128) as u32, r.below(16) as i32)]),
                6 => encode(&[n(1), IsaOp::Add(d, x(29), x(13))]),
                7 => encode(&[n(1), IsaOp::Trunc(d, x(29), 33 + r.below(90) as u32)]),
                8 => encode(&[n(1), IsaOp::Zext(d, x(29), 1 + r.below(31) as u32)]),
                9 => encode(&[n(1), IsaOp::Cmux(d, x(29), x(5), x(5))]),
                10 => encode(&[ct[0], ct[1], IsaOp::BranchZero(x(31), 8)]),
                11 => encode(&[ct[0], ct[1], IsaOp::Load(d, x(31), 8, 0)]),
                12 => encode(&[ct[0], ct[1], IsaOp::Store(x(31), d, 8, 0)]),
                13 => encode(&[ld, IsaOp::Load(d, x(30), 32, 40)]),
                14 => encode(&[ld, IsaOp::Load(d, x(30), 128, 32)]),
                15 => vec![r.u64() & !0xFF | *r.pick(&[0u64, 2, 0x7F, 0xFF, 0xB3])],
                16 => encode(&[IsaOp::Branch(*r.pick(&[4i32, 1 << 20, DATA as i32 - TEXT as i32 + 40 - 8 * at as i32, i32::MIN, -(TEXT as i32), 8 * (words.len() - at) as i32]))]),
                _ => encode(&[IsaOp::LoadI(d, *r.pick(&[256u32, 0x8000, 0xFFFF_FF7F, 1 << 31]), 8)]),
            };
            words.splice(at..at, seq);
            // branches over the insertion now land elsewhere, possibly in the middle of it
        }
        if k % 10 == 0 {
            c = w.computer(&mut r);
        }
        let g = Guest::new(&w, &mut t, &words, &data, 4096, 0, None);
        // endless loops are stopped by the limit
        let cap = 2_000_000 + r.below(1000) as u32;
        let limit = match r.below(4) {
            0 => Some(r.below(60) as u32),
            1 => Some(100_000 * r.below(12) as u32 + r.below(80) as u32),
            _ => Some(cap),
        };
        for _ in 0..1 + r.below(2) {
            g.call(&mut t, &mut c, g.entry(), &[], Ret::None, if enc { limit } else { limit.map(|x| x.min(400)) });
        }
        t.sync();
        // the limit that is just enough, and the one that is not
        if !bad {
            let g = Guest::new(&w, &mut t, &words, &data, 4096, 0, None);
            if let Some(used) = g.used(&mut t, &mut c, g.entry()) {
                let g = Guest::new(&w, &mut t, &words, &data, 4096, 0, None);
                g.call(&mut t, &mut c, g.entry(), &[], Ret::None, Some(used));
                let g = Guest::new(&w, &mut t, &words, &data, 4096, 0, None);
                g.call(&mut t, &mut c, g.entry(), &[], Ret::None, Some(used - 1));
            }
            t.sync();
        }
    }
    t.finish(&a.dir, json!({"programs": a.n}));
}

/// Calls with random arguments and return values.
pub fn calls(a: &Args) {
    let mut r = Rng::new(a.seed);
    let w = Arc::new(World::new());
    watchdog(60);
    let mut t = Trace::new(&a.dir, a.shards);
    let mut c = w.computer(&mut r);
    for k in 0..a.n {
        if k % 20 == 0 {
            c = w.computer(&mut r);
        }
        let ret = *r.pick(&[
            Ret::None, Ret::U(1), Ret::U(2), Ret::U(4), Ret::U(8), Ret::U(16), Ret::I(1), Ret::I(2), Ret::I(4), Ret::I(8), Ret::I(16), Ret::E(1), Ret::E(2), Ret::E(4), Ret::E(8),
            Ret::E(32), Ret::EI(1), Ret::EI(2), Ret::EI(4), Ret::A3, Ret::EA,
        ]);
        let rn = match ret {
            Ret::None => 0,
            Ret::U(n) | Ret::I(n) | Ret::E(n) | Ret::EI(n) => n,
            Ret::A3 => 6,
            Ret::EA => 4,
        };
        let want_enc = matches!(ret, Ret::E(_) | Ret::EI(_) | Ret::EA);
        // one program, called with several argument lists of the same shape
        let shape: Vec<(usize, usize, bool, bool)> = (0..r.below(7))
            .map(|_| {
                let enc = r.chance(1, 3);
                match r.below(5) {
                    0 => { let al = 1usize << r.below(4); (al, al * (1 + r.below(5)), enc, false) }
                    1 if enc => (32, 32, true, true),
                    2 => (1, 1 + r.below(9), enc, false),
                    _ => { let n = 1usize << r.below(5); (n, n, enc, r.chance(3, 4)) }
                }
            })
            .collect();
        // where the arguments lie, to have the callee look there (what it finds there is judged by the specification)
        let mut at = 0usize;
        let mut code = vec![];
        let mut plain = vec![];
        let mut secret = vec![];
        for (al, n, enc, _) in &shape {
            at = at.next_multiple_of(*al);
            for j in 0..*n {
                if *enc { secret.push(at + j) } else { plain.push(at + j) };
            }
            let step = [1usize, 2, 4, 8, 16].into_iter().filter(|s| *s <= *al && *n % s == 0).max().unwrap();
            for j in (0..*n).step_by(step) {
                code.push(IsaOp::Load(x(5), x(2), 8 * step as u32, (at + j) as i32));
                code.push(IsaOp::Dbg(x(5), 0));
            }
            at += n;
        }
        code.push(IsaOp::Dbg(x(2), 1));
        if rn > 0 {
            code.push(IsaOp::Dbg(x(10), 1));
        }
        for reg in [0usize, 1, 3, 11, 63] {
            code.push(IsaOp::Dbg(x(reg), 1));
        }
        // return some of the arguments' bytes, now and then of the wrong kind
        let slip = r.chance(1, 10);
        for j in 0..rn {
            let from = if want_enc != (slip && r.chance(1, 2)) { &secret } else { &plain };
            if from.is_empty() {
                if want_enc {
                    continue;
                }
                code.push(IsaOp::LoadI(x(6), r.below(256) as u32, 8));
            } else {
                code.push(IsaOp::Load(x(6), x(2), 8, *r.pick(from) as i32));
            }
            code.push(IsaOp::Store(x(10), x(6), 8, j as i32));
        }
        code.push(IsaOp::Ret());
        let g = Guest::new(&w, &mut t, &encode(&code), &[], 4096, 256, None);
        for _ in 0..1 + r.below(3) {
            let args: Vec<A> = shape
                .iter()
                .map(|(al, n, enc, typed)| A { align: *al, bytes: (0..*n).map(|_| value(&mut r, 8) as u16 + if *enc { 256 } else { 0 }).collect(), typed: *typed })
                .collect();
            g.call(&mut t, &mut c, g.entry(), &args, ret, None);
        }
        t.sync();
    }
    t.finish(&a.dir, json!({"histories": a.n}));
}
