//! T03: programmable bootstrapping.
use crate::hom::*;
use crate::*;
use sunscreen_tfhe::ops::bootstrapping::*;
use sunscreen_tfhe::ops::ciphertext as std_ops;
use sunscreen_tfhe::ops::encryption::*;
use sunscreen_tfhe::ops::keyswitch::lwe_keyswitch::*;
use sunscreen_tfhe::ops::keyswitch::lwe_keyswitch_key::*;

const N_IN: usize = 8;
/// slots 0..8: inputs under the small key; 15: an output under the extracted key
pub struct Pbs<S: TorusOps> {
    g: Gp,
    l: LweDef,
    lx: LweDef,
    s0: Option<i32>,
    s1: Option<i32>,
    rx: RadixDecomposition,
    rk: RadixDecomposition,
    lsk: LweSecretKey<S>,
    gsk: GlweSecretKey<S>,
    bsk: BootstrapKeyFft<C>,
    ksk: LweKeyswitchKey<S>,
    ins: Vec<LweCiphertext<S>>,
    /// size of table messages
    p: u32,
}
/// digits covering enough of the word for the table's entries to survive
pub fn fine_radix<S: TorusOps>(r: &mut Rng) -> RadixDecomposition {
    let (c, l) = *if S::BITS == 64 { r.pick(&[(3, 7), (4, 6), (2, 11), (5, 5), (9, 3), (2, 16), (1, 24)]) } else { r.pick(&[(3, 8), (4, 6), (5, 5), (6, 5), (3, 10), (2, 12)]) };
    radix(c, l)
}
fn ring<S: TorusOps>(x: i128) -> S {
    S::from_u64(x as u64)
}


impl<S: TorusOps> Pbs<S> {
    pub fn new(cx: &mut Cx, n: usize, k: usize, dim: usize, s0: Option<i32>, s1: Option<i32>, p: u32) -> Self {
        let g = gp::<S>(n, k, s1);
        let l = lwe_def::<S>(dim, s0);
        let lx = g.def.as_lwe_def();
        let (rx, rk) = (fine_radix::<S>(cx.r), fine_radix::<S>(cx.r));
        let lsk = LweSecretKey::generate_binary(&l);
        let gsk = GlweSecretKey::generate_binary(&g.def);
        let mut bsk = BootstrapKey::<S>::new(&l, &g.def, &rx);
        junk(cx.r, &mut *bsk);
        generate_bootstrap_key(&mut bsk, &lsk, &gsk, &l, &g.def, &rx);
        let mut fft = BootstrapKeyFft::new(&l, &g.def, &rx);
        junkc(cx.r, &mut *fft);
        bsk.fft(&mut fft, &l, &g.def, &rx);
        let mut ksk = LweKeyswitchKey::<S>::new(&lx, &l, &rk);
        junk(cx.r, &mut *ksk);
        generate_keyswitch_key_lwe(&mut ksk, gsk.to_lwe_secret_key(), &lsk, &lx, &l, &rk);
        let mut me = Pbs { g, l, lx, s0, s1, rx, rk, lsk, gsk, bsk: fft, ksk, ins: vec![], p };
        for d in 0..N_IN {
            me.ins.push(LweCiphertext::new(&me.l));
            me.fresh(cx, d, p + 1);
        }
        me
    }
    fn log_same(&self, cx: &mut Cx, d: usize) {
        // a ciphertext as some history may have left it: whatever its phase is
        let v = lphase(&self.ins[d], &self.lsk, &self.l);
        cx.ev(json!({"ev": "given", "kept": 1, "d": d, "v": [w(v)]}));
    }
    fn fresh(&mut self, cx: &mut Cx, d: usize, bits: u32) {
        let m = if cx.r.chance(3, 4) { msg::<S>(cx.r, bits - 1) } else { msg::<S>(cx.r, bits) };
        junk(cx.r, &mut *self.ins[d]);
        encode_and_encrypt_lwe_ciphertext(&mut self.ins[d], &self.lsk, m, &self.l, PlaintextBits(bits));
        let v = lphase(&self.ins[d], &self.lsk, &self.l);
        cx.ev(json!({"ev": "enc", "kept": 1, "d": d, "m": [w(m)], "p": bits, "cnt": 1, "s": sj(self.s0), "v": [w(v)]}));
    }
    /// how many words of the input the modulus switch rounds, as far as the secret sees them
    fn masks(&self, ct: &LweCiphertextRef<S>, lc: u32, lv: u32) -> usize {
        let (a, b) = ct.a_b(&self.l);
        let off = |x: &Torus<S>| ((x.inner().to_u64() as u128) << lc) % (1u128 << self.step_log(lv)) != 0;
        a.iter().zip(self.lsk.s()).filter(|(a, s)| off(a) && !num::Zero::is_zero(*s)).count() + off(b) as usize
    }
    fn step_log(&self, lv: u32) -> u32 {
        S::BITS - (self.g.n.ilog2() + 1) + lv
    }
    fn edge(&mut self, cx: &mut Cx, d: usize, p: u32, lc: u32, lv: u32, quarter: bool) {
        let step = self.step_log(lv);
        let one = 1i128 << step;
        let frac = *cx.r.pick(&[0i128, 0, one / 2 - 1, one / 2, one / 2 + 1, one - 1, one / 4]);
        let zero = cx.r.chance(1, 3);
        let mix = cx.r.chance(1, 4);
        let mut ct = LweCiphertext::<S>::new(&self.l);
        let mut sum = S::from_u64(0);
        let mut h = 0;
        {
            let (a, _) = ct.a_b_mut(&self.l);
            for (a, s) in a.iter_mut().zip(self.lsk.s()) {
                let f = if mix { cx.r.u64() as i128 % one } else { frac };
                let x: S = if zero || cx.r.chance(1, 8) { S::from_u64(0) } else { ring(((cx.r.u64() as i128) << step).wrapping_add(f) >> lc) };
                *a = Torus::from(x);
                sum = sum.wrapping_add(&x.wrapping_mul(s));
                if !num::Zero::is_zero(s) && ((x.to_u64() as i128) << lc) % one != 0 { h += 1 }
            }
        }
        let slot = S::BITS - p - 1;
        // largest error that is still certain
        let half = 1i128 << (slot - 1);
        let reach = (half - ((h + 1) * one) / 2 - 1).max(0);
        let m = cx.r.u64() as i128 & ((2i128 << p) - 1);
        let still = (half - h * one / 2 - 1).max(0) / one * one;
        let e = match cx.r.below(if frac == 0 { 7 } else { 4 }) { 4 => still, 5 => -still, 6 => 0, 0 => reach, 1 => -reach, 2 => cx.r.range(-(1 << 20), 1 << 20) as i128, _ => (cx.r.u64() as i128) % (2 * reach + 1) - reach };
        let mut x = (m << slot) + e;
        if quarter { x += 1i128 << (S::BITS - 2) }
        let bits = S::BITS as i128;
        let x = (x.rem_euclid(1i128 << bits) >> lc) + if lc > 0 { (cx.r.u64() as i128) << (bits - lc as i128) } else { 0 };
        let b: S = ring::<S>(x.rem_euclid(1i128 << bits)).wrapping_add(&sum);
        *ct.a_b_mut(&self.l).1 = Torus::from(b);
        self.ins[d] = ct;
        self.log_same(cx, d);
    }
    fn read(&self, x: S, p: u32, lc: u32, lv: u32, h: usize) -> (u64, bool) {
        read(x, p, lc, lv, h, self.g.n)
    }
    fn table(&self, cx: &mut Cx, p: u32, low: bool) -> Vec<u64> {
        let top = if low && p > 0 { 1u64 << (p - 1) } else { 1 << p };
        let style = cx.r.below(4);
        (0..1u64 << p).map(|x| match style {
            0 => x % top,
            1 => top - 1 - x % top,
            _ => cx.r.u64() % top,
        }).collect()
    }
    fn params(&self) -> Value {
        par(self.g.n, self.g.k, &self.rx, true)
    }
    pub fn step(&mut self, cx: &mut Cx) {
        let d = cx.r.below(N_IN);
        match cx.r.below(10) {
            0 => { let p = self.p; self.fresh(cx, d, p + 1) }
            1 => {
                let (a, b) = (cx.r.below(N_IN), cx.r.below(N_IN));
                let o = &*self.ins[a] + &*self.ins[b];
                let v = lphase(&o, &self.lsk, &self.l);
                cx.ev(json!({"ev": "lin", "kept": 1, "op": "add", "d": d, "c": d, "a": a, "b": b, "k": 0, "s": [], "p": [], "v": [w(v)]}));
                self.ins[d] = o;
            }
            2..=5 => self.uni(cx, d),
            6 | 7 => self.multi(cx, d),
            8 => self.bi(cx),
            _ => self.constant(cx, d),
        }
    }
    fn some_input(&mut self, cx: &mut Cx, d: usize, p: u32, lc: u32, lv: u32, quarter: bool) {
        if cx.r.chance(2, 3) { self.edge(cx, d, p, lc, lv, quarter) }
    }
    fn uni(&mut self, cx: &mut Cx, d: usize) {
        let p = self.p;
        self.some_input(cx, d, p, 0, 0, false);
        let chain = cx.r.chance(1, 3);
        let t = self.table(cx, p, chain);
        let mut lut = UnivariateLookupTable::<S>::trivial_from_fn(|x| t[x as usize], &self.g.def, PlaintextBits(p));
        if cx.r.chance(1, 2) {
            junk(cx.r, &mut *lut);
            lut.fill_trivial_from_fns(&[|x: u64| t[x as usize]], &self.g.def, PlaintextBits(p));
        }
        let h = self.masks(&self.ins[d], 0, 0);
        let (m, sure) = self.read(lphase(&self.ins[d], &self.lsk, &self.l), p, 0, 0, h);
        let mut o = LweCiphertext::<S>::new(&self.lx);
        for _ in 0..cx.reps {
            junk(cx.r, &mut *o);
            let before = (digest(&*lut), digest(&*self.bsk), digest(&*self.ins[d]));
            programmable_bootstrap_univariate(&mut o, &self.ins[d], &lut, &self.bsk, &self.l, &self.g.def, &self.rx);
            let kept = before == (digest(&*lut), digest(&*self.bsk), digest(&*self.ins[d]));
            let v = lphase(&o, self.gsk.to_lwe_secret_key(), &self.lx);
            cx.ev(json!({"ev": "pbs", "kept": kept as u8, "d": 15, "a": d, "p": p, "lc": 0, "lv": 0, "m": m, "h": h, "cm": self.l.dim.0, "certain": sure as u8,
                "tables": [t.iter().map(|x| w(S::from_u64(*x))).collect::<Vec<_>>()], "s": sj(self.s1), "x": self.params(), "v": [w(v)]}));
        }
        if chain {
            // back under the small key, as an input of further steps
            let d = cx.r.below(N_IN);
            junk(cx.r, &mut *self.ins[d]);
            keyswitch_lwe_to_lwe(&mut self.ins[d], &o, &self.ksk, &self.lx, &self.l, &self.rk);
            let v = lphase(&self.ins[d], &self.lsk, &self.l);
            cx.ev(json!({"ev": "switch", "kept": 1, "d": d, "a": 15, "s": sj(self.s0), "x": par(self.lx.dim.0, 1, &self.rk, false), "v": [w(v)]}));
        }
    }
    fn multi(&mut self, cx: &mut Cx, d: usize) {
        let stride = |p: u32| self.g.n >> p;
        let p = 1 + cx.r.below(self.p as usize) as u32;
        let v = 1 + cx.r.below(6);
        let lv = v.next_power_of_two().ilog2();
        // the tables are interleaved, and turned by half a slot
        if lv > 0 && stride(p) < 2 << lv { return }
        let lc = if cx.r.chance(1, 2) { cx.r.below(4) as u32 } else { 0 };
        self.edge(cx, d, p, lc, lv, false);
        let ts: Vec<Vec<u64>> = (0..v).map(|_| self.table(cx, p, false)).collect();
        let maps: Vec<_> = ts.iter().map(|t| move |x: u64| t[x as usize]).collect();
        let lut = if v == 1 { UnivariateLookupTable::<S>::trivial_from_fn(&maps[0], &self.g.def, PlaintextBits(p)) }
            else { UnivariateLookupTable::<S>::trivivial_multifunctional(&maps, &self.g.def, PlaintextBits(p)) };
        let h = self.masks(&self.ins[d], lc, lv);
        let (m, sure) = self.read(lphase(&self.ins[d], &self.lsk, &self.l), p, lc, lv, h);
        for _ in 0..cx.reps {
            let mut o = GlweCiphertext::<S>::new(&self.g.def);
            junk(cx.r, &mut *o);
            let before = (digest(&*lut), digest(&*self.bsk), digest(&*self.ins[d]));
            generalized_programmable_bootstrap(&mut o, &self.ins[d], &lut, &self.bsk, lc, lv, &self.l, &self.g.def, &self.rx);
            let kept = before == (digest(&*lut), digest(&*self.bsk), digest(&*self.ins[d]));
            let ph = gphase(&o, &self.gsk, &self.g);
            cx.ev(json!({"ev": "pbs", "kept": kept as u8, "d": 15, "a": d, "p": p, "lc": lc, "lv": lv, "m": m, "h": h, "cm": self.l.dim.0, "certain": sure as u8,
                "tables": ts.iter().map(|t| t.iter().map(|x| w(S::from_u64(*x))).collect::<Vec<_>>()).collect::<Vec<_>>(),
                "s": sj(self.s1), "x": self.params(), "v": vec_w(&ph[..v])}));
        }
    }
    fn bi(&mut self, cx: &mut Cx) {
        let half = self.p / 2;
        if half == 0 { return }
        let pw = 1 + cx.r.below(half as usize) as u32;
        let p = pw + pw + cx.r.below((self.p - 2 * pw) as usize + 1) as u32;
        let (a, b) = (cx.r.below(N_IN), cx.r.below(N_IN));
        if a == b { return }
        for d in [a, b] {
            let m = msg::<S>(cx.r, pw);
            encode_and_encrypt_lwe_ciphertext(&mut self.ins[d], &self.lsk, m, &self.l, PlaintextBits(p + 1));
            let v = lphase(&self.ins[d], &self.lsk, &self.l);
            cx.ev(json!({"ev": "enc", "kept": 1, "d": d, "m": [w(m)], "p": p + 1, "cnt": 1, "s": sj(self.s0), "v": [w(v)]}));
        }
        let z = 1u64 << pw;
        let t: Vec<Vec<u64>> = (0..z).map(|_| (0..z).map(|_| cx.r.u64() % z).collect()).collect();
        let lut = BivariateLookupTable::<S>::trivial_from_fn(|x, y| t[x as usize][y as usize], &self.g.def, PlaintextBits(pw), CarryBits(p - pw));
        let pa = lphase(&self.ins[a], &self.lsk, &self.l);
        let pb = lphase(&self.ins[b], &self.lsk, &self.l);
        let x = pa.wrapping_mul(&S::from_u64(z)).wrapping_add(&pb);
        let h = self.l.dim.0 + 1;
        let (m, sure) = self.read(x, p, 0, 0, h);
        for _ in 0..cx.reps {
            let mut o = LweCiphertext::<S>::new(&self.lx);
            junk(cx.r, &mut *o);
            let before = (digest(lut.as_univariate()), digest(&*self.bsk), digest(&*self.ins[a]), digest(&*self.ins[b]));
            programmable_bootstrap_bivariate(&mut o, &self.ins[a], &self.ins[b], &lut, &self.bsk, &self.l, &self.g.def, PlaintextBits(pw), &self.rx);
            let kept = before == (digest(lut.as_univariate()), digest(&*self.bsk), digest(&*self.ins[a]), digest(&*self.ins[b]));
            let v = lphase(&o, self.gsk.to_lwe_secret_key(), &self.lx);
            cx.ev(json!({"ev": "pbs2", "kept": kept as u8, "d": 15, "a": a, "b": b, "w": pw, "p": p, "lc": 0, "lv": 0, "m": m, "h": h, "cm": self.l.dim.0, "certain": sure as u8,
                "table": t.iter().map(|t| t.iter().map(|x| w(S::from_u64(*x))).collect::<Vec<_>>()).collect::<Vec<_>>(), "s": sj(self.s1), "x": self.params(), "v": [w(v)]}));
        }
    }
    fn constant(&mut self, cx: &mut Cx, d: usize) {
        let lv = cx.r.below(3) as u32;
        self.edge(cx, d, 0, 0, lv, true);
        let vp = 1 + cx.r.below(12) as u32;
        let val = msg::<S>(cx.r, vp);
        let mut lut = UnivariateLookupTable::<S>::trivial_from_fn(|_| 0, &self.g.def, PlaintextBits(1));
        junk(cx.r, &mut *lut);
        lut.fill_with_constant(val, &self.g.def, PlaintextBits(vp));
        let h = self.masks(&self.ins[d], 0, lv);
        let quarter = S::from_u64(1u64 << (S::BITS - 2));
        let (m, sure) = self.read(lphase(&self.ins[d], &self.lsk, &self.l).wrapping_sub(&quarter), 0, 0, lv, h);
        for _ in 0..cx.reps {
            let mut o = GlweCiphertext::<S>::new(&self.g.def);
            junk(cx.r, &mut *o);
            generalized_programmable_bootstrap(&mut o, &self.ins[d], &lut, &self.bsk, 0, lv, &self.l, &self.g.def, &self.rx);
            let mut x = LweCiphertext::<S>::new(&self.lx);
            junk(cx.r, &mut *x);
            std_ops::sample_extract(&mut x, &o, 0, &self.g.def);
            let v = lphase(&x, self.gsk.to_lwe_secret_key(), &self.lx);
            cx.ev(json!({"ev": "pbsconst", "kept": 1, "d": 15, "a": d, "p": 0, "lc": 0, "lv": lv, "m": m, "h": h, "cm": self.l.dim.0, "certain": sure as u8,
                "val": w(val), "vp": vp, "s": sj(self.s1), "x": self.params(), "v": [w(v)]}));
        }
    }
}

pub fn history<S: TorusOps>(cx: &mut Cx, big: bool, steps: usize) {
    let n = if big { 512usize << cx.r.below(3) } else { 16usize << cx.r.below(5) };
    let k = 1 + cx.r.below(2);
    // up to a table with a slot for every place; some of the others are wider than the roundings of the masks
    let p = 1 + cx.r.below(n.ilog2() as usize) as u32;
    let room = n >> p;
    let dim = 1 + cx.r.below(room.clamp(1, 10));
    let most = if S::BITS == 64 { 28 } else { 4 };
    let s0 = if cx.r.chance(1, 3) { None } else { Some(cx.r.below(most) as i32) };
    let s1 = if cx.r.chance(1, 3) { None } else { Some(cx.r.below(most) as i32) };
    cx.tr.begin(json!({"ev": "reset", "kept": 1, "bits": S::BITS, "n": n, "k": k, "dim": dim, "noise": [sj(s0), sj(s1)]}));
    let mut h = Pbs::<S>::new(cx, n, k, dim, s0, s1, p);
    for _ in 0..steps {
        h.step(cx);
    }
}
pub fn run(a: &Args) {
    let mut rng = Rng::new(a.seed ^ 0x30);
    let mut tr = Trace::new(&a.dir, a.shards);
    for i in 0..a.n {
        let mut r = rng.fork();
        sunscreen_tfhe::verif::set_simd_cap((i % 3) as u8);
        let mut cx = Cx { tr: &mut tr, r: &mut r, reps: 1 };
        if i % 8 == 7 { hl::history(&mut cx, "pbs", 4); continue; }
        // some at the degrees real parameters have
        let big = i % 32 == i / 32 % 7;
        let steps = if big { 8 } else { 20 };
        if i % 3 == 2 { history::<u32>(&mut cx, big, steps) } else { history::<u64>(&mut cx, big, steps) }
    }
    tr.finish(&a.dir, json!({}));
}
