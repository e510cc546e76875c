//! T02: selectors (GGSW ciphertexts) and what they select.
use crate::hom::*;
use crate::*;
use sunscreen_tfhe::ops::bootstrapping::*;
use sunscreen_tfhe::ops::ciphertext as std_ops;
use sunscreen_tfhe::ops::encryption::*;
use sunscreen_tfhe::ops::fft_ops;

pub const G: usize = 6;
/// slots 0..G hold GLWE ciphertexts; 6 is the accumulator's old value; GLev rows go from 8 on
pub struct Sel<S: TorusOps> {
    pub g: Gp,
    pub rx: RadixDecomposition,
    pub fft_ok: bool,
    pub sk: GlweSecretKey<S>,
    pub gs: Vec<GlweCiphertext<S>>,
    /// selector slots; the message's norm decides the budget
    pub sels: Vec<GgswCiphertext<S>>,
    pub ffts: Vec<GgswCiphertextFft<C>>,
}


impl<S: TorusOps> Sel<S> {
    pub fn new(cx: &mut Cx, n: usize, k: usize, s: Option<i32>, full: bool) -> Self {
        let g = gp::<S>(n, k, s);
        let rx = some_radix::<S>(cx.r, full);
        let sk = GlweSecretKey::generate_binary(&g.def);
        let mut me = Sel { g, rx, fft_ok: n >= 16, sk, gs: vec![], sels: vec![], ffts: vec![] };
        for d in 0..G {
            me.gs.push(GlweCiphertext::new(&g.def));
            me.fresh(cx, d);
        }
        for d in 0..3 {
            me.sels.push(GgswCiphertext::new(&g.def, &rx));
            if me.fft_ok { me.ffts.push(GgswCiphertextFft::new(&g.def, &rx)); }
            me.selector(cx, d);
        }
        me
    }
    pub fn fresh(&mut self, cx: &mut Cx, d: usize) {
        let g = self.g;
        let p = 1 + cx.r.below(8) as u32;
        let m = messages::<S>(cx.r, g.n, p);
        encrypt_glwe_ciphertext_secret(&mut self.gs[d], &tpoly(&encode_all(&m, p)), &self.sk, &g.def);
        self.log_enc(cx, d, &m, p, &self.gs[d]);
    }
    pub fn log_enc(&self, cx: &mut Cx, d: usize, m: &[S], p: u32, ct: &GlweCiphertextRef<S>) {
        cx.ev(json!({"ev": "enc", "kept": 1, "d": d, "m": vec_w(m), "p": p, "cnt": 1, "s": sj(self.g.s), "v": vec_w(&gphase(ct, &self.sk, &self.g))}));
    }
    /// a selector for a bit or a small polynomial
    pub fn selector(&mut self, cx: &mut Cx, d: usize) {
        let g = self.g;
        let bits = 1 + cx.r.below(4) as u32;
        let scalar = cx.r.chance(1, 2);
        let m: Vec<S> = if scalar {
            let v = if cx.r.chance(2, 3) { S::from_u64(cx.r.u64() & 1) } else { msg(cx.r, bits) };
            (0..g.n).map(|j| if j == 0 { v } else { S::from_u64(0) }).collect()
        } else if cx.r.chance(1, 2) {
            let at = cx.r.below(g.n);
            (0..g.n).map(|j| S::from_u64((j == at) as u64)).collect()
        } else {
            messages(cx.r, g.n, bits)
        };
        for _ in 0..cx.reps {
            junk(cx.r, &mut *self.sels[d]);
            if scalar {
                encrypt_ggsw_ciphertext_scalar(&mut self.sels[d], m[0], &self.sk, &g.def, &self.rx, PlaintextBits(bits));
            } else {
                encrypt_ggsw_ciphertext(&mut self.sels[d], &poly(&m), &self.sk, &g.def, &self.rx, PlaintextBits(bits));
            }
            let log = self.rx.radix_log.0 as i64;
            let fits = m.iter().all(|x| log >= 63 || x.to_u64() < 1u64 << log);
            let got = if fits && g.s.is_none_or(|s| (s as i64) + 6 < S::BITS as i64 - log - 1) {
                let mut o = tpoly(&m);
                junk(cx.r, &mut *o);
                decrypt_ggsw_ciphertext(&mut o, &self.sels[d], &self.sk, &g.def, &self.rx);
                vec_w(&ints(&o))
            } else {
                json!([])
            };
            if self.fft_ok {
                junkc(cx.r, &mut *self.ffts[d]);
                let before = digest(&*self.sels[d]);
                self.sels[d].fft(&mut self.ffts[d], &g.def, &self.rx);
                assert_eq!(before, digest(&*self.sels[d]));
            }
            cx.ev(json!({"ev": "sel", "kept": 1, "d": d, "m": vec_w(&m), "m1": norm_log(&m), "s": sj(g.s), "got": got}));
        }
    }
    fn other(&self, cx: &mut Cx, not: &[usize]) -> usize {
        loop {
            let d = cx.r.below(G);
            if !not.contains(&d) { return d; }
        }
    }
    pub fn out(&self, cx: &mut Cx, d: usize) -> GlweCiphertext<S> {
        let mut o = self.gs[d].clone();
        junk(cx.r, &mut *o);
        o
    }
    pub fn phase(&self, o: &GlweCiphertextRef<S>) -> Value {
        vec_w(&gphase(o, &self.sk, &self.g))
    }
    pub fn step(&mut self, cx: &mut Cx) {
        let g = self.g;
        let (a, b) = (cx.r.below(G), cx.r.below(G));
        let d = self.other(cx, &[a, b]);
        let s = cx.r.below(self.sels.len());
        let std = par(g.n, g.k, &self.rx, false);
        let fft = par(g.n, g.k, &self.rx, true);
        match cx.r.below(if self.fft_ok { 12 } else { 5 }) {
            0 => self.fresh(cx, d),
            1 => self.selector(cx, s),
            2 | 3 => for rep in 0..cx.reps {
                let before = (digest(&*self.sels[s]), digest(&*self.gs[a]));
                let o = std_ops::external_product_ggsw_glwe(&self.sels[s], &self.gs[a], &g.def, &self.rx);
                let kept = before == (digest(&*self.sels[s]), digest(&*self.gs[a]));
                let v = self.phase(&o);
                cx.ev(json!({"ev": "xprod", "kept": kept as u8, "d": d, "a": a, "sel": s, "x": std, "v": v}));
                if rep + 1 == cx.reps { self.gs[d] = o.clone() }
            },
            4 => self.accumulate(cx, d, a, s, false, &std),
            5 => self.accumulate(cx, d, a, s, true, &fft),
            6..=8 => for _ in 0..cx.reps {
                let mut o = self.out(cx, d);
                let before = (digest(&*self.ffts[s]), digest(&*self.gs[a]), digest(&*self.gs[b]));
                fft_ops::cmux(&mut o, &self.gs[a], &self.gs[b], &self.ffts[s], &g.def, &self.rx);
                let kept = before == (digest(&*self.ffts[s]), digest(&*self.gs[a]), digest(&*self.gs[b]));
                let v = self.phase(&o);
                cx.ev(json!({"ev": "cmux", "kept": kept as u8, "d": d, "a": a, "b": b, "sel": s, "x": fft, "v": v}));
                self.gs[d] = o;
            },
            9 => self.glev(cx, s, &fft),
            10 => self.rotate(cx, d, a, &fft),
            _ => {
                // there and back through the Fourier domain
                let mut o = GgswCiphertext::new(&g.def, &self.rx);
                junk(cx.r, &mut *o);
                self.ffts[s].ifft(&mut o, &g.def, &self.rx);
                let v = std_ops::external_product_ggsw_glwe(&o, &self.gs[a], &g.def, &self.rx);
                let ph = self.phase(&v);
                cx.ev(json!({"ev": "xprod", "kept": 1, "d": d, "a": a, "sel": s, "x": fft, "v": ph}));
                self.gs[d] = v;
            }
        }
    }
    fn accumulate(&mut self, cx: &mut Cx, d: usize, a: usize, s: usize, fft: bool, x: &Value) {
        let g = self.g;
        let start = self.gs[d].clone();
        let ph = self.phase(&start);
        cx.ev(json!({"ev": "lin", "kept": 1, "op": "same", "d": 6, "c": d, "a": d, "b": d, "k": 0, "s": [], "p": [], "v": ph}));
        for _ in 0..cx.reps {
            let mut o = start.clone();
            let before = (digest(&*self.sels[s]), digest(&*self.gs[a]));
            if fft {
                let mut acc = GlweCiphertextFft::new(&g.def);
                junkc(cx.r, &mut *acc);
                start.fft(&mut acc, &g.def);
                fft_ops::glwe_ggsw_mad(&mut acc, &self.gs[a], &self.ffts[s], &g.def, &self.rx);
                junk(cx.r, &mut *o);
                acc.ifft(&mut o, &g.def);
            } else {
                std_ops::glwe_ggsw_mad(&mut o, &self.gs[a], &self.sels[s], &g.def, &self.rx);
            }
            let kept = before == (digest(&*self.sels[s]), digest(&*self.gs[a]));
            let v = self.phase(&o);
            cx.ev(json!({"ev": "xmad", "kept": kept as u8, "d": d, "c": 6, "a": a, "sel": s, "x": x, "v": v}));
            self.gs[d] = o;
        }
    }
    /// multiplexing GLev ciphertexts: row by row
    fn glev(&mut self, cx: &mut Cx, s: usize, x: &Value) {
        let g = self.g;
        let rx = radix(1 + cx.r.below(3), 1 + cx.r.below(5));
        let mut two = vec![];
        for side in 0..2 {
            let m = messages::<S>(cx.r, g.n, 1);
            let mut c = GlevCiphertext::<S>::new(&g.def, &rx);
            junk(cx.r, &mut *c);
            if side == 0 || cx.r.chance(1, 2) {
                encrypt_secret_glev_ciphertext(&mut c, poly(&m).as_torus(), &self.sk, &g.def, &rx);
            } else {
                trivially_encrypt_glev_ciphertext(&mut c, poly(&m).as_torus(), &g.def, &rx);
            }
            for (j, row) in c.glwe_ciphertexts(&g.def).enumerate() {
                self.log_enc(cx, 8 + 3 * side + j, &m, (rx.radix_log.0 * (j + 1)) as u32, row);
            }
            two.push(c);
        }
        let mut o = GlevCiphertext::<S>::new(&g.def, &rx);
        for _ in 0..cx.reps {
            junk(cx.r, &mut *o);
            let before = (digest(&*two[0]), digest(&*two[1]), digest(&*self.ffts[s]));
            fft_ops::glev_cmux(&mut o, &two[0], &two[1], &self.ffts[s], &g.def, &self.rx);
            let kept = before == (digest(&*two[0]), digest(&*two[1]), digest(&*self.ffts[s]));
            for (j, row) in o.glwe_ciphertexts(&g.def).enumerate() {
                let v = self.phase(row);
                cx.ev(json!({"ev": "cmux", "kept": kept as u8, "d": 7, "a": 8 + j, "b": 11 + j, "sel": s, "x": x, "v": v}));
            }
        }
    }
    fn rotate(&mut self, cx: &mut Cx, d: usize, a: usize, x: &Value) {
        let g = self.g;
        let k = cx.r.below(g.n);
        let mut shift = BlindRotationShiftFft::new(&g.def, &self.rx);
        junkc(cx.r, &mut *shift);
        generate_blind_rotation_shift(&mut shift, k, &self.sk, &g.def, &self.rx, PlaintextBits(1));
        for _ in 0..cx.reps {
            let mut o = self.out(cx, d);
            let before = (digest(&*shift), digest(&*self.gs[a]));
            blind_rotation(&mut o, &shift, &self.gs[a], &g.def, &self.rx);
            let kept = before == (digest(&*shift), digest(&*self.gs[a]));
            let v = self.phase(&o);
            cx.ev(json!({"ev": "brot", "kept": kept as u8, "d": d, "a": a, "k": k, "s": sj(g.s), "x": x, "v": v}));
            self.gs[d] = o;
        }
    }
    /// An unencrypted selector with unencrypted data.
    pub fn trivial(&mut self, cx: &mut Cx) {
        let g = self.g;
        let bits = 1 + cx.r.below(4) as u32;
        let m = messages::<S>(cx.r, g.n, bits);
        let s = self.sels.len() - 1;
        junk(cx.r, &mut *self.sels[s]);
        trivially_encrypt_ggsw_ciphertext(&mut self.sels[s], &poly(&m), &g.def, &self.rx, PlaintextBits(bits));
        cx.ev(json!({"ev": "sel", "kept": 1, "d": s, "m": vec_w(&m), "m1": norm_log(&m), "s": -1, "got": []}));
        let p = 1 + cx.r.below(8) as u32;
        let t = messages::<S>(cx.r, g.n, p);
        trivially_encrypt_glwe_ciphertext(&mut self.gs[0], &tpoly(&encode_all(&t, p)), &g.def);
        cx.ev(json!({"ev": "enc", "kept": 1, "d": 0, "m": vec_w(&t), "p": p, "cnt": 1, "s": -1, "v": self.phase(&self.gs[0])}));
        let o = std_ops::external_product_ggsw_glwe(&self.sels[s], &self.gs[0], &g.def, &self.rx);
        cx.ev(json!({"ev": "xprod", "kept": 1, "d": 1, "a": 0, "sel": s, "x": par(g.n, g.k, &self.rx, false), "v": self.phase(&o)}));
        self.gs[1] = o.clone();
        self.selector(cx, s);
    }
}

pub fn history<S: TorusOps>(cx: &mut Cx, big: bool, steps: usize) {
    let n = if big { 128 << cx.r.below(4) } else { 1usize << cx.r.below(7) };
    let k = 1 + cx.r.below(3);
    let most = if S::BITS == 64 { 30 } else { 8 };
    let s = if cx.r.chance(1, 3) { None } else { Some(cx.r.below(most) as i32) };
    let full = cx.r.chance(1, 3);
    cx.tr.begin(json!({"ev": "reset", "kept": 1, "bits": S::BITS, "n": n, "k": k, "noise": sj(s)}));
    let mut h = Sel::<S>::new(cx, n, k, s, full);
    for _ in 0..steps {
        h.step(cx);
    }
    h.trivial(cx);
}
pub fn run(a: &Args) {
    let mut rng = Rng::new(a.seed ^ 0x20);
    let mut tr = Trace::new(&a.dir, a.shards);
    for i in 0..a.n {
        let mut r = rng.fork();
        sunscreen_tfhe::verif::set_simd_cap((i % 3) as u8);
        let mut cx = Cx { tr: &mut tr, r: &mut r, reps: 1 };
        if i % 8 == 7 { hl::history(&mut cx, "sel", 6); continue; }
        // some at the degrees real parameters have
        let big = i % 32 == i / 32 % 7;
        let steps = if big { 5 } else { 16 };
        if i % 3 == 2 { history::<u32>(&mut cx, big, steps) } else { history::<u64>(&mut cx, big, steps) }
    }
    tr.finish(&a.dir, json!({}));
}
