//! The convenience layer (64-bit words, owned results) over the same operations, for T01..T05.
use crate::hom::*;
use crate::*;
use sunscreen_tfhe::high_level::{encryption::*, encryption, evaluation, fft, keygen};

const D: usize = 4;
/// slots 0..4: GLWE; 4..8: LWE under the extracted key; 8..12: LWE under the small key; 12..15
/// in between
pub struct Hl {
    g: Gp,
    l: LweDef,
    lx: LweDef,
    s: Option<i32>,
    rx: RadixDecomposition,
    lsk: LweSecretKey<u64>,
    sk: GlweSecretKey<u64>,
    gs: Vec<GlweCiphertext<u64>>,
    ls: [Vec<LweCiphertext<u64>>; 2],
    lpk: LwePublicKey<u64>,
    rpk: Option<RlwePublicKey<u64>>,
}

impl Hl {
    pub fn new(cx: &mut Cx) -> Self {
        let n = 16usize << cx.r.below(3);
        let k = 1 + cx.r.below(2);
        let dim = 1 + cx.r.below(6);
        let s = if cx.r.chance(1, 3) { None } else { Some(cx.r.below(16) as i32) };
        cx.tr.begin(json!({"ev": "reset", "kept": 1, "bits": 64, "n": n, "k": k, "dim": dim, "noise": sj(s)}));
        let g = gp::<u64>(n, k, s);
        let l = lwe_def::<u64>(dim, s);
        let (c, lg) = *cx.r.pick(&[(7, 7), (10, 5), (12, 4), (5, 10)]);
        let lsk = keygen::generate_binary_lwe_sk(&l);
        let sk = keygen::generate_binary_glwe_sk(&g.def);
        let lpk = keygen::generate_lwe_pk(&lsk, &l);
        let rpk = (k == 1).then(|| keygen::generate_rlwe_public_key(&sk, &g.def));
        let mut me = Hl { g, l, lx: g.def.as_lwe_def(), s, rx: radix(c, lg), lsk, sk, gs: vec![], ls: [vec![], vec![]], lpk, rpk };
        for d in 0..D {
            me.gs.push(trivial_glwe(&poly(&vec![0; n]), &g.def, PlaintextBits(1)));
            me.ls[0].push(trivial_lwe(0, &me.lx, PlaintextBits(1)));
            me.ls[1].push(trivial_lwe(0, &l, PlaintextBits(1)));
            me.genc(cx, d, false);
            me.lenc(cx, 0, d);
            me.lenc(cx, 1, d);
        }
        me
    }
    fn key(&self, side: usize) -> (&LweSecretKeyRef<u64>, LweDef) {
        if side == 0 { (self.sk.to_lwe_secret_key(), self.lx) } else { (&self.lsk, self.l) }
    }
    fn genc(&mut self, cx: &mut Cx, d: usize, binary: bool) -> Vec<u64> {
        let g = self.g;
        let p = if binary { 1 } else { 1 + cx.r.below(20) as u32 };
        let m = messages::<u64>(cx.r, g.n, p);
        let triv = cx.r.chance(1, 4);
        self.gs[d] = if triv { trivial_glwe(&poly(&m), &g.def, PlaintextBits(p)) } else { encrypt_glwe(&poly(&m), &self.sk, &g.def, PlaintextBits(p)) };
        let v = gphase(&self.gs[d], &self.sk, &g);
        cx.ev(json!({"ev": "enc", "kept": 1, "d": d, "m": vec_w(&m), "p": p, "cnt": 1, "s": if triv { -1 } else { sj(self.s) }, "v": vec_w(&v)}));
        let got = decrypt_glwe(&self.gs[d], &self.sk, &g.def, PlaintextBits(p));
        cx.ev(json!({"ev": "decreg", "kept": 1, "a": d, "p": p, "m": vec_w(got.coeffs())}));
        m
    }
    fn lenc(&mut self, cx: &mut Cx, side: usize, d: usize) {
        let p = 1 + cx.r.below(20) as u32;
        let m = msg::<u64>(cx.r, p);
        let style = cx.r.below(if side == 0 { 2 } else { 4 });
        let (sk, l) = self.key(side);
        let ct = match style {
            0 => trivial_lwe(m, &l, PlaintextBits(p)),
            1 => encrypt_lwe_secret(m, sk, &l, PlaintextBits(p)),
            2 => encrypt_lwe(m, &self.lpk, &l, PlaintextBits(p)),
            _ => encrypt_lwe_and_return_randomness(m, &self.lpk, &l, PlaintextBits(p)).0,
        };
        let v = lphase(&ct, sk, &l);
        let (cnt, s) = match style { 0 => (1, -1), 1 => (1, sj(self.s)), _ => (2 * l.dim.0 + 1, sj(self.s)) };
        cx.ev(json!({"ev": "enc", "kept": 1, "d": 4 + 4 * side + d, "m": [w(m)], "p": p, "cnt": cnt, "s": s, "v": [w(v)]}));
        let got = decrypt_lwe(&ct, sk, &l, PlaintextBits(p));
        cx.ev(json!({"ev": "decreg", "kept": 1, "a": 4 + 4 * side + d, "p": p, "m": [w(got)]}));
        let c = cx.r.below(8) as u32;
        let got = decrypt_lwe_with_carry(&ct, sk, &l, PlaintextBits(p), CarryBits(c));
        let masks: Vec<u64> = ct.a_b(&l).0.iter().map(|x| x.inner()).collect();
        cx.ev(json!({"ev": "declwe", "kept": 1, "a": vec_w(&masks), "b": w(ct.a_b(&l).1.inner()), "key": vec_w(sk.s()), "ph": w(v), "p": p,
            "m": w(decrypt_lwe(&ct, sk, &l, PlaintextBits(p))), "c": c, "mc": w(got)}));
        self.ls[side][d] = ct;
    }
    pub fn linear(&mut self, cx: &mut Cx) {
        let d = cx.r.below(D);
        match cx.r.below(3) {
            0 => { self.genc(cx, d, false); }
            1 => { let side = cx.r.below(2); self.lenc(cx, side, d) }
            _ => {
                let (a, k) = (cx.r.below(D), cx.r.below(self.g.n));
                let ct = evaluation::sample_extract(&self.gs[a], &self.g.def, k);
                let v = lphase(&ct, self.sk.to_lwe_secret_key(), &self.lx);
                cx.ev(json!({"ev": "lin", "kept": 1, "op": "extract", "d": 4 + d, "c": 4 + d, "a": a, "b": a, "k": k, "s": [], "p": [], "v": [w(v)]}));
                self.ls[0][d] = ct;
            }
        }
    }
    pub fn select(&mut self, cx: &mut Cx) {
        let g = self.g;
        let (a, b, d) = (cx.r.below(D), cx.r.below(D), cx.r.below(D));
        let x = par(g.n, g.k, &self.rx, true);
        let bits = 1 + cx.r.below(3) as u32;
        let m = if cx.r.chance(2, 3) { cx.r.u64() & 1 } else { msg(cx.r, bits) };
        let ggsw = encryption::encrypt_ggsw(m, &self.sk, &g.def, &self.rx, PlaintextBits(bits));
        let got = encryption::decrypt_ggsw(&ggsw, &self.sk, &g.def, &self.rx, PlaintextBits(bits));
        let full: Vec<u64> = (0..g.n).map(|j| if j == 0 { m } else { 0 }).collect();
        cx.ev(json!({"ev": "sel", "kept": 1, "d": 0, "m": vec_w(&full), "m1": norm_log(&full), "s": sj(self.s), "got": vec_w(got.coeffs())}));
        let f = fft::fft_ggsw(&ggsw, &g.def, &self.rx);
        let ct = evaluation::cmux(&f, &self.gs[a], &self.gs[b], &g.def, &self.rx);
        let v = gphase(&ct, &self.sk, &g);
        cx.ev(json!({"ev": "cmux", "kept": 1, "d": d, "a": a, "b": b, "sel": 0, "x": x, "v": vec_w(&v)}));
        self.gs[d] = ct;
        // digits of binary messages
        let rl = radix(1, 1 + cx.r.below(6));
        let mut two = vec![];
        for side in 0..2 {
            let m = messages::<u64>(cx.r, g.n, 1);
            let (ct, cnt, s) = match (cx.r.below(3), &self.rpk) {
                (0, _) => (encryption::trivial_binary_glev(&poly(&m), &g.def, &rl), 1, -1),
                (1, Some(pk)) => (encryption::encrypt_binary_msg_rlev(&poly(&m), pk, &g.def, &rl), 2 * g.n + 1, sj(self.s)),
                _ => (encryption::encrypt_binary_msg_secret_glev(&poly(&m), &self.sk, &g.def, &rl), 1, sj(self.s)),
            };
            let v = gphase(ct.glwe_ciphertexts(&g.def).next().unwrap(), &self.sk, &g);
            cx.ev(json!({"ev": "enc", "kept": 1, "d": 12 + side, "m": vec_w(&m), "p": rl.radix_log.0, "cnt": cnt, "s": s, "v": vec_w(&v)}));
            two.push(ct);
        }
        let ct = evaluation::glev_cmux(&f, &two[0], &two[1], &g.def, &self.rx);
        let v = gphase(ct.glwe_ciphertexts(&g.def).next().unwrap(), &self.sk, &g);
        cx.ev(json!({"ev": "cmux", "kept": 1, "d": 14, "a": 12, "b": 13, "sel": 0, "x": x, "v": vec_w(&v)}));
    }
    pub fn switch(&mut self, cx: &mut Cx) {
        let f = cx.r.below(2);
        let t = 1 - f;
        let (a, d) = (cx.r.below(D), cx.r.below(D));
        let ((fk, fl), (tk, tl)) = (self.key(f), self.key(t));
        let ksk = keygen::generate_ksk(fk, tk, &fl, &tl, &self.rx);
        let ct = evaluation::keyswitch_lwe_to_lwe(&self.ls[f][a], &ksk, &fl, &tl, &self.rx);
        let v = lphase(&ct, tk, &tl);
        cx.ev(json!({"ev": "switch", "kept": 1, "d": 4 + 4 * t + d, "a": 4 + 4 * f + a, "s": sj(self.s), "x": par(fl.dim.0, 1, &self.rx, false), "v": [w(v)]}));
        self.ls[t][d] = ct;
    }
    fn boot(&self) -> BootstrapKeyFft<C> {
        let bsk = keygen::generate_bootstrapping_key(&self.lsk, &self.sk, &self.l, &self.g.def, &self.rx);
        fft::fft_bootstrap_key(&bsk, &self.l, &self.g.def, &self.rx)
    }
    pub fn bootstrap(&mut self, cx: &mut Cx) {
        let g = self.g;
        let bsk = self.boot();
        let (a, d) = (cx.r.below(D), cx.r.below(D));
        let p = 1 + cx.r.below(g.n.ilog2() as usize - 3) as u32;
        self.ls[1][a] = encrypt_lwe_secret(msg(cx.r, p + 1), &self.lsk, &self.l, PlaintextBits(p + 1));
        let ph = lphase(&self.ls[1][a], &self.lsk, &self.l);
        cx.ev(json!({"ev": "given", "kept": 1, "d": 8 + a, "v": [w(ph)]}));
        let t: Vec<u64> = (0..1u64 << p).map(|_| cx.r.u64() % (1 << p)).collect();
        let lut = UnivariateLookupTable::<u64>::trivial_from_fn(|x| t[x as usize], &g.def, PlaintextBits(p));
        let h = self.l.dim.0 + 1;
        let (m, sure) = read(ph, p, 0, 0, h, g.n);
        let ct = evaluation::univariate_programmable_bootstrap(&self.ls[1][a], &lut, &bsk, &self.l, &g.def, &self.rx);
        let v = lphase(&ct, self.sk.to_lwe_secret_key(), &self.lx);
        cx.ev(json!({"ev": "pbs", "kept": 1, "d": 4 + d, "a": 8 + a, "p": p, "lc": 0, "lv": 0, "m": m, "h": h, "cm": self.l.dim.0, "certain": sure as u8,
            "tables": [t.iter().map(|x| w(*x)).collect::<Vec<_>>()], "s": sj(self.s), "x": par(g.n, g.k, &self.rx, true), "v": [w(v)]}));
        self.ls[0][d] = ct;
    }
    pub fn circuit(&mut self, cx: &mut Cx) {
        let g = self.g;
        let bsk = self.boot();
        let ak = fft::fft_automorphism_key(&keygen::generate_automorphism_key(&self.sk, &g.def, &self.rx), &g.def, &self.rx);
        let ssk = fft::fft_scheme_switch_key(&keygen::generate_scheme_switch_key(&self.sk, &g.def, &self.rx), &g.def, &self.rx);
        let rc = radix(1 + cx.r.below(4), 4);
        let lv = rc.count.0.next_power_of_two().ilog2();
        let a = cx.r.below(D);
        self.ls[1][a] = encrypt_lwe_secret(cx.r.u64() & 1, &self.lsk, &self.l, PlaintextBits(1));
        let ph = lphase(&self.ls[1][a], &self.lsk, &self.l);
        cx.ev(json!({"ev": "given", "kept": 1, "d": 8 + a, "v": [w(ph)]}));
        let h = self.l.dim.0 + 1;
        let (m, sure) = read(ph, 0, 0, lv, h, g.n);
        if !sure { return }
        let sel = evaluation::circuit_bootstrap(&self.ls[1][a], &bsk, &ak, &ssk, &self.l, &g.def, &self.rx, &self.rx, &self.rx, &rc);
        let x = par(g.n, g.k, &self.rx, true);
        cx.ev(json!({"ev": "cbs", "kept": 1, "via": "trace", "d": 0, "a": 8 + a, "m": m, "h": h, "lv": lv, "n1": g.n, "cm": self.l.dim.0, "s": sj(self.s), "x": x, "xt": x, "xs": x}));
        let (a, b, d) = (cx.r.below(D), cx.r.below(D), cx.r.below(D));
        self.genc(cx, a, true);
        self.genc(cx, b, true);
        let ct = evaluation::cmux(&sel, &self.gs[a], &self.gs[b], &g.def, &rc);
        let v = gphase(&ct, &self.sk, &g);
        cx.ev(json!({"ev": "cmux", "kept": 1, "d": d, "a": a, "b": b, "sel": 0, "x": par(g.n, g.k, &rc, true), "v": vec_w(&v)}));
        self.gs[d] = ct;
    }
}
/// One history of one family of operations.
pub fn history(cx: &mut Cx, fam: &str, steps: usize) {
    let mut h = Hl::new(cx);
    for _ in 0..steps {
        match fam {
            "lin" => h.linear(cx),
            "sel" => h.select(cx),
            "ks" => h.switch(cx),
            "pbs" => h.bootstrap(cx),
            "cbs" => h.circuit(cx),
            _ => unreachable!(),
        }
    }
}
