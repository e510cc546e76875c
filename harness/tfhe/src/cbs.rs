//! T04: circuit bootstrapping: encrypted bits become selectors, and what they select is
//! bootstrapped again.
use crate::hom::*;
use crate::*;
use std::num::Wrapping;
use std::ops::{Add, Mul, Sub};
use sunscreen_tfhe::ops::automorphisms::*;
use sunscreen_tfhe::ops::bootstrapping::*;
use sunscreen_tfhe::ops::ciphertext as std_ops;
use sunscreen_tfhe::ops::encryption::*;
use sunscreen_tfhe::ops::fft_ops;
use sunscreen_tfhe::ops::keyswitch::lwe_keyswitch::*;
use sunscreen_tfhe::ops::keyswitch::lwe_keyswitch_key::*;
use sunscreen_tfhe::ops::keyswitch::private_functional_keyswitch::*;

const NB: usize = 4;
const ND: usize = 4;
/// slots 0..4: bits under the small key; 4..8: data under key 1; 8: look only; 9, 10 steps in
/// between. The second GLWE parameters (key 2) are where the functional variant rotates.
pub struct Cbs<S: TorusOps> {
    l: LweDef,
    g1: Gp,
    g2: Gp,
    s0: Option<i32>,
    s1: Option<i32>,
    lsk: LweSecretKey<S>,
    sk1: GlweSecretKey<S>,
    sk2: GlweSecretKey<S>,
    r_pbs: RadixDecomposition,
    r_tr: RadixDecomposition,
    r_ss: RadixDecomposition,
    r_pf: RadixDecomposition,
    r_ks: RadixDecomposition,
    bsk1: BootstrapKeyFft<C>,
    bsk2: BootstrapKeyFft<C>,
    ak: AutomorphismKeyFft<C>,
    ssk: SchemeSwitchKeyFft<C>,
    pf: CircuitBootstrappingKeyswitchKeys<S>,
    ksk: LweKeyswitchKey<S>,
    bits: Vec<LweCiphertext<S>>,
    data: Vec<GlweCiphertext<S>>,
}
/// Digits reaching deep into the word.
fn deep<S: TorusOps>(r: &mut Rng) -> RadixDecomposition {
    let (c, l) = *if S::BITS == 64 { r.pick(&[(7, 7), (10, 5), (12, 4), (16, 3), (5, 10), (9, 5)]) } else { r.pick(&[(5, 6), (6, 5), (7, 4), (10, 3), (15, 2), (30, 1)]) };
    radix(c, l)
}

impl<S: TorusOps> Cbs<S>
where
    Wrapping<S>: Sub<Wrapping<S>, Output = Wrapping<S>> + Add<Wrapping<S>, Output = Wrapping<S>> + Mul<Wrapping<S>, Output = Wrapping<S>>,
{
    pub fn new(cx: &mut Cx, n: [usize; 2], k: [usize; 2], dim: usize, s0: Option<i32>, s1: Option<i32>) -> Self {
        let (g1, g2) = (gp::<S>(n[0], k[0], s1), gp::<S>(n[1], k[1], s1));
        let l = lwe_def::<S>(dim, s0);
        let (r_pbs, r_tr, r_ss, r_pf, r_ks) = (deep::<S>(cx.r), deep::<S>(cx.r), deep::<S>(cx.r), deep::<S>(cx.r), deep::<S>(cx.r));
        let lsk = LweSecretKey::<S>::generate_binary(&l);
        let sk1 = GlweSecretKey::<S>::generate_binary(&g1.def);
        let sk2 = GlweSecretKey::<S>::generate_binary(&g2.def);
        let boot = |cx: &mut Cx, g: &Gp, sk: &GlweSecretKey<S>| {
            let mut bsk = BootstrapKey::<S>::new(&l, &g.def, &r_pbs);
            junk(cx.r, &mut *bsk);
            generate_bootstrap_key(&mut bsk, &lsk, sk, &l, &g.def, &r_pbs);
            let mut fft = BootstrapKeyFft::new(&l, &g.def, &r_pbs);
            junkc(cx.r, &mut *fft);
            bsk.fft(&mut fft, &l, &g.def, &r_pbs);
            fft
        };
        let bsk1 = boot(cx, &g1, &sk1);
        let bsk2 = boot(cx, &g2, &sk2);
        let mut a = AutomorphismKey::<S>::new(&g1.def, &r_tr);
        junk(cx.r, &mut *a);
        generate_automorphism_key(&mut a, &sk1, &g1.def, &r_tr);
        let mut ak = AutomorphismKeyFft::new(&g1.def, &r_tr);
        junkc(cx.r, &mut *ak);
        a.fft(&mut ak, &g1.def, &r_tr);
        let mut s = SchemeSwitchKey::<S>::new(&g1.def, &r_ss);
        junk(cx.r, &mut *s);
        generate_scheme_switch_key(&mut s, &sk1, &g1.def, &r_ss);
        let mut ssk = SchemeSwitchKeyFft::new(&g1.def, &r_ss);
        junkc(cx.r, &mut *ssk);
        s.fft(&mut ssk, &g1.def, &r_ss);
        let lx2 = g2.def.as_lwe_def();
        let mut pf = CircuitBootstrappingKeyswitchKeys::<S>::new(&lx2, &g1.def, &r_pf);
        junk(cx.r, &mut *pf);
        generate_circuit_bootstrapping_pfks_keys(&mut pf, sk2.to_lwe_secret_key(), &sk1, &lx2, &g1.def, &r_pf);
        let lx1 = g1.def.as_lwe_def();
        let mut ksk = LweKeyswitchKey::<S>::new(&lx1, &l, &r_ks);
        junk(cx.r, &mut *ksk);
        generate_keyswitch_key_lwe(&mut ksk, sk1.to_lwe_secret_key(), &lsk, &lx1, &l, &r_ks);
        let mut me = Cbs { l, g1, g2, s0, s1, lsk, sk1, sk2, r_pbs, r_tr, r_ss, r_pf, r_ks, bsk1, bsk2, ak, ssk, pf, ksk, bits: vec![], data: vec![] };
        for d in 0..NB {
            me.bits.push(LweCiphertext::new(&me.l));
            me.bit(cx, d);
        }
        for d in 0..ND {
            me.data.push(GlweCiphertext::new(&me.g1.def));
            me.datum(cx, d);
        }
        me
    }
    fn bit(&mut self, cx: &mut Cx, d: usize) {
        let m = S::from_u64(cx.r.u64() & 1);
        junk(cx.r, &mut *self.bits[d]);
        encode_and_encrypt_lwe_ciphertext(&mut self.bits[d], &self.lsk, m, &self.l, PlaintextBits(1));
        self.log_bit(cx, d, m);
    }
    fn log_bit(&self, cx: &mut Cx, d: usize, m: S) {
        let v = lphase(&self.bits[d], &self.lsk, &self.l);
        cx.ev(json!({"ev": "enc", "kept": 1, "d": d, "m": [w(m)], "p": 1, "cnt": 1, "s": sj(self.s0), "v": [w(v)]}));
    }
    /// A bit whose noise is almost all there is room for.
    fn noisy(&mut self, cx: &mut Cx, d: usize, lv: u32) {
        let bits = S::BITS as i128;
        let step = bits as u32 - (self.g1.n.min(self.g2.n).ilog2() + 1) + lv;
        let mut ct = LweCiphertext::<S>::new(&self.l);
        let mut sum = S::from_u64(0);
        let mut h = 0i128;
        {
            let (a, _) = ct.a_b_mut(&self.l);
            for (a, s) in a.iter_mut().zip(self.lsk.s()) {
                let x: S = if cx.r.chance(1, 6) { S::from_u64(0) } else { word(cx.r) };
                *a = Torus::from(x);
                sum = sum.wrapping_add(&x.wrapping_mul(s));
                if !num::Zero::is_zero(s) && !num::Zero::is_zero(&x) { h += 1 }
            }
        }
        let reach = ((1i128 << (bits - 2)) - (h + 1) * (1i128 << (step - 1)) - 1).max(0);
        let e = match cx.r.below(3) { 0 => reach, 1 => -reach, _ => (cx.r.u64() as i128) % (2 * reach + 1) - reach };
        let m = cx.r.u64() as i128 & 1;
        let x = (m << (bits - 1)) + e;
        *ct.a_b_mut(&self.l).1 = Torus::from(S::from_u64(x.rem_euclid(1i128 << bits) as u64).wrapping_add(&sum));
        self.bits[d] = ct;
        let v = lphase(&self.bits[d], &self.lsk, &self.l);
        cx.ev(json!({"ev": "given", "kept": 1, "d": d, "v": [w(v)]}));
    }
    fn datum(&mut self, cx: &mut Cx, d: usize) {
        let g = self.g1;
        let p = if cx.r.chance(2, 3) { 1 } else { 1 + cx.r.below(6) as u32 };
        let m = messages::<S>(cx.r, g.n, p);
        junk(cx.r, &mut *self.data[d]);
        encrypt_glwe_ciphertext_secret(&mut self.data[d], &tpoly(&encode_all(&m, p)), &self.sk1, &g.def);
        cx.ev(json!({"ev": "enc", "kept": 1, "d": NB + d, "m": vec_w(&m), "p": p, "cnt": 1, "s": sj(self.s1), "v": vec_w(&gphase(&self.data[d], &self.sk1, &g))}));
    }
    pub fn step(&mut self, cx: &mut Cx) {
        match cx.r.below(8) {
            0 => { let d = cx.r.below(NB); self.bit(cx, d) }
            1 => { let d = cx.r.below(ND); self.datum(cx, d) }
            _ => self.select(cx),
        }
    }
    fn select(&mut self, cx: &mut Cx) {
        let functional = cx.r.chance(1, 3);
        let g = if functional { self.g2 } else { self.g1 };
        let bits = S::BITS as usize;
        let (cnt, log) = *if bits == 64 { cx.r.pick(&[(1, 8), (2, 4), (2, 8), (3, 5), (4, 4), (5, 5), (6, 6), (7, 4), (7, 6), (3, 1)]) } else { cx.r.pick(&[(1, 6), (2, 4), (3, 4), (4, 3), (5, 2), (6, 3), (7, 2), (3, 1)]) };
        let lv = (cnt as usize).next_power_of_two().ilog2();
        let rc = radix(cnt, log);
        let a = cx.r.below(NB);
        if cx.r.chance(1, 3) { self.noisy(cx, a, lv) }
        let (mask, _) = self.bits[a].a_b(&self.l);
        let h = mask.iter().zip(self.lsk.s()).filter(|(a, s)| !num::Zero::is_zero(&a.inner()) && !num::Zero::is_zero(*s)).count() + 1;
        let quarter = S::from_u64(1u64 << (bits - 2));
        let x = lphase(&self.bits[a], &self.lsk, &self.l).wrapping_add(&quarter).wrapping_sub(&quarter);
        let (m, sure) = read(x, 0, 0, lv, h, g.n);
        if !sure || (1usize << lv) > g.n { return }
        let x2 = if functional { par(self.g2.def.as_lwe_def().dim.0, 1, &self.r_pf, false) } else { par(g.n, g.k, &self.r_ss, true) };
        let template = json!({"ev": "cbs", "kept": 0, "via": if functional { "pfks" } else { "trace" }, "d": 0, "a": a, "m": m, "h": h, "lv": lv, "n1": self.g1.n,
            "cm": self.l.dim.0, "s": sj(self.s1), "x": par(g.n, g.k, &self.r_pbs, true), "xt": par(g.n, g.k, &self.r_tr, true), "xs": x2});
        let event = |kept: bool| { let mut e = template.clone(); e["kept"] = json!(kept as u8); e };
        for _ in 0..cx.reps {
            let mut fft = GgswCiphertextFft::new(&self.g1.def, &rc);
            junkc(cx.r, &mut *fft);
            if functional {
                let mut out = GgswCiphertext::<S>::new(&self.g1.def, &rc);
                junk(cx.r, &mut *out);
                let before = (digest(&*self.bits[a]), digest(&*self.bsk2), digest(&*self.pf));
                #[allow(deprecated)]
                circuit_bootstrap_via_pfks(&mut out, &self.bits[a], &self.bsk2, &self.pf, &self.l, &self.g1.def, &self.g2.def, &self.r_pbs, &rc, &self.r_pf);
                let kept = before == (digest(&*self.bits[a]), digest(&*self.bsk2), digest(&*self.pf));
                cx.ev(event(kept));
                out.fft(&mut fft, &self.g1.def, &rc);
                if cx.r.chance(1, 2) {
                    let d = cx.r.below(ND);
                    let o = std_ops::external_product_ggsw_glwe(&out, &self.data[d], &self.g1.def, &rc);
                    let v = gphase(&o, &self.sk1, &self.g1);
                    cx.ev(json!({"ev": "xprod", "kept": 1, "d": 8, "a": NB + d, "sel": 0, "x": par(self.g1.n, self.g1.k, &rc, false), "v": vec_w(&v)}));
                }
            } else {
                let before = (digest(&*self.bits[a]), digest(&*self.bsk1), digest(&*self.ak), digest(&*self.ssk));
                circuit_bootstrap_via_trace_and_scheme_switch(&mut fft, &self.bits[a], &self.bsk1, &self.ak, &self.ssk, &self.l, &self.g1.def, &self.r_pbs, &self.r_tr, &self.r_ss, &rc);
                let kept = before == (digest(&*self.bits[a]), digest(&*self.bsk1), digest(&*self.ak), digest(&*self.ssk));
                cx.ev(event(kept));
            }
            for _ in 0..1 + cx.r.below(2) {
                self.apply(cx, &fft, &rc, a);
            }
        }
    }
    fn apply(&mut self, cx: &mut Cx, fft: &GgswCiphertextFft<C>, rc: &RadixDecomposition, bit: usize) {
        let g = self.g1;
        let (a, b, d) = (cx.r.below(ND), cx.r.below(ND), cx.r.below(ND));
        let mut o = self.data[d].clone();
        junk(cx.r, &mut *o);
        let before = (digest(&**fft), digest(&*self.data[a]), digest(&*self.data[b]));
        fft_ops::cmux(&mut o, &self.data[a], &self.data[b], fft, &g.def, rc);
        let kept = before == (digest(&**fft), digest(&*self.data[a]), digest(&*self.data[b]));
        let v = gphase(&o, &self.sk1, &g);
        cx.ev(json!({"ev": "cmux", "kept": kept as u8, "d": NB + d, "a": NB + a, "b": NB + b, "sel": 0, "x": par(g.n, g.k, rc, true), "v": vec_w(&v)}));
        self.data[d] = o;
        if cx.r.chance(1, 2) {
            // one of its coefficients becomes a bit again
            let (at, mut t) = (cx.r.below(g.n), cx.r.below(NB));
            if t == bit { t = (t + 1) % NB }
            let lx = g.def.as_lwe_def();
            let mut e = LweCiphertext::<S>::new(&lx);
            junk(cx.r, &mut *e);
            std_ops::sample_extract(&mut e, &self.data[d], at, &g.def);
            let v = lphase(&e, self.sk1.to_lwe_secret_key(), &lx);
            cx.ev(json!({"ev": "lin", "kept": 1, "op": "extract", "d": 9, "c": 9, "a": NB + d, "b": 9, "k": at, "s": [], "p": [], "v": [w(v)]}));
            junk(cx.r, &mut *self.bits[t]);
            keyswitch_lwe_to_lwe(&mut self.bits[t], &e, &self.ksk, &lx, &self.l, &self.r_ks);
            let v = lphase(&self.bits[t], &self.lsk, &self.l);
            cx.ev(json!({"ev": "switch", "kept": 1, "d": t, "a": 9, "s": sj(self.s0), "x": par(lx.dim.0, 1, &self.r_ks, false), "v": [w(v)]}));
        }
    }
}

pub fn history<S: TorusOps>(cx: &mut Cx, big: bool, steps: usize)
where
    Wrapping<S>: Sub<Wrapping<S>, Output = Wrapping<S>> + Add<Wrapping<S>, Output = Wrapping<S>> + Mul<Wrapping<S>, Output = Wrapping<S>>,
{
    let sizes = if S::BITS == 64 { 4 } else { 1 };
    let n = if big { [256usize << cx.r.below(3), 256usize << cx.r.below(3)] } else { [16usize << cx.r.below(sizes), 16usize << cx.r.below(sizes)] };
    let k = [1 + cx.r.below(2), 1 + cx.r.below(2)].map(|k| if S::BITS == 64 { k } else { 1 });
    let dim = 1 + cx.r.below(6);
    let most = if S::BITS == 64 { 16 } else { 1 };
    let s0 = if cx.r.chance(1, 3) { None } else { Some(cx.r.below(most) as i32) };
    let s1 = if cx.r.chance(1, 3) { None } else { Some(cx.r.below(most) as i32) };
    cx.tr.begin(json!({"ev": "reset", "kept": 1, "bits": S::BITS, "n": n, "k": k, "dim": dim, "noise": [sj(s0), sj(s1)]}));
    let mut h = Cbs::<S>::new(cx, n, k, dim, s0, s1);
    for _ in 0..steps {
        h.step(cx);
    }
}
pub fn run(a: &Args) {
    let mut rng = Rng::new(a.seed ^ 0x40);
    let mut tr = Trace::new(&a.dir, a.shards);
    for i in 0..a.n {
        let mut r = rng.fork();
        sunscreen_tfhe::verif::set_simd_cap((i % 3) as u8);
        let mut cx = Cx { tr: &mut tr, r: &mut r, reps: 1 };
        if i % 8 == 7 { hl::history(&mut cx, "cbs", 3); continue; }
        // some at the degrees real parameters have
        let big = i % 32 == i / 32 % 7 && i % 3 < 2;
        let steps = if big { 3 } else { 12 };
        if i % 3 == 2 { history::<u32>(&mut cx, big, steps) } else { history::<u64>(&mut cx, big, steps) }
    }
    tr.finish(&a.dir, json!({}));
}
