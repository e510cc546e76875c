//! T05: switching between keys, functional switches, the trace and scheme switching.
use crate::hom::*;
use crate::*;
use std::num::Wrapping;
use std::ops::{Add, Mul, Sub};
use sunscreen_tfhe::ops::automorphisms::*;
use sunscreen_tfhe::ops::bootstrapping::*;
use sunscreen_tfhe::ops::ciphertext as std_ops;
use sunscreen_tfhe::ops::encryption::*;
use sunscreen_tfhe::ops::fft_ops;
use sunscreen_tfhe::ops::keyswitch::glwe_keyswitch_key::*;
use sunscreen_tfhe::ops::keyswitch::lwe_keyswitch::*;
use sunscreen_tfhe::ops::keyswitch::lwe_keyswitch_key::*;
use sunscreen_tfhe::ops::keyswitch::private_functional_keyswitch::*;
use sunscreen_tfhe::ops::keyswitch::public_functional_keyswitch::*;
use sunscreen_tfhe::ops::keyswitch::*;

/// Slots: 3*key + 0..3 for GLWE under two keys, 8 + 4*key + 0..4 for LWE under two keys,
/// 6 and 7 for what is only looked at once.
pub struct Ks<S: TorusOps> {
    g: Gp,
    sk: [GlweSecretKey<S>; 2],
    gs: [Vec<GlweCiphertext<S>>; 2],
    l: [LweDef; 2],
    lsk: [LweSecretKey<S>; 2],
    ls: [Vec<LweCiphertext<S>>; 2],
    s: Option<i32>,
}
const GN: usize = 3;
const LN: usize = 4;

impl<S: TorusOps> Ks<S>
where
    Wrapping<S>: Sub<Wrapping<S>, Output = Wrapping<S>> + Add<Wrapping<S>, Output = Wrapping<S>> + Mul<Wrapping<S>, Output = Wrapping<S>>,
{
    pub fn new(cx: &mut Cx, n: usize, k: usize, dims: [usize; 2], s: Option<i32>) -> Self {
        let g = gp::<S>(n, k, s);
        let l = dims.map(|d| lwe_def::<S>(d, s));
        let mut me = Ks {
            g, l, s,
            sk: [GlweSecretKey::generate_binary(&g.def), GlweSecretKey::generate_binary(&g.def)],
            lsk: l.map(|l| LweSecretKey::generate_binary(&l)),
            gs: [vec![], vec![]],
            ls: [vec![], vec![]],
        };
        for key in 0..2 {
            for d in 0..GN {
                me.gs[key].push(GlweCiphertext::new(&g.def));
                me.genc(cx, key, d);
            }
            for d in 0..LN {
                me.ls[key].push(LweCiphertext::new(&me.l[key]));
                me.lenc(cx, key, d);
            }
        }
        me
    }
    fn genc(&mut self, cx: &mut Cx, key: usize, d: usize) {
        let g = self.g;
        let p = 1 + cx.r.below(8) as u32;
        let m = messages::<S>(cx.r, g.n, p);
        encrypt_glwe_ciphertext_secret(&mut self.gs[key][d], &tpoly(&encode_all(&m, p)), &self.sk[key], &g.def);
        let v = gphase(&self.gs[key][d], &self.sk[key], &g);
        cx.ev(json!({"ev": "enc", "kept": 1, "d": GN * key + d, "m": vec_w(&m), "p": p, "cnt": 1, "s": sj(self.s), "v": vec_w(&v)}));
    }
    fn lenc(&mut self, cx: &mut Cx, key: usize, d: usize) {
        let p = 1 + cx.r.below(8) as u32;
        let m = msg::<S>(cx.r, p);
        let l = self.l[key];
        encode_and_encrypt_lwe_ciphertext(&mut self.ls[key][d], &self.lsk[key], m, &l, PlaintextBits(p));
        let v = lphase(&self.ls[key][d], &self.lsk[key], &l);
        cx.ev(json!({"ev": "enc", "kept": 1, "d": 8 + LN * key + d, "m": [w(m)], "p": p, "cnt": 1, "s": sj(self.s), "v": [w(v)]}));
    }
    pub fn step(&mut self, cx: &mut Cx) {
        match cx.r.below(13) {
            0 => { let (key, d) = (cx.r.below(2), cx.r.below(GN)); self.genc(cx, key, d) }
            1 => { let (key, d) = (cx.r.below(2), cx.r.below(LN)); self.lenc(cx, key, d) }
            2 | 3 => self.lwe(cx),
            4 | 5 => self.glwe(cx),
            6 | 7 => self.private(cx),
            8 | 9 => self.public(cx),
            10 => self.trace(cx),
            11 => self.divide(cx),
            _ => self.scheme(cx),
        }
    }
    fn lwe(&mut self, cx: &mut Cx) {
        let f = cx.r.below(2);
        let t = 1 - f;
        let full = cx.r.chance(1, 4);
        let rx = some_radix::<S>(cx.r, full);
        let mut ksk = LweKeyswitchKey::<S>::new(&self.l[f], &self.l[t], &rx);
        junk(cx.r, &mut *ksk);
        generate_keyswitch_key_lwe(&mut ksk, &self.lsk[f], &self.lsk[t], &self.l[f], &self.l[t], &rx);
        let x = par(self.l[f].dim.0, 1, &rx, false);
        for _ in 0..1 + cx.r.below(2) {
            let (a, d) = (cx.r.below(LN), cx.r.below(LN));
            for _ in 0..cx.reps {
                let mut o = self.ls[t][d].clone();
                junk(cx.r, &mut *o);
                let before = (digest(&*ksk), digest(&*self.ls[f][a]));
                keyswitch_lwe_to_lwe(&mut o, &self.ls[f][a], &ksk, &self.l[f], &self.l[t], &rx);
                let kept = before == (digest(&*ksk), digest(&*self.ls[f][a]));
                let v = lphase(&o, &self.lsk[t], &self.l[t]);
                cx.ev(json!({"ev": "switch", "kept": kept as u8, "d": 8 + LN * t + d, "a": 8 + LN * f + a, "s": sj(self.s), "x": x, "v": [w(v)]}));
                self.ls[t][d] = o;
            }
        }
    }
    fn glwe(&mut self, cx: &mut Cx) {
        let g = self.g;
        let f = cx.r.below(2);
        let t = if cx.r.chance(1, 5) { f } else { 1 - f };
        let full = cx.r.chance(1, 4);
        let rx = some_radix::<S>(cx.r, full);
        let mut ksk = GlweKeyswitchKey::<S>::new(&g.def, &rx);
        junk(cx.r, &mut *ksk);
        generate_keyswitch_key_glwe(&mut ksk, &self.sk[f], &self.sk[t], &g.def, &rx);
        let mut fft = GlweKeyswitchKeyFft::new(&g.def, &rx);
        junkc(cx.r, &mut *fft);
        let before = digest(&*ksk);
        ksk.fft(&mut fft, &g.def, &rx);
        let kept = before == digest(&*ksk);
        let back = cx.r.chance(1, 4);
        if back {
            junk(cx.r, &mut *ksk);
            fft.ifft(&mut ksk, &g.def, &rx);
        }
        for rep in 0..2 * cx.reps {
            let std = rep % 2 == 0;
            let (a, d) = (cx.r.below(GN), cx.r.below(GN));
            if t == f && a == d { continue }
            let x = par(g.n, g.k, &rx, back || !std);
            let mut o = self.gs[t][d].clone();
            junk(cx.r, &mut *o);
            let before = (digest(&*ksk), digest(&*self.gs[f][a]), digest(&*fft));
            if std {
                glwe_keyswitch::keyswitch_glwe_to_glwe(&mut o, &self.gs[f][a], &ksk, &g.def, &rx);
            } else {
                fft_ops::keyswitch_glwe_to_glwe(&mut o, &self.gs[f][a], &fft, &g.def, &rx);
            }
            let kept = kept && before == (digest(&*ksk), digest(&*self.gs[f][a]), digest(&*fft));
            let v = gphase(&o, &self.sk[t], &g);
            cx.ev(json!({"ev": "switch", "kept": kept as u8, "d": GN * t + d, "a": GN * f + a, "s": sj(self.s), "x": x, "v": vec_w(&v)}));
            self.gs[t][d] = o;
        }
    }
    /// Polynomials with small signed coefficients, one per input, and the largest sum of their sizes.
    fn linear_map(&self, cx: &mut Cx, count: usize) -> (Vec<Vec<S>>, i64) {
        let n = self.g.n;
        let fs: Vec<Vec<i64>> = (0..count).map(|z| match cx.r.below(4) {
            0 => (0..n).map(|j| (j == z) as i64).collect(),
            1 => { let c = cx.r.range(-3, 3); (0..n).map(|j| if j == z { c } else { 0 }).collect() }
            2 => (0..n).map(|_| cx.r.range(-1, 1)).collect(),
            _ => (0..n).map(|_| cx.r.range(-4, 4)).collect(),
        }).collect();
        let most = (0..n).map(|j| fs.iter().map(|f| f[j].unsigned_abs()).sum::<u64>()).max().unwrap();
        (fs.iter().map(|f| f.iter().map(|c| S::from_u64(*c as u64)).collect()).collect(), norm_log(&[S::from_u64(most)]))
    }
    fn private(&mut self, cx: &mut Cx) {
        let g = self.g;
        let (f, t) = (cx.r.below(2), cx.r.below(2));
        let count = 1 + cx.r.below(3);
        // scalars may be decomposed into the whole word
        let bits = S::BITS as usize;
        let rx = if cx.r.chance(1, 4) { let log = *cx.r.pick(&[1usize, 2, 4, 8, 16, bits / 2, bits]); radix(bits / log, log) } else { some_radix::<S>(cx.r, false) };
        let (fs, m1) = self.linear_map(cx, count);
        let c = PrivateFunctionalKeyswitchLweCount(count);
        let mut key = PrivateFunctionalKeyswitchKey::<S>::new(&self.l[f], &g.def, &rx, &c);
        junk(cx.r, &mut *key);
        let map = |o: &mut PolynomialRef<Torus<S>>, x: &[Torus<S>]| {
            for (f, x) in fs.iter().zip(x) {
                for (o, c) in o.coeffs_mut().iter_mut().zip(f) {
                    *o = Torus::from(o.inner().wrapping_add(&x.inner().wrapping_mul(c)));
                }
            }
        };
        generate_private_functional_keyswitch_key(&mut key, &self.lsk[f], &self.sk[t], map, &self.l[f], &g.def, &rx, &c);
        let x = par(self.l[f].dim.0 + 1, count, &rx, false);
        let ins: Vec<usize> = (0..count).map(|_| cx.r.below(LN)).collect();
        let d = cx.r.below(GN);
        for _ in 0..cx.reps {
            let refs: Vec<&LweCiphertextRef<S>> = ins.iter().map(|i| &*self.ls[f][*i]).collect();
            let mut o = self.gs[t][d].clone();
            junk(cx.r, &mut *o);
            let sums = |k: &PrivateFunctionalKeyswitchKey<S>, l: &[LweCiphertext<S>]| (digest(&**k), l.iter().map(|l| digest(&**l)).collect::<Vec<_>>());
            let before = sums(&key, &self.ls[f]);
            private_functional_keyswitch(&mut o, &refs, &key, &self.l[f], &g.def, &rx, &c);
            let kept = before == sums(&key, &self.ls[f]);
            self.functional(cx, kept, f, t, d, &ins, &fs, m1, x.clone(), &o);
            self.gs[t][d] = o;
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn functional(&self, cx: &mut Cx, kept: bool, f: usize, t: usize, d: usize, ins: &[usize], fs: &[Vec<S>], m1: i64, x: Value, o: &GlweCiphertextRef<S>) {
        let v = gphase(o, &self.sk[t], &self.g);
        let ins: Vec<usize> = ins.iter().map(|i| 8 + LN * f + i).collect();
        cx.ev(json!({"ev": "functional", "kept": kept as u8, "d": GN * t + d, "in": ins, "f": fs.iter().map(|f| vec_w(f)).collect::<Vec<_>>(),
            "m1": m1, "s": sj(self.s), "x": x, "v": vec_w(&v)}));
    }
    fn public(&mut self, cx: &mut Cx) {
        let g = self.g;
        let (f, t) = (cx.r.below(2), cx.r.below(2));
        let count = 1 + cx.r.below(3.min(g.n));
        let full = cx.r.chance(1, 4);
        let rx = some_radix::<S>(cx.r, full);
        let (fs, _) = self.linear_map(cx, count);
        let mut key = PublicFunctionalKeyswitchKey::<S>::new(&self.l[f], &g.def, &rx);
        junk(cx.r, &mut *key);
        generate_public_functional_keyswitch_key(&mut key, &self.lsk[f], &self.sk[t], &self.l[f], &g.def, &rx);
        // the output of the map starts as zero: it may add to it, or set only some coefficients
        let adds = cx.r.chance(1, 2);
        let map = |o: &mut PolynomialRef<Torus<S>>, x: &[Torus<S>]| {
            for (j, o) in o.coeffs_mut().iter_mut().enumerate() {
                let sum = fs.iter().zip(x).fold(S::from_u64(0), |acc, (f, x)| acc.wrapping_add(&x.inner().wrapping_mul(&f[j])));
                if adds {
                    *o = Torus::from(o.inner().wrapping_add(&sum));
                } else if fs.iter().any(|f| !num::Zero::is_zero(&f[j])) {
                    *o = Torus::from(sum);
                }
            }
        };
        let x = par(g.n * self.l[f].dim.0, 1, &rx, true);
        let ins: Vec<usize> = (0..count).map(|_| cx.r.below(LN)).collect();
        let d = cx.r.below(GN);
        for _ in 0..cx.reps {
            let refs: Vec<&LweCiphertextRef<S>> = ins.iter().map(|i| &*self.ls[f][*i]).collect();
            let mut o = self.gs[t][d].clone();
            junk(cx.r, &mut *o);
            let sums = |k: &PublicFunctionalKeyswitchKey<S>, l: &[LweCiphertext<S>]| (digest(&**k), l.iter().map(|l| digest(&**l)).collect::<Vec<_>>());
            let before = sums(&key, &self.ls[f]);
            public_functional_keyswitch(&mut o, &refs, &key, map, &self.l[f], &g.def, &rx);
            let kept = before == sums(&key, &self.ls[f]);
            self.functional(cx, kept, f, t, d, &ins, &fs, 0, x.clone(), &o);
            self.gs[t][d] = o;
        }
    }
    fn trace(&mut self, cx: &mut Cx) {
        let g = self.g;
        let key = cx.r.below(2);
        let full = cx.r.chance(1, 3);
        let rx = some_radix::<S>(cx.r, full);
        let mut ak = AutomorphismKey::<S>::new(&g.def, &rx);
        junk(cx.r, &mut *ak);
        generate_automorphism_key(&mut ak, &self.sk[key], &g.def, &rx);
        let mut fft = AutomorphismKeyFft::new(&g.def, &rx);
        junkc(cx.r, &mut *fft);
        ak.fft(&mut fft, &g.def, &rx);
        let (a, d) = (cx.r.below(GN), 6);
        for _ in 0..cx.reps {
            let mut o = self.gs[key][a].clone();
            junk(cx.r, &mut *o);
            let before = (digest(&*fft), digest(&*self.gs[key][a]));
            trace(&mut o, &self.gs[key][a], &fft, &g.def, &rx);
            let kept = before == (digest(&*fft), digest(&*self.gs[key][a]));
            let v = gphase(&o, &self.sk[key], &g);
            cx.ev(json!({"ev": "trace", "kept": kept as u8, "d": d, "a": GN * key + a, "s": sj(self.s), "x": par(g.n, g.k, &rx, true), "v": vec_w(&v)}));
        }
    }
    fn divide(&mut self, cx: &mut Cx) {
        let g = self.g;
        let (key, a) = (cx.r.below(2), cx.r.below(GN));
        let k = cx.r.below(S::BITS as usize / 2) as u32;
        for _ in 0..cx.reps {
            let mut o = self.gs[key][a].clone();
            junk(cx.r, &mut *o);
            let before = digest(&*self.gs[key][a]);
            std_ops::glwe_mod_switch_and_expand_pow_2(&mut o, &self.gs[key][a], &g.def, k);
            let kept = before == digest(&*self.gs[key][a]);
            let v = gphase(&o, &self.sk[key], &g);
            cx.ev(json!({"ev": "divpow", "kept": kept as u8, "d": 6, "a": GN * key + a, "k": k, "x": par(g.n, g.k, &radix(1, 1), false), "v": vec_w(&v)}));
        }
    }
    /// GLev ciphertexts of bits, in every way they are made, and the selectors they become.
    fn scheme(&mut self, cx: &mut Cx) {
        let g = self.g;
        let key = cx.r.below(2);
        let (full_g, full_s) = (cx.r.chance(1, 4), cx.r.chance(1, 2));
        let rg = some_radix::<S>(cx.r, full_g);
        let rs = some_radix::<S>(cx.r, full_s);
        let bits = 1 + cx.r.below(rg.radix_log.0.min(3)) as u32;
        let m = messages::<S>(cx.r, g.n, bits);
        let mut glev = GlevCiphertext::<S>::new(&g.def, &rg);
        junk(cx.r, &mut *glev);
        let mut cnt = 1;
        let mut s = sj(self.s);
        match cx.r.below(3) {
            0 => {
                trivially_encrypt_glev_ciphertext(&mut glev, poly(&m).as_torus(), &g.def, &rg);
                s = -1;
            }
            1 if g.k == 1 => {
                let mut pk = RlwePublicKey::new(&g.def);
                junk(cx.r, &mut *pk);
                rlwe_generate_public_key(&mut pk, &self.sk[key], &g.def);
                encrypt_rlev_ciphertext(&mut glev, poly(&m).as_torus(), &pk, &g.def, &rg);
                cnt = 2 * g.n + 1;
            }
            _ => encrypt_secret_glev_ciphertext(&mut glev, poly(&m).as_torus(), &self.sk[key], &g.def, &rg),
        }
        for (j, row) in glev.glwe_ciphertexts(&g.def).enumerate() {
            let v = gphase(row, &self.sk[key], &g);
            cx.ev(json!({"ev": "enc", "kept": 1, "d": if j == 0 { 7 } else { 6 }, "m": vec_w(&m), "p": rg.radix_log.0 * (j + 1), "cnt": cnt, "s": s, "v": vec_w(&v)}));
        }
        let mut o = tpoly(&m);
        junk(cx.r, &mut *o);
        decrypt_glev_ciphertext(&mut o, &glev, &self.sk[key], &g.def, &rg);
        cx.ev(json!({"ev": "decreg", "kept": 1, "a": 7, "p": rg.radix_log.0, "m": vec_w(&ints(&o))}));

        let mut ssk = SchemeSwitchKey::<S>::new(&g.def, &rs);
        junk(cx.r, &mut *ssk);
        generate_scheme_switch_key(&mut ssk, &self.sk[key], &g.def, &rs);
        let mut ssk_fft = SchemeSwitchKeyFft::new(&g.def, &rs);
        junkc(cx.r, &mut *ssk_fft);
        ssk.fft(&mut ssk_fft, &g.def, &rs);
        if cx.r.chance(1, 4) {
            junk(cx.r, &mut *ssk);
            ssk_fft.ifft(&mut ssk, &g.def, &rs);
        }
        let m1 = norm_log(&m);
        // the noise of a fresh row under the switching key and of the digits
        let event = |kept: bool, d: usize| json!({"ev": "schemesw", "kept": kept as u8, "d": d, "m": vec_w(&m), "m1": m1, "s": sj(self.s), "sin": s, "cnt": cnt, "x": par(g.n, g.k, &rs, true)});
        for _ in 0..cx.reps {
            let (a, b) = (cx.r.below(GN), cx.r.below(GN));
            let mut sel = GgswCiphertext::<S>::new(&g.def, &rg);
            junk(cx.r, &mut *sel);
            let before = (digest(&*glev), digest(&*ssk), digest(&*ssk_fft));
            scheme_switch(&mut sel, &glev, &ssk, &g.def, &rg, &rs);
            let mut fft = GgswCiphertextFft::new(&g.def, &rg);
            junkc(cx.r, &mut *fft);
            fft_ops::scheme_switch_fft(&mut fft, &glev, &ssk_fft, &g.def, &rg, &rs);
            let kept = before == (digest(&*glev), digest(&*ssk), digest(&*ssk_fft));
            cx.ev(event(kept, 0));
            let out = std_ops::external_product_ggsw_glwe(&sel, &self.gs[key][a], &g.def, &rg);
            let v = gphase(&out, &self.sk[key], &g);
            cx.ev(json!({"ev": "xprod", "kept": 1, "d": 6, "a": GN * key + a, "sel": 0, "x": par(g.n, g.k, &rg, false), "v": vec_w(&v)}));
            cx.ev(event(kept, 1));
            let mut out = self.gs[key][a].clone();
            junk(cx.r, &mut *out);
            fft_ops::cmux(&mut out, &self.gs[key][a], &self.gs[key][b], &fft, &g.def, &rg);
            let v = gphase(&out, &self.sk[key], &g);
            cx.ev(json!({"ev": "cmux", "kept": 1, "d": 6, "a": GN * key + a, "b": GN * key + b, "sel": 1, "x": par(g.n, g.k, &rg, true), "v": vec_w(&v)}));
        }
    }
}

pub fn history<S: TorusOps>(cx: &mut Cx, big: bool, steps: usize)
where
    Wrapping<S>: Sub<Wrapping<S>, Output = Wrapping<S>> + Add<Wrapping<S>, Output = Wrapping<S>> + Mul<Wrapping<S>, Output = Wrapping<S>>,
{
    let n = if big { 128usize << cx.r.below(3) } else { 16usize << cx.r.below(3) };
    let k = 1 + cx.r.below(3);
    let most = if S::BITS == 64 { 30 } else { 6 };
    let s = if cx.r.chance(1, 3) { None } else { Some(cx.r.below(most) as i32) };
    let dims = [1 + cx.r.below(20), 1 + cx.r.below(20)];
    cx.tr.begin(json!({"ev": "reset", "kept": 1, "bits": S::BITS, "n": n, "k": k, "noise": sj(s), "dims": dims}));
    let mut h = Ks::<S>::new(cx, n, k, dims, s);
    for _ in 0..steps {
        h.step(cx);
    }
}
pub fn run(a: &Args) {
    let mut rng = Rng::new(a.seed ^ 0x50);
    let mut tr = Trace::new(&a.dir, a.shards);
    for i in 0..a.n {
        let mut r = rng.fork();
        sunscreen_tfhe::verif::set_simd_cap((i % 3) as u8);
        let mut cx = Cx { tr: &mut tr, r: &mut r, reps: 1 };
        if i % 8 == 7 { hl::history(&mut cx, "ks", 8); continue; }
        // some at the degrees real parameters have
        let big = i % 32 == i / 32 % 7;
        let steps = if big { 8 } else { 20 };
        if i % 3 == 2 { history::<u32>(&mut cx, big, steps) } else { history::<u64>(&mut cx, big, steps) }
    }
    tr.finish(&a.dir, json!({}));
}
