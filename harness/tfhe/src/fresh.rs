//! T13: masks, noise and secret keys of everything that encrypts.
use crate::hom::*;
use crate::*;
use std::num::Wrapping;
use std::ops::{Add, Mul, Sub};
use sunscreen_tfhe::ops::automorphisms::*;
use sunscreen_tfhe::ops::bootstrapping::*;
use sunscreen_tfhe::ops::encryption::*;
use sunscreen_tfhe::ops::keyswitch::glwe_keyswitch_key::*;
use sunscreen_tfhe::ops::keyswitch::lwe_keyswitch_key::*;
use sunscreen_tfhe::ops::keyswitch::private_functional_keyswitch::*;
use sunscreen_tfhe::ops::keyswitch::public_functional_keyswitch::*;

/// What one thread saw: mask words (64 bits each), noises by kind, and whole events.
#[derive(Default)]
struct Seen {
    words: Vec<u64>,
    noise: Vec<(String, Vec<i64>)>,
    bits: Vec<(String, Vec<u64>)>,
    events: Vec<Value>,
}
#[derive(Clone, Copy)]
struct Par {
    n: usize,
    k: usize,
    s: i32,
    dim: usize,
}
fn pack<S: TorusOps>(out: &mut Vec<u64>, x: &[S]) {
    if S::BITS == 64 {
        out.extend(x.iter().map(|x| x.to_u64()));
    } else {
        out.extend(x.chunks_exact(2).map(|x| x[0].to_u64() | x[1].to_u64() << 32));
    }
}
/// distance from the nearest multiple of 2^(bits-p)
fn residue<S: TorusOps>(x: S, p: u32, s: i32) -> i64 {
    let w = S::BITS - p;
    let x = if w == 64 { x.to_u64() } else { x.to_u64() & ((1u64 << w) - 1) };
    let e = if x >> (w - 1) == 1 { (x as i128 - (1i128 << w)) as i64 } else { x as i64 };
    e >> (s - 24).max(0)
}
impl Seen {
    fn lwe<S: TorusOps>(&mut self, ct: &LweCiphertextRef<S>, sk: &LweSecretKeyRef<S>, l: &LweDef, p: u32, s: i32, noise: &mut Vec<i64>) {
        pack(&mut self.words, &ct.a_b(l).0.iter().map(|x| x.inner()).collect::<Vec<_>>());
        noise.push(residue(lphase(ct, sk, l), p, s));
    }
    fn glwe<S: TorusOps>(&mut self, ct: &GlweCiphertextRef<S>, sk: &GlweSecretKeyRef<S>, g: &Gp, p: u32, s: i32, noise: &mut Vec<i64>) {
        for a in ct.a(&g.def) {
            pack(&mut self.words, &ints(a));
        }
        noise.extend(gphase(ct, sk, g).into_iter().map(|x| residue(x, p, s)));
    }
    fn put(&mut self, kind: &str, e: Vec<i64>) {
        self.noise.push((kind.into(), e));
    }
    fn secret<S: TorusOps>(&mut self, kind: &str, s: &[S], binary: bool) {
        if binary {
            self.bits.push((kind.into(), s.iter().map(|x| x.to_u64()).collect()));
            for c in s.chunks_exact(64) {
                self.words.push(c.iter().enumerate().fold(0, |acc, (i, b)| acc | b.to_u64() << i));
            }
        } else {
            pack(&mut self.words, s);
        }
    }
}

fn encryptions<S: TorusOps>(mut r: Rng, p: Par, reps: usize) -> Seen
where
    Wrapping<S>: Sub<Wrapping<S>, Output = Wrapping<S>> + Add<Wrapping<S>, Output = Wrapping<S>> + Mul<Wrapping<S>, Output = Wrapping<S>>,
{
    let r = &mut r;
    let s = p.s;
    let mut seen = Seen::default();
    let g = gp::<S>(p.n, p.k, Some(s));
    let g1 = gp::<S>(p.n, 1, Some(s));
    let l = lwe_def::<S>(p.dim, Some(s));
    let sk = GlweSecretKey::<S>::generate_binary(&g.def);
    let sk1 = GlweSecretKey::<S>::generate_binary(&g1.def);
    let lsk = LweSecretKey::<S>::generate_binary(&l);
    // what of the word messages take: at most
    let room = if S::BITS == 64 { 12 } else { 6 };
    let rx = radix(if S::BITS == 64 { 3 } else { 2 }, if S::BITS == 64 { 4 } else { 3 });
    let same = msg::<S>(r, room);
    for i in 0..reps {
        let m = if i % 2 == 0 { same } else { msg::<S>(r, room) };
        // LWE, each way; the noise is also returned
        let mut e = vec![];
        for way in 0..24 {
            let mut ct = LweCiphertext::<S>::new(&l);
            junk(r, &mut *ct);
            let enc = Torus::<S>::encode(m, PlaintextBits(room));
            let got = match way % 3 {
                0 => encrypt_lwe_ciphertext(&mut ct, &lsk, enc, &l),
                1 => encode_and_encrypt_lwe_ciphertext(&mut ct, &lsk, m, &l, PlaintextBits(room)),
                _ => {
                    let (c, e) = lsk.encrypt(m, &l, PlaintextBits(room));
                    ct = c;
                    e
                }
            };
            seen.lwe(&ct, &lsk, &l, room, s, &mut e);
            if way < 3 && i < 4 {
                seen.events.push(json!({"ev": "lweenc", "m": w(enc.inner()), "e": w(got.inner()), "ph": w(lphase(&ct, &lsk, &l))}));
            }
        }
        seen.put("lwe", e);
        // under a public key
        let pk = LwePublicKey::<S>::generate(&lsk, &l);
        let mut e = vec![];
        let zs: Vec<_> = pk.enc_zeros(&l).collect();
        for z in &zs {
            seen.lwe(z, &lsk, &l, room, s, &mut e);
        }
        seen.put("lwe public key", e);
        let word = |x: &Torus<S>| x.inner();
        for _ in 0..4 {
            let (ct, rnd) = pk.encrypt(m, &l, PlaintextBits(room));
            let (ea, eb) = rnd.e.a_b(&l);
            let (a, b) = ct.a_b(&l);
            pack(&mut seen.words, &a.iter().map(word).collect::<Vec<_>>());
            let mut e: Vec<i64> = ea.iter().map(|x| residue(x.inner(), 0, s)).collect();
            e.push(residue(eb.inner(), 0, s));
            seen.put("lwe public", e);
            seen.bits.push(("lwe public r".into(), rnd.r.iter().map(|x| x.to_u64()).collect()));
            if i < 2 {
                let full = |ct: &LweCiphertextRef<S>| { let (a, b) = ct.a_b(&l); vec_w(&a.iter().chain([b]).map(word).collect::<Vec<_>>()) };
                let _ = b;
                seen.events.push(json!({"ev": "lpkenc", "z": zs.iter().map(|z| full(z)).collect::<Vec<_>>(), "r": vec_w(&rnd.r), "e": full(&rnd.e),
                    "m": w(Torus::<S>::encode(m, PlaintextBits(room)).inner()), "ct": full(&ct)}));
            }
        }
        // GLWE
        let mut e = vec![];
        let mut ct = GlweCiphertext::<S>::new(&g.def);
        for way in 0..4 {
            let ms = vec![m; p.n];
            if way == 0 {
                ct = sk.encode_encrypt_glwe(&poly(&ms), &g.def, PlaintextBits(room));
            } else {
                if way == 1 { junk(r, &mut *ct) }
                encrypt_glwe_ciphertext_secret(&mut ct, &tpoly(&encode_all(&ms, room)), &sk, &g.def);
            }
            seen.glwe(&ct, &sk, &g, room, s, &mut e);
        }
        seen.put("glwe", e);
        // RLWE under a public key
        let mut rpk = RlwePublicKey::<S>::new(&g1.def);
        junk(r, &mut *rpk);
        rlwe_generate_public_key(&mut rpk, &sk1, &g1.def);
        let mut e = vec![];
        seen.glwe(rpk.zero_encryption(), &sk1, &g1, room, s, &mut e);
        seen.put("rlwe public key", e);
        for way in 0..2 {
            let ms = messages::<S>(r, p.n, room);
            let mut ct = GlweCiphertext::<S>::new(&g1.def);
            junk(r, &mut *ct);
            let enc = encode_all(&ms, room);
            let rnd = if way == 0 { rlwe_encode_encrypt_public(&mut ct, &poly(&ms), &rpk, &PlaintextBits(room), &g1.def) } else { rlwe_encrypt_public(&mut ct, &tpoly(&enc), &rpk, &g1.def) };
            let mut e = vec![];
            e.extend(rnd.e0.coeffs().iter().chain(rnd.e1.coeffs()).map(|x| residue(x.inner(), 0, s)));
            seen.put("rlwe public", e);
            seen.bits.push(("rlwe public u".into(), rnd.u.coeffs().iter().map(|x| x.to_u64()).collect()));
            let (mut a, b) = ct.a_b(&g1.def);
            let a = ints(a.next().unwrap());
            pack(&mut seen.words, &a);
            if i < 2 {
                let (p0, p1) = rpk.p0_p1(&g1.def);
                seen.events.push(json!({"ev": "rlweenc", "p0": vec_w(&ints(p0)), "p1": vec_w(&ints(p1)), "u": vec_w(rnd.u.coeffs()), "e0": vec_w(&ints(&rnd.e0)),
                    "e1": vec_w(&ints(&rnd.e1)), "m": vec_w(&enc), "a": vec_w(&a), "b": vec_w(&ints(b))}));
            }
        }
        // GLev and GGSW: every row is an encryption of its own
        let bit = messages::<S>(r, p.n, 1);
        let pr = (rx.count.0 * rx.radix_log.0) as u32;
        let mut glev = GlevCiphertext::<S>::new(&g.def, &rx);
        junk(r, &mut *glev);
        encrypt_secret_glev_ciphertext(&mut glev, poly(&bit).as_torus(), &sk, &g.def, &rx);
        let mut e = vec![];
        for c in glev.glwe_ciphertexts(&g.def) {
            seen.glwe(c, &sk, &g, pr, s, &mut e);
        }
        seen.put("glev", e);
        let mut rlev = GlevCiphertext::<S>::new(&g1.def, &rx);
        junk(r, &mut *rlev);
        encrypt_rlev_ciphertext(&mut rlev, poly(&bit).as_torus(), &rpk, &g1.def, &rx);
        let mut e = vec![];
        for c in rlev.glwe_ciphertexts(&g1.def) {
            seen.glwe(c, &sk1, &g1, pr, s, &mut e);
        }
        seen.put("rlev", e);
        for way in 0..2 {
            let mut ggsw = GgswCiphertext::<S>::new(&g.def, &rx);
            junk(r, &mut *ggsw);
            if way == 0 {
                encrypt_ggsw_ciphertext(&mut ggsw, &poly(&bit), &sk, &g.def, &rx, PlaintextBits(1));
            } else {
                encrypt_ggsw_ciphertext_scalar(&mut ggsw, bit[0], &sk, &g.def, &rx, PlaintextBits(1));
            }
            let mut e = vec![];
            for row in ggsw.rows(&g.def, &rx) {
                for c in row.glwe_ciphertexts(&g.def) {
                    seen.glwe(c, &sk, &g, pr, s, &mut e);
                }
            }
            seen.put(if way == 0 { "ggsw" } else { "ggsw scalar" }, e);
        }
        // secret keys
        seen.secret("lwe secret", LweSecretKey::<S>::generate_binary(&lwe_def::<S>(128, None)).s(), true);
        seen.secret("lwe uniform secret", LweSecretKey::<S>::generate_uniform(&l).s(), false);
        seen.secret("glwe secret", GlweSecretKey::<S>::generate_binary(&gp::<S>(64, 2, None).def).to_lwe_secret_key().s(), true);
        seen.secret("glwe uniform secret", GlweSecretKey::<S>::generate_uniform(&g.def).to_lwe_secret_key().s(), false);
    }
    // evaluation keys: their rows encrypt multiples of the gadget
    let pr = (rx.count.0 * rx.radix_log.0) as u32;
    for _ in 0..2 {
        let mut k1 = LweKeyswitchKey::<S>::new(&l, &l, &rx);
        generate_keyswitch_key_lwe(&mut k1, &lsk, &lsk, &l, &l, &rx);
        let mut e = vec![];
        for row in k1.rows(&l, &rx) {
            for c in row.lwe_ciphertexts(&l) {
                seen.lwe(c, &lsk, &l, pr, s, &mut e);
            }
        }
        seen.put("lwe switching key", e);
        let mut k2 = GlweKeyswitchKey::<S>::new(&g.def, &rx);
        generate_keyswitch_key_glwe(&mut k2, &sk, &sk, &g.def, &rx);
        let mut e = vec![];
        for row in k2.rows(&g.def, &rx) {
            for c in row.glwe_ciphertexts(&g.def) {
                seen.glwe(c, &sk, &g, pr, s, &mut e);
            }
        }
        seen.put("glwe switching key", e);
        let mut k3 = BootstrapKey::<S>::new(&l, &g.def, &rx);
        generate_bootstrap_key(&mut k3, &lsk, &sk, &l, &g.def, &rx);
        for ggsw in k3.rows(&g.def, &rx) {
            let mut e = vec![];
            for row in ggsw.rows(&g.def, &rx) {
                for c in row.glwe_ciphertexts(&g.def) {
                    seen.glwe(c, &sk, &g, pr, s, &mut e);
                }
            }
            seen.put("bootstrapping key", e);
        }
        let mut k4 = AutomorphismKey::<S>::new(&g.def, &rx);
        generate_automorphism_key(&mut k4, &sk, &g.def, &rx);
        let mut e = vec![];
        for key in k4.keyswitch_keys(&g.def, &rx) {
            for row in key.rows(&g.def, &rx) {
                for c in row.glwe_ciphertexts(&g.def) {
                    seen.glwe(c, &sk, &g, pr, s, &mut e);
                }
            }
        }
        seen.put("automorphism key", e);
        let mut k5 = SchemeSwitchKey::<S>::new(&g.def, &rx);
        generate_scheme_switch_key(&mut k5, &sk, &g.def, &rx);
        let mut e = vec![];
        for row in k5.glev_ciphertexts(&g.def, &rx) {
            for c in row.glwe_ciphertexts(&g.def) {
                seen.glwe(c, &sk, &g, pr, s, &mut e);
            }
        }
        seen.put("scheme switching key", e);
        let mut k6 = CircuitBootstrappingKeyswitchKeys::<S>::new(&l, &g.def, &rx);
        generate_circuit_bootstrapping_pfks_keys(&mut k6, &lsk, &sk, &l, &g.def, &rx);
        for key in k6.keys(&l, &g.def, &rx) {
            let mut e = vec![];
            for row in key.glevs(&g.def, &rx) {
                for c in row.glwe_ciphertexts(&g.def) {
                    seen.glwe(c, &sk, &g, pr, s, &mut e);
                }
            }
            seen.put("private functional key", e);
        }
        let mut k7 = PublicFunctionalKeyswitchKey::<S>::new(&l, &g.def, &rx);
        generate_public_functional_keyswitch_key(&mut k7, &lsk, &sk, &l, &g.def, &rx);
        let mut e = vec![];
        for row in k7.glevs(&g.def, &rx) {
            for c in row.glwe_ciphertexts(&g.def) {
                seen.glwe(c, &sk, &g, pr, s, &mut e);
            }
        }
        seen.put("public functional key", e);
    }
    seen
}

/// What another process draws.
pub fn child() {
    let l = lwe_def::<u64>(16, Some(24));
    let sk = LweSecretKey::<u64>::generate_binary(&l);
    let mut words = vec![];
    for _ in 0..8 {
        let (ct, _) = sk.encrypt(0, &l, PlaintextBits(1));
        pack(&mut words, &ct.a_b(&l).0.iter().map(|x| x.inner()).collect::<Vec<_>>());
    }
    println!("{}", serde_json::to_string(&words).unwrap());
}

fn history<S: TorusOps>(tr: &mut Trace, r: &mut Rng, i: usize)
where
    Wrapping<S>: Sub<Wrapping<S>, Output = Wrapping<S>> + Add<Wrapping<S>, Output = Wrapping<S>> + Mul<Wrapping<S>, Output = Wrapping<S>>,
{
    let n = 16usize << r.below(2);
    let k = 1 + r.below(3);
    let dim = 8 + r.below(8);
    let s = if S::BITS == 64 { *r.pick(&[24, 24, 16, 20, 33, 40]) } else { *r.pick(&[18, 18, 12, 15]) };
    let p = Par { n, k, s, dim };
    tr.begin(json!({"ev": "reset", "bits": S::BITS, "n": n, "k": k, "dim": dim, "s": s}));
    let threads = 1 + i % 3;
    let reps = 24 / threads;
    let rs: Vec<Rng> = (0..threads).map(|_| r.fork()).collect();
    // all start together
    let gate = std::sync::Barrier::new(threads);
    let gate = &gate;
    let all: Vec<Seen> = std::thread::scope(|sc| {
        let hs: Vec<_> = rs.into_iter().map(|r| sc.spawn(move || { gate.wait(); encryptions::<S>(r, p, reps) })).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|e| std::panic::resume_unwind(e))).collect()
    });
    let shown = s.min(24);
    let mut kinds = std::collections::BTreeSet::new();
    let mut bkinds = std::collections::BTreeSet::new();
    let mut order: Vec<(u64, usize, usize)> = vec![];
    let mut draws = 0;
    for seen in all {
        for c in seen.words.chunks(1000) {
            draws += 1;
            order.extend(c.iter().enumerate().map(|(j, x)| (*x, draws, j + 1)));
            tr.ev(json!({"ev": "masks", "words": c.iter().map(|x| w(*x)).collect::<Vec<_>>()}));
        }
        for (kind, e) in seen.noise {
            tr.ev(json!({"ev": "noise", "kind": kind, "s": shown, "e": e}));
            kinds.insert(kind);
        }
        for (kind, v) in seen.bits {
            tr.ev(json!({"ev": "bits", "kind": kind, "v": v}));
            bkinds.insert(kind);
        }
        for e in seen.events {
            tr.ev(e);
        }
    }
    if i % 8 == 0 {
        for _ in 0..2 {
            let out = std::process::Command::new(std::env::current_exe().unwrap()).args(["fresh-child", "--dir", "/nonexistent"]).output().unwrap();
            let words: Vec<u64> = serde_json::from_slice(&out.stdout).expect("what another process drew");
            draws += 1;
            order.extend(words.iter().enumerate().map(|(j, x)| (*x, draws, j + 1)));
            tr.ev(json!({"ev": "masks", "words": words.iter().map(|x| w(*x)).collect::<Vec<_>>()}));
        }
    }
    for kind in kinds {
        tr.ev(json!({"ev": "spread", "kind": kind, "most": if kind == "rlev" { 4 * n } else { 1 }}));
    }
    for kind in bkinds {
        tr.ev(json!({"ev": "balance", "kind": kind}));
    }
    order.sort();
    tr.ev(json!({"ev": "even", "order": order.iter().map(|(_, d, j)| [*d, *j]).collect::<Vec<_>>()}));
}
pub fn run(a: &Args) {
    let mut rng = Rng::new(a.seed ^ 0x130);
    let mut tr = Trace::new(&a.dir, a.shards);
    for i in 0..a.n {
        let mut r = rng.fork();
        if i % 3 == 2 { history::<u32>(&mut tr, &mut r, i) } else { history::<u64>(&mut tr, &mut r, i) }
    }
    tr.finish(&a.dir, json!({}));
}
