//! T01: linear operations over LWE and GLWE registers.
use crate::hom::*;
use crate::*;
use sunscreen_tfhe::ops::bootstrapping::*;
use sunscreen_tfhe::ops::ciphertext::*;
use sunscreen_tfhe::ops::encryption::*;
use sunscreen_tfhe::ops::homomorphisms::lwe_rotate;

const G: usize = 5;
/// slots 0..G hold GLWE ciphertexts, 8..8+G LWE ciphertexts under the extracted key
pub struct Lin<S: TorusOps> {
    g: Gp,
    l: LweDef,
    binary: bool,
    sk: GlweSecretKey<S>,
    pk: Option<LwePublicKey<S>>,
    rpk: Option<RlwePublicKey<S>>,
    gs: Vec<GlweCiphertext<S>>,
    ls: Vec<LweCiphertext<S>>,
}

const GOPS: [&str; 26] = [
    "enc", "enc2", "triv", "triv2", "rlwe", "rlwe2", "add", "acc", "sub", "neg", "pmad", "smad", "shift", "mono", "monop", "monon", "opadd",
    "opsub", "opneg", "extract", "lenc", "lenc2", "lpk", "ltriv", "lacc", "lshift",
];
const LOPS: [&str; 3] = ["lopadd", "lopsub", "lopneg"];

impl<S: TorusOps> Lin<S> {
    pub fn new(cx: &mut Cx, n: usize, k: usize, s: Option<i32>, binary: bool) -> Self {
        let g = gp::<S>(n, k, s);
        let l = g.def.as_lwe_def();
        let sk = if binary { GlweSecretKey::generate_binary(&g.def) } else { GlweSecretKey::generate_uniform(&g.def) };
        let pk = (n * k <= 64).then(|| LwePublicKey::generate(sk.to_lwe_secret_key(), &l));
        let rpk = (k == 1 && binary).then(|| {
            let mut pk = RlwePublicKey::new(&g.def);
            junk(cx.r, &mut *pk);
            rlwe_generate_public_key(&mut pk, &sk, &g.def);
            pk
        });
        let mut me = Lin { g, l, binary, sk, pk, rpk, gs: vec![], ls: vec![] };
        for d in 0..G {
            me.gs.push(GlweCiphertext::new(&g.def));
            me.ls.push(LweCiphertext::new(&l));
            me.step(cx, "enc", d);
            me.step(cx, "lenc", d);
        }
        me
    }
    fn lsk(&self) -> &LweSecretKeyRef<S> {
        self.sk.to_lwe_secret_key()
    }
    /// an output to be determined: old contents of any kind
    fn gout(&self, cx: &mut Cx, d: usize) -> GlweCiphertext<S> {
        let mut o = self.gs[d].clone();
        if cx.r.chance(1, 2) { junk(cx.r, &mut *o) }
        o
    }
    fn lout(&self, cx: &mut Cx, d: usize) -> LweCiphertext<S> {
        let mut o = self.ls[d].clone();
        if cx.r.chance(1, 2) { junk(cx.r, &mut *o) }
        o
    }
    pub fn random(&mut self, cx: &mut Cx) {
        let all = GOPS.len() + LOPS.len();
        let at = cx.r.below(all + 3);
        if at >= all {
            return self.decode(cx);
        }
        let op = if at < GOPS.len() { GOPS[at] } else { LOPS[at - GOPS.len()] };
        let d = cx.r.below(G);
        self.step(cx, op, d)
    }
    fn enc_event(&self, cx: &mut Cx, d: usize, m: &[S], p: u32, cnt: usize, s: i64, v: Vec<S>) {
        cx.ev(json!({"ev": "enc", "kept": 1, "d": d, "m": vec_w(m), "p": p, "cnt": cnt, "s": s, "v": vec_w(&v)}));
    }
    pub fn step(&mut self, cx: &mut Cx, op: &str, d: usize) {
        let (g, l) = (self.g, self.l);
        let (n, k) = (g.n, g.k);
        let (a, b) = (cx.r.below(G), cx.r.below(G));
        let p = 1 + cx.r.below(S::BITS as usize - 1) as u32;
        match op {
            "enc" | "enc2" | "triv" | "triv2" | "rlwe" | "rlwe2" => {
                let m = messages::<S>(cx.r, n, p);
                for _ in 0..cx.reps {
                    let mut o = self.gout(cx, d);
                    let enc = tpoly(&encode_all(&m, p));
                    let mut cnt = 1;
                    let mut s = sj(g.s);
                    match op {
                        "enc" => o = self.sk.encode_encrypt_glwe(&poly(&m), &g.def, PlaintextBits(p)),
                        "enc2" => encrypt_glwe_ciphertext_secret(&mut o, &enc, &self.sk, &g.def),
                        "triv" | "triv2" => {
                            trivially_encrypt_glwe_ciphertext(&mut o, &enc, &g.def);
                            s = -1;
                        }
                        _ => {
                            let Some(rpk) = &self.rpk else { return };
                            cnt = 2 * n + 1;
                            if op == "rlwe" {
                                rlwe_encode_encrypt_public(&mut o, &poly(&m), rpk, &PlaintextBits(p), &g.def);
                            } else {
                                rlwe_encrypt_public(&mut o, &enc, rpk, &g.def);
                            }
                        }
                    }
                    let v = gphase(&o, &self.sk, &g);
                    self.enc_event(cx, d, &m, p, cnt, s, v);
                    self.gs[d] = o;
                }
            }
            "lenc" | "lenc2" | "lpk" | "ltriv" => {
                let m = msg::<S>(cx.r, p);
                for _ in 0..cx.reps {
                    let mut o = self.lout(cx, d);
                    let (mut cnt, mut s) = (1, sj(g.s));
                    let e = Torus::<S>::encode(m, PlaintextBits(p));
                    match op {
                        "lenc" => o = self.lsk().encrypt(m, &l, PlaintextBits(p)).0,
                        "lenc2" => {
                            if cx.r.chance(1, 2) {
                                encrypt_lwe_ciphertext(&mut o, self.lsk(), e, &l);
                            } else {
                                encode_and_encrypt_lwe_ciphertext(&mut o, self.lsk(), m, &l, PlaintextBits(p));
                            }
                        }
                        "lpk" => {
                            let Some(pk) = &self.pk else { return };
                            if !self.binary { return }
                            cnt = 2 * n * k + 1;
                            o = pk.encrypt(m, &l, PlaintextBits(p)).0;
                        }
                        _ => {
                            trivially_encrypt_lwe_ciphertext(&mut o, &e, &l);
                            s = -1;
                        }
                    }
                    let v = vec![lphase(&o, self.lsk(), &l)];
                    self.enc_event(cx, d + 8, &[m], p, cnt, s, v);
                    self.ls[d] = o;
                }
            }
            _ => self.linear(cx, op, d, a, b),
        }
    }
    fn linear(&mut self, cx: &mut Cx, op: &str, d: usize, a: usize, b: usize) {
        let (g, l) = (self.g, self.l);
        let n = g.n;
        let start_g = self.gs[d].clone();
        let start_l = self.ls[d].clone();
        let s: S = match cx.r.below(4) { 0 => S::from_u64(cx.r.below(4) as u64), 1 => S::from_u64(0u64.wrapping_sub(cx.r.below(4) as u64)), _ => word(cx.r) };
        let m = multiplier::<S>(cx.r, n);
        let k: i64 = match op {
            "extract" => match cx.r.below(4) { 0 => 0, 1 => n as i64 - 1, 2 => n as i64 / 2, _ => cx.r.below(n) as i64 },
            "mono" => cx.r.range(-4 * n as i64, 4 * n as i64),
            "monop" | "monon" => cx.r.below(3 * n) as i64,
            _ => 0,
        };
        // operations on the destination itself start from the same ciphertext each time
        let inplace = ["acc", "neg", "pmad", "smad", "lacc"].contains(&op);
        let is_l = op.starts_with('l') || op == "extract";
        // the starting ciphertext is kept in a spare slot so that every repetition can refer to it
        let spare = if is_l { 14 } else { 6 };
        if inplace {
            let ph = if is_l { vec![lphase(&start_l, self.lsk(), &l)] } else { gphase(&start_g, &self.sk, &g) };
            let src = if is_l { d + 8 } else { d };
            cx.ev(json!({"ev": "lin", "kept": 1, "op": "same", "d": spare, "c": src, "a": src, "b": src, "k": 0, "s": [], "p": [], "v": vec_w(&ph)}));
        }
        let before = (digest(&*self.gs[a]), digest(&*self.gs[b]), digest(&*self.ls[a]), digest(&*self.ls[b]));
        let (ga, gb, la, lb) = (self.gs[a].clone(), self.gs[b].clone(), self.ls[a].clone(), self.ls[b].clone());
        for rep in 0..cx.reps {
            let mut og = if inplace { start_g.clone() } else { self.gout(cx, d) };
            let mut ol = if inplace { start_l.clone() } else { self.lout(cx, d) };
            let mut name = op.trim_start_matches('l').trim_start_matches("op");
            let mut kk = k;
            match op {
                "add" => add_glwe_ciphertexts(&mut og, &ga, &gb, &g.def),
                "sub" => sub_glwe_ciphertexts(&mut og, &ga, &gb, &g.def),
                "acc" => glwe_add_assign(&mut og, &ga, &g.def),
                "neg" => glwe_negate_inplace(&mut og, &g.def),
                "pmad" => glwe_polynomial_mad(&mut og, &ga, &poly(&m), &g.def),
                "smad" => glwe_scalar_mad(&mut og, &ga, s, &g.def),
                "shift" => glwe_rotate(&mut og, &ga, Torus::from(s), &g.def),
                "mono" => rotate_glwe_monomial_negacyclic(&mut og, &ga, k as isize, &g.def),
                "monop" => {
                    name = "mono";
                    rotate_glwe_positive_monomial_negacyclic(&mut og, &ga, k as usize, &g.def)
                }
                "monon" => {
                    name = "mono";
                    kk = -k;
                    rotate_glwe_negative_monomial_negacyclic(&mut og, &ga, k as usize, &g.def)
                }
                "opadd" => og = match rep % 2 { 0 => &*ga + &*gb, _ => ga.clone() + gb.clone() },
                "opsub" => og = match rep % 2 { 0 => &*ga - &*gb, _ => ga.clone() - gb.clone() },
                "opneg" => og = -&*ga,
                "extract" => sample_extract(&mut ol, &ga, k as usize, &g.def),
                "lacc" => add_lwe_inplace(&mut ol, &la, &l),
                "lshift" => lwe_rotate(&mut ol, &la, Torus::from(s), &l),
                "lopadd" => ol = match rep % 2 { 0 => &*la + &*lb, _ => la.clone() + lb.clone() },
                "lopsub" => ol = match rep % 2 { 0 => &*la - &*lb, _ => la.clone() - lb.clone() },
                "lopneg" => ol = -&*la,
                _ => unreachable!("{op}"),
            }
            let kept = before == (digest(&*ga), digest(&*gb), digest(&*la), digest(&*lb));
            let (v, dd, off) = if is_l {
                (vec![lphase(&ol, self.lsk(), &l)], d + 8, if op == "extract" { 0 } else { 8 })
            } else {
                (gphase(&og, &self.sk, &g), d, 0)
            };
            // a repeated operation must not see its own result as an operand
            let dd = if cx.reps > 1 { dd - d + G } else { dd };
            let (ia, name) = if op == "neg" { (spare - off, name) } else { (a, name) };
            cx.ev(json!({"ev": "lin", "kept": kept as u8, "op": name, "d": dd, "c": if inplace { spare } else { d }, "a": ia + off, "b": b + off, "k": kk,
                "s": w(s), "p": if op == "pmad" { vec_w(&m) } else { json!([]) }, "v": vec_w(&v)}));
            if cx.reps == 1 {
                if is_l { self.ls[d] = ol } else { self.gs[d] = og }
            }
        }
    }
    fn decode(&mut self, cx: &mut Cx) {
        let (g, l) = (self.g, self.l);
        let a = cx.r.below(G);
        let p = 1 + cx.r.below(S::BITS as usize - 1) as u32;
        let parts = |ct: &GlweCiphertext<S>| {
            let (x, y) = ct.a_b(&g.def);
            (Value::Array(x.map(|c| vec_w(&ints(c))).collect()), vec_w(&ints(y)))
        };
        if cx.r.chance(1, 2) {
            let ct = &self.gs[a];
            let before = digest(&**ct);
            let mut ph = tpoly(&vec![S::from_u64(0); g.n]);
            junk(cx.r, &mut *ph);
            decrypt_glwe_ciphertext(&mut ph, ct, &self.sk, &g.def);
            let m = self.sk.decrypt_decode_glwe(ct, &g.def, PlaintextBits(p));
            let (x, y) = parts(ct);
            let key: Vec<Value> = self.sk.s(&g.def).map(|s| vec_w(s.coeffs())).collect();
            let kept = (before == digest(&**ct)) as u8;
            if g.n <= 8 || cx.r.chance(1, 4) {
                cx.ev(json!({"ev": "dec", "kept": kept, "a": x, "b": y, "key": key, "ph": vec_w(&ints(&ph)), "p": p, "m": vec_w(m.coeffs())}));
            }
            cx.ev(json!({"ev": "decreg", "kept": kept, "a": a, "p": p, "m": vec_w(m.coeffs())}));
        } else {
            let ct = &self.ls[a];
            let before = digest(&**ct);
            let ph = self.lsk().decrypt_without_decode(ct, &l).inner();
            let m = self.lsk().decrypt(ct, &l, PlaintextBits(p));
            let (x, y) = ct.a_b(&l);
            let av: Vec<S> = x.iter().map(|c| c.inner()).collect();
            let (mut c, mut mc) = (-1i64, m);
            if S::BITS == 64 {
                let carry = cx.r.below(64 - p as usize) as u32;
                let any: &dyn std::any::Any = ct;
                let any_sk: &dyn std::any::Any = &LweKeyHolder(self.lsk().to_owned());
                if let (Some(ct), Some(sk)) = (any.downcast_ref::<LweCiphertext<u64>>(), any_sk.downcast_ref::<LweKeyHolder<u64>>()) {
                    c = carry as i64;
                    mc = S::from_u64(sunscreen_tfhe::high_level::encryption::decrypt_lwe_with_carry(ct, &sk.0, &l, PlaintextBits(p), CarryBits(carry)));
                }
            }
            let kept = (before == digest(&**ct)) as u8;
            cx.ev(json!({"ev": "declwe", "kept": kept, "a": vec_w(&av), "b": w(y.inner()), "key": vec_w(self.lsk().s()), "ph": w(ph), "p": p, "m": w(m), "c": c, "mc": w(mc)}));
            cx.ev(json!({"ev": "decreg", "kept": kept, "a": a + 8, "p": p, "m": [w(m)]}));
        }
    }
    /// Keys form a module too: sums, differences and negations of keys.
    pub fn keyops(&self, cx: &mut Cx) {
        let g = &self.g.def;
        let t = GlweSecretKey::<S>::generate_uniform(g);
        let flat = |k: &GlweSecretKey<S>| vec_w(k.to_lwe_secret_key().s());
        let (l, lt) = (self.lsk().to_owned(), t.to_lwe_secret_key().to_owned());
        for (op, x, y) in [("add", &*self.sk + &*t, &*l + &*lt), ("sub", &*self.sk - &*t, &*l - &*lt), ("neg", -&*self.sk, -&*l)] {
            cx.ev(json!({"ev": "keyop", "kept": 1, "op": op, "x1": flat(&self.sk), "x2": flat(&t), "v": flat(&x)}));
            cx.ev(json!({"ev": "keyop", "kept": 1, "op": op, "x1": flat(&self.sk), "x2": flat(&t), "v": vec_w(y.s())}));
        }
    }
}
struct LweKeyHolder<S: TorusOps>(LweSecretKey<S>);

pub fn history<S: TorusOps>(cx: &mut Cx, big: bool, steps: usize) {
    let n = if big { 128 << cx.r.below(5) } else { 1usize << cx.r.below(7) };
    let k = 1 + cx.r.below(3);
    let s = *cx.r.pick(&[None, Some(0), Some(4), Some(9), Some(13)]);
    let binary = cx.r.chance(2, 3);
    cx.tr.begin(json!({"ev": "reset", "kept": 1, "bits": S::BITS, "n": n, "k": k, "noise": sj(s), "binary": binary}));
    let mut h = Lin::<S>::new(cx, n, k, s, binary);
    h.keyops(cx);
    for _ in 0..steps {
        h.random(cx);
    }
}
pub fn run(a: &Args) {
    let mut rng = Rng::new(a.seed ^ 0x10);
    let mut tr = Trace::new(&a.dir, a.shards);
    for i in 0..a.n {
        let mut r = rng.fork();
        sunscreen_tfhe::verif::set_simd_cap((i % 3) as u8);
        let mut cx = Cx { tr: &mut tr, r: &mut r, reps: 1 };
        if i % 8 == 7 { hl::history(&mut cx, "lin", 8); continue; }
        // some at the degrees real parameters have
        let big = i % 16 == i / 16 % 7;
        let steps = if big { 10 } else { 30 };
        if i % 3 == 2 { history::<u32>(&mut cx, big, steps) } else { history::<u64>(&mut cx, big, steps) }
    }
    tr.finish(&a.dir, json!({}));
}
