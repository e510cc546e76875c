//! T07: torus scalars.
use crate::*;
use num::traits::{MulAdd, WrappingAdd, WrappingNeg, WrappingSub};
use sunscreen_tfhe::*;
use sunscreen_tfhe::entities::{LweCiphertext, Polynomial};
use sunscreen_tfhe::ops::polynomial::{decode_polynomial, encode_polynomial};

fn history<S: TorusOps>(tr: &mut Trace, r: &mut Rng, steps: usize) {
    let mut reg: Vec<S> = (0..4).map(|_| word(r)).collect();
    tr.begin(json!({"ev": "reset", "bits": S::BITS, "regs": vec_w(&reg)}));
    for _ in 0..steps {
        let (d, a, b) = (r.below(4), r.below(4), r.below(4));
        let (x, y) = (Torus::from(reg[a]), Torus::from(reg[b]));
        let c = Torus::from(reg[d]);
        match r.below(7) {
            0 => {
                reg[d] = word(r);
                tr.ev(json!({"ev": "set", "d": d, "v": w(reg[d])}));
            }
            1 => {
                // encode, perturb, decode
                let p = 1 + r.below(S::BITS as usize - 1) as u32;
                let m: S = word(r);
                let e = match r.below(3) { 0 => Torus::encode(m, PlaintextBits(p)), 1 => {
                    let mut o = Polynomial::zero(1);
                    encode_polynomial(&mut o, &Polynomial::new(&[m]), PlaintextBits(p));
                    o.coeffs()[0]
                } _ => Torus::<S>::encode(m, PlaintextBits(p)) };
                reg[d] = e.inner();
                tr.ev(json!({"ev": "encode", "d": d, "p": p, "m": w(m), "v": w(reg[d])}));
            }
            2 => {
                let p = 1 + r.below(S::BITS as usize - 1) as u32;
                let m = if r.chance(1, 2) { x.decode(PlaintextBits(p)) } else {
                    let mut o = Polynomial::zero(1);
                    decode_polynomial(&mut o, &Polynomial::new(&[x]), PlaintextBits(p));
                    o.coeffs()[0]
                };
                tr.ev(json!({"ev": "decode", "a": a, "p": p, "m": w(m)}));
            }
            3 => {
                let f = match r.below(3) { 0 => normalized_torus_distance(&x, &y), 1 => x.normalized_torus_distance(&y), _ => {
                    let neg = y.normalized_torus_distance(&x);
                    // An exact half turn has two directions.
                    if x - y == y - x { normalized_torus_distance(&x, &y) } else { -neg }
                } };
                let m = 2f64.powi(S::BITS as i32);
                let (neg, mag) = (f < 0.0, (f.abs() * m) as u128);
                tr.ev(json!({"ev": "dist", "a": a, "b": b, "neg": neg as u8, "mag": b16(mag), "norm": b16((x.normalized_torus() * m) as u128)}));
            }
            4 => {
                // modulus switching of a ciphertext to 2^lm positions
                let lm = 1 + r.below(S::BITS as usize - 1) as u32;
                let lv = r.below((lm as usize).min(6)) as u32;
                let lc = r.below(4) as u32;
                let def = LweDef { dim: LweDimension(2), std: rand::Stddev(0.0) };
                let mut ct = LweCiphertext::<S>::new(&def);
                ct.a_mut(&def).copy_from_slice(&[x, y]);
                *ct.b_mut(&def) = c;
                ops::ciphertext::lwe_ciphertext_modulus_switch(&mut ct, lc, lv, lm, &def);
                let o = ct.a(&def).to_vec();
                tr.ev(json!({"ev": "switch", "x": [a, b, d], "lm": lm, "lv": lv, "lc": lc, "v": vec_w(&[o[0].inner(), o[1].inner(), ct.b(&def).inner()])}));
            }
            5 => {
                let i = match S::BITS { 64 => {
                    let t: Torus<u32> = Torus::<u64>::from(reg[a].to_u64()).switch_modulus_smaller();
                    json!({"ev": "smaller", "a": a, "v": w(t.inner())})
                } _ => {
                    let t: Torus<u32> = Torus::<u32>::from(reg[a].to_u64() as u32).switch_modulus_smaller();
                    json!({"ev": "smaller", "a": a, "v": w(t.inner())})
                } };
                tr.ev(i);
            }
            _ => {
                let k = r.below(S::BITS as usize);
                let s: S = word(r);
                let (op, v) = match r.below(17) {
                    0 => ("add", x + y),
                    1 => ("add", &x + &y),
                    2 => ("sub", x - y),
                    3 => ("neg", -x),
                    4 => ("neg", x.wrapping_neg()),
                    5 => ("add", x.wrapping_add(&y)),
                    6 => ("sub", x.wrapping_sub(&y)),
                    7 => ("mul", x * s),
                    8 => ("mul", &x * &s),
                    9 => ("mad", x.mul_add(s, y)),
                    10 => ("and", x & y),
                    11 => ("shl", x << k),
                    12 => ("shr", x >> k),
                    13 => ("acc", { let mut t = c; t += x; t }),
                    14 => ("acc", { let mut t = c; t += &x; t }),
                    15 => ("dec", { let mut t = c; t -= x; t -= &Torus::from(S::from_u64(0)); t }),
                    _ => ("sum", [x, y, c].into_iter().sum()),
                };
                reg[d] = v.inner();
                tr.ev(json!({"ev": "op", "op": op, "d": d, "a": a, "b": b, "k": k, "s": w(s), "v": w(reg[d])}));
            }
        }
    }
}

macro_rules! rdiv {
    ($tr:expr, $r:expr, $t:ty, $signed:expr, $n:expr) => {{
        $tr.begin(json!({"ev": "reset", "bits": 64, "regs": vec_w(&[0u64; 4])}));
        for _ in 0..$n {
            let (x, mut y) = ($r.word() as $t, $r.word() as $t);
            let (x, z) = if $r.chance(1, 2) { (x, y) } else { (x % (40 as $t), y % (12 as $t)) };
            y = z;
            if y == 0 { y = 1; }
            // The one quotient that is not representable.
            if $signed && x == <$t>::MIN && y == (0 as $t).wrapping_sub(1) { continue; }
            let q = x.div_rounded(y);
            let f = |v: $t| json!(v.to_le_bytes().to_vec());
            $tr.ev(json!({"ev": "rdiv", "signed": $signed as u8, "x": f(x), "y": f(y), "q": f(q)}));
        }
    }};
}

pub fn run(a: &Args) {
    let mut tr = Trace::new(&a.dir, a.shards);
    let mut r = Rng::new(a.seed);
    for i in 0..a.n {
        if i % 2 == 0 { history::<u64>(&mut tr, &mut r, 60) } else { history::<u32>(&mut tr, &mut r, 60) }
    }
    let n = a.n;
    rdiv!(tr, r, u8, false, n);
    rdiv!(tr, r, u16, false, n);
    rdiv!(tr, r, u32, false, n);
    rdiv!(tr, r, u64, false, n);
    rdiv!(tr, r, u128, false, n);
    rdiv!(tr, r, usize, false, n);
    rdiv!(tr, r, i8, true, n);
    rdiv!(tr, r, i16, true, n);
    rdiv!(tr, r, i32, true, n);
    rdiv!(tr, r, i64, true, n);
    rdiv!(tr, r, i128, true, n);
    rdiv!(tr, r, isize, true, n);
    tr.finish(&a.dir, json!({}));
}
