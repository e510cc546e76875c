//! T12: the Fourier domain.
use crate::*;
use num::Complex;
use sunscreen_tfhe::entities::{Polynomial, PolynomialFft};
use sunscreen_tfhe::fft::cyclic::RealFft;
use sunscreen_tfhe::fft::negacyclic::{TwistedFft, get_fft};
use sunscreen_tfhe::*;

fn fwd<S: TorusOps>(x: &[S]) -> PolynomialFft<Complex<f64>>
where
    Torus<S>: ReinterpretAsSigned,
{
    let p = Polynomial::new(&x.iter().map(|c| Torus::from(*c)).collect::<Vec<_>>());
    let mut o = PolynomialFft::new(&vec![Complex::new(7.0, -3.0); x.len() / 2]);
    p.fft(&mut o);
    o
}
fn bwd<S: TorusOps>(x: &PolynomialFft<Complex<f64>>) -> Vec<S> {
    let mut o = Polynomial::new(&vec![Torus::from(S::from_u64(5)); x.len() * 2]);
    x.ifft(&mut o);
    o.coeffs().iter().map(|c| c.inner()).collect()
}
fn signed<S: TorusOps>(v: i64) -> S {
    S::from_u64(v as u64)
}

fn history<S: TorusOps>(tr: &mut Trace, r: &mut Rng, n: usize, cap: u8) {
    sunscreen_tfhe::verif::set_simd_cap(cap);
    tr.begin(json!({"ev": "reset", "n": n, "bits": S::BITS, "simd": cap}));
    let bits = S::BITS as usize;
    for _ in 0..2 {
        // Any operand of at most 52 bits comes back exactly; a full 64-bit one up to rounding.
        let mag = if r.chance(1, 3) { bits } else { 1 + r.below(bits.min(49)) };
        let x: Vec<S> = (0..n)
            .map(|_| match r.below(6) {
                0 => S::from_u64(1u64 << (mag - 1)),
                1 => signed(-((1u64 << (mag - 1)) as i64).max(1)),
                2 => S::from_u64(0),
                _ => signed((r.u64() as i64) >> (64 - mag)),
            })
            .collect();
        let y: Vec<S> = bwd(&fwd(&x));
        tr.ev(json!({"ev": "round", "mag": mag, "x": vec_w(&x), "y": vec_w(&y)}));
        // Sum of transforms is the transform of the sum.
        let x2: Vec<S> = (0..n).map(|_| signed((r.u64() as i64) >> (64 - mag))).collect();
        let (f, g) = (fwd(&x), fwd(&x2));
        let mut h = f.clone();
        for (o, (a, b)) in h.coeffs_mut().iter_mut().zip(f.coeffs().iter().zip(g.coeffs())) {
            *o = *a + *b;
        }
        let y: Vec<S> = bwd(&h);
        tr.ev(json!({"ev": "sum", "mag": mag, "x": vec_w(&x), "x2": vec_w(&x2), "y": vec_w(&y)}));
    }
    // Multiply-accumulate of several products, digits of `lb` bits.
    if n >= 16 {
        for _ in 0..2 {
            let terms = 1 + r.below(4);
            let lb = 1 + r.below(12);
            let mag = if r.chance(1, 2) { bits } else { 1 + r.below((48 - lb - n.ilog2() as usize - 2).min(bits)) };
            let mut acc = fwd(&vec![S::from_u64(0); n]);
            let mut xs = vec![];
            let mut ds = vec![];
            for _ in 0..terms {
                let x: Vec<S> = (0..n).map(|_| if r.chance(1, 8) { S::from_u64(0) } else { signed((r.u64() as i64) >> (64 - mag)) }).collect();
                let d: Vec<S> = (0..n).map(|_| signed((r.u64() as i64) >> (64 - lb))).collect();
                acc.multiply_add(&fwd(&x), &fwd(&d));
                xs.push(vec_w(&x));
                ds.push(vec_w(&d));
            }
            let y: Vec<S> = bwd(&acc);
            tr.ev(json!({"ev": "mad", "mag": mag, "lb": lb, "x": xs, "b": ds, "y": vec_w(&y)}));
        }
    }
}

fn real(tr: &mut Trace, r: &mut Rng, n: usize, kind: usize) {
    tr.begin(json!({"ev": "reset", "n": n, "bits": 64, "simd": 2}));
    let mag = 1 + r.below(40);
    let x: Vec<i64> = (0..n).map(|_| (r.u64() as i64) >> (64 - mag)).collect();
    let xf: Vec<f64> = x.iter().map(|v| *v as f64).collect();
    let mut y = vec![1.0f64; n];
    match kind {
        0 => {
            let f = RealFft::<f64>::new(n);
            let mut o = vec![Complex::new(0.0, 0.0); n / 2 + 1];
            f.forward(&xf, &mut o);
            f.reverse(&o, &mut y);
        }
        1 => {
            let f = TwistedFft::<f64>::new(n);
            let mut o = vec![Complex::new(3.0, 1.0); n / 2];
            f.forward(&xf, &mut o);
            f.reverse(&o, &mut y);
        }
        _ => {
            let f = get_fft(n.ilog2() as usize);
            let mut o = vec![Complex::new(3.0, 1.0); n / 2];
            f.forward(&xf, &mut o);
            f.reverse(&o, &mut y);
        }
    }
    let yi: Vec<u64> = y.iter().map(|v| v.round() as i64 as u64).collect();
    tr.ev(json!({"ev": "round", "mag": mag, "x": vec_w(&x.iter().map(|v| *v as u64).collect::<Vec<_>>()), "y": vec_w(&yi)}));
}

pub fn run(a: &Args) {
    let mut tr = Trace::new(&a.dir, a.shards);
    let mut r = Rng::new(a.seed);
    let top = if a.tier == "quick" { 9 } else { 12 };
    for i in 0..a.n {
        let logn = 1 + i % top;
        let cap = ((i / top) % 3) as u8;
        if (i / top) % 2 == 0 { history::<u64>(&mut tr, &mut r, 1 << logn, cap) } else { history::<u32>(&mut tr, &mut r, 1 << logn, cap) }
        real(&mut tr, &mut r, 1 << logn, i % 3);
    }
    // Degrees beyond what is affordable above: round trips only.
    for logn in top + 1..=12 {
        real(&mut tr, &mut r, 1 << logn, logn % 3);
    }
    tr.finish(&a.dir, json!({}));
}
