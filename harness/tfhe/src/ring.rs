//! T06: a register machine of polynomials over the torus integers.
use crate::*;
use num::traits::Num;
use std::num::Wrapping;
use sunscreen_tfhe::Torus;
use sunscreen_tfhe::entities::Polynomial;
use sunscreen_tfhe::ops::polynomial::*;
use sunscreen_tfhe::polynomial::*;
use std::ops::{Add, Mul, Sub};

fn t<S: TorusOps>(x: &[S]) -> Polynomial<Torus<S>> {
    Polynomial::new(&x.iter().map(|c| Torus::from(*c)).collect::<Vec<_>>())
}
fn p<S: TorusOps>(x: &[S]) -> Polynomial<S> {
    Polynomial::new(x)
}
fn wr<S: TorusOps>(x: &[S]) -> Polynomial<Wrapping<S>> {
    Polynomial::new(&x.iter().map(|c| Wrapping(*c)).collect::<Vec<_>>())
}
fn inner<S: TorusOps>(x: &Polynomial<Torus<S>>) -> Vec<S> {
    x.coeffs().iter().map(|c| c.inner()).collect()
}

const OPS: [&str; 24] = [
    "add", "sub", "addassign", "subassign", "neg", "smul", "smad", "smallmad", "extmad", "wrapmad", "mad", "pos", "negm", "mono", "powk",
    "shr", "opadd", "opsub", "opmul", "opaddassign", "opsubassign", "set", "addplain", "pow_minus",
];

/// One step on registers a (destination c): returns the new value of the destination and the
/// values of the operands afterwards.
fn step<S>(op: &str, c: &[S], a: &[S], b: &[S], k: i64, s: S) -> (Vec<S>, Vec<S>, Vec<S>)
where
    S: TorusOps + Num,
    Wrapping<S>: Sub<Wrapping<S>, Output = Wrapping<S>> + Add<Wrapping<S>, Output = Wrapping<S>> + Mul<Wrapping<S>, Output = Wrapping<S>>,
{
    let (mut tc, ta, tb, pb) = (t(c), t(a), t(b), p(b));
    match op {
        "add" => polynomial_add(&mut tc, &ta, &tb),
        "sub" => polynomial_sub(&mut tc, &ta, &tb),
        "addassign" => polynomial_add_assign(&mut tc, &ta),
        "subassign" => polynomial_sub_assign(&mut tc, &ta),
        "opaddassign" => {
            let d: &mut sunscreen_tfhe::entities::PolynomialRef<_> = &mut tc;
            *d += &*ta;
        }
        "opsubassign" => {
            let d: &mut sunscreen_tfhe::entities::PolynomialRef<_> = &mut tc;
            *d -= &*ta;
        }
        "neg" => polynomial_negate(&mut tc),
        "smul" => polynomial_scalar_mul(&mut tc, &ta, s),
        "smad" => polynomial_scalar_mad(&mut tc, &ta, s),
        "smallmad" => polynomial_small_scalar_mad(&mut tc, &ta, Torus::from(s)),
        "extmad" => polynomial_external_mad(&mut tc, &ta, &pb),
        "wrapmad" => {
            let (mut pc, pa) = (p(c), p(a));
            polynomial_mad_by_wrap(&mut pc, &pa, &pb);
            return (pc.coeffs().to_vec(), pa.coeffs().to_vec(), pb.coeffs().to_vec());
        }
        "mad" => {
            let (mut wc, wa, wb) = (wr(c), wr(a), wr(b));
            polynomial_mad(&mut wc, &wa, &wb);
            let f = |x: &Polynomial<Wrapping<S>>| x.coeffs().iter().map(|c| c.0).collect::<Vec<_>>();
            return (f(&wc), f(&wa), f(&wb));
        }
        "pos" => tc.mul_by_positive_monomial_negacyclic(k as usize),
        "negm" => tc.mul_by_negative_monomial_negacyclic(k as usize),
        "mono" => tc.mul_by_monomial_negacyclic(k as isize),
        "powk" | "pow_minus" => polynomial_pow_k::<Torus<S>, S>(&mut tc, &ta, k as usize),
        "shr" => polynomial_shr_round(&mut tc, &ta, k as u32),
        "opadd" => tc = ta.clone() + tb.clone(),
        "opsub" => tc = ta.clone() - tb.clone(),
        "opmul" => tc = &*ta * &*pb,
        "set" => tc = ta.map(|x| *x),
        "addplain" => {
            let mut d = p(c);
            polynomial_add(&mut d, &p(a), &pb);
            return (d.coeffs().to_vec(), a.to_vec(), pb.coeffs().to_vec());
        }
        _ => unreachable!(),
    }
    assert!(inner(&tb) == pb.coeffs());
    (inner(&tc), inner(&ta), inner(&tb))
}

fn history<S>(tr: &mut Trace, r: &mut Rng, n: usize, steps: usize, cap: u8)
where
    S: TorusOps + Num,
    Wrapping<S>: Sub<Wrapping<S>, Output = Wrapping<S>> + Add<Wrapping<S>, Output = Wrapping<S>> + Mul<Wrapping<S>, Output = Wrapping<S>>,
{
    sunscreen_tfhe::verif::set_simd_cap(cap);
    let style = r.below(3);
    let mut fresh = |r: &mut Rng| -> Vec<S> {
        (0..n)
            .map(|i| match style {
                0 => word(r),
                1 => S::from_u64(r.u64()),
                _ => if r.chance(1, 3) { S::from_u64(i as u64 + 1) } else { S::from_u64(0) },
            })
            .collect()
    };
    let mut regs: Vec<Vec<S>> = (0..3).map(|_| fresh(r)).collect();
    tr.begin(json!({"ev": "reset", "n": n, "bits": S::BITS, "simd": cap, "regs": regs.iter().map(|x| vec_w(x)).collect::<Vec<_>>()}));
    for _ in 0..steps {
        let (d, a, b) = (r.below(3), r.below(3), r.below(3));
        if r.chance(1, 12) {
            regs[d] = fresh(r);
            tr.ev(json!({"ev": "fresh", "d": d, "v": vec_w(&regs[d])}));
            continue;
        }
        let op = *r.pick(&OPS);
        let k: i64 = match op {
            "pos" | "negm" => *r.pick(&[0, 1, n as i64 - 1, n as i64, n as i64 + 1, 2 * n as i64 - 1, 2 * n as i64, 2 * n as i64 + 1, r.0 as i64 & 0xffff, 5 * n as i64 + 3]),
            "mono" => *r.pick(&[0, 1, -1, n as i64, -(n as i64), 2 * n as i64 + 1, -(2 * n as i64) - 1, (r.0 as i64 & 0xffff) - 0x8000, 1 - 2 * n as i64, -(3 * n as i64) + 1, n as i64 / 2, -(n as i64) / 2]),
            // Odd exponents: substitutions that are automorphisms of the ring.
            "powk" => 2 * (r.below(3 * n) as i64) + 1,
            "pow_minus" => 2 * n as i64 - 1,
            "shr" => r.range(0, S::BITS as i64 - 1),
            _ => 0,
        };
        let s: S = word(r);
        let (c, x, y) = match guarded(|| step(op, &regs[d], &regs[a], &regs[b], k, s)) {
            Ok(x) => x,
            Err(e) => {
                tr.ev(json!({"ev": "op", "op": op, "d": d, "a": a, "b": b, "k": k, "s": w(s), "panic": e}));
                return;
            }
        };
        let same = x == regs[a] && y == regs[b];
        regs[d] = c;
        tr.ev(json!({"ev": "op", "op": op, "d": d, "a": a, "b": b, "k": k, "s": w(s), "v": vec_w(&regs[d]), "same": same as u8}));
    }
}

pub fn run(a: &Args) {
    let mut tr = Trace::new(&a.dir, a.shards);
    let mut r = Rng::new(a.seed);
    for i in 0..a.n {
        let logn = if i % 10 == 9 { 6 + r.below(3) } else { r.below(6) };
        let steps = if logn > 5 { 10 } else { 40 };
        let cap = (i % 3) as u8;
        if i % 2 == 0 { history::<u64>(&mut tr, &mut r, 1 << logn, steps, cap) } else { history::<u32>(&mut tr, &mut r, 1 << logn, steps, cap) }
    }
    tr.finish(&a.dir, json!({}));
}
