//! Homomorphic operations observed through decryption: what the histories of T01..T05 and T11
//! share. Phases are computed here, from the raw words of ciphertext and key.
use crate::*;
use num::Complex;
use num::traits::{WrappingAdd, WrappingMul, WrappingSub};
pub use sunscreen_tfhe::entities::*;
pub use sunscreen_tfhe::rand::Stddev;
pub use sunscreen_tfhe::verif::{Storage, StorageMut};
pub use sunscreen_tfhe::*;
use std::hash::Hasher;

pub type C = Complex<f64>;

/// GLWE parameters; `s` is the base-two logarithm of the noise's deviation in torus units.
#[derive(Clone, Copy)]
pub struct Gp {
    pub n: usize,
    pub k: usize,
    pub s: Option<i32>,
    pub def: GlweDef,
}
pub fn std_of<S: TorusOps>(s: Option<i32>) -> Stddev {
    Stddev(match s { None => 0.0, Some(e) => 2f64.powi(e - S::BITS as i32) })
}
pub fn gp<S: TorusOps>(n: usize, k: usize, s: Option<i32>) -> Gp {
    Gp { n, k, s, def: GlweDef { dim: GlweDimension { polynomial_degree: PolynomialDegree(n), size: GlweSize(k) }, std: std_of::<S>(s) } }
}
pub fn lwe_def<S: TorusOps>(n: usize, s: Option<i32>) -> LweDef {
    LweDef { dim: LweDimension(n), std: std_of::<S>(s) }
}
pub fn radix(count: usize, log: usize) -> RadixDecomposition {
    RadixDecomposition { count: RadixCount(count), radix_log: RadixLog(log) }
}
pub fn sj(s: Option<i32>) -> i64 {
    s.map(|x| x as i64).unwrap_or(-1)
}
/// The parameters an error budget depends on.
pub fn par(n: usize, k: usize, rx: &RadixDecomposition, fft: bool) -> Value {
    json!({"n": n, "k": k, "cnt": rx.count.0, "log": rx.radix_log.0, "fft": fft as u8})
}

pub fn negacyclic<S: TorusOps>(acc: &mut [S], a: &[S], s: &[S]) {
    let n = a.len();
    for i in 0..n {
        if num::Zero::is_zero(&s[i]) { continue; }
        for j in 0..n {
            let t = a[j].wrapping_mul(&s[i]);
            let p = i + j;
            if p < n { acc[p] = acc[p].wrapping_add(&t) } else { acc[p - n] = acc[p - n].wrapping_sub(&t) }
        }
    }
}
pub fn ints<S: TorusOps>(p: &PolynomialRef<Torus<S>>) -> Vec<S> {
    p.coeffs().iter().map(|x| x.inner()).collect()
}
/// b - sum a_i s_i
pub fn gphase<S: TorusOps>(ct: &GlweCiphertextRef<S>, sk: &GlweSecretKeyRef<S>, g: &Gp) -> Vec<S> {
    let (a, b) = ct.a_b(&g.def);
    let mut acc = vec![S::from_u64(0); g.n];
    for (a, s) in a.zip(sk.s(&g.def)) {
        negacyclic(&mut acc, &ints(a), s.coeffs());
    }
    b.coeffs().iter().zip(acc).map(|(b, x)| b.inner().wrapping_sub(&x)).collect()
}
pub fn lphase<S: TorusOps>(ct: &LweCiphertextRef<S>, sk: &LweSecretKeyRef<S>, l: &LweDef) -> S {
    let (a, b) = ct.a_b(l);
    a.iter().zip(sk.s()).fold(b.inner(), |acc, (a, s)| acc.wrapping_sub(&a.inner().wrapping_mul(s)))
}

pub fn digest<E, X: Storage<E> + ?Sized>(x: &X) -> u64 {
    let s = x.storage();
    let b = unsafe { std::slice::from_raw_parts(s.as_ptr() as *const u8, std::mem::size_of_val(s)) };
    let mut h = std::collections::hash_map::DefaultHasher::new();
    h.write(b);
    h.finish()
}

/// What an output holds before the operation that is to determine it.
pub fn junk<S: TorusOps, X: StorageMut<Torus<S>> + ?Sized>(r: &mut Rng, x: &mut X) {
    let s = x.storage_mut();
    match r.below(4) {
        0 => s.iter_mut().for_each(|c| *c = Torus::from(S::from_u64(0))),
        1 => s.iter_mut().for_each(|c| *c = Torus::from(S::from_u64(u64::MAX))),
        _ => s.iter_mut().for_each(|c| *c = Torus::from(S::from_u64(r.u64()))),
    }
}
pub fn junkc<X: StorageMut<C> + ?Sized>(r: &mut Rng, x: &mut X) {
    let z = r.chance(1, 4);
    let e = r.range(0, 62) as i32;
    for c in x.storage_mut() {
        *c = if z { C::new(0., 0.) } else { C::new(r.u64() as i64 as f64 * 2f64.powi(-e), r.u64() as i64 as f64) };
    }
}

pub struct Cx<'a> {
    pub tr: &'a mut Trace,
    pub r: &'a mut Rng,
    /// how often each operation is repeated on the same operands
    pub reps: usize,
}
impl Cx<'_> {
    pub fn ev(&mut self, v: Value) {
        self.tr.ev(v)
    }
}

/// A message in p bits.
pub fn msg<S: TorusOps>(r: &mut Rng, p: u32) -> S {
    let x = match r.below(4) { 0 => 0, 1 => u64::MAX, _ => r.u64() };
    S::from_u64(if p == 0 { 0 } else { (x as u128 & ((1u128 << p) - 1)) as u64 })
}
pub fn poly<S: TorusOps>(x: &[S]) -> Polynomial<S> {
    Polynomial::new(x)
}
pub fn tpoly<S: TorusOps>(x: &[S]) -> Polynomial<Torus<S>> {
    Polynomial::new(&x.iter().map(|c| Torus::from(*c)).collect::<Vec<_>>())
}
pub fn encode_all<S: TorusOps>(m: &[S], p: u32) -> Vec<S> {
    m.iter().map(|c| S::from_u64(c.to_u64() << (S::BITS - p))).collect()
}
/// Messages of a polynomial: dense, sparse, or a single coefficient.
pub fn messages<S: TorusOps>(r: &mut Rng, n: usize, p: u32) -> Vec<S> {
    let style = r.below(4);
    let at = r.below(n);
    (0..n).map(|j| if style == 0 && j != at || style == 1 && r.chance(3, 4) { S::from_u64(0) } else { msg(r, p) }).collect()
}
/// Small-norm polynomials as multipliers: bits, signed units, small numbers or anything.
pub fn multiplier<S: TorusOps>(r: &mut Rng, n: usize) -> Vec<S> {
    let style = r.below(4);
    (0..n).map(|_| match style {
        0 => S::from_u64(r.u64() & 1),
        1 => S::from_u64((r.below(3) as u64).wrapping_sub(1)),
        2 => S::from_u64(r.below(256) as u64),
        _ => word(r),
    }).collect()
}
/// log2 of the 1-norm, rounded up
pub fn norm_log<S: TorusOps>(m: &[S]) -> i64 {
    let n: u128 = m.iter().map(|x| x.to_u64() as u128).sum();
    (0..).find(|e| n <= 1u128 << e).unwrap()
}
/// A digit count and size; `full` covers the word.
pub fn some_radix<S: TorusOps>(r: &mut Rng, full: bool) -> RadixDecomposition {
    let bits = S::BITS as usize;
    // polynomials are decomposed into less than the whole word
    if full {
        let (c, l) = *if bits == 64 { r.pick(&[(63, 1), (21, 3), (9, 7), (7, 9), (3, 21), (1, 63)]) } else { r.pick(&[(31, 1), (3, 10), (5, 6), (6, 5), (1, 31)]) };
        return radix(c, l);
    }
    let log = 1 + r.below(if bits == 32 { 8 } else { 16 });
    let most = ((bits - 1) / log).min(24 / log + 3);
    radix(1 + r.below(most), log)
}
/// the message an input is read as, and whether that is certain
pub fn read<S: TorusOps>(x: S, p: u32, lc: u32, lv: u32, h: usize, n: usize) -> (u64, bool) {
    let bits = S::BITS;
    let q = 1u128 << bits;
    let x = ((x.to_u64() as u128) << lc) % q;
    let slot = bits - p - 1;
    let m = ((x + (1u128 << (slot - 1))) >> slot) % (2u128 << p);
    let d = (x + q - (m << slot)) % q;
    let err = d.min((q - d) % q);
    let step = bits - (n.ilog2() + 1) + lv;
    let sure = slot >= step && err + ((h as u128) << (step - 1)) < 1u128 << (slot - 1);
    (m as u64, sure)
}
