//! T08: signed radix decomposition of scalars and polynomials, and recomposition.
use crate::*;
use sunscreen_tfhe::entities::{Polynomial, PolynomialListRef};
use sunscreen_tfhe::radix::*;
use sunscreen_tfhe::verif::FromMutSlice;
use sunscreen_tfhe::*;

fn history<S: TorusOps>(tr: &mut Trace, r: &mut Rng, log: usize, count: usize, cap: u8, n: usize) {
    sunscreen_tfhe::verif::set_simd_cap(cap);
    let radix = RadixDecomposition { count: RadixCount(count), radix_log: RadixLog(log) };
    tr.begin(json!({"ev": "reset", "bits": S::BITS, "log": log, "count": count, "simd": cap}));
    let b = S::BITS as usize;
    for _ in 0..n {
        // Values around the rounding boundaries of this radix.
        let shift = b - log * count;
        let v: S = match r.below(4) {
            0 if shift > 0 => S::from_u64((r.u64() << shift.min(63)).wrapping_add(1 << (shift - 1)).wrapping_sub(r.below(2) as u64)),
            1 => {
                // digits at the edges
                let mut x = 0u64;
                for j in 0..count { let d = [0, 1, (1u64 << (log - 1)) - 1, 1 << (log - 1), (1u64 << (log - 1)) + 1, (1u64.wrapping_shl(log as u32)).wrapping_sub(1)]; let d = d[r.below(6)] & (1u64 << (log - 1) | ((1u64 << (log - 1)) - 1)); x |= d << (b - log * (j + 1)); }
                if shift > 0 && r.chance(1, 2) { x |= r.u64() & ((1u64 << shift.min(63)) - 1); }
                S::from_u64(x)
            }
            _ => word(r),
        };
        let s: Vec<S> = ScalarRadixIterator::new(Torus::from(v), &radix).take(count + 3).collect();
        tr.ev(json!({"ev": "scalar", "x": w(v), "d": vec_w(&s)}));
        let j = r.below(count);
        tr.ev(json!({"ev": "scale", "x": w(v), "j": j, "v": w(scale_by_decomposition_factor(v, j, &radix))}));
    }
    // Polynomials: same digits coefficient by coefficient. The polynomial form documents
    // that it needs at least one unused bit.
    if log * count < b {
        for _ in 0..4 {
            let deg = 1usize << r.below(6);
            let x: Vec<S> = (0..deg).map(|_| word(r)).collect();
            let px = Polynomial::new(&x.iter().map(|c| Torus::from(*c)).collect::<Vec<_>>());
            let mut scratch = Polynomial::new(&(0..deg).map(|_| word(r)).collect::<Vec<S>>());
            let mut it = PolynomialRadixIterator::new(&px, &mut scratch, &radix);
            let mut digits: Vec<Vec<S>> = vec![];
            let mut o = Polynomial::new(&(0..deg).map(|_| word(r)).collect::<Vec<S>>());
            while it.write_next(&mut o).is_some() && digits.len() < count + 3 {
                digits.push(o.coeffs().to_vec());
            }
            tr.ev(json!({"ev": "poly", "x": vec_w(&x), "d": digits.iter().map(|d| vec_w(d)).collect::<Vec<_>>()}));
            let dst: Vec<S> = (0..deg).map(|_| word(r)).collect();
            let mut pd = Polynomial::new(&dst.iter().map(|c| Torus::from(*c)).collect::<Vec<_>>());
            let mut flat: Vec<S> = digits.iter().flatten().copied().collect();
            let list: &mut PolynomialListRef<S> = PolynomialListRef::from_mut_slice(&mut flat);
            recompose_and_add(&mut pd, &mut list.iter(PolynomialDegree(deg)), RadixLog(log), RadixCount(count));
            tr.ev(json!({"ev": "recompose", "x": vec_w(&x), "dst": vec_w(&dst), "v": vec_w(&pd.coeffs().iter().map(|c| c.inner()).collect::<Vec<_>>())}));
        }
    }
}

pub fn run(a: &Args) {
    let mut tr = Trace::new(&a.dir, a.shards);
    let mut r = Rng::new(a.seed);
    let mut i = 0;
    for bits in [32usize, 64] {
        for log in 1..=bits.min(40) {
            for count in 1..=bits / log {
                // every legal pair; the full-width ones always
                i += 1;
                if bits == 64 && a.tier == "quick" && log * count < 64 && (i + a.seed as usize) % 2 == 0 { continue; }
                let cap = (i % 3) as u8;
                if bits == 32 { history::<u32>(&mut tr, &mut r, log, count, cap, a.n) } else { history::<u64>(&mut tr, &mut r, log, count, cap, a.n) }
            }
        }
    }
    tr.finish(&a.dir, json!({}));
}
