use crate::zq::{R, elem, ub};
use sunscreen_math::poly::Polynomial;
use sunscreen_math::ring::*;
use sunscreen_math::{BarrettConfig, One, Zero};
use vcommon::*;

#[derive(BarrettConfig)]
#[barrett_config(modulus = "2", num_limbs = 1)]
pub struct P2;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "3", num_limbs = 1)]
pub struct P3;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "6", num_limbs = 1)]
pub struct P6;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "17", num_limbs = 1)]
pub struct P17;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x8000000000000000", num_limbs = 1)]
pub struct PMax;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "170141183460469231731687303715884105727", num_limbs = 2)]
pub struct P127;

/// What the harness needs of a coefficient ring.
trait Coef: Ring {
    const W: usize;
    fn q() -> Value;
    fn b(&self) -> Value;
    fn rnd(r: &mut Rng) -> Self;
    fn small(x: u64) -> Self;
}
impl<const N: usize, C: BarrettConfig<N>> Coef for R<N, C> {
    const W: usize = 8 * N;
    fn q() -> Value {
        ub(&C::MODULUS, 8 * N)
    }
    fn b(&self) -> Value {
        ub(&self.into_bigint(), 8 * N)
    }
    fn rnd(r: &mut Rng) -> Self {
        R::<N, C>::try_from(elem::<N>(r, &C::MODULUS)).unwrap()
    }
    fn small(x: u64) -> Self {
        R::<N, C>::from(x)
    }
}
macro_rules! zint {
    ($t:ty) => {
        impl Coef for ZInt<$t> {
            const W: usize = size_of::<$t>() + 1;
            fn q() -> Value {
                let mut q = vec![0u8; Self::W];
                q[Self::W - 1] = 1;
                json!(q)
            }
            fn b(&self) -> Value {
                let mut v = self.0.to_le_bytes().to_vec();
                v.push(0);
                json!(v)
            }
            fn rnd(r: &mut Rng) -> Self {
                ZInt((((r.word() as u128) << 64) | r.word() as u128) as $t)
            }
            fn small(x: u64) -> Self {
                ZInt(x as $t)
            }
        }
    };
}
zint!(u8);
zint!(u64);
zint!(u128);

fn pv<T: Coef>(p: &Polynomial<T>) -> Value {
    json!(p.coeffs.iter().map(|c| c.b()).collect::<Vec<_>>())
}
fn rand_poly<T: Coef>(r: &mut Rng) -> Polynomial<T> {
    let len = r.below(7);
    let mut p = Polynomial::new(&(0..len).map(|_| if r.chance(1, 3) { T::zero() } else { T::rnd(r) }).collect::<Vec<_>>());
    if r.chance(1, 3) {
        p.coeffs.push(T::one());
    }
    for _ in 0..r.below(3) * r.below(2) {
        p.coeffs.push(T::zero());
    }
    p
}
fn head<T: Coef>(t: &mut Trace) {
    t.begin(json!({"ev": "reset", "q": T::q(), "w": T::W}));
}

fn history<T: Coef>(t: &mut Trace, r: &mut Rng, steps: usize) {
    head::<T>(t);
    let mut regs: Vec<Polynomial<T>> = vec![Polynomial::zero(); 4];
    for _ in 0..steps {
        let (a, b, d) = (r.below(4), r.below(4), r.below(4));
        if regs[a].coeffs.len() + regs[b].coeffs.len() > 40 {
            regs[a] = rand_poly(r);
            t.ev(json!({"ev": "load", "a": 1, "b": 1, "d": a + 1, "ok": 1, "v": pv(&regs[a])}));
        }
        let (x, y) = (regs[a].clone(), regs[b].clone());
        let mut put = |t: &mut Trace, op: &str, more: Value, res: Result<Polynomial<T>, String>| -> bool {
            let mut ev = json!({"ev": op, "a": a + 1, "b": b + 1, "d": d + 1, "ok": res.is_ok() as u8 });
            if let Value::Object(o) = more {
                for (k, v) in o {
                    ev[k.as_str()] = v;
                }
            }
            match res {
                Ok(p) => {
                    ev["v"] = pv(&p);
                    regs[d] = p;
                    t.ev(ev);
                    true
                }
                Err(_) => {
                    ev["v"] = json!([]);
                    t.ev(ev);
                    false
                }
            }
        };
        let ok = match r.below(13) {
            0 | 1 | 2 => {
                let p = rand_poly::<T>(r);
                put(t, "load", json!({}), Ok(p))
            }
            3 => put(t, "add", json!({}), guarded(|| if r.chance(1, 2) { &x + &y } else { x.clone() + y.clone() })),
            4 => put(t, "sub", json!({}), guarded(|| if r.chance(1, 2) { &x - &y } else { x.clone() - y.clone() })),
            5 => put(t, "mul", json!({}), guarded(|| if r.chance(1, 2) { &x * &y } else { x.clone() * y.clone() })),
            6 => put(t, "neg", json!({}), guarded(|| -x)),
            7 => {
                let s = T::rnd(r);
                put(t, "scale", json!({"s": s.b()}), guarded(|| &x * &s))
            }
            8 => {
                let s = T::rnd(r);
                let v = guarded(|| x.evaluate(&s));
                t.ev(json!({"ev": "eval", "a": a + 1, "s": s.b(), "ok": v.is_ok() as u8, "v": v.map(|v| v.b()).unwrap_or(json!([]))}));
                true
            }
            9 => {
                // equality, also against near misses: one coefficient changed, zeros appended
                let mut y = if r.chance(1, 3) { y } else { x.clone() };
                if r.chance(1, 2) && !y.coeffs.is_empty() {
                    let j = if r.chance(1, 2) { y.coeffs.len() - 1 } else { r.below(y.coeffs.len()) };
                    y.coeffs[j] = y.coeffs[j].clone() + T::one();
                }
                for _ in 0..r.below(3) {
                    y.coeffs.push(T::zero());
                }
                let e1 = x == y;
                let e2 = y == x;
                t.ev(json!({"ev": "eq", "x": pv(&x), "y": pv(&y), "e1": e1 as u8, "e2": e2 as u8}));
                true
            }
            10 => {
                let g = guarded(|| x.vartime_degree());
                t.ev(json!({"ev": "deg", "a": a + 1, "ok": g.is_ok() as u8, "v": g.unwrap_or(0), "z": x.vartime_is_zero() as u8}));
                true
            }
            11 => {
                let p = Polynomial::<T> { coeffs: serde_json::from_slice::<Vec<u8>>(&serde_json::to_vec(&Vec::<u8>::new()).unwrap()).map(|_| x.coeffs.clone()).unwrap() };
                put(t, "copy", json!({}), Ok(if r.chance(1, 8) { Polynomial::one() } else if r.chance(1, 8) { Polynomial::zero() } else { p }))
            }
            _ => {
                let mut y = y;
                if r.chance(2, 3) {
                    y.coeffs.truncate(4);
                    y.coeffs.push(T::one());
                    for _ in 0..r.below(2) {
                        y.coeffs.push(T::zero());
                    }
                }
                let g = guarded(|| x.vartime_div_rem_restricted_rhs(&y));
                let (ok, qq, rr) = match g {
                    Ok((q, m)) => (1, pv(&q), pv(&m)),
                    Err(_) => (0, json!([]), json!([])),
                };
                t.ev(json!({"ev": "div", "x": pv(&x), "y": pv(&y), "ok": ok, "q": qq, "r": rr}));
                true
            }
        };
        if !ok {
            return;
        }
    }
}

/// Every pair of polynomials with at most `len` coefficients over a ring of `m` elements.
fn exhaustive<T: Coef>(t: &mut Trace, m: u64, len: usize) {
    let mut all = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..len {
        let mut next = vec![];
        for p in &last {
            for c in 0..m {
                let mut z: Vec<u64> = p.clone();
                z.push(c);
                next.push(z);
            }
        }
        all.extend(next.clone());
        last = next;
    }
    let mk = |p: &Vec<u64>| Polynomial::new(&p.iter().map(|x| T::small(*x)).collect::<Vec<_>>());
    for p in &all {
        head::<T>(t);
        let x = mk(p);
        for s in &all {
            let y = mk(s);
            let g = guarded(|| x.vartime_div_rem_restricted_rhs(&y));
            let (ok, q, r) = match g {
                Ok((q, m)) => (1, pv(&q), pv(&m)),
                Err(_) => (0, json!([]), json!([])),
            };
            t.ev(json!({"ev": "eq", "x": pv(&x), "y": pv(&y), "e1": (x == y) as u8, "e2": (y == x) as u8}));
            t.ev(json!({"ev": "div", "x": pv(&x), "y": pv(&y), "ok": ok, "q": q, "r": r}));
            t.ev(json!({"ev": "ops", "x": pv(&x), "y": pv(&y), "add": pv(&(&x + &y)), "sub": pv(&(&x - &y)), "mul": pv(&(&x * &y))}));
        }
    }
}

pub fn run(a: &Args) {
    let mut t = Trace::new(&a.dir, a.shards);
    let mut r = Rng::new(a.seed);
    for _ in 0..a.n {
        history::<R<1, P2>>(&mut t, &mut r, 40);
        history::<R<1, P3>>(&mut t, &mut r, 40);
        history::<R<1, P6>>(&mut t, &mut r, 40);
        history::<R<1, P17>>(&mut t, &mut r, 40);
        history::<R<1, PMax>>(&mut t, &mut r, 40);
        history::<R<2, P127>>(&mut t, &mut r, 40);
        history::<ZInt<u8>>(&mut t, &mut r, 40);
        history::<ZInt<u64>>(&mut t, &mut r, 40);
        history::<ZInt<u128>>(&mut t, &mut r, 40);
    }
    let (l2, l3) = if a.tier == "thorough" { (5, 3) } else { (4, 2) };
    exhaustive::<R<1, P2>>(&mut t, 2, l2);
    exhaustive::<R<1, P3>>(&mut t, 3, l3);
    exhaustive::<ZInt<u8>>(&mut t, 4, 2);
    t.finish(&a.dir, json!({"exhaustive_len": [l2, l3]}));
}
