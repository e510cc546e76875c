use crate::each_modulus;
use crypto_bigint::Uint;
use sunscreen_math::field::Field;
use sunscreen_math::ring::*;
use sunscreen_math::{One, Zero};
use vcommon::*;

pub type R<const N: usize, C> = Zq<N, BarrettBackend<N, C>>;

/// Little-endian bytes of a wide integer, padded to `w`.
pub fn ub<const N: usize>(x: &Uint<N>, w: usize) -> Value {
    let mut v: Vec<u8> = x.as_words().iter().flat_map(|x| x.to_le_bytes()).collect();
    v.resize(w, 0);
    json!(v)
}
pub fn words<const N: usize>(r: &mut Rng) -> Uint<N> {
    let mut w = [0u64; N];
    let top = 1 + r.below(N);
    for x in w.iter_mut().take(top) {
        *x = r.word();
    }
    Uint::from_words(w)
}
/// A value below the modulus, boundaries favoured.
pub fn elem<const N: usize>(r: &mut Rng, q: &Uint<N>) -> Uint<N> {
    let x = match r.below(6) {
        0 => q.wrapping_sub(&Uint::from_u64(1 + r.below(3) as u64)),
        1 => Uint::from_u64(r.below(3) as u64),
        2 => q.shr_vartime(1).wrapping_add(&Uint::from_u64(r.below(3) as u64)),
        _ => words::<N>(r),
    };
    x.rem(&crypto_bigint::NonZero::new(*q).unwrap())
}

fn history<const N: usize, C: BarrettConfig<N>>(t: &mut Trace, r: &mut Rng, steps: usize, inv: Option<fn(R<N, C>) -> R<N, C>>) {
    let w = 8 * N;
    let q = C::MODULUS;
    t.begin(json!({"ev": "reset", "q": ub(&q, w), "w": w}));
    t.ev(json!({"ev": "mod", "v": ub(&<R<N, C> as RingModulus<16>>::field_modulus(), 128), "h": ub(&<R<N, C> as RingModulus<16>>::field_modulus_div_2(), 128)}));
    let mut regs: Vec<R<N, C>> = vec![R::<N, C>::zero(), R::<N, C>::one(), R::<N, C>::zero(), R::<N, C>::zero()];
    for _ in 0..steps {
        let (a, b, d) = (r.below(4), r.below(4), r.below(4));
        // a result: destination register and its canonical integer, or a panic
        macro_rules! put {
            ($op:expr, $more:expr, $e:expr) => {{
                let mut ev = json!({"ev": $op, "a": a + 1, "b": b + 1, "d": d + 1, "ok": 1});
                match guarded(|| $e) {
                    Ok(x) => {
                        regs[d] = x;
                        ev["v"] = ub(&x.into_bigint(), w);
                    }
                    Err(_) => { ev["ok"] = json!(2); ev["v"] = json!([]); }
                }
                let m: Value = $more;
                if let Value::Object(o) = m { for (k, v) in o { ev[k.as_str()] = v; } }
                let dead = ev["ok"] == json!(2);
                t.ev(ev);
                if dead { return; }
            }};
        }
        match r.below(19) {
            0 | 1 => {
                let x = elem::<N>(r, &q);
                put!("load", json!({"x": ub(&x, w)}), R::<N, C>::try_from(x).unwrap())
            }
            2 => put!("add", json!({}), if r.chance(1, 2) { regs[a] + regs[b] } else { &regs[a] + &regs[b] }),
            3 => put!("sub", json!({}), if r.chance(1, 2) { regs[a] - regs[b] } else { regs[a] - &regs[b] }),
            4 | 5 | 6 => put!("mul", json!({}), if r.chance(1, 2) { regs[a] * regs[b] } else { &regs[a] * regs[b] }),
            7 => put!("neg", json!({}), if r.chance(1, 2) { -regs[a] } else { -&regs[a] }),
            8 => {
                let x = r.word();
                put!("from", json!({"x": b8(x), "s": 0}), R::<N, C>::from(x))
            }
            9 => {
                let x = r.word() as u32;
                put!("from", json!({"x": b4(x), "s": 0}), R::<N, C>::from(x))
            }
            10 => {
                let x = r.word() as i64;
                let x = if x == i64::MIN { 0 } else { x };
                put!("from", json!({"x": b8(x as u64), "s": 1}), R::<N, C>::from(x))
            }
            11 => {
                let x = r.word() as i32;
                put!("from", json!({"x": b4(x as u32), "s": 1}), R::<N, C>::from(x))
            }
            12 => {
                // any N-limb integer: accepted exactly below the modulus
                let x = if r.chance(1, 2) { words::<N>(r) } else { elem::<N>(r, &q).wrapping_add(&if r.chance(1, 2) { q } else { Uint::ZERO }) };
                let x = if r.chance(1, 4) { q } else { x };
                let res = guarded(|| R::<N, C>::try_from(x));
                let ok = match &res { Ok(Ok(_)) => 1, Ok(Err(_)) => 0, Err(_) => 2 };
                let v = match &res { Ok(Ok(z)) => ub(&z.into_bigint(), w), _ => json!([]) };
                t.ev(json!({"ev": "try", "x": ub(&x, w), "ok": ok, "v": v}));
            }
            13 => {
                let eq = regs[a] == regs[b];
                let ord = regs[a].cmp(&regs[b]) as i32;
                t.ev(json!({"ev": "cmp", "a": a + 1, "b": b + 1, "eq": eq as u8, "ord": ord, "z": regs[a].vartime_is_zero() as u8}));
            }
            14 => {
                // serialize and deserialize
                put!("ser", json!({}), bincode::deserialize::<R<N, C>>(&bincode::serialize(&regs[a]).unwrap()).unwrap())
            }
            15 => {
                // the serialization of another number: refused unless below the modulus
                let x = if r.chance(1, 3) { q } else { words::<N>(r) };
                let mut bytes = bincode::serialize(&regs[a]).unwrap();
                let n = bytes.len();
                let raw: Vec<u8> = x.as_words().iter().flat_map(|x| x.to_le_bytes()).collect();
                if n < raw.len() { continue; }
                bytes[n - raw.len()..].copy_from_slice(&raw);
                let res = guarded(|| bincode::deserialize::<R<N, C>>(&bytes));
                let ok = match &res { Ok(Ok(_)) => 1, Ok(Err(_)) => 0, Err(_) => 2 };
                let v = match &res { Ok(Ok(z)) => ub(&z.into_bigint(), w), _ => json!([]) };
                t.ev(json!({"ev": "try", "x": ub(&x, w), "ok": ok, "v": v}));
            }
            16 => {
                if let Some(f) = inv && !regs[a].vartime_is_zero() {
                    put!("inv", json!({}), f(regs[a]))
                } else {
                    put!("zero", json!({}), R::<N, C>::zero())
                }
            }
            17 => put!("one", json!({}), R::<N, C>::one()),
            _ => {
                let e: Value = ub(&extend_bigint::<16, N>(&regs[a].into_bigint()), 128);
                t.ev(json!({"ev": "ext", "a": a + 1, "v": e}));
            }
        }
    }
}

/// All pairs of elements of a small ring through every operation.
fn exhaustive<const N: usize, C: BarrettConfig<N>>(t: &mut Trace, m: u64, inv: Option<fn(R<N, C>) -> R<N, C>>) {
    let w = 8 * N;
    t.begin(json!({"ev": "reset", "q": ub(&C::MODULUS, w), "w": w}));
    let v = |x: R<N, C>| ub(&x.into_bigint(), w);
    for x in 0..m {
        for y in 0..m {
            let (a, b) = (R::<N, C>::from(x), R::<N, C>::try_from(Uint::<N>::from_u64(y)).unwrap());
            t.ev(json!({"ev": "pair", "x": x, "y": y, "a": v(a), "b": v(b), "add": v(a + b), "sub": v(a - b), "mul": v(a * b), "neg": v(-a),
                "eq": (a == b) as u8, "inv": match inv { Some(f) if x != 0 => v(f(a)), _ => json!([]) }}));
        }
    }
}

pub fn run(a: &Args) {
    let mut t = Trace::new(&a.dir, a.shards);
    let mut r = Rng::new(a.seed);
    let n = a.n;
    let mut moduli = 0;
    macro_rules! one {
        ($i:expr, $c:ty, $n:expr, field, $m:expr) => {{ one!(@ $c, $n, Some(|x: R<$n, $c>| x.inverse()), $m) }};
        ($i:expr, $c:ty, $n:expr, ring, $m:expr) => {{ one!(@ $c, $n, None, $m) }};
        (@ $c:ty, $n:expr, $inv:expr, $m:expr) => {{
            moduli += 1;
            let reps = if $n <= 2 { n } else if $n <= 5 { n / 3 + 1 } else { n / 12 + 1 };
            for _ in 0..reps {
                history::<$n, $c>(&mut t, &mut r, 60, $inv);
            }
            if $m > 0 {
                exhaustive::<$n, $c>(&mut t, $m, $inv);
            }
        }};
    }
    each_modulus!(one);
    // rings modulo a power of two: same machine, modulus 2^bits
    macro_rules! zint {
        ($t:ty) => {{
            for _ in 0..n {
                let w = size_of::<$t>() + 1;
                let mut q = vec![0u8; w];
                q[w - 1] = 1;
                t.begin(json!({"ev": "reset", "q": q, "w": w}));
                let b = |x: ZInt<$t>| { let mut v = x.0.to_le_bytes().to_vec(); v.push(0); json!(v) };
                let mut regs = [ZInt::<$t>::zero(), ZInt::one(), ZInt::zero(), ZInt::zero()];
                for _ in 0..40 {
                    let (a, c, d) = (r.below(4), r.below(4), r.below(4));
                    let (op, x) = match r.below(7) {
                        0 => ("add", regs[a] + regs[c]),
                        1 => ("sub", regs[a] - &regs[c]),
                        2 => ("mul", &regs[a] * regs[c]),
                        3 => ("neg", if r.chance(1, 2) { -regs[a] } else { -&regs[a] }),
                        4 => { let z = ZInt::<$t>::new(((r.word() as u128) << 64 | r.word() as u128) as $t); t.ev(json!({"ev": "load", "a": 1, "b": 1, "d": d + 1, "ok": 1, "x": b(z), "v": b(z)})); regs[d] = z; continue }
                        5 => ("one", ZInt::one()),
                        _ => {
                            let ord = regs[a].cmp(&regs[c]) as i32;
                            t.ev(json!({"ev": "cmp", "a": a + 1, "b": c + 1, "eq": (regs[a] == regs[c]) as u8, "ord": ord, "z": regs[a].vartime_is_zero() as u8}));
                            continue
                        }
                    };
                    regs[d] = x;
                    t.ev(json!({"ev": op, "a": a + 1, "b": c + 1, "d": d + 1, "ok": 1, "v": b(x)}));
                }
            }
        }};
    }
    zint!(u8);
    zint!(u16);
    zint!(u32);
    zint!(u64);
    zint!(u128);
    t.finish(&a.dir, json!({"moduli": moduli}));
}
