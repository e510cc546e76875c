//! T10: how the structured objects are laid out, and every way of walking over their parts.
use crate::*;
use num::Complex;
use rayon::iter::plumbing::Producer;
use rayon::prelude::*;
use sunscreen_tfhe::entities::*;
use sunscreen_tfhe::rand::Stddev;
use sunscreen_tfhe::verif::{FromMutSlice, FromSlice, ParTriangularPairsExt, SIMD_ALIGN, Storage, StorageMut, TriangularPairsExt};
use sunscreen_tfhe::*;

type C = Complex<f64>;

struct Cx<'a> {
    tr: &'a mut Trace,
    r: &'a mut Rng,
    ids: usize,
}

/// Where a part lies within the object it was taken from.
fn place<E, X: Storage<E> + ?Sized>(x: &X, base: usize) -> Value {
    let s = x.storage();
    spot(s, base)
}
fn spot<E>(s: &[E], base: usize) -> Value {
    let d = (s.as_ptr() as usize as i64) - base as i64;
    let z = std::mem::size_of::<E>() as i64;
    if d % z != 0 {
        return json!([-1000000, d % 1000]);
    }
    json!([(d / z).clamp(-1_000_000_000, 1_000_000_000), s.len().min(1 << 30)])
}
fn base<E, X: Storage<E> + ?Sized>(x: &X) -> usize {
    x.storage().as_ptr() as usize
}

fn elements<E, X: Storage<E> + ?Sized>(x: &X) -> usize {
    x.storage().len()
}

impl Cx<'_> {
    fn id(&mut self) -> usize {
        self.ids += 1;
        self.ids
    }
    fn walk<I: Iterator + ExactSizeIterator + DoubleEndedIterator>(&mut self, it: I, at: impl Fn(&I::Item) -> Value) {
        let id = self.id();
        self.tr.ev(json!({"ev": "open", "id": id}));
        self.drain(id, it, &at);
    }
    fn drain<I: Iterator + ExactSizeIterator + DoubleEndedIterator>(&mut self, id: usize, mut it: I, at: &impl Fn(&I::Item) -> Value) {
        let style = self.r.below(4);
        let mut done = 0;
        let mut steps = 0;
        let none = json!([]);
        while done < 3 && steps < 70 {
            steps += 1;
            if self.r.chance(1, 4) {
                self.tr.ev(json!({"ev": "len", "id": id, "got": it.len().min(1 << 30)}));
            }
            let back = match style { 0 => false, 1 => true, _ => self.r.chance(1, 2) };
            let skip = if style == 3 && self.r.chance(1, 3) { self.r.below(3) } else { 0 };
            let got = match (back, skip) {
                (false, 0) => it.next(),
                (true, 0) => it.next_back(),
                (false, s) => it.nth(s),
                (true, s) => it.nth_back(s),
            };
            if got.is_none() {
                done += 1;
            }
            self.tr.ev(json!({"ev": if back { "back" } else { "next" }, "id": id, "skip": skip, "got": got.as_ref().map(at).unwrap_or(none.clone())}));
        }
    }
    /// Split a parallel traversal the way a thread pool may, and walk the pieces.
    fn pieces<P: Producer>(&mut self, id: usize, left: usize, p: P, depth: usize, at: &impl Fn(&P::Item) -> Value)
    where
        P::IntoIter: Iterator<Item = P::Item> + ExactSizeIterator + DoubleEndedIterator,
    {
        if depth == 0 || left == 0 {
            return self.drain(id, p.into_iter(), at);
        }
        let k = self.r.below(left + 1);
        let (a, b) = (self.id(), self.id());
        self.tr.ev(json!({"ev": "split", "id": id, "at": k, "a": a, "b": b}));
        let (x, y) = p.split_at(k);
        self.pieces(a, k, x, depth - 1, at);
        self.pieces(b, left - k, y, depth - 1, at);
    }
}

macro_rules! object {
    ($cx:ident, $r:ident, $kind:literal, $T:ty, $E:ty, $inp:expr, $gen:expr, $v:ident, $o:ident) => {
        let n = <$T as OverlaySize>::size($inp);
        let mut $v: Vec<$E> = (0..n + 1).map(|_| $gen).collect();
        {
            let mut valid = vec![];
            for m in [n.saturating_sub(1), n, n + 1] {
                let x: &$T = FromSlice::from_slice(&$v[..m]);
                valid.push(json!([m, x.check_is_valid($inp).is_ok()]));
            }
            $v.truncate(n);
            $cx.tr.ev(json!({"ev": "object", "kind": $kind, "len": n, "valid": valid}));
        }
        let $o: &mut $T = FromMutSlice::from_mut_slice(&mut $v[..]);
    };
}
macro_rules! walks {
    ($cx:ident, $E:ty, $o:ident, $sh:expr, $mu:expr) => {{
        let at = base::<$E, _>(&*$o);
        {
            let it = $sh;
            $cx.walk(it, |x| place::<$E, _>(*x, at));
        }
        {
            let it = $mu;
            $cx.walk(it, |x| place::<$E, _>(&**x, at));
        }
        {
            let it = $sh.rev();
            let got: Vec<Value> = it.map(|x| place::<$E, _>(x, at)).collect();
            $cx.tr.ev(json!({"ev": "collect", "rev": true, "got": got}));
        }
        {
            // all parts held at once
            let parts: Vec<_> = $mu.collect();
            let got: Vec<Value> = parts.iter().map(|x| place::<$E, _>(&**x, at)).collect();
            $cx.tr.ev(json!({"ev": "collect", "rev": false, "got": got}));
        }
    }};
}
macro_rules! pars {
    ($cx:ident, $E:ty, $o:ident, $sh:expr, $mu:expr) => {{
        let at = base::<$E, _>(&*$o);
        {
            let it = $sh;
            let left = IndexedParallelIterator::len(&it);
            let id = $cx.id();
            $cx.tr.ev(json!({"ev": "open", "id": id}));
            $cx.tr.ev(json!({"ev": "len", "id": id, "got": left}));
            $cx.pieces(id, left, it, 3, &|x| place::<$E, _>(*x, at));
        }
        {
            let it = $mu;
            let left = IndexedParallelIterator::len(&it);
            let id = $cx.id();
            $cx.tr.ev(json!({"ev": "open", "id": id}));
            $cx.tr.ev(json!({"ev": "len", "id": id, "got": left}));
            $cx.pieces(id, left, it, 3, &|x| place::<$E, _>(&**x, at));
        }
        {
            let it = $sh;
            let got: Vec<Value> = it.enumerate().map(|(_, x)| place::<$E, _>(x, at)).collect();
            $cx.tr.ev(json!({"ev": "collect", "rev": false, "got": got}));
            let got: Vec<Value> = $sh.with_max_len(1).rev().map(|x| place::<$E, _>(x, at)).collect();
            $cx.tr.ev(json!({"ev": "collect", "rev": true, "got": got}));
            let got: Vec<Vec<Value>> = $mu.map(|x| place::<$E, _>(&*x, at)).chunks(2).collect();
            $cx.tr.ev(json!({"ev": "collect", "rev": false, "got": got.concat()}));
        }
    }};
}
macro_rules! single {
    ($cx:ident, $which:literal, $got:expr) => {{
        let got = $got;
        $cx.tr.ev(json!({"ev": "single", "which": $which, "got": got}));
    }};
}
macro_rules! same {
    ($cx:ident, $what:literal, $ok:expr) => {{
        let ok: bool = $ok;
        $cx.tr.ev(json!({"ev": "same", "what": $what, "ok": ok}));
    }};
}
/// Copies, comparison, serialisation.
macro_rules! copies {
    ($cx:ident, $own:ty, $E:ty, $o:ident) => {{
        let mut c: $own = $o.to_owned();
        let eq = |a: &[$E], b: &[$E]| a == b;
        same!($cx, "to_owned", eq(Storage::<$E>::storage(&**&c), Storage::<$E>::storage(&*$o)));
        same!($cx, "equal", *c == *$o && c == c.clone());
        let p = Storage::<$E>::storage(&**&c).as_ptr() as usize;
        same!($cx, "aligned", p % SIMD_ALIGN == 0);
        let bytes = bincode::serialize(&c).unwrap();
        let d: $own = bincode::deserialize(&bytes).unwrap();
        same!($cx, "serialised", eq(Storage::<$E>::storage(&**&c), Storage::<$E>::storage(&**&d)) && c == d);
        let p = Storage::<$E>::storage(&**&d).as_ptr() as usize;
        same!($cx, "aligned", p % SIMD_ALIGN == 0);
        let n = Storage::<$E>::storage(&*$o).len();
        if n > 0 {
            // a copy is apart from its original, and differs as soon as one element does
            let k = $cx.r.below(n);
            let s = StorageMut::<$E>::storage_mut(&mut *c);
            s[k] = bump(s[k]);
            same!($cx, "differs", *c != *$o && c != d);
            c.clone_from_ref(&*$o);
            same!($cx, "clone_from_ref", *c == *$o);
            c.clear();
            same!($cx, "clear", Storage::<$E>::storage(&*c).iter().all(num::Zero::is_zero));
            same!($cx, "apart", *d == *$o);
        }
    }};
}

trait Bump {
    fn bumped(self) -> Self;
}
impl<S: TorusOps> Bump for Torus<S> {
    fn bumped(self) -> Self {
        self + Torus::from(S::from_u64(1))
    }
}
impl Bump for C {
    fn bumped(self) -> Self {
        self + 1.0
    }
}
fn bump<E: Bump>(e: E) -> E {
    e.bumped()
}

fn params(r: &mut Rng) -> (LweDef, LweDef, GlweDef, RadixDecomposition, usize) {
    let lwe = |n| LweDef { dim: LweDimension(n), std: Stddev(0.0) };
    let n = 1 + r.below(6);
    let n2 = 1 + r.below(5);
    let g = GlweDef {
        dim: GlweDimension { size: GlweSize(1 + r.below(4)), polynomial_degree: PolynomialDegree(2 << r.below(5)) },
        std: Stddev(0.0),
    };
    let rd = RadixDecomposition { count: RadixCount(1 + r.below(4)), radix_log: RadixLog(4) };
    (lwe(n), lwe(n2), g, rd, r.below(6))
}

/// A function of its own for each kind of object: one that holds them all takes a minute to compile.
#[inline(never)]
fn apart(f: impl FnOnce()) {
    f()
}

fn history<S: TorusOps + serde::Serialize + serde::de::DeserializeOwned>(tr: &mut Trace, r0: &mut Rng) {
    let (lw, lw2, g, rd, c) = params(r0);
    let mut gen_rng = r0.fork();
    let mut cxv = Cx { tr, r: r0, ids: 0 };
    let cx = &mut cxv;
    let q = &mut gen_rng;
    cx.tr.begin(json!({"ev": "reset", "bits": S::BITS, "p": {"n": lw.dim.0, "n2": lw2.dim.0, "N": g.dim.polynomial_degree.0, "k": g.dim.size.0, "l": rd.count.0, "c": c}}));
    type T<S> = Torus<S>;
    let nn = g.dim.polynomial_degree;
    macro_rules! t { () => { Torus::<S>::from(word::<S>(q)) } }
    macro_rules! z { () => { C::new(q.range(-1000, 1000) as f64, q.range(-1000, 1000) as f64) } }
    apart(|| {
        object!(cx, r, "Lwe", LweCiphertextRef<S>, T<S>, lw.dim, t!(), v, o);
        let at = base::<T<S>, _>(&*o);
        single!(cx, "mask", spot(o.a(&lw), at));
        single!(cx, "mask", spot(o.a_b(&lw).0, at));
        single!(cx, "body", spot(std::slice::from_ref(o.b(&lw)), at));
        single!(cx, "body", spot(std::slice::from_ref(o.a_b(&lw).1), at));
        single!(cx, "mask", spot(o.a_mut(&lw), at));
        single!(cx, "body", spot(std::slice::from_ref(o.b_mut(&lw)), at));
        let (a, b) = o.a_b_mut(&lw);
        let (x, y) = (spot(a, at), spot(std::slice::from_ref(b), at));
        single!(cx, "mask", x.clone());
        single!(cx, "body", y.clone());
        copies!(cx, LweCiphertext<S>, T<S>, o);
        same!(cx, "new", elements::<T<S>, _>(&*LweCiphertext::<S>::new(&lw)) == elements::<T<S>, _>(&*o));
    });
    apart(|| {
        object!(cx, r, "LweSk", LweSecretKeyRef<S>, S, lw.dim, word::<S>(q), v, o);
        let at = base::<S, _>(&*o);
        single!(cx, "all", spot(o.s(), at));
    });
    apart(|| {
        object!(cx, r, "LweList", LweCiphertextListRef<S>, T<S>, (lw.dim, c), t!(), v, o);
        walks!(cx, T<S>, o, o.ciphertexts(&lw), o.ciphertexts_mut(&lw));
        copies!(cx, LweCiphertextList<S>, T<S>, o);
    });
    apart(|| {
        object!(cx, r, "Lev", LevCiphertextRef<S>, T<S>, (lw.dim, rd.count), t!(), v, o);
        walks!(cx, T<S>, o, o.lwe_ciphertexts(&lw), o.lwe_ciphertexts_mut(&lw));
        copies!(cx, LevCiphertext<S>, T<S>, o);
    });
    apart(|| {
        object!(cx, r, "LweKsk", LweKeyswitchKeyRef<S>, T<S>, (lw.dim, lw2.dim, rd.count), t!(), v, o);
        walks!(cx, T<S>, o, o.rows(&lw2, &rd), o.rows_mut(&lw2, &rd));
        copies!(cx, LweKeyswitchKey<S>, T<S>, o);
        same!(cx, "new", elements::<T<S>, _>(&*LweKeyswitchKey::<S>::new(&lw, &lw2, &rd)) == elements::<T<S>, _>(&*o));
    });
    apart(|| {
        object!(cx, r, "LwePk", LwePublicKeyRef<S>, T<S>, lw.dim, t!(), v, o);
        walks!(cx, T<S>, o, o.enc_zeros(&lw), o.enc_zeros_mut(&lw));
        copies!(cx, LwePublicKey<S>, T<S>, o);
    });
    apart(|| {
        object!(cx, r, "PolyList", PolynomialListRef<T<S>>, T<S>, (nn, c), t!(), v, o);
        walks!(cx, T<S>, o, o.iter(nn), o.iter_mut(nn));
    });
    apart(|| {
        object!(cx, r, "Poly", PolynomialRef<T<S>>, T<S>, nn, t!(), v, o);
        let at = base::<T<S>, _>(&*o);
        single!(cx, "all", spot(o.coeffs(), at));
        single!(cx, "all", spot(o.coeffs_mut(), at));
    });
    apart(|| {
        object!(cx, r, "PolyFft", PolynomialFftRef<C>, C, nn, z!(), v, o);
        let at = base::<C, _>(&*o);
        single!(cx, "all", spot(Storage::<C>::storage(&*o), at));
    });
    apart(|| {
        object!(cx, r, "GlweSk", GlweSecretKeyRef<S>, S, g.dim, word::<S>(q), v, o);
        let at = base::<S, _>(&*o);
        walks!(cx, S, o, o.s(&g), o.s_mut(&g));
        let it = o.s_par(&g);
        let left = IndexedParallelIterator::len(&it);
        let id = cx.id();
        cx.tr.ev(json!({"ev": "open", "id": id}));
        cx.pieces(id, left, it, 3, &|x| place::<S, _>(*x, at));
        let got: Vec<Value> = o.s_par(&g).rev().map(|x| place::<S, _>(x, at)).collect();
        cx.tr.ev(json!({"ev": "collect", "rev": true, "got": got}));
        single!(cx, "all", place::<S, _>(o.to_lwe_secret_key(), at));
    });
    apart(|| {
        object!(cx, r, "Glwe", GlweCiphertextRef<S>, T<S>, g.dim, t!(), v, o);
        let at = base::<T<S>, _>(&*o);
        walks!(cx, T<S>, o, o.a(&g), o.a_mut(&g));
        walks!(cx, T<S>, o, o.a_b(&g).0, o.a_b_mut(&g).0);
        single!(cx, "body", place::<T<S>, _>(o.b(&g), at));
        single!(cx, "body", place::<T<S>, _>(o.a_b(&g).1, at));
        single!(cx, "body", place::<T<S>, _>(&*o.b_mut(&g), at));
        single!(cx, "body", place::<T<S>, _>(&*o.a_b_mut(&g).1, at));
        copies!(cx, GlweCiphertext<S>, T<S>, o);
        same!(cx, "new", elements::<T<S>, _>(&*GlweCiphertext::<S>::new(&g)) == elements::<T<S>, _>(&*o));
    });
    apart(|| {
        object!(cx, r, "GlweFft", GlweCiphertextFftRef<C>, C, g.dim, z!(), v, o);
        let at = base::<C, _>(&*o);
        walks!(cx, C, o, o.a(&g), o.a_mut(&g));
        walks!(cx, C, o, o.a_b(&g).0, o.a_b_mut(&g).0);
        single!(cx, "body", place::<C, _>(o.b(&g), at));
        single!(cx, "body", place::<C, _>(o.a_b(&g).1, at));
        single!(cx, "body", place::<C, _>(&*o.b_mut(&g), at));
        single!(cx, "body", place::<C, _>(&*o.a_b_mut(&g).1, at));
        copies!(cx, GlweCiphertextFft<C>, C, o);
    });
    apart(|| {
        object!(cx, r, "GlweList", GlweCiphertextListRef<S>, T<S>, (g.dim, c), t!(), v, o);
        walks!(cx, T<S>, o, o.ciphertexts(&g), o.ciphertexts_mut(&g));
        copies!(cx, GlweCiphertextList<S>, T<S>, o);
    });
    apart(|| {
        object!(cx, r, "Glev", GlevCiphertextRef<S>, T<S>, (g.dim, rd.count), t!(), v, o);
        walks!(cx, T<S>, o, o.glwe_ciphertexts(&g), o.glwe_ciphertexts_mut(&g));
        copies!(cx, GlevCiphertext<S>, T<S>, o);
    });
    apart(|| {
        object!(cx, r, "GlevFft", GlevCiphertextFftRef<C>, C, (g.dim, rd.count), z!(), v, o);
        walks!(cx, C, o, o.glwe_ciphertexts(&g), o.glwe_ciphertexts_mut(&g));
        copies!(cx, GlevCiphertextFft<C>, C, o);
    });
    apart(|| {
        object!(cx, r, "Ggsw", GgswCiphertextRef<S>, T<S>, (g.dim, rd.count), t!(), v, o);
        walks!(cx, T<S>, o, o.rows(&g, &rd), o.rows_mut(&g, &rd));
        copies!(cx, GgswCiphertext<S>, T<S>, o);
        same!(cx, "new", elements::<T<S>, _>(&*GgswCiphertext::<S>::new(&g, &rd)) == elements::<T<S>, _>(&*o));
    });
    apart(|| {
        object!(cx, r, "GgswFft", GgswCiphertextFftRef<C>, C, (g.dim, rd.count), z!(), v, o);
        walks!(cx, C, o, o.rows(&g, &rd), o.rows_mut(&g, &rd));
        copies!(cx, GgswCiphertextFft<C>, C, o);
        same!(cx, "new", elements::<C, _>(&*GgswCiphertextFft::new(&g, &rd)) == elements::<C, _>(&*o));
    });
    apart(|| {
        object!(cx, r, "GlweKsk", GlweKeyswitchKeyRef<S>, T<S>, (g.dim, rd.count), t!(), v, o);
        walks!(cx, T<S>, o, o.rows(&g, &rd), o.rows_mut(&g, &rd));
        copies!(cx, GlweKeyswitchKey<S>, T<S>, o);
        same!(cx, "new", elements::<T<S>, _>(&*GlweKeyswitchKey::<S>::new(&g, &rd)) == elements::<T<S>, _>(&*o));
    });
    apart(|| {
        object!(cx, r, "GlweKskFft", GlweKeyswitchKeyFftRef<C>, C, (g.dim, rd.count), z!(), v, o);
        walks!(cx, C, o, o.rows(&g, &rd), o.rows_mut(&g, &rd));
        copies!(cx, GlweKeyswitchKeyFft<C>, C, o);
    });
    apart(|| {
        object!(cx, r, "Automorphism", AutomorphismKeyRef<S>, T<S>, (g.dim, rd.count), t!(), v, o);
        walks!(cx, T<S>, o, o.keyswitch_keys(&g, &rd), o.keyswitch_keys_mut(&g, &rd));
        copies!(cx, AutomorphismKey<S>, T<S>, o);
        same!(cx, "new", elements::<T<S>, _>(&*AutomorphismKey::<S>::new(&g, &rd)) == elements::<T<S>, _>(&*o));
    });
    apart(|| {
        object!(cx, r, "AutomorphismFft", AutomorphismKeyFftRef<C>, C, (g.dim, rd.count), z!(), v, o);
        walks!(cx, C, o, o.keyswitch_keys(&g, &rd), o.keyswitch_keys_mut(&g, &rd));
        copies!(cx, AutomorphismKeyFft<C>, C, o);
    });
    apart(|| {
        object!(cx, r, "Shift", BlindRotationShiftRef<S>, T<S>, (g.dim, rd.count), t!(), v, o);
        walks!(cx, T<S>, o, o.rows(&g, &rd), o.rows_mut(&g, &rd));
        copies!(cx, BlindRotationShift<S>, T<S>, o);
        same!(cx, "new", elements::<T<S>, _>(&*BlindRotationShift::<S>::new(&g, &rd)) == elements::<T<S>, _>(&*o));
    });
    apart(|| {
        object!(cx, r, "ShiftFft", BlindRotationShiftFftRef<C>, C, (g.dim, rd.count), z!(), v, o);
        walks!(cx, C, o, o.rows(&g, &rd), o.rows_mut(&g, &rd));
        copies!(cx, BlindRotationShiftFft<C>, C, o);
    });
    apart(|| {
        object!(cx, r, "Bootstrap", BootstrapKeyRef<S>, T<S>, (lw.dim, g.dim, rd.count), t!(), v, o);
        walks!(cx, T<S>, o, o.rows(&g, &rd), o.rows_mut(&g, &rd));
        pars!(cx, T<S>, o, o.rows_par(&g, &rd), o.rows_par_mut(&g, &rd));
        copies!(cx, BootstrapKey<S>, T<S>, o);
        same!(cx, "new", elements::<T<S>, _>(&*BootstrapKey::<S>::new(&lw, &g, &rd)) == elements::<T<S>, _>(&*o));
    });
    apart(|| {
        object!(cx, r, "BootstrapFft", BootstrapKeyFftRef<C>, C, (lw.dim, g.dim, rd.count), z!(), v, o);
        walks!(cx, C, o, o.rows(&g, &rd), o.rows_mut(&g, &rd));
        copies!(cx, BootstrapKeyFft<C>, C, o);
    });
    apart(|| {
        object!(cx, r, "PrivateFks", PrivateFunctionalKeyswitchKeyRef<S>, T<S>, (lw.dim, g.dim, rd.count, PrivateFunctionalKeyswitchLweCount(c)), t!(), v, o);
        walks!(cx, T<S>, o, o.glevs(&g, &rd), o.glevs_mut(&g, &rd));
        pars!(cx, T<S>, o, o.glevs_par(&g, &rd), o.glevs_par_mut(&g, &rd));
        copies!(cx, PrivateFunctionalKeyswitchKey<S>, T<S>, o);
    });
    apart(|| {
        object!(cx, r, "CbsKsk", CircuitBootstrappingKeyswitchKeysRef<S>, T<S>, (lw.dim, g.dim, rd.count), t!(), v, o);
        walks!(cx, T<S>, o, o.keys(&lw, &g, &rd), o.keys_mut(&lw, &g, &rd));
        pars!(cx, T<S>, o, o.keys_par(&lw, &g, &rd), o.keys_par_mut(&lw, &g, &rd));
        copies!(cx, CircuitBootstrappingKeyswitchKeys<S>, T<S>, o);
    });
    apart(|| {
        object!(cx, r, "PublicFks", PublicFunctionalKeyswitchKeyRef<S>, T<S>, (lw.dim, g.dim, rd.count), t!(), v, o);
        walks!(cx, T<S>, o, o.glevs(&g, &rd), o.glevs_mut(&g, &rd));
        copies!(cx, PublicFunctionalKeyswitchKey<S>, T<S>, o);
    });
    apart(|| {
        object!(cx, r, "SchemeSwitch", SchemeSwitchKeyRef<S>, T<S>, (g.dim, rd.count), t!(), v, o);
        let at = base::<T<S>, _>(&*o);
        walks!(cx, T<S>, o, o.glev_ciphertexts(&g, &rd), o.glev_ciphertexts_mut(&g, &rd));
        copies!(cx, SchemeSwitchKey<S>, T<S>, o);
        for i in 0..g.dim.size.0 {
            for j in 0..g.dim.size.0 {
                let a = place::<T<S>, _>(o.get_glev_at_index(i, j, &g, &rd), at);
                cx.tr.ev(json!({"ev": "pair", "i": i, "j": j, "got": a}));
                let a = place::<T<S>, _>(o.get_glev_at_index_mut(i, j, &g, &rd), at);
                cx.tr.ev(json!({"ev": "pair", "i": i, "j": j, "got": a}));
            }
        }
    });
    apart(|| {
        object!(cx, r, "SchemeSwitchFft", SchemeSwitchKeyFftRef<C>, C, (g.dim, rd.count), z!(), v, o);
        let at = base::<C, _>(&*o);
        walks!(cx, C, o, o.glev_ciphertexts(&g, &rd), o.glev_ciphertexts_mut(&g, &rd));
        copies!(cx, SchemeSwitchKeyFft<C>, C, o);
        for i in 0..g.dim.size.0 {
            for j in 0..g.dim.size.0 {
                let a = place::<C, _>(o.get_glev_at_index(i, j, &g, &rd), at);
                cx.tr.ev(json!({"ev": "pair", "i": i, "j": j, "got": a}));
                let a = place::<C, _>(o.get_glev_at_index_mut(i, j, &g, &rd), at);
                cx.tr.ev(json!({"ev": "pair", "i": i, "j": j, "got": a}));
            }
        }
    });
    if g.dim.size.0 == 1 {
        object!(cx, r, "RlwePk", RlwePublicKeyRef<S>, T<S>, g.dim, t!(), v, o);
        let at = base::<T<S>, _>(&*o);
        single!(cx, "mask", place::<T<S>, _>(o.p0_p1(&g).0, at));
        single!(cx, "body", place::<T<S>, _>(o.p0_p1(&g).1, at));
        single!(cx, "all", place::<T<S>, _>(o.zero_encryption(), at));
        single!(cx, "all", place::<T<S>, _>(&*o.zero_encryption_mut(), at));
        copies!(cx, RlwePublicKey<S>, T<S>, o);
    }
    apart(|| {
        object!(cx, r, "Lut", UnivariateLookupTableRef<S>, T<S>, g.dim, t!(), v, o);
        let at = base::<T<S>, _>(&*o);
        single!(cx, "all", place::<T<S>, _>(o.glwe(), at));
        single!(cx, "all", place::<T<S>, _>(&*o.glwe_mut(), at));
    });
    apart(|| {
        object!(cx, r, "Lut", BivariateLookupTableRef<S>, T<S>, g.dim, t!(), v, o);
        let at = base::<T<S>, _>(&*o);
        single!(cx, "all", place::<T<S>, _>(o.glwe(), at));
        single!(cx, "all", place::<T<S>, _>(o.as_univariate(), at));
        single!(cx, "all", place::<T<S>, _>(&*o.glwe_mut(), at));
    });
    // Pairs of key polynomials, in the order the scheme switch key holds them.
    let m = cx.r.below(7);
    let got: Vec<Value> = (0..m).triangular_pairs().map(|(a, b)| json!([a, b])).collect();
    cx.tr.ev(json!({"ev": "pairs", "n": m, "got": got}));
    let got: Vec<Value> = (0..m).into_par_iter().par_triangular_pairs().map(|(a, b)| json!([a, b])).collect();
    cx.tr.ev(json!({"ev": "pairs", "n": m, "got": got}));
}

/// Structured objects survive the trip to the Fourier domain and back, part by part.
fn fourier<S: TorusOps>(tr: &mut Trace, r0: &mut Rng) {
    let (lw, _, mut g, rd, c) = params(r0);
    g.dim.polynomial_degree = PolynomialDegree(16 << r0.below(4));
    let r = &mut r0.fork();
    tr.begin(json!({"ev": "reset", "bits": S::BITS, "p": {"n": lw.dim.0, "n2": 1, "N": g.dim.polynomial_degree.0, "k": g.dim.size.0, "l": rd.count.0, "c": c}}));
    let cx = &mut Cx { tr, r: r0, ids: 0 };
    let mut small = || {
        let x = r.u64() & 0xff_ffff;
        Torus::<S>::from(S::from_u64(if r.chance(1, 2) { x } else { x.wrapping_neg() }))
    };
    macro_rules! trip {
        ($what:literal, $T:ty, $F:ty, $inp:expr, |$o:ident, $f:ident| $fft:expr, |$f2:ident, $b:ident| $ifft:expr) => {{
            let n = <$T as OverlaySize>::size($inp);
            let m = <$F as OverlaySize>::size($inp);
            let v: Vec<Torus<S>> = (0..n).map(|_| small()).collect();
            let mut w: Vec<C> = vec![C::new(3.0, 4.0); m];
            let mut u: Vec<Torus<S>> = (0..n).map(|_| small()).collect();
            {
                let $o: &$T = FromSlice::from_slice(&v);
                let $f: &mut $F = FromMutSlice::from_mut_slice(&mut w);
                $fft;
            }
            {
                let $f2: &$F = FromSlice::from_slice(&w);
                let $b: &mut $T = FromMutSlice::from_mut_slice(&mut u);
                $ifft;
            }
            cx.tr.ev(json!({"ev": "same", "what": $what, "ok": v == u}));
        }};
    }
    trip!("glwe fft", GlweCiphertextRef<S>, GlweCiphertextFftRef<C>, g.dim, |o, f| o.fft(f, &g), |f, b| f.ifft(b, &g));
    trip!("glev fft", GlevCiphertextRef<S>, GlevCiphertextFftRef<C>, (g.dim, rd.count), |o, f| o.fft(f, &g), |f, b| f.ifft(b, &g));
    trip!("ggsw fft", GgswCiphertextRef<S>, GgswCiphertextFftRef<C>, (g.dim, rd.count), |o, f| o.fft(f, &g, &rd), |f, b| f.ifft(b, &g, &rd));
    trip!("bootstrap fft", BootstrapKeyRef<S>, BootstrapKeyFftRef<C>, (lw.dim, g.dim, rd.count), |o, f| o.fft(f, &lw, &g, &rd), |f, b| f.ifft(b, &g, &rd));
    trip!("scheme switch fft", SchemeSwitchKeyRef<S>, SchemeSwitchKeyFftRef<C>, (g.dim, rd.count), |o, f| o.fft(f, &g, &rd), |f, b| f.ifft(b, &g, &rd));
    // Automorphism keys transform into an owned result; undo it key by key.
    apart(|| {
        let n = AutomorphismKeyRef::<S>::size((g.dim, rd.count));
        let v: Vec<Torus<S>> = (0..n).map(|_| small()).collect();
        let o: &AutomorphismKeyRef<S> = FromSlice::from_slice(&v);
        let mut f = AutomorphismKeyFft::new(&g, &rd);
        o.fft(&mut f, &g, &rd);
        let mut ok = true;
        for (x, y) in o.keyswitch_keys(&g, &rd).zip(f.keyswitch_keys(&g, &rd)) {
            let mut k = GlweKeyswitchKey::<S>::new(&g, &rd);
            y.ifft(&mut k, &g, &rd);
            ok = ok && *k == *x;
        }
        cx.tr.ev(json!({"ev": "same", "what": "automorphism fft", "ok": ok}));
    });
}

pub fn run(a: &Args) {
    let mut tr = Trace::new(&a.dir, a.shards);
    let mut r = Rng::new(a.seed);
    for h in 0..a.n {
        if h % 2 == 0 { history::<u64>(&mut tr, &mut r) } else { history::<u32>(&mut tr, &mut r) }
        if h % 4 == 0 { fourier::<u64>(&mut tr, &mut r) }
        if h % 4 == 1 { fourier::<u32>(&mut tr, &mut r) }
    }
    tr.finish(&a.dir, json!({}));
}
