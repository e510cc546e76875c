//! Keys and helpers for the checks of parasol_runtime.
use std::sync::{Arc, mpsc};
use std::time::Duration;

use parasol_runtime::{ComputeKey, Encryption, Evaluation, Params, PublicKey, SecretKey};
use sunscreen_tfhe::{GlweDef, GlweDimension, GlweSize, LweDef, LweDimension, PolynomialDegree, RadixCount, RadixDecomposition, RadixLog, rand::Stddev};
use vcommon::*;

/// Parameters without security whose noise never matters.
pub fn params(lwe: usize, degree: usize) -> Params {
    let r = |count, log| RadixDecomposition { count: RadixCount(count), radix_log: RadixLog(log) };
    Params {
        l0_params: LweDef { dim: LweDimension(lwe), std: Stddev(1e-12) },
        l1_params: GlweDef { dim: GlweDimension { size: GlweSize(1), polynomial_degree: PolynomialDegree(degree) }, std: Stddev(1e-15) },
        cbs_radix: r(7, 5),
        pbs_radix: r(4, 10),
        ks_radix: r(8, 3),
        pfks_radix: r(4, 10),
        ss_radix: r(4, 10),
        tr_radix: r(5, 8),
    }
}
pub struct Rt {
    pub params: Params,
    pub enc: Encryption,
    pub eval: Evaluation,
    pub sk: SecretKey,
    pub pk: PublicKey,
    pub pools: Vec<Arc<rayon::ThreadPool>>,
}
impl Rt {
    pub fn new() -> Self {
        let params = params(12, 128);
        let enc = Encryption::new(&params);
        let sk = SecretKey::generate(&params);
        let pk = PublicKey::generate(&params, &sk);
        let eval = Evaluation::new(Arc::new(ComputeKey::generate(&sk, &params)), &params, &enc);
        let pools = [1, 2, 4, 8].map(|n| Arc::new(rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap())).to_vec();
        Self { params, enc, eval, sk, pk, pools }
    }
}
/// Ends the process if what it watches takes too long (nothing is recorded after that).
pub fn limit<T>(what: &str, f: impl FnOnce() -> T) -> T {
    let (done, wait) = mpsc::channel::<()>();
    let what = what.to_string();
    let h = std::thread::spawn(move || {
        if wait.recv_timeout(Duration::from_secs(60)) == Err(mpsc::RecvTimeoutError::Timeout) {
            eprintln!("no end: {what}");
            std::process::exit(101);
        }
    });
    let r = f();
    drop(done);
    h.join().unwrap();
    r
}
pub fn low(v: u128, n: usize) -> u128 {
    if n >= 128 { v } else { v & ((1 << n) - 1) }
}
/// Operands near boundaries as often as not.
pub fn operand(r: &mut Rng, n: usize) -> u128 {
    let v = match r.below(8) {
        0 => 0,
        1 => u128::MAX,
        2 => 1u128.checked_shl(n as u32 - 1).unwrap_or(0),
        3 => 1u128.checked_shl(n as u32 - 1).unwrap_or(0).wrapping_sub(1),
        4 => 1,
        _ => r.u128(),
    };
    low(v, n)
}
