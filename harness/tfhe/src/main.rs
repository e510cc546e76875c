#[cfg(feature = "fft")]
mod fft;
#[cfg(feature = "fresh")]
mod fresh;
#[cfg(any(feature = "lin", feature = "sel", feature = "ks", feature = "pbs", feature = "cbs"))]
mod hl;
mod hom;
#[cfg(feature = "ks")]
mod ks;
#[cfg(feature = "lin")]
mod lin;
#[cfg(feature = "cbs")]
mod cbs;
#[cfg(feature = "pbs")]
mod pbs;
#[cfg(feature = "radix")]
mod radix;
#[cfg(feature = "ring")]
mod ring;
#[cfg(feature = "reuse")]
mod reuse;
mod scratch;
#[cfg(feature = "sel")]
mod sel;
#[cfg(feature = "torus")]
mod torus;
#[cfg(feature = "views")]
mod views;
use vcommon::*;

#[global_allocator]
static ALLOC: scratch::Counting = scratch::Counting;

fn main() {
    let a = args();
    quiet_panics();
    let run = || match a.cmd.as_str() {
        #[cfg(feature = "ring")]
        "ring" => ring::run(&a),
        #[cfg(feature = "torus")]
        "torus" => torus::run(&a),
        #[cfg(feature = "radix")]
        "radix" => radix::run(&a),
        "scratch" => scratch::run(&a),
        #[cfg(feature = "views")]
        "views" => views::run(&a),
        #[cfg(feature = "ks")]
        "ks" => ks::run(&a),
        #[cfg(feature = "reuse")]
        "reuse" => reuse::run(&a),
        #[cfg(feature = "fresh")]
        "fresh" => fresh::run(&a),
        #[cfg(feature = "fresh")]
        "fresh-child" => fresh::child(),
        #[cfg(feature = "cbs")]
        "cbs" => cbs::run(&a),
        #[cfg(feature = "pbs")]
        "pbs" => pbs::run(&a),
        #[cfg(feature = "lin")]
        "lin" => lin::run(&a),
        #[cfg(feature = "sel")]
        "sel" => sel::run(&a),
        #[cfg(feature = "fft")]
        "fft" => fft::run(&a),
        c => panic!("unknown command {c}"),
    };
    if let Err(e) = guarded(run) {
        eprintln!("{e}");
        std::process::exit(101);
    }
}

use sunscreen_tfhe::TorusOps;
/// A word of the torus, as little-endian bytes.
pub fn w<S: TorusOps>(x: S) -> Value {
    let v = x.to_u64().to_le_bytes();
    json!(v[..(S::BITS / 8) as usize].to_vec())
}
pub fn vec_w<S: TorusOps>(x: &[S]) -> Value {
    Value::Array(x.iter().map(|c| w(*c)).collect())
}
pub fn word<S: TorusOps>(r: &mut Rng) -> S {
    let x = r.word();
    if S::BITS == 32 && r.chance(1, 2) { S::from_u64(x >> 32) } else { S::from_u64(x) }
}
