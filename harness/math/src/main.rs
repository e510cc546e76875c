//! Conformance harness for sunscreen_math: records histories of the real code for the specifications
//! Combos, ZqRing, RingPoly, Stats and Security.
#[cfg(feature = "combo")]
mod combo;
#[cfg(any(feature = "zq", feature = "poly"))]
mod moduli;
#[cfg(any(feature = "zq", feature = "poly"))]
mod zq;
#[cfg(feature = "poly")]
mod poly;
#[cfg(feature = "stats")]
mod stats;
#[cfg(feature = "security")]
mod security;
use vcommon::*;

fn main() {
    quiet_panics();
    let a = args();
    match a.cmd.as_str() {
        #[cfg(feature = "combo")]
        "combo" => combo::run(&a),
        #[cfg(feature = "zq")]
        "zq" => zq::run(&a),
        #[cfg(feature = "poly")]
        "poly" => poly::run(&a),
        #[cfg(feature = "stats")]
        "stats" => stats::run(&a),
        #[cfg(feature = "security")]
        "security" => security::run(&a),
        _ => std::process::exit(2),
    }
}
