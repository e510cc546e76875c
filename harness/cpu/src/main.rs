//! Drives the crates above sunscreen_tfhe (mux_circuits, parasol_runtime, parasol_cpu) and records histories.
use vcommon::{args, guarded, quiet_panics};
#[cfg(any(feature = "mem", feature = "isa", feature = "cpu"))]
#[cfg_attr(not(feature = "mem"), allow(dead_code))]
mod mem;
#[cfg(any(feature = "isa", feature = "cpu"))]
#[allow(dead_code)]
mod cpu;
#[cfg(any(feature = "isa", feature = "cpu"))]
#[allow(dead_code)]
mod isa;
#[cfg(feature = "isa")]
mod enc;
#[cfg(feature = "mux")]
mod mux;
#[cfg(any(feature = "exec", feature = "fluent", feature = "ser"))]
#[allow(dead_code)]
mod rt;
#[cfg(feature = "fluent")]
mod fluent;
#[cfg(feature = "cpu")]
mod prog;

fn main() {
    let a = args();
    quiet_panics();
    let run = || match a.cmd.as_str() {
        #[cfg(feature = "mem")]
        "mem" => mem::run(&a),
        #[cfg(feature = "isa")]
        "ops" => isa::ops(&a),
        #[cfg(feature = "isa")]
        "enc" => enc::enc(&a),
        #[cfg(feature = "isa")]
        "words" => enc::words(&a),
        #[cfg(feature = "fluent")]
        "fluent" => fluent::fluent(&a),
        #[cfg(feature = "mux")]
        "mux" => mux::mux(&a),
        #[cfg(feature = "cpu")]
        "prog" => prog::prog(&a),
        #[cfg(feature = "cpu")]
        "faults" => prog::faults(&a),
        #[cfg(feature = "cpu")]
        "calls" => prog::calls(&a),
        c => panic!("unknown command {c}"),
    };
    if let Err(e) = guarded(run) {
        eprintln!("{e}");
        std::process::exit(101);
    }
}
