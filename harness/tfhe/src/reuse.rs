//! T11: histories of every family in which each operation is carried out several times, each time
//! into an output left in another state.
use crate::hom::*;
use crate::*;

pub fn run(a: &Args) {
    let mut rng = Rng::new(a.seed ^ 0x110);
    let mut tr = Trace::new(&a.dir, a.shards);
    for i in 0..a.n {
        let mut r = rng.fork();
        sunscreen_tfhe::verif::set_simd_cap((i % 3) as u8);
        let mut cx = Cx { tr: &mut tr, r: &mut r, reps: 3 };
        let small = i % 3 == 2;
        match i / 3 % 5 {
            0 => if small { lin::history::<u32>(&mut cx, false, 30) } else { lin::history::<u64>(&mut cx, false, 30) },
            1 => if small { sel::history::<u32>(&mut cx, false, 12) } else { sel::history::<u64>(&mut cx, false, 12) },
            2 => if small { ks::history::<u32>(&mut cx, false, 16) } else { ks::history::<u64>(&mut cx, false, 16) },
            3 => if small { pbs::history::<u32>(&mut cx, false, 12) } else { pbs::history::<u64>(&mut cx, false, 12) },
            _ => if small { cbs::history::<u32>(&mut cx, false, 6) } else { cbs::history::<u64>(&mut cx, false, 6) },
        }
    }
    tr.finish(&a.dir, json!({}));
}
