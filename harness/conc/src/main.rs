//! Drives parasol_concurrency under controlled schedules and records histories.
//!   vconc cell|lock --seed S --dir D --n SCENARIOS --shards K
mod sched;
use std::collections::HashSet;
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};
use std::sync::atomic::{AtomicUsize, Ordering};

use parasol_concurrency::{AtomicRefCell, Ref, RefMut, Spinlock, SpinlockHandle};
use sched::{Aborted, Outcome, Strategy, record, yield_point};
use vcommon::{Rng, Trace, args, json, quiet_panics};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Borrow,
    BorrowMut,
    /// Read or write through the k-th live guard of this thread (if any)
    Read(usize),
    Write(usize),
    Drop(usize),
    /// Release by unwinding from a panic
    Unwind(usize),
    /// The guard is leaked and never released
    Forget(usize),
    Clone,
    Serialize,
    Lock,
    TryLock,
    Keep(usize),
}

enum G<'a> {
    R(Ref<'a, u64>),
    M(RefMut<'a, u64>),
    L(SpinlockHandle<'a, u64>),
}

/// Calls that may be refused by a panic. `Aborted` passes through.
fn attempt<T>(f: impl FnOnce() -> T) -> Option<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Some(x),
        Err(e) if e.is::<Aborted>() => resume_unwind(e),
        Err(_) => None,
    }
}

fn body(ops: &[Op], cell: &AtomicRefCell<u64>, lock: &Spinlock<u64>, ctr: &AtomicUsize) {
    let mut gs: Vec<(usize, G)> = vec![];
    let new_id = || ctr.fetch_add(1, Ordering::SeqCst);
    for op in ops {
        match *op {
            Op::Borrow => {
                let g = new_id();
                record(json!({"ev":"call","op":"borrow","g":g}));
                let r = attempt(|| cell.borrow());
                record(json!({"ev":"ret","op":"borrow","g":g,"ok":r.is_some()}));
                if let Some(r) = r {
                    gs.push((g, G::R(r)));
                }
            }
            Op::BorrowMut => {
                let g = new_id();
                record(json!({"ev":"call","op":"borrow_mut","g":g}));
                let r = attempt(|| cell.borrow_mut());
                record(json!({"ev":"ret","op":"borrow_mut","g":g,"ok":r.is_some()}));
                if let Some(r) = r {
                    gs.push((g, G::M(r)));
                }
            }
            Op::Lock => {
                let g = new_id();
                record(json!({"ev":"call","op":"lock","g":g}));
                let r = lock.lock();
                record(json!({"ev":"ret","op":"lock","g":g,"ok":true}));
                gs.push((g, G::L(r)));
            }
            Op::TryLock => {
                let g = new_id();
                record(json!({"ev":"call","op":"try_lock","g":g}));
                let r = lock.try_lock();
                record(json!({"ev":"ret","op":"try_lock","g":g,"ok":r.is_some()}));
                if let Some(r) = r {
                    gs.push((g, G::L(r)));
                }
            }
            Op::Clone => {
                // A clone borrows, reads and releases; the copy is an independent cell.
                let g = new_id();
                record(json!({"ev":"call","op":"clone","g":g}));
                let r = attempt(|| cell.clone());
                match r {
                    None => record(json!({"ev":"ret","op":"clone","g":g,"ok":false,"val":-1})),
                    Some(c) => {
                        let v = attempt(|| *c.borrow_mut()).map(|x| x as i64).unwrap_or(-2);
                        record(json!({"ev":"ret","op":"clone","g":g,"ok":true,"val":v}));
                    }
                }
            }
            Op::Read(k) => {
                if gs.is_empty() {
                    continue;
                }
                let k = k % gs.len();
                yield_point();
                let v = match &gs[k].1 {
                    G::R(r) => **r,
                    G::M(r) => **r,
                    G::L(r) => **r,
                };
                record(json!({"ev":"rd","g":gs[k].0,"val":v}));
            }
            Op::Write(k) => {
                if gs.is_empty() {
                    continue;
                }
                let k = k % gs.len();
                if matches!(gs[k].1, G::R(_)) {
                    continue;
                }
                yield_point();
                let v = new_id() as u64 + 1000;
                match &mut gs[k].1 {
                    G::R(_) => {}
                    G::M(r) => **r = v,
                    G::L(r) => **r = v,
                }
                record(json!({"ev":"wr","g":gs[k].0,"val":v}));
            }
            Op::Drop(k) => {
                if gs.is_empty() {
                    continue;
                }
                let k = k % gs.len();
                let (g, h) = gs.remove(k);
                release(g, h);
            }
            Op::Unwind(k) => {
                if gs.is_empty() {
                    continue;
                }
                let k = k % gs.len();
                let (g, h) = gs.remove(k);
                record(json!({"ev":"call","op":"drop","g":g}));
                attempt(move || {
                    let _h = h;
                    panic!("unwinding holder");
                });
                record(json!({"ev":"ret","op":"drop","g":g,"ok":true}));
            }
            Op::Forget(k) => {
                if gs.is_empty() {
                    continue;
                }
                let k = k % gs.len();
                let (g, h) = gs.remove(k);
                std::mem::forget(h);
                record(json!({"ev":"forget","g":g}));
            }
            Op::Serialize => {
                // Like a clone: borrows, reads and releases.
                let g = new_id();
                record(json!({"ev":"call","op":"clone","g":g}));
                match attempt(|| serde_json::to_string(cell).unwrap()) {
                    None => record(json!({"ev":"ret","op":"clone","g":g,"ok":false,"val":-1})),
                    Some(t) => {
                        // what comes back is a free cell with the same value
                        let v = match serde_json::from_str::<AtomicRefCell<u64>>(&t) {
                            Ok(c) => attempt(|| *c.borrow_mut()).map(|x| x as i64).unwrap_or(-2),
                            Err(_) => -3,
                        };
                        record(json!({"ev":"ret","op":"clone","g":g,"ok":true,"val":v}));
                    }
                }
            }
            Op::Keep(k) => {
                if gs.is_empty() {
                    continue;
                }
                let k = k % gs.len();
                if matches!(gs[k].1, G::L(_)) {
                    let (g, h) = gs.remove(k);
                    record(json!({"ev":"call","op":"keep","g":g}));
                    if let G::L(h) = h {
                        h.keep_locked();
                    }
                    record(json!({"ev":"ret","op":"keep","g":g,"ok":true}));
                }
            }
        }
    }
    while let Some((g, h)) = gs.pop() {
        release(g, h);
    }
}

fn release(g: usize, h: G) {
    record(json!({"ev":"call","op":"drop","g":g}));
    drop(h);
    record(json!({"ev":"ret","op":"drop","g":g,"ok":true}));
}

fn gen_ops(r: &mut Rng, lock: bool, len: usize) -> Vec<Op> {
    (0..len)
        .map(|_| {
            let k = r.below(3);
            if lock {
                match r.below(22) {
                    0..=5 => Op::Lock,
                    6..=9 => Op::TryLock,
                    10..=12 => Op::Read(k),
                    13..=15 => Op::Write(k),
                    16..=18 => Op::Drop(k),
                    19..=20 => Op::Unwind(k),
                    _ => Op::Keep(k),
                }
            } else {
                match r.below(24) {
                    0..=4 => Op::Borrow,
                    5..=8 => Op::BorrowMut,
                    9..=11 => Op::Read(k),
                    12..=14 => Op::Write(k),
                    15..=18 => Op::Drop(k),
                    19..=20 => Op::Unwind(k),
                    21 => Op::Serialize,
                    22 if r.chance(1, 2) => Op::Forget(k),
                    _ => Op::Clone,
                }
            }
        })
        .collect()
}

/// With one lock a thread that locks while holding would wait for itself: drop first.
fn sanitize(ops: Vec<Op>) -> Vec<Op> {
    let mut out = vec![];
    let mut held = false;
    for o in ops {
        match o {
            Op::Lock => {
                if held {
                    out.push(Op::Drop(0));
                }
                held = true;
            }
            Op::TryLock => held = true,
            Op::Drop(_) | Op::Unwind(_) | Op::Keep(_) => held = false,
            _ => {}
        }
        out.push(o);
    }
    out
}

fn run(sc: &[Vec<Op>], strat: Strategy) -> Outcome {
    let cell = AtomicRefCell::new(7u64);
    let lock = Spinlock::new(7u64);
    let ctr = AtomicUsize::new(1);
    let (cell, lock, ctr) = (&cell, &lock, &ctr);
    let bodies: Vec<Box<dyn FnOnce() + Send + '_>> =
        sc.iter().map(|ops| Box::new(move || body(ops, cell, lock, ctr)) as Box<dyn FnOnce() + Send + '_>).collect();
    sched::run(strat, bodies)
}

fn main() {
    let a = args();
    quiet_panics();
    sched::init();
    let lock = a.cmd == "lock";
    let mut rng = Rng::new(a.seed);
    let mut tr = Trace::new(&a.dir, a.shards);
    let mut seen: HashSet<String> = HashSet::new();
    let mut execs = 0usize;
    let mut emit = |tr: &mut Trace, n: usize, o: &Outcome| {
        let key = serde_json::to_string(&o.events).unwrap();
        if !seen.insert(key) {
            return;
        }
        tr.begin(json!({"ev":"reset","threads":n}));
        for e in &o.events {
            tr.ev(e.clone());
        }
        let mut st = o.stuck.clone();
        st.sort();
        tr.ev(json!({"ev":"end","stuck":st}));
    };
    use Op::*;
    // Scenarios enumerated exhaustively up to a preemption bound.
    let fixed: Vec<Vec<Vec<Op>>> = if lock {
        vec![
            vec![vec![Lock, Write(0), Drop(0)], vec![Lock, Read(0), Write(0), Drop(0)]],
            vec![vec![TryLock, Write(0), Drop(0)], vec![TryLock, Read(0), Drop(0), TryLock, Read(0)]],
            vec![vec![Lock, Write(0), Keep(0)], vec![TryLock, Read(0), Drop(0)], vec![Lock, Read(0)]],
            vec![vec![Lock, Write(0), Drop(0)], vec![Lock, Write(0), Drop(0)], vec![TryLock, Read(0)]],
            vec![vec![Lock, Write(0), Unwind(0), TryLock, Drop(0)], vec![Lock, Read(0), Unwind(0)]],
        ]
    } else {
        vec![
            vec![vec![BorrowMut, Write(0), Drop(0)], vec![Borrow, Read(0), Drop(0)]],
            vec![vec![BorrowMut, Write(0), Drop(0)], vec![Borrow, BorrowMut, Read(0), Write(1), Drop(0)]],
            vec![vec![Borrow, Read(0), Drop(0)], vec![BorrowMut, Write(0), Drop(0)], vec![Borrow, Read(0)]],
            vec![vec![BorrowMut, Borrow, BorrowMut, Borrow, Write(0), Drop(0), Borrow, Read(0)]],
            vec![vec![Borrow, Borrow, BorrowMut, Drop(0), BorrowMut, Drop(0), BorrowMut, Write(0), Clone]],
            vec![vec![BorrowMut, Write(0), Drop(0)], vec![BorrowMut, Write(0), Drop(0)], vec![Clone]],
            vec![vec![BorrowMut, Write(0), Unwind(0), Borrow, Unwind(0), BorrowMut], vec![Serialize, Borrow, Read(0)]],
            vec![vec![Borrow, Forget(0), Borrow, BorrowMut, Drop(0), BorrowMut], vec![Borrow, Read(0), Drop(0)]],
        ]
    };
    let cap = if a.tier == "thorough" { 60_000 } else { 600 };
    for sc in &fixed {
        let bound = if a.tier == "thorough" { 4 } else { 2 };
        let mut prefix = vec![];
        for _ in 0..cap {
            let o = run(sc, Strategy::Dfs { prefix: prefix.clone(), bound });
            execs += 1;
            emit(&mut tr, sc.len(), &o);
            match next_prefix_of(&o) {
                Some(p) => prefix = p,
                None => break,
            }
        }
    }
    // Random scenarios under random schedules.
    for _ in 0..a.n {
        let nt = 1 + rng.below(3);
        let sc: Vec<Vec<Op>> = (0..nt)
            .map(|_| {
                let len = 2 + rng.below(if nt == 1 { 14 } else { 6 });
                let o = gen_ops(&mut rng, lock, len);
                if lock { sanitize(o) } else { o }
            })
            .collect();
        for _ in 0..4 {
            let r = rng.fork();
            let o = run(&sc, Strategy::Random(r));
            execs += 1;
            emit(&mut tr, nt, &o);
        }
    }
    tr.finish(&a.dir, json!({"executions": execs, "distinct": seen.len()}));
}

fn next_prefix_of(o: &Outcome) -> Option<Vec<usize>> {
    sched::next_prefix(&o.decisions)
}
