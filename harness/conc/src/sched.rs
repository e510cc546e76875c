//! Deterministic scheduler: the threads of a scenario run one at a time and hand over only at
//! atomic operations and data accesses (the yield points).
use std::cell::Cell;
use std::collections::HashMap;
use std::panic::{AssertUnwindSafe, catch_unwind, panic_any};
use std::sync::{Condvar, Mutex};

use parasol_concurrency::verif::{AtomicEvent, AtomicKind, Phase, atomic::Ordering, set_observer};
use vcommon::{Rng, Value, json};

pub struct Aborted;

pub enum Strategy {
    /// Follow `prefix`, then always keep running the current thread (depth-first enumeration).
    Dfs { prefix: Vec<usize>, bound: usize },
    Random(Rng),
}

struct St {
    n: usize,
    done: Vec<bool>,
    started: usize,
    cur: usize,
    strat: Strategy,
    /// (choice, number of options) of each decision so far
    decisions: Vec<(usize, usize)>,
    preemptions: usize,
    steps: usize,
    streak: usize,
    abort: bool,
    stuck: Vec<usize>,
    ev: Vec<Value>,
    locs: HashMap<usize, usize>,
}

static S: Mutex<Option<St>> = Mutex::new(None);
static CV: Condvar = Condvar::new();
thread_local! { static TID: Cell<usize> = const { Cell::new(0) }; }

const FAIR_AFTER: usize = 400;
const GIVE_UP: usize = 400 + 600;
const SPIN: usize = 12;

fn choose(st: &mut St) {
    // Options: current thread first, then the others in order.
    let me = st.cur;
    let mut opts: Vec<usize> = vec![];
    if me > 0 && !st.done[me - 1] {
        opts.push(me);
    }
    for t in 1..=st.n {
        if t != me && !st.done[t - 1] {
            opts.push(t);
        }
    }
    if opts.is_empty() {
        st.cur = 0;
        return;
    }
    let cont = opts[0] == me;
    st.steps += 1;
    let next = if st.steps > FAIR_AFTER {
        // fair round robin
        if opts.len() > 1 && cont { opts[1..].iter().copied().find(|t| *t > me).unwrap_or(opts[1]) } else { opts[0] }
    } else if cont && st.streak > SPIN && opts.len() > 1 {
        // A thread that does not get anywhere is spinning: let the others run.
        opts[1..].iter().copied().find(|t| *t > me).unwrap_or(opts[1])
    } else {
        let n = opts.len();
        let k = match &mut st.strat {
            Strategy::Dfs { prefix, bound } => {
                let n_eff = if cont && st.preemptions >= *bound { 1 } else { n };
                let k = prefix.get(st.decisions.len()).copied().unwrap_or(0);
                let k = if k < n_eff { k } else { 0 };
                st.decisions.push((k, n_eff));
                k
            }
            Strategy::Random(r) => {
                if cont && !r.chance(1, 3) { 0 } else { r.below(n) }
            }
        };
        if cont && k > 0 {
            st.preemptions += 1;
        }
        opts[k]
    };
    st.streak = if next == me { st.streak + 1 } else { 0 };
    st.cur = next;
    if st.steps > GIVE_UP {
        st.abort = true;
    }
}

/// Hand over to whichever thread the strategy picks; returns when picked again.
pub fn yield_point() {
    let t = TID.get();
    if t == 0 || std::thread::panicking() {
        return;
    }
    let mut g = S.lock().unwrap();
    {
        let st = g.as_mut().unwrap();
        choose(st);
    }
    CV.notify_all();
    loop {
        let st = g.as_mut().unwrap();
        if st.abort {
            if !st.stuck.contains(&t) {
                st.stuck.push(t);
            }
            drop(g);
            panic_any(Aborted);
        }
        if st.cur == t {
            return;
        }
        g = CV.wait(g).unwrap();
    }
}

/// Record an event of the current thread.
pub fn record(mut v: Value) {
    let t = TID.get();
    if t == 0 {
        return;
    }
    v["t"] = json!(t);
    let mut g = S.lock().unwrap();
    let st = g.as_mut().unwrap();
    if !st.abort {
        st.ev.push(v);
    }
}

fn observer(e: AtomicEvent) {
    let t = TID.get();
    if t == 0 {
        return;
    }
    match e.phase {
        Phase::Before => yield_point(),
        Phase::After => {
            let mut g = S.lock().unwrap();
            let st = g.as_mut().unwrap();
            if st.abort {
                return;
            }
            let k = st.locs.len() + 1;
            let loc = if e.addr == 0 { 0 } else { *st.locs.entry(e.addr).or_insert(k) };
            let (acq, rel) = match e.ordering {
                Ordering::Relaxed => (false, false),
                Ordering::Acquire => (true, false),
                Ordering::Release => (false, true),
                _ => (true, true),
            };
            let kind = match e.kind {
                AtomicKind::Load | AtomicKind::FailedRmw => "ld",
                AtomicKind::Store => "st",
                AtomicKind::Rmw => "rmw",
                AtomicKind::Fence => "fence",
            };
            // Success of a read-modify-write is progress; a load or failed exchange may be spinning.
            if kind == "rmw" || kind == "st" {
                st.streak = 0;
            }
            // A thread spinning on one location repeats the same load; keep one of them.
            let v = json!({"ev": "atom", "t": t, "loc": loc, "k": kind, "acq": acq, "rel": rel});
            if kind == "ld" && st.ev.last() == Some(&v) {
                return;
            }
            st.ev.push(v);
        }
    }
}

pub struct Outcome {
    pub events: Vec<Value>,
    pub decisions: Vec<(usize, usize)>,
    pub stuck: Vec<usize>,
}

pub fn init() {
    set_observer(observer);
}

/// Run one scenario. Each body runs on its own thread under the scheduler.
pub fn run(strat: Strategy, bodies: Vec<Box<dyn FnOnce() + Send + '_>>) -> Outcome {
    let n = bodies.len();
    *S.lock().unwrap() = Some(St {
        n,
        done: vec![false; n],
        started: 0,
        cur: usize::MAX,
        strat,
        decisions: vec![],
        preemptions: 0,
        steps: 0,
        streak: 0,
        abort: false,
        stuck: vec![],
        ev: vec![],
        locs: HashMap::new(),
    });
    std::thread::scope(|s| {
        for (i, b) in bodies.into_iter().enumerate() {
            s.spawn(move || {
                let t = i + 1;
                TID.set(t);
                {
                    let mut g = S.lock().unwrap();
                    g.as_mut().unwrap().started += 1;
                    if g.as_ref().unwrap().started == g.as_ref().unwrap().n {
                        let st = g.as_mut().unwrap();
                        st.cur = 0;
                        choose(st);
                        CV.notify_all();
                    }
                    while g.as_ref().unwrap().cur != t && !g.as_ref().unwrap().abort {
                        g = CV.wait(g).unwrap();
                    }
                    let st = g.as_mut().unwrap();
                    if st.abort && st.cur != t {
                        st.stuck.push(t);
                        st.done[i] = true;
                        return;
                    }
                }
                let r = catch_unwind(AssertUnwindSafe(b));
                TID.set(0);
                let mut g = S.lock().unwrap();
                let st = g.as_mut().unwrap();
                if let Err(e) = r {
                    if !e.is::<Aborted>() {
                        // A panic outside the places where the interface documents one.
                        st.ev.push(json!({"ev": "panic", "t": t}));
                    }
                }
                st.done[i] = true;
                if !st.abort {
                    st.streak = 0;
                    choose(st);
                }
                CV.notify_all();
            });
        }
    });
    let st = S.lock().unwrap().take().unwrap();
    Outcome { events: st.ev, decisions: st.decisions, stuck: st.stuck }
}

/// Next decision prefix in depth-first order, or None when the tree is exhausted.
pub fn next_prefix(d: &[(usize, usize)]) -> Option<Vec<usize>> {
    let mut i = d.len();
    while i > 0 {
        i -= 1;
        if d[i].0 + 1 < d[i].1 {
            let mut p: Vec<usize> = d[..i].iter().map(|x| x.0).collect();
            p.push(d[i].0 + 1);
            return Some(p);
        }
    }
    None
}
