//! T09: histories of scratch buffers on one and several threads.
use crate::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::{Receiver, Sender, channel};
use std::sync::{Arc, Mutex};
use sunscreen_tfhe::verif::{Pod, ScratchBuffer, allocate_scratch};
use sunscreen_tfhe::Torus;

/// Counts what one thread allocates inside the calls under test.
pub struct Counting;
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static NET: Cell<i64> = const { Cell::new(0) };
}
fn count(n: i64) {
    let _ = ON.try_with(|on| {
        if on.get() {
            let _ = NET.try_with(|x| x.set(x.get() + n));
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as i64));
        unsafe { System.dealloc(p, l) }
    }
}
fn counted<T>(f: impl FnOnce() -> T) -> T {
    ON.with(|o| o.set(true));
    let r = f();
    ON.with(|o| o.set(false));
    r
}

/// A buffer of any element type, as its owner uses it.
trait Held {
    fn bytes(&mut self) -> (*mut u8, usize);
    fn shared(&self) -> (*const u8, usize);
    fn len(&self) -> usize;
}
impl<T: Pod> Held for ScratchBuffer<'static, T> {
    fn bytes(&mut self) -> (*mut u8, usize) {
        let s = self.as_mut_slice();
        (s.as_mut_ptr() as *mut u8, std::mem::size_of_val(s))
    }
    fn shared(&self) -> (*const u8, usize) {
        let s = self.as_slice();
        (s.as_ptr() as *const u8, std::mem::size_of_val(s))
    }
    fn len(&self) -> usize {
        self.as_slice().len()
    }
}

struct Live {
    id: usize,
    buf: Box<dyn Held>,
    segs: usize,
}

/// Where events go: a shared, ordered list, written after a buffer is taken and
/// before it is released.
type Log = Arc<Mutex<Vec<Value>>>;

struct Owner {
    thr: usize,
    log: Log,
    ids: Arc<AtomicUsize>,
    live: Vec<Live>,
}

fn addr(p: usize) -> Value {
    json!([(p >> 24) as u64, (p & 0xff_ffff) as u64])
}

/// Byte j of a segment filled with v.
fn byte(v: u8, j: usize) -> u8 {
    v ^ (j % 251) as u8
}

impl Owner {
    fn emit(&self, v: Value) {
        self.log.lock().unwrap().push(v);
    }
    fn take_t<T: Pod + 'static>(&mut self, count: usize) {
        let b = counted(|| allocate_scratch::<T>(count));
        let mut buf: Box<dyn Held> = Box::new(b);
        let id = self.ids.fetch_add(1, Ordering::SeqCst);
        let (p, n) = buf.bytes();
        let q = buf.shared();
        let len = if q.0 as usize == p as usize && q.1 == n { buf.len() as i64 } else { -1 };
        let bytes = count * std::mem::size_of::<T>();
        let segs = bytes.min(5);
        self.emit(json!({"ev": "take", "id": id, "thr": self.thr, "count": count, "len": len, "size": std::mem::size_of::<T>(),
            "algn": std::mem::align_of::<T>(), "addr": addr(p as usize), "segs": segs}));
        self.live.push(Live { id, buf, segs });
    }
    fn take(&mut self, ty: usize, count: usize) {
        use num::Complex;
        match ty {
            0 => self.take_t::<u8>(count),
            1 => self.take_t::<u16>(count),
            2 => self.take_t::<u32>(count),
            3 => self.take_t::<u64>(count),
            4 => self.take_t::<u128>(count),
            5 => self.take_t::<f64>(count),
            6 => self.take_t::<Complex<f64>>(count),
            7 => self.take_t::<Torus<u32>>(count),
            8 => self.take_t::<Torus<u64>>(count),
            9 => self.take_t::<i64>(count),
            _ => self.take_t::<Complex<f32>>(count),
        }
    }
    fn range(l: &Live, n: usize, s: usize) -> (usize, usize) {
        (n * s / l.segs, n * (s + 1) / l.segs)
    }
    fn fill(&mut self, k: usize, s: usize, v: u8) {
        let l = &mut self.live[k];
        if l.segs == 0 {
            return;
        }
        let s = s % l.segs;
        let (p, n) = l.buf.bytes();
        let (lo, hi) = Self::range(l, n, s);
        for j in lo..hi {
            unsafe { p.add(j).write(byte(v, j - lo)) }
        }
        let id = l.id;
        self.emit(json!({"ev": "fill", "id": id, "s": s + 1, "v": v}));
    }
    fn read(&mut self, k: usize) {
        let l = &mut self.live[k];
        let (p, n) = l.buf.shared();
        let mut vals = vec![];
        for s in 0..l.segs {
            let (lo, hi) = Self::range(l, n, s);
            let at = |j: usize| unsafe { p.add(j).read() };
            let v = at(lo);
            let same = (lo..hi).all(|j| at(j) == byte(v, j - lo));
            vals.push(if same { v as i64 } else { -2 });
        }
        let id = l.id;
        self.emit(json!({"ev": "read", "id": id, "v": vals}));
    }
    fn free(&mut self, k: usize) {
        let l = self.live.remove(k);
        self.emit(json!({"ev": "free", "id": l.id}));
        counted(|| drop(l.buf));
    }
    fn held(&self) {
        let n = NET.with(|x| x.get());
        self.emit(json!({"ev": "held", "thr": self.thr, "bytes": n}));
    }
    /// Take several buffers in a scope that unwinds.
    fn unwind(&mut self, r: &mut Rng, depth: usize) {
        let n0 = self.live.len();
        let _ = guarded(|| {
            for _ in 0..depth {
                let (t, c) = shape(r);
                self.take(t, c);
                let k = self.live.len() - 1;
                self.fill(k, 0, r.u64() as u8);
            }
            struct Scope<'a>(&'a mut Owner, usize);
            impl Drop for Scope<'_> {
                fn drop(&mut self) {
                    while self.0.live.len() > self.1 {
                        let k = self.0.live.len() - 1;
                        self.0.free(k);
                    }
                }
            }
            let _scope = Scope(self, n0);
            panic!("unwinding");
        });
    }
    fn step(&mut self, r: &mut Rng) {
        let n = self.live.len();
        match r.below(12) {
            0..=3 if n < 8 => {
                let (t, c) = shape(r);
                self.take(t, c);
                if r.chance(3, 4) {
                    for s in 0..5 {
                        self.fill(n, s, r.u64() as u8);
                    }
                }
            }
            4 | 5 if n > 0 => self.fill(r.below(n), r.below(5), r.u64() as u8),
            6 if n > 0 => self.read(r.below(n)),
            7 if n > 0 => {
                for k in 0..n {
                    self.read(k)
                }
            }
            8 | 9 if n > 0 => self.free(r.below(n)), // any order
            10 if n > 0 => self.free(n - 1),         // nested
            11 if r.chance(1, 6) => self.unwind(r, 1 + r.0 as usize % 3),
            _ => {}
        }
        if r.chance(1, 10) {
            self.held();
        }
    }
    fn close(&mut self, r: &mut Rng) {
        while !self.live.is_empty() {
            let k = r.below(self.live.len());
            self.read(k);
            self.free(k);
        }
        self.held();
    }
}

fn shape(r: &mut Rng) -> (usize, usize) {
    let t = r.below(11);
    let c = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => 1usize << r.below(11),
        3 => (1usize << r.below(11)) + 1,
        4 => r.below(5000),
        _ => r.below(64),
    };
    (t, c)
}

/// The shapes of the next steps, replayed with the same requests many times:
/// space must be reused.
fn rounds(o: &mut Owner, r: &mut Rng) {
    let n = 1 + r.below(5);
    let shapes: Vec<_> = (0..n).map(|_| shape(r)).collect();
    let pattern = r.below(3);
    for _ in 0..30 {
        for &(t, c) in &shapes {
            o.take(t, c);
        }
        for s in 0..n {
            let k = match pattern {
                0 => o.live.len() - 1,
                1 => 0,
                _ => s % o.live.len(),
            };
            o.free(k);
        }
        o.held();
    }
}

/// Several threads, one step at a time: who steps is decided here.
fn turns(log: &Log, ids: &Arc<AtomicUsize>, thr0: &mut usize, r: &mut Rng, steps: usize) {
    let workers = 1 + r.below(3);
    type Ends = (Sender<Option<Rng>>, Receiver<()>, std::thread::JoinHandle<()>);
    let spawn = |thr0: &mut usize| -> Ends {
        let (tx, rx) = channel::<Option<Rng>>();
        let (dtx, drx) = channel::<()>();
        let (log, ids, thr) = (log.clone(), ids.clone(), *thr0);
        *thr0 += 1;
        let h = std::thread::spawn(move || {
            let mut o = Owner { thr, log, ids, live: vec![] };
            for m in rx.iter() {
                match m {
                    Some(mut r) => {
                        if r.chance(1, 30) { rounds(&mut o, &mut r) } else { o.step(&mut r) }
                    }
                    None => break,
                }
                dtx.send(()).unwrap();
            }
            let mut r = Rng::new(7 + o.thr as u64);
            o.close(&mut r);
            dtx.send(()).unwrap();
        });
        (tx, drx, h)
    };
    let mut ws: Vec<Ends> = (0..workers).map(|_| spawn(thr0)).collect();
    for _ in 0..steps {
        let k = r.below(workers);
        if r.chance(1, 40) {
            // this thread ends, releasing what it holds; another takes its place
            let w = std::mem::replace(&mut ws[k], spawn(thr0));
            w.0.send(None).unwrap();
            w.1.recv().unwrap();
            w.2.join().unwrap();
        } else {
            ws[k].0.send(Some(r.fork())).unwrap();
            ws[k].1.recv().unwrap();
        }
    }
    for w in ws {
        w.0.send(None).unwrap();
        w.1.recv().unwrap();
        w.2.join().unwrap();
    }
}

/// Threads running freely.
fn parallel(log: &Log, ids: &Arc<AtomicUsize>, thr0: &mut usize, r: &mut Rng, steps: usize) {
    let hs: Vec<_> = (0..4)
        .map(|_| {
            let (log, ids, thr, mut r) = (log.clone(), ids.clone(), *thr0, r.fork());
            *thr0 += 1;
            std::thread::spawn(move || {
                let mut o = Owner { thr, log, ids, live: vec![] };
                for _ in 0..steps {
                    o.step(&mut r);
                }
                o.close(&mut r);
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
}

pub fn run(a: &Args) {
    let mut tr = Trace::new(&a.dir, a.shards);
    let mut r = Rng::new(a.seed);
    let ids = Arc::new(AtomicUsize::new(0));
    let mut thr = 0;
    for h in 0..a.n {
        let log: Log = Arc::new(Mutex::new(vec![]));
        let kind = h % 3;
        match kind {
            0 | 1 => turns(&log, &ids, &mut thr, &mut r, 120),
            _ => parallel(&log, &ids, &mut thr, &mut r, 60),
        }
        tr.begin(json!({"ev": "reset", "kind": kind}));
        for v in Arc::try_unwrap(log).unwrap().into_inner().unwrap() {
            tr.ev(v);
        }
    }
    tr.finish(&a.dir, json!({}));
}
