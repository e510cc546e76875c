//! Shared pieces of the conformance harnesses: seeded randomness, trace output,
//! panic capture and watchdog.
use std::cell::RefCell;
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
pub use serde_json::{Value, json};

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Self(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn u128(&mut self) -> u128 {
        ((self.u64() as u128) << 64) | self.u64() as u128
    }
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        (self.u64() % n as u64) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.u64() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.u64())
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    /// An "interesting" word: boundary patterns and uniform values mixed.
    pub fn word(&mut self) -> u64 {
        match self.below(8) {
            0 => 0,
            1 => u64::MAX,
            2 => 1u64 << self.below(64),
            3 => (1u64 << self.below(64)).wrapping_sub(1),
            4 => !(1u64 << self.below(64)),
            5 => self.u64() >> self.below(64),
            _ => self.u64(),
        }
    }
}

/// Little-endian bytes, the form in which wide words reach the specifications.
pub fn b8(x: u64) -> Value {
    json!(x.to_le_bytes().to_vec())
}
pub fn b4(x: u32) -> Value {
    json!(x.to_le_bytes().to_vec())
}
pub fn b16(x: u128) -> Value {
    json!(x.to_le_bytes().to_vec())
}

/// Histories, distributed over shard files so that several TLC processes can validate them.
pub struct Trace {
    out: Vec<BufWriter<File>>,
    cur: usize,
    pub histories: usize,
    pub events: usize,
    pub samples: Vec<Value>,
    cur_sample: Vec<Value>,
}
impl Trace {
    pub fn new(dir: &Path, shards: usize) -> Self {
        std::fs::create_dir_all(dir).unwrap();
        let out = (0..shards)
            .map(|i| BufWriter::new(File::create(dir.join(format!("t{i}.ndjson"))).unwrap()))
            .collect();
        Self { out, cur: 0, histories: 0, events: 0, samples: vec![], cur_sample: vec![] }
    }
    /// Start the next history. `head` is the first event of the history (ev = "reset").
    pub fn begin(&mut self, head: Value) {
        self.flush_sample();
        self.cur = self.histories % self.out.len();
        self.histories += 1;
        self.ev(head);
    }
    fn flush_sample(&mut self) {
        if self.samples.len() < 2 && !self.cur_sample.is_empty() {
            let s = std::mem::take(&mut self.cur_sample);
            self.samples.push(Value::Array(s));
        }
        self.cur_sample.clear();
    }
    pub fn ev(&mut self, v: Value) {
        if self.cur_sample.len() < 12 {
            self.cur_sample.push(v.clone());
        }
        self.events += 1;
        writeln!(self.out[self.cur], "{v}").unwrap();
        // What was recorded must survive an abort of the code under test.
        if self.events % 64 == 0 {
            self.out[self.cur].flush().unwrap();
        }
    }
    pub fn sync(&mut self) {
        for o in &mut self.out {
            o.flush().unwrap();
        }
    }
    pub fn finish(mut self, dir: &Path, extra: Value) {
        self.flush_sample();
        self.sync();
        let mut m = json!({"histories": self.histories, "events": self.events, "samples": self.samples});
        if let Value::Object(o) = extra {
            for (k, v) in o {
                m[k] = v;
            }
        }
        std::fs::write(dir.join("summary.json"), m.to_string()).unwrap();
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
/// Route panic messages into a thread-local instead of stderr.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        LAST_PANIC.with(|l| *l.borrow_mut() = s);
    }));
}
/// Run code under test; a panic becomes `Err(message)`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => Err(LAST_PANIC.with(|l| l.borrow().clone())),
    }
}

pub struct Args {
    pub cmd: String,
    pub seed: u64,
    pub dir: PathBuf,
    pub n: usize,
    pub shards: usize,
    pub tier: String,
    pub rest: Vec<String>,
}
/// `harness CMD --seed S --dir D --n N --shards K --tier T [more]`
pub fn args() -> Args {
    let v: Vec<String> = std::env::args().skip(1).collect();
    let mut a = Args { cmd: v[0].clone(), seed: 1, dir: ".".into(), n: 100, shards: 4, tier: "quick".into(), rest: vec![] };
    let mut i = 1;
    while i < v.len() {
        let val = v.get(i + 1).cloned().unwrap_or_default();
        match v[i].as_str() {
            "--seed" => a.seed = val.parse().unwrap(),
            "--dir" => a.dir = val.into(),
            "--n" => a.n = val.parse().unwrap(),
            "--shards" => a.shards = val.parse().unwrap(),
            "--tier" => a.tier = val,
            _ => {
                a.rest.push(v[i].clone());
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    a
}
