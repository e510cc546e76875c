//! The Parasol computer (parasol_cpu/src/proc): programs run on real computers, with what they returned, showed to the
//! debug handlers and left in memory.
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use crate::mem::{Seg, elf};
use parasol_concurrency::AtomicRefCell;
use parasol_cpu::{
    ArgsBuilder, Byte, CallData, DynamicToArg, Error, FheComputer, Memory, MemoryConfigBuilder, Ptr32, Register, RunProgramOptionsBuilder, ToArg,
    Ciphertext, assembly::IsaOp, tomasulo::registers::RegisterName,
};
use parasol_runtime::{ComputeKey, Encryption, Evaluation, L1GlweCiphertext, Params, SecretKey, fluent::{Int, UInt}};
use sunscreen_tfhe::{GlweDef, GlweDimension, GlweSize, LweDef, LweDimension, PolynomialDegree, RadixCount, RadixDecomposition, RadixLog, entities::Polynomial, rand::Stddev};
use vcommon::*;

pub type Reg = RegisterName<Register>;
pub fn x(n: usize) -> Reg {
    RegisterName::new(n)
}

/// Parameters without security whose noise never matters.
pub fn params() -> Params {
    let r = |count, log| RadixDecomposition { count: RadixCount(count), radix_log: RadixLog(log) };
    Params {
        l0_params: LweDef { dim: LweDimension(12), std: Stddev(1e-12) },
        l1_params: GlweDef { dim: GlweDimension { size: GlweSize(1), polynomial_degree: PolynomialDegree(128) }, std: Stddev(1e-15) },
        cbs_radix: r(3, 5),
        pbs_radix: r(3, 10),
        ks_radix: r(8, 3),
        pfks_radix: r(3, 10),
        ss_radix: r(3, 10),
        tr_radix: r(4, 8),
    }
}

pub struct World {
    pub enc: Encryption,
    pub eval: Evaluation,
    pub sk: SecretKey,
    pools: Vec<Arc<rayon::ThreadPool>>,
}
impl World {
    pub fn new() -> Self {
        let params = params();
        let enc = Encryption::new(&params);
        let sk = SecretKey::generate(&params);
        let ck = Arc::new(ComputeKey::generate(&sk, &params));
        let eval = Evaluation::new(ck, &params, &enc);
        let pools = [1, 2, 4].map(|n| Arc::new(rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap())).to_vec();
        Self { enc, eval, sk, pools }
    }
    pub fn computer(&self, r: &mut Rng) -> FheComputer {
        FheComputer::new_with_threadpool(&self.enc, &self.eval, r.pick(&self.pools).clone())
    }
    pub fn bit(&self, b: bool) -> L1GlweCiphertext {
        let mut p = Polynomial::<u64>::zero(128);
        p.coeffs_mut()[0] = b as u64;
        self.enc.encrypt_glwe_l1_secret(&p, &self.sk)
    }
    pub fn read(&self, c: &L1GlweCiphertext) -> bool {
        self.enc.decrypt_glwe_l1(c, &self.sk).coeffs()[0] & 1 == 1
    }
    pub fn bits(&self, v: &[Arc<AtomicRefCell<L1GlweCiphertext>>]) -> u128 {
        v.iter().enumerate().map(|(i, c)| (self.read(&c.borrow()) as u128) << i).sum()
    }
    /// Bytes are numbers: below 256 plain, 256 + v encrypted.
    pub fn byte(&self, b: u16) -> Byte {
        if b < 256 {
            Byte::Plaintext(b as u8)
        } else {
            Byte::try_from((0..8).map(|i| Arc::new(AtomicRefCell::new(self.bit(b >> i & 1 == 1)))).collect::<Vec<_>>()).unwrap()
        }
    }
    pub fn tell(&self, b: &Byte) -> u16 {
        match b {
            Byte::Plaintext(v) => *v as u16,
            Byte::Ciphertext(c) => 256 + self.bits(c) as u16,
        }
    }
}

/// A byte of either kind, to look into memory with.
pub struct AnyByte(pub Byte);
impl ToArg for AnyByte {
    fn alignment() -> usize {
        1
    }
    fn size() -> usize {
        1
    }
    fn to_bytes(&self) -> Vec<Byte> {
        vec![self.0.clone()]
    }
    fn try_from_bytes(mut data: Vec<Byte>) -> parasol_cpu::Result<Self> {
        Ok(Self(data.remove(0)))
    }
}
struct RawArg {
    align: usize,
    bytes: Vec<Byte>,
}
impl DynamicToArg for RawArg {
    fn alignment(&self) -> usize {
        self.align
    }
    fn size(&self) -> usize {
        self.bytes.len()
    }
    fn to_bytes(&self) -> Vec<Byte> {
        self.bytes.clone()
    }
    fn try_from_bytes(_: Vec<Byte>) -> parasol_cpu::Result<Self> {
        unreachable!()
    }
}

/// The class of an error and the program counter it names, if it does.
fn class(e: &Error) -> (&'static str, Option<u32>) {
    match e {
        Error::IllegalInstruction(_) => ("illegal", None),
        Error::IllegalOperands { pc, .. } => ("operands", Some(*pc)),
        Error::WidthMismatch { pc, .. } => ("width", Some(*pc)),
        Error::UnalignedAccess(_) => ("unaligned", None),
        Error::AccessViolation(_) => ("access", None),
        Error::UnsupportedWidth { pc, .. } => ("unsupported", Some(*pc)),
        Error::OutOfRange { pc, .. } => ("range", Some(*pc)),
        Error::BufferNotAPlaintext => ("notplain", None),
        Error::BufferNotACiphertext => ("notcipher", None),
        Error::EncryptionMismatch => ("encryption", None),
        Error::BranchConditionNotPlaintext => ("branch", None),
        Error::PointerOverflow => ("overflow", None),
        Error::OutOfGas(..) => ("gas", None),
        Error::UnexpectedEncryptedByte(_) => ("encbyte", None),
        _ => ("other", None),
    }
}

pub const TEXT: u32 = 0x10000;
pub const DATA: u32 = 0x20000;
pub const STACK: u32 = 0x30000;

/// What a call returns.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ret {
    None,
    U(usize),
    I(usize),
    E(usize),
    EI(usize),
    A3,
    EA,
}
/// An argument: its alignment and bytes, and which type to pass it as (0: raw bytes).
#[derive(Clone, Debug)]
pub struct A {
    pub align: usize,
    pub bytes: Vec<u16>,
    pub typed: bool,
}

pub static BEAT: AtomicU64 = AtomicU64::new(0);
/// Ends the process when nothing was finished for a while.
pub fn watchdog(limit: u64) {
    std::thread::spawn(move || {
        let (mut last, mut since) = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(250));
            let b = BEAT.load(Ordering::Relaxed);
            if b != last {
                (last, since) = (b, Instant::now());
            } else if since.elapsed() > Duration::from_secs(limit) {
                eprintln!("call {b} does not end");
                std::process::exit(101);
            }
        }
    });
}

type Shown = Arc<Mutex<Vec<(usize, usize, u32, bool, u32, u128)>>>;

pub struct Guest<'a> {
    pub w: &'a Arc<World>,
    pub mem: Arc<Memory>,
    /// The windows of memory that are compared.
    pub windows: Vec<(u32, u32)>,
    last: Mutex<u32>,
}
impl<'a> Guest<'a> {
    /// A guest with the given words as its text and bytes as its data.
    pub fn new(w: &'a Arc<World>, t: &mut Trace, text: &[u64], data: &[u16], stack: u32, looked: u32, key: Option<&str>) -> Self {
        let words: Vec<u8> = text.iter().flat_map(|x| x.to_le_bytes()).collect();
        let plain: Vec<u8> = data.iter().map(|b| if *b < 256 { *b as u8 } else { 0 }).collect();
        let mut segs = vec![Seg { vaddr: TEXT, memsz: words.len() as u32, data: words.clone(), load: true }];
        if !data.is_empty() {
            segs.push(Seg { vaddr: DATA, memsz: data.len() as u32, data: plain, load: true });
        }
        let config = MemoryConfigBuilder::new().stack_top(Ptr32::from(STACK)).stack_size(stack).build();
        let mem = Memory::new_from_elf_with_config(&elf(&segs, "main", TEXT), &config).unwrap();
        for (i, b) in data.iter().enumerate().filter(|(_, b)| **b >= 256) {
            mem.try_write_type(Ptr32::from(DATA + i as u32), &AnyByte(w.byte(*b))).unwrap();
        }
        let mut pages: Vec<u32> = vec![];
        for (lo, n) in [(TEXT, words.len() as u32), (DATA, data.len() as u32), (STACK, stack)] {
            if n > 0 {
                pages.extend(lo / 4096..=(lo + n - 1) / 4096);
            }
        }
        let sp: u32 = STACK + stack;
        let mut head = json!({"ev": "reset", "pages": pages, "sp": sp, "init": [[TEXT, words], [DATA, data]]});
        if let Some(k) = key {
            head["key"] = json!(k);
        }
        t.begin(head);
        Self { w, mem: Arc::new(mem), windows: vec![(DATA, data.len() as u32), (sp - looked.min(stack), looked.min(stack))], last: Mutex::new(0) }
    }
    pub fn peek(&self, at: u32, n: u32) -> Vec<u16> {
        (0..n).map(|i| self.w.tell(&self.mem.try_load_type::<AnyByte>(Ptr32::from(at + i)).unwrap().0)).collect()
    }
    /// Call without a limit and tell the gas used, if it returned.
    pub fn used(&self, t: &mut Trace, c: &mut FheComputer, pc: u32) -> Option<u32> {
        let ok = self.call(t, c, pc, &[], Ret::None, None);
        if ok { Some(*self.last.lock().unwrap()) } else { None }
    }
    pub fn entry(&self) -> u32 {
        TEXT
    }
    pub fn call(&self, t: &mut Trace, c: &mut FheComputer, pc: u32, args: &[A], ret: Ret, limit: Option<u32>) -> bool {
        let w = self.w;
        let shown: Shown = Arc::default();
        let mut o = RunProgramOptionsBuilder::new().gas_limit(limit);
        for h in 0..2usize {
            let (shown, w) = (shown.clone(), w.clone());
            o = o.debug_handler(move |id, pc, r| {
                let (enc, width, v) = match r {
                    Register::Plaintext { val, width } => (false, *width, *val),
                    Register::Ciphertext(Ciphertext::L1Glwe { data }) => (true, data.len() as u32, w.bits(data)),
                    _ => (true, 0, 0),
                };
                shown.lock().unwrap().push((h, id, pc, enc, width, v));
            });
        }
        let o = o.build();
        let mut b = ArgsBuilder::new();
        for a in args {
            let bytes: Vec<Byte> = a.bytes.iter().map(|x| w.byte(*x)).collect();
            let enc = a.bytes.iter().any(|x| *x >= 256);
            macro_rules! typed {
                ($($n:literal: $p:ty, $bits:literal),*) => {
                    match (a.typed && a.bytes.len() == a.align, enc, a.align) {
                        $((true, false, $n) => b.arg(<$p>::try_from_bytes(bytes).unwrap()),)*
                        $((true, true, $n) => b.arg(UInt::<$bits, L1GlweCiphertext>::try_from_bytes(bytes).unwrap()),)*
                        (true, true, 32) => b.arg(Int::<256, L1GlweCiphertext>::try_from_bytes(bytes).unwrap()),
                        _ => b.arg_dyn(RawArg { align: a.align, bytes }),
                    }
                };
            }
            b = typed!(1: u8, 8, 2: i16, 16, 4: u32, 32, 8: i64, 64, 16: u128, 128);
        }
        BEAT.fetch_add(1, Ordering::Relaxed);
        fn go<T: ToArg>(g: &Guest, c: &mut FheComputer, pc: u32, d: CallData<T>, o: &parasol_cpu::RunProgramOptions) -> Result<(u32, Vec<Byte>), Error> {
            c.run_program_with_options(Ptr32::from(pc), &g.mem, d, o).map(|(gas, v)| (gas, v.to_bytes()))
        }
        type U<const N: usize> = UInt<N, L1GlweCiphertext>;
        type S<const N: usize> = Int<N, L1GlweCiphertext>;
        let (ra, rn, rk) = match ret {
            Ret::None => (1, 0, "raw"),
            Ret::U(n) | Ret::I(n) => (n, n, "p"),
            Ret::E(n) | Ret::EI(n) => (n, n, "c"),
            Ret::A3 => (2, 6, "p"),
            Ret::EA => (2, 4, "c"),
        };
        let got = match ret {
            Ret::None => go(self, c, pc, b.no_return_value(), &o),
            Ret::U(1) => go(self, c, pc, b.return_value::<u8>(), &o),
            Ret::U(2) => go(self, c, pc, b.return_value::<u16>(), &o),
            Ret::U(4) => go(self, c, pc, b.return_value::<u32>(), &o),
            Ret::U(8) => go(self, c, pc, b.return_value::<u64>(), &o),
            Ret::U(_) => go(self, c, pc, b.return_value::<u128>(), &o),
            Ret::I(1) => go(self, c, pc, b.return_value::<i8>(), &o),
            Ret::I(2) => go(self, c, pc, b.return_value::<i16>(), &o),
            Ret::I(4) => go(self, c, pc, b.return_value::<i32>(), &o),
            Ret::I(8) => go(self, c, pc, b.return_value::<i64>(), &o),
            Ret::I(_) => go(self, c, pc, b.return_value::<i128>(), &o),
            Ret::E(1) => go(self, c, pc, b.return_value::<U<8>>(), &o),
            Ret::E(2) => go(self, c, pc, b.return_value::<U<16>>(), &o),
            Ret::E(4) => go(self, c, pc, b.return_value::<U<32>>(), &o),
            Ret::E(8) => go(self, c, pc, b.return_value::<U<64>>(), &o),
            Ret::E(_) => go(self, c, pc, b.return_value::<U<256>>(), &o),
            Ret::EI(1) => go(self, c, pc, b.return_value::<S<8>>(), &o),
            Ret::EI(2) => go(self, c, pc, b.return_value::<S<16>>(), &o),
            Ret::EI(_) => go(self, c, pc, b.return_value::<S<32>>(), &o),
            Ret::A3 => go(self, c, pc, b.return_value::<[u16; 3]>(), &o),
            Ret::EA => go(self, c, pc, b.return_value::<[U<16>; 2]>(), &o),
        };
        BEAT.fetch_add(1, Ordering::Relaxed);
        let mut dbg = std::mem::take(&mut *shown.lock().unwrap());
        dbg.sort_by_key(|x| x.1);
        let dbg: Vec<Value> = dbg.iter().map(|(h, _, pc, enc, w, v)| json!({"h": h, "pc": b4(*pc), "k": if *enc { "c" } else { "p" }, "w": w, "v": b16(*v)})).collect();
        let mem: Vec<Value> = self.windows.iter().map(|(at, n)| json!([at, self.peek(*at, *n)])).collect();
        let (ok, gas, bytes, err, epc) = match &got {
            Ok((g, b)) => (true, *g, b.iter().map(|x| w.tell(x)).collect(), "", None),
            Err(e) => {
                let (k, pc) = class(e);
                (false, 0, vec![], k, pc)
            }
        };
        *self.last.lock().unwrap() = gas;
        let args: Vec<Value> = args.iter().map(|a| json!({"a": a.align, "b": a.bytes})).collect();
        t.ev(json!({"ev": "call", "pc": b4(pc), "args": args, "ra": ra, "rn": rn, "rk": rk, "limit": limit.map(|x| x as i64).unwrap_or(-1),
            "ok": ok, "gas": gas, "ret": bytes, "err": err, "epc": epc.map(b4).unwrap_or(json!([])), "dbg": dbg, "mem": mem,
            "sp": u32::from(self.mem.stack_ptr())}));
        ok
    }
}
pub fn encode(code: &[IsaOp]) -> Vec<u64> {
    code.iter().map(|x| u64::from(*x)).collect()
}
