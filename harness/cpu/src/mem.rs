//! Guest memory (parasol_cpu/src/memory): histories of mapping, allocation, stack and typed access calls.
use std::collections::HashMap;

use parasol_concurrency::AtomicRefCell;
use parasol_cpu::{Allocation, Arg, Byte, Error, Memory, MemoryConfigBuilder, Ptr32, ToArg};
use parasol_runtime::{Encryption, L1GlweCiphertext, TrivialOne, TrivialZero, fluent::UInt};
use std::sync::Arc;
use vcommon::*;

fn addr(p: u32) -> Value {
    json!([p >> 12, p & 4095])
}
pub fn err(e: &Error) -> &'static str {
    match e {
        Error::AccessViolation(_) => "access",
        Error::UnalignedAccess(_) => "unaligned",
        Error::PointerOverflow => "overflow",
        Error::ZeroAllocation => "zero",
        Error::NoContiguousChunk(_) => "nochunk",
        Error::EncryptionMismatch => "encryption",
        Error::TypeSizeMismatch => "size",
        _ => "other",
    }
}

struct Bits {
    zero: L1GlweCiphertext,
    one: L1GlweCiphertext,
    told: Vec<u8>,
}
impl Bits {
    /// An encrypted byte whose value can be read off again.
    fn byte(&self, v: u8) -> Byte {
        let bits = (0..8).map(|i| Arc::new(AtomicRefCell::new(if v >> i & 1 == 1 { self.one.clone() } else { self.zero.clone() }))).collect::<Vec<_>>();
        Byte::try_from(bits).unwrap()
    }
    fn tell(&self, b: &Byte) -> u32 {
        match b {
            Byte::Plaintext(v) => *v as u32,
            Byte::Ciphertext(c) => 256 + c.iter().enumerate().map(|(i, x)| ((bincode::serialize(&*x.borrow()).unwrap() == self.told) as u32) << i).sum::<u32>(),
        }
    }
    fn uint<const N: usize>(&self, v: &[u8]) -> UInt<N, L1GlweCiphertext> {
        UInt::try_from_bytes(v.iter().map(|b| self.byte(*b)).collect()).unwrap()
    }
}

/// What a write or read of one of the supported types looks like.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ty {
    U(usize),
    A(usize),
    W4(usize),
    E(usize),
    EA,
}
const TYS: [Ty; 17] = [
    Ty::U(1), Ty::U(2), Ty::U(4), Ty::U(8), Ty::U(16), Ty::A(1), Ty::A(3), Ty::A(16), Ty::A(100), Ty::A(4096), Ty::A(4097), Ty::W4(3), Ty::W4(64),
    Ty::E(1), Ty::E(2), Ty::E(4), Ty::EA,
];
impl Ty {
    fn len(self) -> usize {
        match self {
            Ty::U(n) | Ty::A(n) | Ty::E(n) => n,
            Ty::W4(n) => 4 * n,
            Ty::EA => 4,
        }
    }
    fn align(self) -> u32 {
        match self {
            Ty::U(n) | Ty::E(n) => n as u32,
            Ty::A(_) => 1,
            Ty::W4(_) => 4,
            Ty::EA => 2,
        }
    }
    fn encrypted(self) -> bool {
        matches!(self, Ty::E(_) | Ty::EA)
    }
}
fn words<const N: usize>(v: &[u8]) -> [u32; N] {
    std::array::from_fn(|i| u32::from_le_bytes(v[4 * i..4 * i + 4].try_into().unwrap()))
}
macro_rules! with_value {
    ($ty:expr, $v:expr, $b:expr, $x:ident => $body:expr) => {{
        let v: &[u8] = $v;
        match $ty {
            Ty::U(1) => { let $x = v[0]; $body }
            Ty::U(2) => { let $x = u16::from_le_bytes(v.try_into().unwrap()); $body }
            Ty::U(4) => { let $x = u32::from_le_bytes(v.try_into().unwrap()); $body }
            Ty::U(8) => { let $x = i64::from_le_bytes(v.try_into().unwrap()); $body }
            Ty::U(16) => { let $x = u128::from_le_bytes(v.try_into().unwrap()); $body }
            Ty::A(1) => { let $x: [u8; 1] = v.try_into().unwrap(); $body }
            Ty::A(3) => { let $x: [u8; 3] = v.try_into().unwrap(); $body }
            Ty::A(16) => { let $x: [u8; 16] = v.try_into().unwrap(); $body }
            Ty::A(100) => { let $x: [u8; 100] = v.try_into().unwrap(); $body }
            Ty::A(4096) => { let $x: [u8; 4096] = v.try_into().unwrap(); $body }
            Ty::A(_) => { let $x: [u8; 4097] = v.try_into().unwrap(); $body }
            Ty::W4(3) => { let $x: [u32; 3] = words::<3>(v); $body }
            Ty::W4(_) => { let $x: [u32; 64] = words::<64>(v); $body }
            Ty::E(1) => { let $x = $b.uint::<8>(v); $body }
            Ty::E(2) => { let $x = $b.uint::<16>(v); $body }
            Ty::E(_) => { let $x = $b.uint::<32>(v); $body }
            Ty::EA => { let $x = [$b.uint::<16>(&v[..2]), $b.uint::<16>(&v[2..])]; $body }
            Ty::U(_) => unreachable!(),
        }
    }};
}
fn load(m: &Memory, p: Ptr32, ty: Ty) -> Result<Vec<Byte>, Error> {
    fn go<T: ToArg>(m: &Memory, p: Ptr32) -> Result<Vec<Byte>, Error> {
        m.try_load_type::<T>(p).map(|x| x.to_bytes())
    }
    type U<const N: usize> = UInt<N, L1GlweCiphertext>;
    match ty {
        Ty::U(1) => go::<u8>(m, p),
        Ty::U(2) => go::<i16>(m, p),
        Ty::U(4) => go::<u32>(m, p),
        Ty::U(8) => go::<u64>(m, p),
        Ty::U(_) => go::<i128>(m, p),
        Ty::A(1) => go::<[u8; 1]>(m, p),
        Ty::A(3) => go::<[u8; 3]>(m, p),
        Ty::A(16) => go::<[u8; 16]>(m, p),
        Ty::A(100) => go::<[u8; 100]>(m, p),
        Ty::A(4096) => go::<[u8; 4096]>(m, p),
        Ty::A(_) => go::<[u8; 4097]>(m, p),
        Ty::W4(3) => go::<[u32; 3]>(m, p),
        Ty::W4(_) => go::<[u32; 64]>(m, p),
        Ty::E(1) => go::<U<8>>(m, p),
        Ty::E(2) => go::<U<16>>(m, p),
        Ty::E(_) => go::<U<32>>(m, p),
        Ty::EA => go::<[U<16>; 2]>(m, p),
    }
}

pub struct Seg {
    pub vaddr: u32,
    pub memsz: u32,
    pub data: Vec<u8>,
    pub load: bool,
}
/// A minimal ELF32 image: program headers, a symbol table with one function, and the segments' bytes.
pub fn elf(segs: &[Seg], name: &str, value: u32) -> Vec<u8> {
    let ph = 52u32;
    let mut off = ph + 32 * segs.len() as u32;
    let mut body = vec![];
    let mut offs = vec![];
    for s in segs {
        offs.push(off);
        body.extend_from_slice(&s.data);
        off += s.data.len() as u32;
    }
    let strtab: Vec<u8> = [&[0u8], name.as_bytes(), &[0u8], b"datum\0"].concat();
    let stroff = off;
    let symoff = stroff + strtab.len() as u32;
    let mut sym = vec![0u8; 16];
    let mut push = |n: u32, v: u32, info: u8| {
        sym.extend(n.to_le_bytes());
        sym.extend(v.to_le_bytes());
        sym.extend(4u32.to_le_bytes());
        sym.extend([info, 0, 1, 0]);
    };
    push(1, value, 0x12);
    push(2 + name.len() as u32, value ^ 8, 0x11);
    let shoff = symoff + sym.len() as u32;
    let mut sh = vec![0u8; 40];
    let mut shdr = |ty: u32, o: u32, sz: u32, link: u32, ent: u32| {
        for x in [0u32, ty, 0, 0, o, sz, link, 0, 1, ent] {
            sh.extend(x.to_le_bytes());
        }
    };
    shdr(2, symoff, 48, 2, 16);
    shdr(3, stroff, strtab.len() as u32, 0, 0);
    let mut f = vec![0x7f, b'E', b'L', b'F', 1, 1, 1, 0, 3, 0, 0, 0, 0, 0, 0, 0];
    for x in [2u16, 243] {
        f.extend(x.to_le_bytes());
    }
    for x in [1u32, value, ph, shoff, 0] {
        f.extend(x.to_le_bytes());
    }
    for x in [52u16, 32, segs.len() as u16, 40, 3, 0] {
        f.extend(x.to_le_bytes());
    }
    for (s, o) in segs.iter().zip(&offs) {
        for x in [s.load as u32, *o, s.vaddr, s.vaddr, s.data.len() as u32, s.memsz, 7, 1] {
            f.extend(x.to_le_bytes());
        }
    }
    f.extend(body);
    f.extend(strtab);
    f.extend(sym);
    f.extend(sh);
    f
}

/// Points around which a history plays: the edges of everything mapped so far, and of the address space.
struct World {
    marks: Vec<u32>,
}
impl World {
    fn mark(&mut self, p: u32, len: u32) {
        self.marks.push(p);
        self.marks.push(p.wrapping_add(len));
        if self.marks.len() > 14 {
            self.marks.remove(2);
        }
    }
    fn address(&self, r: &mut Rng) -> u32 {
        let m = *r.pick(&self.marks);
        let near = |r: &mut Rng, m: u32| m.wrapping_add(r.range(-40, 40) as u32);
        match r.below(10) {
            0 => r.u64() as u32,
            1 => near(r, m & !4095),
            2 => near(r, (m & !4095).wrapping_add(4096)),
            3 => (m & !4095).wrapping_add(r.below(4096) as u32),
            4 => m.wrapping_sub(r.below(200) as u32),
            _ => near(r, m),
        }
    }
}

pub fn run(a: &Args) {
    let mut r = Rng::new(a.seed);
    let mut t = Trace::new(&a.dir, a.shards);
    let enc = Encryption::default();
    let bits = Bits { zero: L1GlweCiphertext::trivial_zero(&enc), one: L1GlweCiphertext::trivial_one(&enc), told: bincode::serialize(&L1GlweCiphertext::trivial_one(&enc)).unwrap() };
    for h in 0..a.n {
        history(&mut r.fork(), &mut t, &bits, h);
    }
    t.finish(&a.dir, json!({}));
}

fn history(r: &mut Rng, t: &mut Trace, bits: &Bits, h: usize) {
    let mut w = World { marks: vec![0, u32::MAX] };
    let m;
    if h % 3 == 0 {
        m = Memory::new_default_stack();
        t.begin(json!({"ev":"reset","stack":addr(0x8000_0000),"ssz":[1, 0],"segs":[],"sp":addr(m.stack_ptr().into())}));
        w.mark(0x8000_0000, 4096);
    } else {
        // an image with segments at and around page edges and, sometimes, at the end of the address space
        let mut segs = vec![];
        let mut used: Vec<(u64, u64)> = vec![];
        let top = *r.pick(&[0xFFFF_8000u32, 0x8000_0000, 0x4_0000]);
        let ssz = *r.pick(&[0x4000u32, 0x1000, 0x2000, 0x800]);
        used.push((top as u64 & !4095, (top + ssz) as u64 + 4096));
        for _ in 0..r.below(4) {
            let memsz = match r.below(5) {
                0 => 4096,
                1 => 8192,
                2 => 1 + r.below(64) as u32,
                3 => 4096 * r.range(1, 3) as u32 + r.range(-2, 2) as u32,
                _ => 1 + r.below(9000) as u32,
            };
            let vaddr = match r.below(6) {
                // a segment up to the very last byte of the address space is refused (its end is no address)
                0 => 0u32.wrapping_sub(memsz + 1 + r.below(3) as u32),
                1 => 0x1_0000 * (1 + r.below(20) as u32),
                2 => 0x1000 * (1 + r.below(40) as u32) - memsz.min(4096),
                _ => r.below(1 << 20) as u32,
            };
            let (lo, hi) = (vaddr as u64 & !4095, (vaddr as u64 + memsz as u64 + 4095) & !4095);
            if vaddr as u64 + memsz as u64 > 1 << 32 || used.iter().any(|(a, b)| lo < *b && *a < hi) {
                continue;
            }
            used.push((lo, hi));
            let n = match r.below(4) {
                0 => 0,
                1 => memsz as usize,
                2 => memsz as usize + r.below(5),
                _ => r.below(memsz as usize + 1),
            };
            let data: Vec<u8> = (0..n.min(600)).map(|_| r.u64() as u8).collect();
            segs.push(Seg { vaddr, memsz, data, load: !r.chance(1, 8) });
        }
        let entry = r.u64() as u32 & !7;
        let image = elf(&segs, "work", entry);
        let mapped: Vec<Value> = segs
            .iter()
            .filter(|s| s.load)
            .map(|s| json!({"at":addr(s.vaddr),"sz":[s.memsz >> 12, s.memsz & 4095],"data":s.data[..s.data.len().min(s.memsz as usize)].to_vec()}))
            .collect();
        // damaged images are refused
        for _ in 0..2 {
            let mut bad = image.clone();
            match r.below(4) {
                0 => bad.truncate(r.below(image.len())),
                1 => bad[8] = *r.pick(&[0u8, 1, 2, 4, 255]),
                2 => bad[4] = 2,
                _ => bad[r.below(4)] ^= 1 << r.below(8),
            }
            // a truncation that leaves everything the loader needs cannot happen: the section table comes last
            match guarded(|| Memory::new_from_elf(&bad).is_ok()) {
                Ok(ok) => t_pending(t, h, json!({"ev":"bad","ok":ok})),
                Err(p) => t_pending(t, h, json!({"ev":"bad","ok":true,"panic":p})),
            }
        }
        let cfg = MemoryConfigBuilder::new().stack_top(top.into()).stack_size(ssz).build();
        match guarded(|| Memory::new_from_elf_with_config(&image, &cfg)) {
            Ok(Ok(x)) => m = x,
            other => {
                let e = match other {
                    Ok(Err(e)) => format!("{e}"),
                    Err(p) => p,
                    _ => unreachable!(),
                };
                t.begin(json!({"ev":"reset","stack":addr(top),"ssz":[ssz >> 12, ssz & 4095],"segs":mapped,"sp":[], "refused":e}));
                return;
            }
        }
        t.begin(json!({"ev":"reset","stack":addr(top),"ssz":[ssz >> 12, ssz & 4095],"segs":mapped,"sp":addr(m.stack_ptr().into())}));
        flush_pending(t, h);
        t.ev(json!({"ev":"sym","want":addr(entry),"got":m.get_function_entry("work").map(|p| addr(p.into())).unwrap_or(json!([])),
            "other":m.get_function_entry("datum").is_some() || m.get_function_entry("wor").is_some()}));
        w.mark(top, ssz);
        for s in segs.iter().filter(|s| s.load) {
            w.mark(s.vaddr, s.memsz);
        }
    }
    let mut allocs: HashMap<usize, Allocation> = HashMap::new();
    let mut next = 0;
    for _ in 0..45 {
        match r.below(14) {
            0 | 1 => {
                let len = match r.below(10) {
                    0 => 0,
                    1 => 4096,
                    2 => 8192,
                    3 => 4095,
                    4 => 4097,
                    5 => 0xFFFF_FFFF - r.below(5000) as u32,
                    _ => 1 + r.below(10_000) as u32,
                };
                let res = guarded(|| m.try_allocate(len));
                match res {
                    Ok(Ok(p)) => {
                        let p: u32 = p.into();
                        w.mark(p, len);
                        t.ev(json!({"ev":"alloc","len":[len >> 12, len & 4095],"ok":true,"at":addr(p)}));
                    }
                    Ok(Err(e)) => t.ev(json!({"ev":"alloc","len":[len >> 12, len & 4095],"ok":false,"at":[],"err":err(&e)})),
                    Err(p) => t.ev(json!({"ev":"panic","in":"alloc","msg":p})),
                }
            }
            2 | 3 => {
                // an allocator over one chunk
                let id = if next > 0 && r.chance(3, 4) { r.below(next) } else { next };
                let have = allocs.remove(&id);
                let fresh = have.is_none();
                let align = 1u32 << r.below(8);
                let len = match r.below(8) {
                    0 => 0xFFFF_FFFF - r.below(300) as u32,
                    1 => 4096,
                    2 => 1 + r.below(4096) as u32,
                    _ => 1 + r.below(100) as u32,
                };
                if fresh && len > 1 << 20 {
                    continue;
                }
                match guarded(|| Allocation::try_allocate(have, &m, len, align)) {
                    Ok(Ok((al, p))) => {
                        allocs.insert(id, al);
                        next = next.max(id + 1);
                        let p: u32 = p.into();
                        w.mark(p, len);
                        t.ev(json!({"ev":"sub","len":[len >> 12, len & 4095],"align":align,"ok":true,"at":addr(p)}));
                    }
                    Ok(Err(e)) => t.ev(json!({"ev":"sub","len":[len >> 12, len & 4095],"align":align,"ok":false,"at":[],"err":err(&e)})),
                    Err(p) => t.ev(json!({"ev":"panic","in":"sub","msg":p})),
                }
            }
            4 | 5 => {
                let align = 1usize << r.below(6);
                let n = match r.below(6) {
                    0 => 0,
                    1 => r.below(6000),
                    2 => align * (1 + r.below(40)),
                    3 => 16 * r.below(20),
                    _ => align * (1 + r.below(4)),
                };
                let raw: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect();
                let e = r.chance(1, 5) && n < 50;
                let arg = Arg { alignment: align, bytes: raw.iter().map(|b| if e { bits.byte(*b) } else { Byte::from(*b) }).collect() };
                let told: Vec<u32> = raw.iter().map(|b| *b as u32 + if e { 256 } else { 0 }).collect();
                match guarded(|| m.try_push_arg_onto_stack(&arg)) {
                    Ok(res) => t.ev(json!({"ev":"push","align":align,"bytes":told,"ok":res.is_ok(),"at":res.map(|p| addr(p.into())).unwrap_or(json!([])),"sp":addr(m.stack_ptr().into())})),
                    Err(p) => t.ev(json!({"ev":"panic","in":"push","msg":p})),
                }
                let sp: u32 = m.stack_ptr().into();
                w.mark(sp, n as u32);
            }
            6 | 7 | 8 | 9 => {
                let ty = *r.pick(&TYS);
                let mut p = w.address(r);
                if !r.chance(1, 6) {
                    p &= !(ty.align() - 1);
                }
                let v: Vec<u8> = (0..ty.len()).map(|_| r.u64() as u8).collect();
                let res = with_value!(ty, &v, bits, x => guarded(|| m.try_write_type(p.into(), &x)));
                let told: Vec<u32> = v.iter().map(|b| *b as u32 + if ty.encrypted() { 256 } else { 0 }).collect();
                match res {
                    Ok(res) => t.ev(json!({"ev":"write","at":addr(p),"align":ty.align(),"bytes":told,"ok":res.is_ok(),"err":res.err().map(|e| err(&e)).unwrap_or("")})),
                    Err(x) => t.ev(json!({"ev":"panic","in":"write","msg":x})),
                }
                probe(r, t, &m, bits, p, ty.len());
            }
            10 => {
                let ty = *r.pick(&TYS);
                let v: Vec<u8> = (0..ty.len()).map(|_| r.u64() as u8).collect();
                let res = with_value!(ty, &v, bits, x => guarded(|| m.try_allocate_type(&x)));
                let told: Vec<u32> = v.iter().map(|b| *b as u32 + if ty.encrypted() { 256 } else { 0 }).collect();
                match res {
                    Ok(Ok(p)) => {
                        let p: u32 = p.into();
                        w.mark(p, ty.len() as u32);
                        t.ev(json!({"ev":"alloctype","len":[ty.len() >> 12, ty.len() & 4095],"bytes":told,"ok":true,"at":addr(p)}));
                    }
                    Ok(Err(_)) => t.ev(json!({"ev":"alloctype","len":[ty.len() >> 12, ty.len() & 4095],"bytes":told,"ok":false,"at":[]})),
                    Err(x) => t.ev(json!({"ev":"panic","in":"alloctype","msg":x})),
                }
            }
            11 => {
                let p = w.address(r);
                let len = match r.below(4) {
                    0 => 0u32.wrapping_sub(r.below(200) as u32),
                    1 => 4096,
                    _ => 1 + r.below(9000) as u32,
                };
                if len > 0 {
                    match guarded(|| m.check_range_is_mapped(p.into(), len)) {
                        Ok(res) => t.ev(json!({"ev":"check","at":addr(p),"len":[len >> 12, len & 4095],"ok":res.is_ok()})),
                        Err(x) => t.ev(json!({"ev":"panic","in":"check","msg":x})),
                    }
                }
            }
            _ => {
                let p = w.address(r);
                let n = *r.pick(&[1usize, 2, 4, 8, 16, 3, 100]);
                probe(r, t, &m, bits, p, n);
            }
        }
    }
}

thread_local! {
    static PENDING: std::cell::RefCell<Vec<(usize, Value)>> = const { std::cell::RefCell::new(vec![]) };
}
/// Events observed before the history's first one.
fn t_pending(_t: &mut Trace, h: usize, v: Value) {
    PENDING.with(|p| p.borrow_mut().push((h, v)));
}
fn flush_pending(t: &mut Trace, h: usize) {
    for (k, v) in PENDING.with(|p| std::mem::take(&mut *p.borrow_mut())) {
        if k == h {
            t.ev(v);
        }
    }
}

/// Read around a place, byte by byte or as a typed value.
fn probe(r: &mut Rng, t: &mut Trace, m: &Memory, bits: &Bits, p: u32, n: usize) {
    let mut at = |t: &mut Trace, q: u32, ty: Ty| match guarded(|| load(m, q.into(), ty)) {
        Ok(Ok(b)) => t.ev(json!({"ev":"read","at":addr(q),"align":ty.align(),"enc":ty.encrypted(),"n":ty.len(),"ok":true,"bytes":b.iter().map(|x| bits.tell(x)).collect::<Vec<_>>()})),
        Ok(Err(e)) => t.ev(json!({"ev":"read","at":addr(q),"align":ty.align(),"enc":ty.encrypted(),"n":ty.len(),"ok":false,"bytes":[],"err":err(&e)})),
        Err(x) => t.ev(json!({"ev":"panic","in":"read","msg":x})),
    };
    for _ in 0..3 {
        let q = p.wrapping_add(r.range(-3, n as i64 + 3) as u32);
        let e = r.chance(1, 3);
        at(t, q, if e { Ty::E(1) } else { Ty::U(1) });
        if !e && r.chance(1, 2) {
            at(t, q, Ty::E(1));
        }
    }
    if r.chance(1, 2) {
        let ty = *r.pick(&TYS);
        if ty.len() < 4096 || r.chance(1, 4) {
            at(t, if r.chance(1, 2) { p } else { p & !(ty.align() - 1) }, ty);
        }
    }
}
