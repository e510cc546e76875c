//! Multiplexer circuits: every family at many widths, and what transformations make of circuits.
use mux_circuits::{
    Bit, MuxCircuit, MuxEdgeInfo, MuxOp,
    add::ripple_carry_adder,
    and::make_and_circuit,
    bitshift::{ShiftDirection, ShiftMode, bitshift},
    comparisons::*,
    mul::{MultiplierParams, encode_gradeschool_reduction, gradeschool_reduce, multiplier_impl, partition_integer, unsigned_multiplier},
    neg::negator,
    or::make_or_circuit,
    sub::full_subtractor,
    test_mux_circuit,
    util::arbitrary_width_borrowing_sub,
};
use petgraph::{Direction, algo::toposort, stable_graph::StableGraph, visit::EdgeRef};
use serde_json::Value;
use std::collections::HashMap;
use vcommon::*;

/// A circuit as data: nodes in an order in which sources come first.
pub fn dump(c: &MuxCircuit) -> Value {
    let bad = |s: &str| json!({"bad": s, "nodes": [], "outs": [], "ins": []});
    let Ok(order) = toposort(&c.graph, None) else { return bad("cycle") };
    let at: HashMap<_, _> = order.iter().enumerate().map(|(k, n)| (*n, k + 1)).collect();
    let mut nodes = vec![];
    let mut outs = vec![];
    for n in order {
        let e: Vec<_> = c.graph.edges_directed(n, Direction::Incoming).collect();
        let get = |k: MuxEdgeInfo| {
            let mut s = e.iter().filter(|e| *e.weight() == k);
            match (s.next(), s.next()) {
                (Some(e), None) => Some(at[&e.source()]),
                _ => None,
            }
        };
        match c.graph[n] {
            MuxOp::Zero | MuxOp::One if e.is_empty() => nodes.push(vec![if c.graph[n] == MuxOp::One { 1 } else { 0 }]),
            MuxOp::Variable(i) if e.is_empty() => nodes.push(vec![2, i as usize]),
            MuxOp::Mux if e.len() == 3 => {
                let (Some(s), Some(h), Some(l)) = (get(MuxEdgeInfo::Select), get(MuxEdgeInfo::High), get(MuxEdgeInfo::Low)) else { return bad("mux") };
                nodes.push(vec![3, s, h, l]);
            }
            MuxOp::Output(i) if e.len() == 1 => {
                let Some(s) = get(MuxEdgeInfo::Output) else { return bad("output") };
                nodes.push(vec![4, s]);
                outs.push(vec![i as usize, s]);
            }
            _ => return bad("arity"),
        }
    }
    outs.sort();
    json!({"bad": "", "nodes": nodes, "outs": outs, "ins": c.inputs.iter().map(|i| at.get(i).copied().unwrap_or(0)).collect::<Vec<_>>()})
}
fn bit(v: u128, i: usize) -> bool {
    (v >> i) & 1 == 1
}
/// What the library evaluates.
fn lib(c: &MuxCircuit, input: &[bool]) -> Value {
    match guarded(|| test_mux_circuit(c, &input.iter().map(|b| Bit(*b)).collect::<Vec<_>>())) {
        Ok(v) => json!(v.iter().map(|b| b.0 as u8).collect::<Vec<_>>()),
        Err(e) => json!(e),
    }
}
fn operand(r: &mut Rng, n: usize) -> u128 {
    let m = if n == 0 { 0 } else { u128::MAX >> (128 - n) };
    m & match r.below(8) {
        0 => 0,
        1 => m,
        2 => 1u128.checked_shl(n as u32 - 1).unwrap_or(0),
        3 => m >> 1,
        4 => 1 << r.below(n.max(1)),
        _ => r.u128(),
    }
}
/// Operand values: all of them if few, otherwise chosen ones.
fn samples(r: &mut Rng, n: usize, m: usize, c: bool, count: usize) -> Vec<[u128; 3]> {
    let bits = n + m + c as usize;
    if bits <= 8 {
        return (0..1u128 << bits).map(|x| [x & ((1 << n) - 1), (x >> n) & ((1 << m) - 1), x >> (n + m)]).collect();
    }
    (0..count)
        .map(|_| {
            let a = operand(r, n);
            let b = match r.below(6) {
                0 if n == m => a,
                1 if n == m => a.wrapping_add(1) & (u128::MAX >> (128 - m)),
                _ => operand(r, m),
            };
            [a, b, if c { r.below(2) as u128 } else { 0 }]
        })
        .collect()
}
pub fn interleave(a: u128, n: usize, b: u128, m: usize) -> Vec<bool> {
    let mut v = vec![];
    for i in 0..n.max(m) {
        if i < n {
            v.push(bit(a, i));
        }
        if i < m {
            v.push(bit(b, i));
        }
    }
    v
}
struct Fam {
    name: &'static str,
    n: usize,
    m: usize,
    c: bool,
    /// greater / left
    x: bool,
    /// or equal
    y: bool,
    mode: &'static str,
    enc: Vec<(usize, usize)>,
}
fn family(r: &mut Rng, f: &str, w: usize) -> (Fam, Result<MuxCircuit, String>) {
    let n = 1 + r.below(w);
    let mut z = Fam { name: "", n, m: n, c: false, x: r.chance(1, 2), y: r.chance(1, 2), mode: "", enc: vec![] };
    let c = match f {
        "add" => {
            z.name = "add";
            z.m = if r.chance(1, 2) { n } else { 1 + r.below(w) };
            z.c = r.chance(1, 2);
            guarded(|| ripple_carry_adder(z.n, z.m, z.c))
        }
        "sub" => {
            z.name = "sub";
            z.c = r.chance(1, 2);
            guarded(|| full_subtractor(n, z.c))
        }
        "neg" => {
            z.name = "neg";
            z.m = 0;
            guarded(|| negator(n))
        }
        "and" => {
            z.name = "and";
            guarded(|| make_and_circuit(n as u16))
        }
        "or" => {
            z.name = "or";
            guarded(|| make_or_circuit(n as u16))
        }
        "eq" => {
            z.name = "eq";
            guarded(|| compare_equal(n))
        }
        "ne" => {
            z.name = "ne";
            guarded(|| compare_not_equal(n))
        }
        "cmp" => {
            z.name = "cmp";
            guarded(|| compare_or_maybe_equal(n, z.x, z.y))
        }
        "scmp" => {
            z.name = "scmp";
            guarded(|| compare_or_maybe_equal_signed(n, z.x, z.y))
        }
        "shift" => {
            z.name = "shift";
            z.n = 1 + r.below(w.min(8));
            z.mode = ["logical", "rotation", "arithmetic"][r.below(3)];
            if z.mode == "rotation" {
                z.n = z.n.next_power_of_two();
                z.m = (z.n.ilog2() as usize).max(1) + r.below(3);
            } else {
                z.m = if z.n == 1 { 1 } else { (z.n - 1).ilog2() as usize + 1 } + r.below(4);
            }
            if z.mode == "arithmetic" {
                z.x = false;
            }
            let d = if z.x { ShiftDirection::Left } else { ShiftDirection::Right };
            let mode = match z.mode {
                "logical" => ShiftMode::Logical,
                "rotation" => ShiftMode::Rotation,
                _ => ShiftMode::Arithmetic,
            };
            guarded(|| bitshift(z.n as u16, z.m as u16, d, mode))
        }
        "mul" => {
            z.name = "mul";
            z.n = 1 + r.below(w.min(6));
            z.m = if r.chance(1, 3) { z.n } else { 1 + r.below(w.min(6)) };
            guarded(|| if r.chance(1, 2) { unsigned_multiplier(z.n, z.m) } else { multiplier_impl(MultiplierParams { n: z.n, m: z.m }) })
        }
        "gsr" => {
            z.name = "gsr";
            z.m = 1 + r.below(w);
            (z.n, z.m) = (z.n.max(z.m), z.n.min(z.m));
            // documented: the lower part of the longer operand is no shorter than that of the other
            if partition_integer(z.n).0 < partition_integer(z.m).0 {
                z.n = z.m;
            }
            reduction(&mut z)
        }
        _ => panic!(),
    };
    (z, c)
}
fn reduction(z: &mut Fam) -> Result<MuxCircuit, String> {
    let (al, ah) = partition_integer(z.n);
    let (bl, bh) = partition_integer(z.m);
    let tag = |k: usize, n: usize| (0..n).map(|i| (k, i)).collect::<Vec<_>>();
    let enc = guarded(|| encode_gradeschool_reduction(z.n, z.m, &tag(0, al + bl), &tag(1, al + bh), &tag(2, ah + bl), &tag(3, ah + bh)));
    match enc {
        Ok(e) => z.enc = e,
        Err(e) => return Err(e),
    }
    guarded(|| gradeschool_reduce(z.n, z.m))
}
impl Fam {
    fn inputs(&self, s: &[u128; 3]) -> Vec<bool> {
        let [a, b, c] = *s;
        let mut v = vec![];
        match self.name {
            "add" | "sub" => {
                if self.c {
                    v.push(c == 1);
                }
                v.extend(interleave(a, self.n, b, self.m));
            }
            "neg" => v.extend((0..self.n).map(|i| bit(a, i))),
            "mul" => {
                v.extend((0..self.n).map(|i| bit(a, i)));
                v.extend((0..self.m).map(|i| bit(b, i)));
            }
            "shift" => {
                v.extend((0..self.n).rev().map(|i| bit(a, i)));
                v.extend((0..self.m).rev().map(|i| bit(b, i)));
            }
            "gsr" => {
                let (al, _) = partition_integer(self.n);
                let (bl, _) = partition_integer(self.m);
                let lo = |x: u128, n: usize| x & (u128::MAX >> (128 - n));
                let p = [lo(a, al) * lo(b, bl), lo(a, al) * (b >> bl), (a >> al) * lo(b, bl), (a >> al) * (b >> bl)];
                v.extend(self.enc.iter().map(|(k, i)| bit(p[*k], *i)));
            }
            _ => v.extend(interleave(a, self.n, b, self.n)),
        }
        v
    }
    fn record(&self, t: &mut Trace, r: &mut Rng, c: &Result<MuxCircuit, String>, count: usize) {
        let s = samples(r, self.n, self.m, self.c, count);
        let (cir, res) = match c {
            Ok(c) => (dump(c), s.iter().take(20).map(|x| lib(c, &self.inputs(x))).collect::<Vec<_>>()),
            Err(e) => (json!({"bad": e, "nodes": [], "outs": [], "ins": []}), vec![]),
        };
        let (al, bl) = if self.name == "gsr" { (partition_integer(self.n).0, partition_integer(self.m).0) } else { (0, 0) };
        t.ev(json!({"ev": "family", "fam": self.name, "n": self.n, "m": self.m, "c": self.c as u8, "x": self.x, "y": self.y, "mode": self.mode,
            "enc": self.enc, "al": al, "bl": bl, "cir": cir, "ops": s.iter().map(|[a, b, c]| json!([b16(*a), b16(*b), b16(*c)])).collect::<Vec<_>>(), "lib": res}));
    }
}
/// Any circuit, not necessarily one a builder would make: unused parts, equal parts, any node as selector.
fn random(r: &mut Rng) -> MuxCircuit {
    let nin = 1 + r.below(7);
    let mut g = StableGraph::new();
    let mut pool = vec![];
    // sometimes indices with holes
    let holes: Vec<_> = (0..r.below(3)).map(|_| g.add_node(MuxOp::Mux)).collect();
    let mut inputs = vec![];
    let mut order: Vec<u32> = (0..nin as u32).collect();
    r.shuffle(&mut order);
    let mut byvar = vec![None; nin];
    for v in order {
        let n = g.add_node(MuxOp::Variable(v));
        byvar[v as usize] = Some(n);
        pool.push(n);
    }
    inputs.extend(byvar.iter().map(|x| x.unwrap()));
    for _ in 0..1 + r.below(2) {
        pool.push(g.add_node(MuxOp::Zero));
        pool.push(g.add_node(MuxOp::One));
    }
    let narrow = r.chance(1, 2);
    let mut made: Vec<[petgraph::stable_graph::NodeIndex; 3]> = vec![];
    for _ in 0..2 + r.below(25) {
        let from = if narrow { pool.len().saturating_sub(5) } else { 0 };
        let mut any = |r: &mut Rng| if r.chance(1, 4) { pool[r.below(pool.len())] } else { pool[from + r.below(pool.len() - from)] };
        let k = match r.below(5) {
            0 if !made.is_empty() => made[r.below(made.len())],
            1 => {
                let x = any(r);
                [any(r), x, x]
            }
            2 => {
                let x = any(r);
                [x, x, any(r)]
            }
            _ => [any(r), any(r), any(r)],
        };
        made.push(k);
        let n = g.add_node(MuxOp::Mux);
        let mut edges = [(k[0], MuxEdgeInfo::Select), (k[1], MuxEdgeInfo::High), (k[2], MuxEdgeInfo::Low)];
        r.shuffle(&mut edges);
        for (s, e) in edges {
            g.add_edge(s, n, e);
        }
        pool.push(n);
    }
    let mut outs: Vec<u32> = (0..1 + r.below(5) as u32).collect();
    if r.chance(1, 2) {
        r.shuffle(&mut outs);
    }
    for o in outs {
        let s = pool[pool.len() - 1 - r.below(pool.len().min(8))];
        let n = g.add_node(MuxOp::Output(o));
        g.add_edge(s, n, MuxEdgeInfo::Output);
    }
    for h in holes {
        g.remove_node(h);
    }
    MuxCircuit { graph: g, inputs }
}
fn change(t: &mut Trace, r: &mut Rng, mut c: MuxCircuit) {
    t.ev(json!({"ev": "make", "cir": dump(&c)}));
    for _ in 0..1 + r.below(3) {
        let nin = c.inputs.len();
        let (ev, f, res) = match r.below(5) {
            0 | 1 => ("optimize", vec![], guarded(std::panic::AssertUnwindSafe(|| c.optimize()))),
            2 | 3 => {
                let k = 1 + r.below(nin);
                let mut f: Vec<u32> = (0..nin as u32).map(|i| if (i as usize) < k { i } else { r.below(k) as u32 }).collect();
                r.shuffle(&mut f);
                let g = f.clone();
                ("remap", f, guarded(std::panic::AssertUnwindSafe(|| c.remap_inputs(k as u32, || g.clone()))))
            }
            _ => ("restore", vec![], guarded(std::panic::AssertUnwindSafe(|| c = bincode::deserialize(&bincode::serialize(&c).unwrap()).unwrap()))),
        };
        let nin = c.inputs.len();
        let d = match &res {
            Ok(()) => dump(&c),
            Err(e) => json!({"bad": e, "nodes": [], "outs": [], "ins": []}),
        };
        let s = samples(r, nin, 0, false, 64);
        let l = if res.is_ok() { s.iter().take(20).map(|x| lib(&c, &(0..nin).map(|i| bit(x[0], i)).collect::<Vec<_>>())).collect() } else { vec![] };
        // circuits that are not compact cannot be evaluated by the library
        let l: Vec<Value> = if ev == "restore" { vec![] } else { l };
        t.ev(json!({"ev": ev, "f": f, "cir": d, "ops": s.iter().map(|x| b16(x[0])).collect::<Vec<_>>(), "lib": l}));
        if res.is_err() {
            return;
        }
    }
}
const FAMS: [&str; 12] = ["add", "sub", "neg", "and", "or", "eq", "ne", "cmp", "scmp", "shift", "mul", "gsr"];
pub fn mux(a: &Args) {
    let mut r = Rng::new(a.seed);
    let mut t = Trace::new(&a.dir, a.shards);
    let big = a.tier == "thorough";
    for k in 0..a.n {
        t.begin(json!({"ev": "reset"}));
        if k % 2 == 0 {
            let w = match r.below(4) {
                0 => 4,
                1 => 33,
                2 if big => 64,
                _ => 12,
            };
            let f = FAMS[(k / 2) % FAMS.len()];
            let (z, c) = family(&mut r, f, w);
            let count = if z.name == "gsr" || z.n > 16 { 24 } else { 48 };
            z.record(&mut t, &mut r, &c, count);
        } else {
            for _ in 0..4 {
                let c = if r.chance(1, 4) {
                    let f = *r.pick(&FAMS[..11]);
                    match family(&mut r, f, 4).1 {
                        Ok(c) => c,
                        Err(_) => random(&mut r),
                    }
                } else {
                    random(&mut r)
                };
                change(&mut t, &mut r, c);
            }
            let (x, y, z, w) = (r.u128(), r.u128(), r.below(2) as u128, 1 + r.below(128) as u32);
            let m = u128::MAX >> (128 - w);
            let (x, y) = (x & m, if r.chance(1, 4) { x & m } else { y & m });
            let got = guarded(|| arbitrary_width_borrowing_sub(x, y, z, w)).map(|(d, b)| json!([b16(d), b16(b)])).unwrap_or_else(|e| json!(e));
            t.ev(json!({"ev": "borrow", "w": w, "a": b16(x), "b": b16(y), "c": b16(z), "got": got.clone()}));
        }
        t.sync();
    }
    // the circuits that come as data
    for (n, m) in [(8, 8), (16, 16), (64, 64)] {
        let mut z = Fam { name: if n == 64 { "gsr" } else { "mul" }, n, m, c: false, x: false, y: false, mode: "", enc: vec![] };
        let c = if n == 64 { reduction(&mut z) } else { guarded(|| unsigned_multiplier(n, m)) };
        t.begin(json!({"ev": "reset"}));
        z.record(&mut t, &mut r, &c, 24);
    }
    t.finish(&a.dir, json!({"histories": a.n}));
}
