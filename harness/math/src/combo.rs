use sunscreen_math::combination::{Combinations, insert_element_into_reduced_combination};
use vcommon::*;

fn rank_ev(c: &Combinations, s: &[usize]) -> Value {
    match guarded(|| c.get_index(s)) {
        Ok(Ok(i)) => json!({"ev": "rank", "c": s, "ok": 1, "i": b8(i as u64)}),
        Ok(Err(_)) => json!({"ev": "rank", "c": s, "ok": 0, "i": b8(0)}),
        Err(_) => json!({"ev": "rank", "c": s, "ok": 2, "i": b8(0)}),
    }
}
fn at_ev(c: &Combinations, i: usize) -> Value {
    match guarded(|| c.at_index(i)) {
        Ok(Some(s)) => json!({"ev": "at", "i": b8(i as u64), "ok": 1, "c": s}),
        Ok(None) => json!({"ev": "at", "i": b8(i as u64), "ok": 0, "c": []}),
        Err(_) => json!({"ev": "at", "i": b8(i as u64), "ok": 2, "c": []}),
    }
}
fn count_ev(c: &Combinations) -> Value {
    match guarded(|| c.number_combinations()) {
        Ok(n) => json!({"ev": "count", "ok": 1, "v": b8(n as u64)}),
        Err(_) => json!({"ev": "count", "ok": 2, "v": b8(0)}),
    }
}
fn open(t: &mut Trace, n: usize, k: usize) -> Option<Combinations> {
    let r = guarded(|| Combinations::new(n, k)).unwrap_or_else(|_| std::process::exit(101));
    t.begin(json!({"ev": "reset", "n": n, "t": k, "ok": r.is_ok() as u8}));
    r.ok()
}
fn random_comb(r: &mut Rng, n: usize, k: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    r.shuffle(&mut v);
    v.truncate(k);
    v.sort();
    v
}
fn insert_ev(t: &mut Trace, e: usize, c: &[usize]) {
    match guarded(|| insert_element_into_reduced_combination(e, c)) {
        Ok((p, s)) => t.ev(json!({"ev": "insert", "e": e, "c": c, "ok": 1, "p": p, "r": s})),
        Err(_) => t.ev(json!({"ev": "insert", "e": e, "c": c, "ok": 2, "p": 0, "r": []})),
    }
}
fn bin(n: u128, k: u128) -> u128 {
    let k = k.min(n - k);
    let mut r = 1u128;
    for i in 1..=k {
        r = r * (n - k + i) / i;
        if r > u64::MAX as u128 {
            return r;
        }
    }
    r
}

pub fn run(a: &Args) {
    let mut t = Trace::new(&a.dir, a.shards);
    let mut r = Rng::new(a.seed);
    let top = if a.tier == "thorough" { 11 } else { 8 };
    // every small set: the whole enumeration, and ranking and unranking interleaved with it
    for n in 0..=top {
        for k in 0..=n + 2 {
            let Some(mut it) = open(&mut t, n, k) else { continue };
            let c = it.clone();
            t.ev(count_ev(&c));
            let mut i = 0;
            loop {
                let x = guarded(|| it.next());
                match x {
                    Ok(Some(s)) => {
                        t.ev(json!({"ev": "next", "ok": 1, "c": s}));
                        // ranking also works on the iterator that is being stepped
                        t.ev(rank_ev(if i % 2 == 0 { &c } else { &it }, &s));
                        t.ev(at_ev(if i % 3 == 0 { &c } else { &it }, i));
                        i += 1;
                    }
                    Ok(None) => {
                        t.ev(json!({"ev": "next", "ok": 0, "c": []}));
                        break;
                    }
                    Err(_) => {
                        t.ev(json!({"ev": "next", "ok": 2, "c": []}));
                        break;
                    }
                }
                if i > 2000 {
                    break;
                }
            }
            match guarded(|| it.next()) {
                Ok(None) => t.ev(json!({"ev": "next", "ok": 0, "c": []})),
                _ => t.ev(json!({"ev": "next", "ok": 2, "c": []})),
            }
            for j in [i, i + 1, usize::MAX] {
                t.ev(at_ev(&c, j));
            }
            for _ in 0..4 {
                let l = r.below(k + 3);
                let s: Vec<usize> = (0..l).map(|_| r.below(n + 3)).collect();
                if s.len() != k || s.iter().any(|x| *x >= n) {
                    t.ev(rank_ev(&c, &s));
                }
            }
            if n < top && k > 0 {
                let e = r.below(n + 1);
                for (j, s) in Combinations::new(n, k).unwrap().enumerate() {
                    if j < 40 {
                        insert_ev(&mut t, e, &s);
                    }
                }
                insert_ev(&mut t, 0, &[]);
            }
        }
    }
    // large sets
    for h in 0..a.n {
        let (n, k) = loop {
            let (n, k) = match h % 4 {
                0 => (1 + r.below(64), r.below(64)),
                1 => (55 + r.below(12), 20 + r.below(30)),
                2 => (67 + r.below(900), r.below(5)),
                _ => { let n = 67 + r.below(200); (n, n - r.below(4)) }
            };
            if k <= n && bin(n as u128, k as u128) <= u64::MAX as u128 {
                break (n, k);
            }
        };
        let Some(c) = open(&mut t, n, k) else { continue };
        t.ev(count_ev(&c));
        let total = bin(n as u128, k as u128) as u64;
        let mut ids = vec![0, total - 1, total];
        for _ in 0..3 {
            ids.push(r.u64() % total);
        }
        for i in ids {
            t.ev(at_ev(&c, i as usize));
        }
        for _ in 0..3 {
            t.ev(rank_ev(&c, &random_comb(&mut r, n, k)));
        }
        t.ev(rank_ev(&c, &(n - k..n).collect::<Vec<_>>()));
        let mut it = c.clone();
        for _ in 0..(if k > 0 && n < 100 { 60.min(total as usize) } else { 3.min(total as usize) }) {
            if let Ok(Some(s)) = guarded(|| it.next()) {
                t.ev(json!({"ev": "next", "ok": 1, "c": s}));
            } else {
                t.ev(json!({"ev": "next", "ok": 2, "c": []}));
            }
        }
        if k > 0 {
            insert_ev(&mut t, r.below(n + 1), &random_comb(&mut r, n, k));
        }
    }
    t.finish(&a.dir, json!({"exhaustive_to_n": top}));
}
