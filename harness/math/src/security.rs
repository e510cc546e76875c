use sunscreen_math::security::*;
use vcommon::*;

/// log10 of the deviation in units of 1e-6
fn fwd(d: usize, lm: i64) -> Value {
    match guarded(|| lwe_security_level_to_std(d, lm as f64 / 1000.0)) {
        Ok(Ok(s)) => json!({"ok": 1, "s": (s.log10() * 1e6).round() as i64, "dims": []}),
        Ok(Err(e)) => json!({"ok": 0, "s": 0, "dims": e.dimensions(), "same": (e.value() == (d as f64, lm as f64 / 1000.0)) as u8, "out": (!e.polytope().violations(sunscreen_math::geometry::Point2D::new(e.value().0, e.value().1)).is_empty()) as u8}),
        Err(_) => json!({"ok": 2, "s": 0, "dims": []}),
    }
}
fn back(d: usize, std: f64) -> Value {
    match guarded(|| lwe_std_to_security_level(d, std)) {
        Ok(Ok(l)) => json!({"ok": 1, "l": (l * 1000.0).round() as i64, "dims": []}),
        Ok(Err(e)) => json!({"ok": 0, "l": 0, "dims": e.dimensions(), "same": (e.value().0 == d as f64) as u8, "out": (!e.polytope().violations(sunscreen_math::geometry::Point2D::new(e.value().0, e.value().1)).is_empty()) as u8}),
        Err(_) => json!({"ok": 2, "l": 0, "dims": []}),
    }
}

pub fn run(a: &Args) {
    let mut t = Trace::new(&a.dir, a.shards);
    let mut r = Rng::new(a.seed);
    let step = if a.tier == "thorough" { 1 } else { 5 };
    let levels: Vec<i64> = (77..=131).flat_map(|l| [l * 1000 + 10, l * 1000 + 500]).collect();
    // one history per dimension: the level rises; each level is converted and converted back
    let mut dims: Vec<usize> = (350..2070).step_by(step).collect();
    dims.extend([366, 367, 368, 369, 385, 386, 387, 2046, 2047, 2048, 2049, 1471, 1472, 1473]);
    dims.sort();
    dims.dedup();
    for d in &dims {
        t.begin(json!({"ev": "reset", "d": d}));
        let off = r.below(200) as i64;
        for l in &levels {
            let lm = l + if *l > 79_000 && *l < 129_000 { off } else { 0 };
            let f = fwd(*d, lm);
            let mut e = json!({"ev": "level", "d": d, "lm": lm, "f": f});
            if e["f"]["ok"] == json!(1) {
                let s = lwe_security_level_to_std(*d, lm as f64 / 1000.0).unwrap();
                e["b"] = back(*d, s);
                // the same deviation one dimension up, and a slightly larger one
                e["up"] = back(*d + 1, s);
                e["more"] = back(*d, s * 1.02);
                e["fup"] = fwd(*d + 1, lm);
            }
            t.ev(e);
        }
        // far outside
        for ls in [-30.0f64, -18.5, 0.5, 3.0] {
            t.ev(json!({"ev": "far", "d": d, "b": back(*d, 10f64.powf(ls))}));
        }
    }
    // Gaussian tails: steps of a hundredth, scaled deviations
    for std in [1.0f64, 0.001, 123.0] {
        t.begin(json!({"ev": "reset", "d": 0}));
        let stepn = if a.tier == "thorough" { 1 } else { 3 };
        for i in (1..=3000).step_by(stepn) {
            let x = i as f64 / 100.0 * std;
            let p = guarded(|| probability_away_from_mean_gaussian(x, std)).map(|p| (p * 1e6).round() as i64).unwrap_or(i64::MAX >> 40);
            t.ev(json!({"ev": "tail", "i": i, "p": p, "st": stepn}));
        }
    }
    t.finish(&a.dir, json!({"dimensions": dims.len(), "levels": levels.len()}));
}
