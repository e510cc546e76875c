use sunscreen_math::geometry::*;
use sunscreen_math::stats::RunningMeanVariance;
use vcommon::*;

pub fn run(a: &Args) {
    let mut t = Trace::new(&a.dir, a.shards);
    let mut r = Rng::new(a.seed);
    for h in 0..a.n {
        // samples base + x * unit: shifting and scaling are exact in floating point
        let base = *r.pick(&[0.0, 0.0, 1024.0, -4096.0, 1048576.0]);
        let unit = *r.pick(&[1.0, 1.0, 0.125, 64.0]);
        let span = *r.pick(&[1i64, 5, 50, 1000]);
        let len = 1 + r.below(if h % 7 == 0 { 60 } else { 15 });
        let mut s = if r.chance(1, 2) { RunningMeanVariance::new() } else { RunningMeanVariance::default() };
        t.begin(json!({"ev": "reset"}));
        for k in 1..=len {
            let x = r.range(-span, span);
            s.add_sample(base + x as f64 * unit);
            t.ev(json!({"ev": "add", "x": x}));
            if r.chance(1, 2) || k == len {
                let kf = k as f64;
                // scaled to hundredths: mean * k and deviation; variance * k * k to whole numbers
                let m = ((s.mean() - base) / unit * kf * 100.0).round();
                let v = (s.variance() / unit / unit * kf * kf * 100.0).round();
                let d = (s.std() / unit * 1000.0).round();
                let fin = |x: f64| if x.is_finite() && x.abs() < 1e15 { x as i64 } else { i64::MIN };
                t.ev(json!({"ev": "get", "k": k, "mean": b8(fin(m) as u64), "var": b8(fin(v) as u64), "std": b8(fin(d) as u64)}));
            }
        }
    }
    for _ in 0..a.n {
        let k = r.below(7);
        let mut hs: Vec<(i64, i64, i64)> = vec![];
        let span = *r.pick(&[2i64, 5, 40]);
        while hs.len() < k {
            let c = (r.range(-span, span), r.range(-span, span), r.range(-span * span, span * span));
            if !hs.contains(&c) {
                hs.push(c);
            }
        }
        // coordinates in eighths
        let v: Vec<HalfSpace2D> = hs.iter().map(|c| HalfSpace2D::new((c.0 as f64 / 8.0, c.1 as f64 / 8.0), c.2 as f64 / 64.0)).collect();
        let p = ConvexPolytope2D::new(&v);
        t.begin(json!({"ev": "reset"}));
        let names: Vec<String> = v.iter().map(|h| format!("{h:?}")).collect();
        let idx = |vs: &[HalfSpace2D]| vs.iter().map(|h| names.iter().position(|n| *n == format!("{h:?}")).map(|x| x as i64 + 1).unwrap_or(0)).collect::<Vec<_>>();
        t.ev(json!({"ev": "region", "hs": hs.iter().map(|c| vec![c.0, c.1, c.2]).collect::<Vec<_>>(), "listed": idx(p.half_spaces())}));
        for _ in 0..12 {
            let (x, y) = (r.range(-span, span), r.range(-span, span));
            let pt = Point2D::new(x as f64 / 8.0, y as f64 / 8.0);
            t.ev(json!({"ev": "point", "x": x, "y": y, "rx": (pt.x() * 8.0) as i64, "ry": (pt.y() * 8.0) as i64, "inside": p.inside(pt) as u8,
                "each": v.iter().map(|h| h.inside(pt) as u8).collect::<Vec<_>>(), "viol": idx(&p.violations(pt))}));
        }
    }
    t.finish(&a.dir, json!({}));
}
