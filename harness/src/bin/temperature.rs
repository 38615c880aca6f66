//! C25: colour temperature.
use mcu_harness::*;
mod real {
    use material_color_utilities_rs as k;
    include!("../ops/temperature.rs");
}
mod shade {
    use mcu_shadow as k;
    include!("../ops/temperature.rs");
}
fn colour(r: &mut Rng) -> i64 {
    match r.below(8) {
        0 => 0xff000000 | (r.below(256) * 0x10101) as i64,
        1 => *r.pick(&[0xff000000, 0xffffffff, 0xffff0000, 0xff00ff00, 0xff0000ff, 0xffffff00, 0xff00ffff, 0xffff00ff, 0xff4285f4, 0xff8c7a00]),
        // hues around 0 = 360
        2 => mcu_shadow::hct::hct::Hct::from(r.range(-1.2, 1.2), r.range(3.0, 90.0), r.range(5.0, 95.0)).to_int(),
        // nearly grey, nearly black or white
        3 => mcu_shadow::hct::hct::Hct::from(r.range(0.0, 360.0), r.range(0.0, 6.0), r.range(0.0, 100.0)).to_int(),
        4 => mcu_shadow::hct::hct::Hct::from(r.range(0.0, 360.0), r.range(0.0, 60.0), *r.pick(&[0.5, 1.0, 2.0, 98.0, 99.0, 99.6])).to_int(),
        _ => r.argb(),
    }
}
fn main() {
    let x = Ctx::from_args();
    x.scan("raw", x.n(300_000, 3_000_000), |i| {
        let mut r = x.rng(1 << 40 | i);
        let c = colour(&mut r);
        x.call(i % 1000 == 0, "raw", vec![("argb", V::C(c))], || real::raw(c), || shade::raw(c));
    });
    x.scan("between", x.n(200_000, 1_000_000), |i| {
        let mut r = x.rng(2 << 40 | i);
        let mut g = || if r.below(2) == 0 { r.range(0.0, 360.0) } else { (r.below(13) * 30) as f64 };
        let (p, a, b) = (g(), g(), g());
        let inp = vec![("x", V::R(p)), ("a", V::R(a)), ("b", V::R(b))];
        x.call(i % 1000 == 0, "between", inp, || real::between(p, a, b), || shade::between(p, a, b));
    });
    let one = |i: u64, r: &mut Rng, keep: bool, n: usize| {
        let c = colour(r);
        let mut at = vec![0, 360];
        for _ in 0..3 {
            at.push(r.below(361) as i64);
        }
        let an: Vec<(i64, i64)> = (0..n)
            .map(|k| if k == 0 { *r.pick(&[(5, 12), (3, 6), (0, 0), (0, 0), (0, 8), (7, 0)]) } else { (if r.below(5) == 0 { 10 + r.below(60) as i64 } else { 1 + r.below(9) as i64 }, *r.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 24, 36, 100, 400])) })
            .collect();
        let _ = i;
        let inp = vec![("argb", V::C(c)), ("at", V::Is(at.clone()))];
        x.call(keep, "temp", inp, || real::temp(c, &at, &an), || shade::temp(c, &at, &an));
    };
    x.scan("colours", x.n(2_500, 120_000), |i| {
        let mut r = x.rng(3 << 40 | i);
        one(i, &mut r, i % 25 == 0, 0);
    });
    x.scan("analogues", x.n(240, 6_000), |i| {
        let mut r = x.rng(4 << 40 | i);
        one(i, &mut r, i % 2 == 0, 2);
    });
    let ordered = |r: &mut Rng, q: &[String], keep: bool| {
        let c = colour(r);
        let args: Vec<i64> = q.iter().map(|_| r.below(100_000) as i64).collect();
        let inp = vec![("argb", V::C(c)), ("questions", V::Ss(q.to_vec())), ("args", V::Is(args.clone()))];
        let o = x.call(keep, "order", inp.clone(), || real::order(c, q, &args), || shade::order(c, q, &args));
        if let (Some(o), false) = (o, keep) {
            let bad = |e: &Out| match (&e[1].1, &e[2].1, &e[3].1, &e[4].1) {
                (V::Cs(a), V::Rs(p), V::Cs(b), V::Rs(q)) => a != b || p != q,
                _ => true,
            };
            if matches!(&o[1].1, V::L(l) if l.iter().any(bad)) {
                x.suspect(|| Ev::new("order").out(&inp).out(&o));
            }
        }
    };
    if let Some(p) = &x.input {
        let hist = lines(p);
        x.stat("tlc_behaviours", hist.len() as i64);
        x.scan("tlc_behaviours", hist.len() as u64, |i| {
            let mut r = x.rng(5 << 40 | i);
            let q: Vec<String> = hist[i as usize].split_whitespace().map(|s| s.to_string()).collect();
            ordered(&mut r, &q, i % 6 == 0);
        });
    }
    x.finish();
}
