//! C10-C12 tonal palettes, C13 core palettes and legacy schemes, C26 dislike,
//! C27 blend.
use mcu_harness::*;
mod real {
    use material_color_utilities_rs as k;
    include!("../ops/palette.rs");
}
mod shade {
    use mcu_shadow as k;
    include!("../ops/palette.rs");
}
const CHROMAS: [f64; 20] = [0.0, 2.0, 4.0, 6.0, 8.0, 10.0, 12.0, 16.0, 24.0, 32.0, 36.0, 40.0, 48.0, 56.0, 60.5, 84.0, 100.0, 120.0, 150.0, 200.0];
fn hc(r: &mut Rng) -> (f64, f64) {
    let h = if r.below(3) == 0 { r.below(361) as f64 } else { r.range(0.0, 360.0) };
    let h = if r.below(40) == 0 { h + 360.0 * (r.below(5) as f64 - 2.0) } else { h };
    let c = if r.below(2) == 0 { *r.pick(&CHROMAS) } else { r.range(0.0, 130.0) };
    (h, c)
}

fn c10(x: &Ctx) {
    x.scan("tones", x.n(60_000, 600_000), |i| {
        let mut r = x.rng(1 << 40 | i);
        let (h, c) = hc(&mut r);
        let keep = i % 300 == 0;
        let whole: Vec<i64> = if keep { (0..6).map(|_| r.below(101) as i64).collect() } else { (0..=100).collect() };
        let reals: Vec<f64> = (0..4).map(|_| if r.below(4) == 0 { r.below(101) as f64 } else { r.range(0.0, 100.0) }).collect();
        let inp = vec![("h", V::R(h)), ("c", V::R(c)), ("whole", V::Is(whole.clone())), ("reals", V::Rs(reals.clone()))];
        x.call(keep, "tones", inp, || real::tones(h, c, &whole, &reals), || shade::tones(h, c, &whole, &reals));
    });
    x.scan("keys", x.n(60_000, 1_000_000), |i| {
        let mut r = x.rng(2 << 40 | i);
        let (h, c) = hc(&mut r);
        x.call(i % 200 == 0, "key", vec![("h", V::R(h)), ("c", V::R(c))], || real::key(h, c), || shade::key(h, c));
    });
    x.scan("key_grid", 361 * 20, |i| {
        let (h, c) = ((i % 361) as f64, CHROMAS[(i / 361) as usize]);
        x.call(i % 73 == 0, "key", vec![("h", V::R(h)), ("c", V::R(c))], || real::key(h, c), || shade::key(h, c));
    });
    x.scan("from_hct", x.n(300_000, 3_000_000), |i| {
        let mut r = x.rng(3 << 40 | i);
        let (a, t) = (r.argb(), r.below(101) as i64);
        x.call(i % 500 == 0, "hctpal", vec![("argb", V::C(a)), ("tone", V::I(t))], || real::hctpal(a, t), || shade::hctpal(a, t));
    });
}
fn c11(x: &Ctx) {
    let one = |kind: i64, h: f64, c: f64, list: &[i64], ops: &[(i64, i64, f64)], keep: bool| {
        let inp = vec![
            ("kind", V::I(kind)),
            ("ops", V::Is(ops.iter().map(|o| o.0).collect())),
            ("who", V::Is(ops.iter().map(|o| o.1).collect())),
            ("tones", V::Rs(ops.iter().map(|o| o.2).collect())),
        ];
        let o = x.call(keep, "history", inp.clone(), || real::history(kind, h, c, list, ops), || shade::history(kind, h, c, list, ops));
        if let (Some(o), false) = (o, keep) {
            if let Some(("obs", V::L(l))) = o.last() {
                let bad = |e: &Out| {
                    let g = |n: &str| match &e.iter().find(|p| p.0 == n).unwrap().1 {
                        V::Cs(v) | V::Is(v) => v.clone(),
                        V::B(b) => vec![*b as i64],
                        _ => vec![],
                    };
                    g("ans") != g("fresh") || g("likes") != g("freshlikes") || g("eq") == [0] || g("text") == [0]
                };
                if l.iter().any(bad) {
                    x.suspect(|| Ev::new("history").out(&inp).out(&o));
                }
            }
        }
    };
    if let Some(p) = &x.input {
        let odd: Vec<i64> = (1..=13i64).map(|k| 0xff000000 | ((k * 71) % 256) << 16 | ((k * 29 + 90) % 256) << 8 | (k * 151) % 256).collect();
        let hist = lines(p);
        x.stat("tlc_behaviours", hist.len() as i64);
        let keep_each = x.n(3, 8);
        x.scan("tlc_behaviours", hist.len() as u64, |i| {
            let mut w = hist[i as usize].split_whitespace();
            let (kind, h, c) = match w.next().unwrap() {
                "1" => (0, 270.0, 36.0),
                "2" => (0, 100.5, 60.0),
                _ => (1, 0.0, 0.0),
            };
            let ops: Vec<(i64, i64, f64)> = w
                .map(|s| {
                    let v: Vec<&str> = s.split(':').collect();
                    (v[0].parse().unwrap(), v[1].parse().unwrap(), v[2].parse().unwrap())
                })
                .collect();
            one(kind, h, c, &odd, &ops, i % keep_each == 0)
        });
    }
    x.scan("random", x.n(40_000, 400_000), |i| {
        let mut r = x.rng(4 << 40 | i);
        let (h, c) = hc(&mut r);
        let kind = r.below(3) as i64;
        let list: Vec<i64> = if r.below(2) == 0 { (0..13).map(|_| r.argb()).collect() } else { shade_list(h, c) };
        let n = 2 + r.below(9);
        let mut cloned = false;
        let base = r.range(0.0, 100.0).floor();
        let ops: Vec<(i64, i64, f64)> = (0..n)
            .map(|_| {
                let op = *r.pick(&[1, 1, 2, 2, 2, 3, 4, 5]);
                cloned |= op == 4;
                let who = if op != 4 && cloned && r.below(2) == 0 { 2 } else { 1 };
                // tones close to each other, so that questions meet in the cache
                let t: f64 = match r.below(4) {
                    0 => *r.pick(&[0.0, 10.0, 40.0, 90.0, 95.0, 99.0, 100.0]),
                    1 => r.below(101) as f64,
                    _ => (base + r.below(3) as f64).min(100.0),
                };
                // sometimes far off the scale, a power of two or a sign away
                let t = if r.below(10) == 0 { *r.pick(&[t - 128.0, t + 128.0, t + 256.0, t - 256.0, t + 65536.0, -t, t - 100.0, t + 100.0]) } else { t };
                let t = if !(0.0..=100.0).contains(&t) { t } else if op == 2 && r.below(2) == 0 { (t + r.range(-0.6, 0.6)).clamp(0.0, 100.0) } else { t };
                (op, who, t)
            })
            .collect();
        one(kind, h, c, &list, &ops, i % 100 == 0)
    });
    // a long life: many tones, then the listed ones again
    x.scan("long", x.n(96, 1_000), |i| {
        let mut r = x.rng(5 << 40 | i);
        let (h, c) = hc(&mut r);
        let kind = r.below(3) as i64;
        let list: Vec<i64> = if r.below(2) == 0 { (0..13).map(|_| r.argb()).collect() } else { shade_list(h, c) };
        let mut tones: Vec<i64> = (0..101).chain(101..130).chain(-20..0).chain([200, -100]).collect();
        for k in (1..tones.len()).rev() {
            tones.swap(k, r.below(k as u64 + 1) as usize);
        }
        let n = if i % 3 == 0 { tones.len() } else { 20 + r.below(90) as usize };
        let mut ops: Vec<(i64, i64, f64)> = tones.iter().take(n).map(|t| (if i % 3 > 0 && r.below(6) == 0 { 2 } else { 1 }, 1, *t as f64)).collect();
        for t in [0, 40, 99, 100, tones[0], tones[n / 2]] {
            ops.push((1 + r.below(2) as i64, 1, t as f64));
        }
        ops.push((3, 1, 0.0));
        one(kind, h, c, &list, &ops, i % 24 == 0)
    });
}
fn shade_list(h: f64, c: f64) -> Vec<i64> {
    mcu_shadow::palettes::tonal_palette::TonalPalette::of(h, c).get_as_list()
}
fn c12(x: &Ctx) {
    x.scan("lists", x.n(60_000, 600_000), |i| {
        let mut r = x.rng(5 << 40 | i);
        let (h, c) = hc(&mut r);
        let l: Vec<i64> = match i % 4 {
            0 => (0..13).map(|_| r.argb()).collect(),
            1 => (0..13).map(|_| 0xff000000 | (r.below(256) * 0x10101) as i64).collect(),
            _ => shade_list(h, c),
        };
        let mut l2 = l.clone();
        match i % 3 {
            0 => {}
            1 => l2[r.below(13) as usize] ^= 1,
            _ => l2.reverse(),
        }
        let tone = r.below(101) as i64;
        let tone = if [0, 10, 20, 30, 40, 50, 60, 70, 80, 90, 95, 99, 100].contains(&tone) { 55 } else { tone };
        let inp = vec![("list", V::Cs(l.clone())), ("list2", V::Cs(l2.clone())), ("tone", V::I(tone))];
        x.call(i % 150 == 0, "list", inp, || real::list(&l, &l2, tone), || shade::list(&l, &l2, tone));
    });
    x.scan("equality", x.n(60_000, 600_000), |i| {
        let mut r = x.rng(6 << 40 | i);
        let (h, c) = hc(&mut r);
        let (h, c) = match i % 40 {
            16 => (0.0, c),
            24 => (h, 0.0),
            _ => (h, c),
        };
        let (h2, c2) = match i % 8 {
            0 if i % 40 > 15 => (if h == 0.0 { -0.0 } else { h }, if c == 0.0 { -0.0 } else { c }),
            5 => (c, h),
            6 => (h + 360.0, c),
            7 => (h + 1.0, c - 1.0),
            0 => (h, c),
            1 => (h, c + 1e-9),
            2 => (h + 1e-9, c),
            3 => (h, r.range(0.0, 100.0)),
            _ => hc(&mut r),
        };
        let inp = vec![("h", V::R(h)), ("c", V::R(c)), ("h2", V::R(h2)), ("c2", V::R(c2))];
        x.call(i % 60 == 0, "eq", inp, || real::eq(h, c, h2, c2), || shade::eq(h, c, h2, c2));
    });
    x.scan("core_any_lists", x.n(3_000, 30_000), |i| {
        let mut r = x.rng(12 << 40 | i);
        let l: Vec<i64> = (0..65).map(|_| if i % 3 == 0 { 0xff000000 | (r.below(256) * 0x10101) as i64 } else { r.argb() }).collect();
        let mut l2 = l.clone();
        if i % 2 == 0 {
            l2[r.below(65) as usize] ^= 1 << r.below(24);
        }
        x.call(i % 20 == 0, "corefrom", vec![("list", V::Cs(l.clone())), ("list2", V::Cs(l2.clone()))], || real::corefrom(&l, &l2), || shade::corefrom(&l, &l2));
    });
    x.scan("core_lists", x.n(6_000, 60_000), |i| {
        let mut r = x.rng(7 << 40 | i);
        let (a, content) = (r.argb(), i % 2 == 0);
        x.call(i % 20 == 0, "corelist", vec![("argb", V::C(a)), ("content", V::B(content))], || real::corelist(a, content), || shade::corelist(a, content));
    });
}
const SPECIAL: [u32; 16] = [
    0x000000, 0xffffff, 0xff0000, 0x00ff00, 0x0000ff, 0xffff00, 0x00ffff, 0xff00ff, 0x808080, 0x010101, 0x4285f4, 0x984061, 0x777777,
    0x000001, 0xfefefe, 0x8c7a00,
];
fn c13(x: &Ctx) {
    let one = |a: i64, v: u64, keep: bool| {
        let (dark, content) = (v & 1 == 1, v & 2 == 2);
        x.call(keep, "legacy", vec![("argb", V::C(a)), ("dark", V::B(dark)), ("content", V::B(content))], || real::legacy(a, dark, content), || {
            shade::legacy(a, dark, content)
        });
        x.call(keep, "core", vec![("argb", V::C(a)), ("content", V::B(content))], || real::core(a, content), || shade::core(a, content));
    };
    x.scan("any_core", x.n(4_000, 40_000), |i| {
        let mut r = x.rng(13 << 40 | i);
        let l: Vec<i64> = (0..65).map(|_| r.argb()).collect();
        let dark = i % 2 == 1;
        x.call(i % 40 < 2, "fromcore", vec![("list", V::Cs(l.clone())), ("dark", V::B(dark))], || real::fromcore(&l, dark), || shade::fromcore(&l, dark));
    });
    x.scan("special", 64, |i| one(0xff000000 | SPECIAL[(i / 4) as usize] as i64, i % 4, true));
    x.scan("random", x.n(30_000, 300_000), |i| {
        let mut r = x.rng(8 << 40 | i);
        one(r.argb(), i % 4, i % 75 < 4 && i % 300 < 75)
    });
    x.scan("core", x.n(60_000, 600_000), |i| {
        let mut r = x.rng(9 << 40 | i);
        let (a, content) = (r.argb(), i % 2 == 0);
        x.call(i % 40 == 0, "core", vec![("argb", V::C(a)), ("content", V::B(content))], || real::core(a, content), || shade::core(a, content));
    });
}
fn c26(x: &Ctx) {
    let one = |a: i64, keep: bool| {
        let o = x.call(keep, "dislike", vec![("argb", V::C(a))], || real::dislike(a), || shade::dislike(a));
        if let (Some(o), false) = (o, keep) {
            if matches!(o[2].1, V::B(true)) {
                x.suspect(|| Ev::new("dislike").c("argb", a).out(&o));
            }
        }
    };
    let step = x.n(3, 1);
    x.scan("every_colour", (1 << 24) / step, |i| {
        let i = i * step + x.seed % step;
        one(0xff000000 | i as i64, i / step % 2003 == 0)
    });
    // around the disliked region
    x.scan("region", x.n(600_000, 6_000_000), |i| {
        let mut r = x.rng(10 << 40 | i);
        let a = 0xff000000 | (60 + r.below(120)) as i64 * 65536 + (70 + r.below(120)) as i64 * 256 + r.below(110) as i64;
        one(a, i % 200 == 0)
    });
}
fn c27(x: &Ctx) {
    x.scan("pairs", x.n(400_000, 4_000_000), |i| {
        let mut r = x.rng(11 << 40 | i);
        let a = if i % 5 == 0 { 0xff000000 | *r.pick(&SPECIAL) as i64 } else { r.argb() };
        let b = match i % 9 {
            0 => a,
            1 => a ^ 0x010000,
            2 => 0xff000000 | *r.pick(&SPECIAL) as i64,
            _ => r.argb(),
        };
        let t = if i % 4 == 0 { *r.pick(&[0.0, 0.25, 0.5, 0.75, 1.0]) } else { r.f() };
        let o = x.call(i % 130 == 0, "blend", vec![("a", V::C(a)), ("b", V::C(b)), ("t", V::R(t))], || real::blend(a, b, t), || shade::blend(a, b, t));
        if let (Some(o), true) = (o, i % 130 != 0) {
            let c = |k: usize| if let V::C(v) = o[k].1 { v } else { 0 };
            if c(1) != a || c(3) != a || c(4) != b || c(6) != a {
                x.suspect(|| Ev::new("blend").c("a", a).c("b", b).r("t", t).out(&o));
            }
        }
    });
}

fn main() {
    let x = Ctx::from_args();
    match x.prop.as_str() {
        "C10" => c10(&x),
        "C11" => c11(&x),
        "C12" => c12(&x),
        "C13" => c13(&x),
        "C26" => c26(&x),
        "C27" => c27(&x),
        p => panic!("unknown property {p}"),
    }
    x.finish();
}
