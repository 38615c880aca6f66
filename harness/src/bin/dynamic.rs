//! C14, C15 tones of dynamic colours, C16 the Material roles, C17 histories,
//! C18 variants, C19 monochrome.
use mcu_harness::*;
mod real {
    use material_color_utilities_rs as k;
    include!("../ops/dynamic.rs");
}
mod shade {
    use mcu_shadow as k;
    include!("../ops/dynamic.rs");
}
const LEVELS: [f64; 5] = [-1.0, 0.0, 0.5, 1.0, -0.5];
fn level(r: &mut Rng) -> f64 {
    match r.below(4) {
        0 => r.range(-1.0, 1.0),
        1 => (r.below(41) as f64 - 20.0) / 20.0,
        2 => *r.pick(&[-1.0, -0.5, 0.0, 0.0, 0.0, 0.25, 0.5, 0.5, 0.75, 1.0, 1.0, -1.5, 1.5]),
        _ => *r.pick(&LEVELS),
    }
}
fn tone(r: &mut Rng) -> f64 {
    match r.below(4) {
        0 => r.range(0.0, 100.0),
        1 => *r.pick(&[0.0, 6.0, 10.0, 24.0, 49.0, 49.5, 50.0, 59.0, 59.5, 60.0, 75.0, 87.0, 98.0, 100.0]),
        2 => r.range(44.0, 66.0),
        _ => r.below(101) as f64,
    }
}
const CURVES: [[f64; 4]; 7] = [
    [4.5, 7.0, 11.0, 21.0],
    [3.0, 4.5, 7.0, 11.0],
    [3.0, 4.5, 7.0, 7.0],
    [1.0, 1.0, 3.0, 4.5],
    [1.5, 3.0, 4.5, 7.0],
    [3.0, 3.0, 4.5, 7.0],
    [1.0, 1.0, 1.0, 1.0],
];
fn curve(r: &mut Rng) -> [f64; 4] {
    if r.below(3) > 0 {
        return *r.pick(&CURVES);
    }
    let mut c = [r.range(1.0, 21.0), r.range(1.0, 21.0), r.range(1.0, 21.0), r.range(1.0, 21.0)];
    c.sort_by(|a, b| a.partial_cmp(b).unwrap());
    c
}
fn colour(r: &mut Rng) -> i64 {
    match r.below(6) {
        0 => 0xff000000 | (r.below(256) * 0x10101) as i64,
        1 => *r.pick(&[0xff000000, 0xffffffff, 0xffff0000, 0xff00ff00, 0xff0000ff, 0xffffff00, 0xff00ffff, 0xffff00ff, 0xff4285f4, 0xff850096, 0xff8c7a00]),
        _ => r.argb(),
    }
}

fn c14(x: &Ctx) {
    x.scan("foreground", x.n(400_000, 4_000_000), |i| {
        let mut r = x.rng(1 << 40 | i);
        let (b, q) = (tone(&mut r), if r.below(3) == 0 { *r.pick(&[1.0, 1.5, 3.0, 4.5, 7.0, 11.0, 21.0]) } else { r.range(1.0, 21.0) });
        x.call(i % 400 == 0, "fg", vec![("bg", V::R(b)), ("ratio", V::R(q))], || real::fg(b, q), || shade::fg(b, q));
    });
    x.scan("one_colour", x.n(100_000, 1_000_000), |i| {
        let mut r = x.rng(2 << 40 | i);
        let (dark, lv, wish, c) = (r.below(2) == 0, level(&mut r), tone(&mut r), curve(&mut r));
        let n = *r.pick(&[0usize, 1, 1, 1, 2, 2, 2]);
        let mut bgs: Vec<f64> = (0..n).map(|_| tone(&mut r)).collect();
        if n == 2 && r.below(2) == 0 {
            bgs[1] = (bgs[0] + r.range(-15.0, 15.0)).clamp(0.0, 100.0);
        }
        let is_bg = r.below(2) == 0;
        let inp = vec![
            ("dark", V::B(dark)), ("level", V::R(lv)), ("wish", V::R(wish)), ("isbg", V::B(is_bg)), ("bgs", V::Rs(bgs.clone())), ("curve", V::Rs(c.to_vec())),
        ];
        x.call(i % 100 == 0, "solo", inp, || real::solo(&real::plain_scheme(dark, lv), wish, is_bg, &bgs, &c), || {
            shade::solo(&shade::plain_scheme(dark, lv), wish, is_bg, &bgs, &c)
        });
    });
    schemes(x, 3, x.n(6_000, 60_000), 60);
}
fn c15(x: &Ctx) {
    x.scan("pairs", x.n(150_000, 1_500_000), |i| {
        let mut r = x.rng(4 << 40 | i);
        let (dark, lv, bg) = (r.below(2) == 0, level(&mut r), tone(&mut r));
        // mostly what surfaces look like
        let bg = if r.below(3) > 0 { if dark { r.range(4.0, 34.0) } else { r.range(75.0, 98.0) } } else { bg };
        let wishes = [tone(&mut r), tone(&mut r)];
        let (ca, cb) = (curve(&mut r), curve(&mut r));
        let delta = *r.pick(&[10.0, 10.0, 10.0, 5.0, 0.0, 15.0, 25.0, 30.0, 40.0]);
        let (pol, tog) = (r.below(4) as usize, r.below(2) == 0);
        let inp = vec![
            ("dark", V::B(dark)), ("level", V::R(lv)), ("bg", V::R(bg)), ("wishes", V::Rs(wishes.to_vec())), ("ca", V::Rs(ca.to_vec())), ("cb", V::Rs(cb.to_vec())),
            ("delta", V::R(delta)), ("polarity", V::S(["nearer", "farther", "lighter", "darker"][pol].to_string())), ("together", V::B(tog)),
        ];
        x.call(i % 60 == 0, "pair", inp, || real::pair(&real::plain_scheme(dark, lv), bg, wishes, ca, cb, delta, pol, tog), || {
            shade::pair(&shade::plain_scheme(dark, lv), bg, wishes, ca, cb, delta, pol, tog)
        });
    });
    schemes(x, 5, x.n(6_000, 60_000), 60);
}
/// Whole schemes, every variant.
fn schemes(x: &Ctx, stream: u64, n: u64, each: u64) {
    x.scan("schemes", n, |i| {
        let mut r = x.rng(stream << 40 | i);
        let v = (i % 9) as usize;
        let (argb, dark, lv) = (colour(&mut r), r.below(2) == 0, level(&mut r));
        let inp = vec![("variant", V::S(real::VARIANTS[v].to_string())), ("argb", V::C(argb)), ("dark", V::B(dark)), ("level", V::R(lv))];
        x.call((i / 9) % each == 0, "roles", inp, || real::roles(&real::scheme(v, argb, dark, lv)), || shade::roles(&shade::scheme(v, argb, dark, lv)));
    });
}
fn c16(x: &Ctx) {
    x.call(true, "kinds", vec![], real::kinds, shade::kinds);
    // every variant, mode and named contrast level
    x.scan("grid", 9 * 2 * 5 * 2, |i| {
        let mut r = x.rng(6 << 40 | i);
        let (v, dark, lv) = ((i % 9) as usize, i / 9 % 2 == 0, LEVELS[(i / 18 % 5) as usize]);
        let argb = colour(&mut r);
        let inp = vec![("variant", V::S(real::VARIANTS[v].to_string())), ("argb", V::C(argb)), ("dark", V::B(dark)), ("level", V::R(lv))];
        x.call(true, "roles", inp, || real::roles(&real::scheme(v, argb, dark, lv)), || shade::roles(&shade::scheme(v, argb, dark, lv)));
    });
    schemes(x, 7, x.n(12_000, 120_000), 120);
    // variants with palettes of one's own
    x.scan("custom", x.n(9_000, 90_000), |i| {
        let mut r = x.rng(8 << 40 | i);
        let v = (i % 9) as usize;
        let (argb, dark, lv) = (colour(&mut r), r.below(2) == 0, level(&mut r));
        let hc: Vec<f64> = (0..5).flat_map(|_| [r.range(0.0, 360.0), r.range(0.0, 100.0)]).collect();
        let inp = vec![("variant", V::S(real::VARIANTS[v].to_string())), ("argb", V::C(argb)), ("dark", V::B(dark)), ("level", V::R(lv))];
        x.call((i / 9) % 100 == 0, "roles", inp, || real::roles(&real::custom_scheme(v, argb, dark, lv, &hc)), || {
            shade::roles(&shade::custom_scheme(v, argb, dark, lv, &hc))
        });
    });
}
fn c17(x: &Ctx) {
    let one = |r: &mut Rng, order: &[usize], keep: bool| {
        let role = r.below(54) as usize;
        let n = order.iter().max().unwrap() + 1;
        // the two variants that need a temperature cache are slow
        let some = |r: &mut Rng| if r.below(12) == 0 { 5 + r.below(2) as usize } else { *r.pick(&[0usize, 1, 2, 3, 4, 7, 8]) };
        let base = (some(r), colour(r), r.below(2) == 0, level(r));
        // distinct schemes, most of them alike in all but one respect
        let mut asks: Vec<[i64; 6]> = vec![];
        let mut v: Vec<real::Ask> = vec![];
        while v.len() < n {
            let mut a = real::Ask { variant: base.0, argb: base.1, dark: base.2, level: base.3, twist: 0 };
            match r.below(6) {
                0 => a.variant = some(r),
                1 => a.argb ^= 1 << r.below(24),
                2 => a.dark = !a.dark,
                3 if r.below(3) == 0 => a.level += *r.pick(&[1e-3, -1e-3, 1e-4, 1e-6, 1e-9, -1e-9]),
                3 => a.level = level(r),
                4 => a.twist = 1 + r.below(8) as i64,
                _ => {
                    a.argb = colour(r);
                    a.level = level(r);
                }
            }
            let lb = a.level.to_bits();
            let id = [a.variant as i64, a.argb, a.dark as i64, (lb >> 32) as i64, (lb & 0xffffffff) as i64, a.twist];
            if !asks.contains(&id) {
                asks.push(id);
                v.push(a);
            }
        }
        let w: Vec<shade::Ask> = v.iter().map(|a| shade::Ask { variant: a.variant, argb: a.argb, dark: a.dark, level: a.level, twist: a.twist }).collect();
        let inp = vec![
            ("role", V::I(role as i64 + 1)),
            ("order", V::Is(order.iter().map(|k| *k as i64 + 1).collect())),
            ("schemes", V::Ss(v.iter().map(|a| format!("{} {:06x} {} {} {}", real::VARIANTS[a.variant], a.argb & 0xffffff, a.dark, a.level, a.twist)).collect())),
        ];
        let o = x.call(keep, "history", inp.clone(), || real::history(role, &v, order), || shade::history(role, &w, order));
        if let (Some(o), false) = (o, keep) {
            let bad = |e: &Out| matches!((&e[0].1, &e[2].1, &e[3].1), (V::C(a), V::C(b), V::C(c)) if a != b || a != c);
            if matches!(&o[2].1, V::L(l) if l.iter().any(bad)) || matches!(&o[0].1, V::Is(s) if s.contains(&1)) {
                x.suspect(|| Ev::new("history").out(&inp).out(&o));
            }
        }
    };
    if let Some(p) = &x.input {
        let hist = lines(p);
        x.stat("tlc_behaviours", hist.len() as i64);
        x.scan("tlc_behaviours", hist.len() as u64, |i| {
            let order: Vec<usize> = hist[i as usize].split_whitespace().map(|w| w.parse::<usize>().unwrap() - 1).collect();
            let mut r = x.rng(9 << 40 | i);
            one(&mut r, &order, i % 4 == 0);
        });
    }
    x.scan("random", x.n(2_000, 40_000), |i| {
        let mut r = x.rng(10 << 40 | i);
        let n = 2 + r.below(9);
        let len = 4 + r.below(16);
        let order: Vec<usize> = (0..len).map(|_| r.below(n) as usize).collect();
        // schemes are numbered in order of appearance
        let mut seen: Vec<usize> = vec![];
        let order: Vec<usize> = order
            .iter()
            .map(|k| {
                if !seen.contains(k) {
                    seen.push(*k);
                }
                seen.iter().position(|s| s == k).unwrap()
            })
            .collect();
        one(&mut r, &order, i % 10 == 0);
    });
}
fn c18(x: &Ctx) {
    let one = |v: usize, argb: i64, dark: bool, lv: f64, keep: bool| {
        let inp = vec![("variant", V::S(real::VARIANTS[v].to_string())), ("argb", V::C(argb)), ("dark", V::B(dark)), ("level", V::R(lv))];
        x.call(keep, "variant", inp, || real::variant(v, argb, dark, lv), || shade::variant(v, argb, dark, lv));
    };
    x.scan("variants", x.n(40_000, 400_000), |i| {
        let mut r = x.rng(11 << 40 | i);
        let v = (i % 9) as usize;
        // the two that need a temperature cache are slow
        if v == 5 || v == 6 {
            if i / 9 % 20 != 0 {
                return;
            }
            return one(v, colour(&mut r), r.below(2) == 0, level(&mut r), i / 180 % 4 == 0);
        }
        one(v, colour(&mut r), r.below(2) == 0, level(&mut r), (i / 9) % 40 == 0)
    });
    // hues next to the breakpoints
    x.scan("breakpoints", x.n(20_000, 200_000), |i| {
        let mut r = x.rng(12 << 40 | i);
        let b = *r.pick(&[0.0, 21.0, 41.0, 51.0, 61.0, 101.0, 121.0, 131.0, 151.0, 181.0, 191.0, 251.0, 271.0, 301.0, 321.0, 360.0]);
        let h = mcu_shadow::hct::hct::Hct::from(b + r.range(-1.5, 1.5), r.range(5.0, 80.0), r.range(10.0, 90.0));
        one(3 + (i % 2) as usize, h.to_int(), r.below(2) == 0, 0.0, i % 60 == 0)
    });
    x.scan("rotations", x.n(100_000, 1_000_000), |i| {
        let mut r = x.rng(13 << 40 | i);
        let argb = colour(&mut r);
        let hue = mcu_shadow::hct::hct::Hct::from_int(argb).get_hue();
        let n = 1 + r.below(9);
        let mut hues: Vec<f64> = (0..n).map(|_| if r.below(6) == 0 { hue } else { r.range(0.0, 360.0) }).collect();
        hues.sort_by(|a, b| a.partial_cmp(b).unwrap());
        if n > 1 && r.below(2) == 0 {
            hues[0] = 0.0;
            hues[n as usize - 1] = 360.0;
        }
        let rots: Vec<f64> = (0..n).map(|_| r.range(-400.0, 400.0)).collect();
        let inp = vec![("argb", V::C(argb)), ("hues", V::Rs(hues.clone())), ("rots", V::Rs(rots.clone()))];
        x.call(i % 80 == 0, "rotated", inp, || real::rotated(argb, &hues, &rots), || shade::rotated(argb, &hues, &rots));
    });
}
fn c19(x: &Ctx) {
    x.scan("monochrome", x.n(20_000, 200_000), |i| {
        let mut r = x.rng(14 << 40 | i);
        let (argb, dark, lv) = (colour(&mut r), r.below(2) == 0, level(&mut r));
        let inp = vec![("variant", V::S("Monochrome".to_string())), ("argb", V::C(argb)), ("dark", V::B(dark)), ("level", V::R(lv))];
        let o = x.call(i % 40 == 0, "roles", inp.clone(), || real::roles(&real::scheme(0, argb, dark, lv)), || shade::roles(&shade::scheme(0, argb, dark, lv)));
        if let (Some(o), true) = (o, i % 40 != 0) {
            if let Some((_, V::Cs(c))) = o.iter().find(|e| e.0 == "colours") {
                let grey = |c: &i64| c & 0xff == c >> 8 & 0xff && c & 0xff == c >> 16 & 0xff;
                if c.iter().enumerate().any(|(k, c)| !(38..42).contains(&k) && !grey(c)) {
                    x.suspect(|| Ev::new("roles").out(&inp).out(&o));
                }
            }
        }
    });
}

fn main() {
    let x = Ctx::from_args();
    match x.prop.as_str() {
        "C14" => c14(&x),
        "C15" => c15(&x),
        "C16" => c16(&x),
        "C17" => c17(&x),
        "C18" => c18(&x),
        "C19" => c19(&x),
        p => panic!("unknown property {p}"),
    }
    x.finish();
}
