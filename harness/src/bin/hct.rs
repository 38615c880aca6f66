//! C04 colour coordinates, C05 viewing conditions, C06 solver, C07 setters.
use mcu_harness::*;
mod real {
    use material_color_utilities_rs as k;
    include!("../ops/hct.rs");
}
mod shade {
    use mcu_shadow as k;
    include!("../ops/hct.rs");
}

use material_color_utilities_rs::hct::cam16::Cam16 as K16;
pub const SPECIAL: [u32; 24] = [
    0x000000, 0xffffff, 0xff0000, 0x00ff00, 0x0000ff, 0xffff00, 0x00ffff, 0xff00ff, 0x010101, 0x000001, 0x0a0a0a,
    0x0b0b0b, 0x808080, 0xfefefe, 0x4285f4, 0x984061, 0x7f7f80, 0x800000, 0x008000, 0x000080, 0xfffffe, 0x010000, 0x000100,
    0x777777,
];

/// The colours on the twelve edges of the RGB cube.
fn edge(i: u64) -> i64 {
    let (e, v) = (i / 256, i % 256);
    let (axis, a, b) = (e % 3, (e / 3) & 1, (e / 6) & 1);
    let c = match axis {
        0 => (v, a * 255, b * 255),
        1 => (a * 255, v, b * 255),
        _ => (a * 255, b * 255, v),
    };
    0xff000000 | (c.0 << 16 | c.1 << 8 | c.2) as i64
}

fn c04(x: &Ctx) {
    let one = |argb: i64, keep: bool| {
        let o = x.call(keep, "coords", vec![("argb", V::C(argb))], || real::coords(argb), || shade::coords(argb));
        if let (Some(o), false) = (o, keep) {
            // a colour that does not come back is recorded whatever the copy says
            let bad = o.iter().any(|(k, v)| matches!(v, V::C(b) if *b != argb && (*k == "back" || *k == "hint")));
            if bad {
                x.suspect(|| Ev::new("coords").c("argb", argb).out(&o));
            }
        }
    };
    let n = 1u64 << 24;
    let step = x.n(3, 1);
    let off = x.seed % step;
    x.scan("every_colour", n / step, |i| one(0xff000000 | ((i * step + off) % n) as i64, i % (n / step / x.n(6000, 60000)) == 7));
    x.scan("greys", 256, |i| one(0xff000000 | (i * 0x10101) as i64, true));
    for s in SPECIAL {
        one(0xff000000 | s as i64, true);
    }
    x.scan("edges", 12 * 256, |i| one(edge(i), i % 16 == 0));
    x.scan("jch", x.n(400_000, 4_000_000), |i| {
        let mut r = x.rng(40_000_000 + i);
        let (j, c, h) = if i % 5 == 0 {
            ((1 + r.below(100)) as f64, r.below(130) as f64, r.below(361) as f64)
        } else {
            (r.range(0.5, 100.0), r.range(0.0, 130.0), r.range(0.0, 360.0))
        };
        let inp = || vec![("ij", V::R(j)), ("ic", V::R(c)), ("ih", V::R(h))];
        x.call(i % 200 == 0, "jch", inp(), || real::jch(j, c, h), || shade::jch(j, c, h));
    });
    x.scan("ucs", x.n(400_000, 4_000_000), |i| {
        let mut r = x.rng(50_000_000 + i);
        let (j, a, b) = if i % 7 == 0 {
            ((1 + r.below(100)) as f64, r.below(101) as f64 - 50.0, r.below(101) as f64 - 50.0)
        } else {
            (r.range(0.5, 100.0), r.range(-50.0, 50.0), r.range(-50.0, 50.0))
        };
        let inp = || vec![("ij", V::R(j)), ("ia", V::R(a)), ("ib", V::R(b))];
        x.call(i % 200 == 0, "ucs", inp(), || real::ucs(j, a, b), || shade::ucs(j, a, b));
    });
    // next to hue 0
    x.scan("ucs_axis", 2_000, |i| {
        let (j, a, b) = (1.0 + (i % 50) as f64 * 2.0, (1 + i / 50) as f64, -(10.0f64).powi(-((i % 23) as i32) - 3));
        x.call(i % 20 == 0, "ucs", vec![("ij", V::R(j)), ("ia", V::R(a)), ("ib", V::R(b))], || real::ucs(j, a, b), || shade::ucs(j, a, b));
    });
    x.scan("distance", x.n(200_000, 2_000_000), |i| {
        let mut r = x.rng(60_000_000 + i);
        let a = r.argb();
        let b = if i % 3 == 0 { a ^ (1 << (8 * r.below(3))) } else if i % 31 == 0 { a } else { r.argb() };
        x.call(i % 200 == 0, "dist", vec![("a", V::C(a)), ("b", V::C(b))], || real::dist(a, b), || shade::dist(a, b));
    });
}

const WPS: [[f64; 3]; 4] = [[95.047, 100.0, 108.883], [96.422, 100.0, 82.521], [109.85, 100.0, 35.585], [80.0, 90.0, 95.0]];
fn vcs(r: &mut Rng) -> ([f64; 3], f64, f64, f64, bool) {
    let wp = if r.below(4) == 0 { [r.range(70.0, 115.0), r.range(85.0, 110.0), r.range(30.0, 130.0)] } else { *r.pick(&WPS) };
    let al = *r.pick(&[-1.0, 0.0, 0.1, 0.5, 1.0, 3.0, 5.0, 11.72, 20.0, 50.0, 100.0, 200.0, 400.0, 1000.0]);
    let al = if r.below(3) == 0 { r.range(0.01, 500.0) } else { al };
    let bg = *r.pick(&[0.0, 0.05, 0.1, 0.2, 1.0, 5.0, 8.0, 9.0, 20.0, 30.0, 49.0, 50.0, 51.0, 80.0, 99.0, 100.0, -3.0]);
    let bg = if r.below(3) == 0 { r.range(0.1, 100.0) } else { bg };
    let sur = *r.pick(&[0.0, 0.5, 0.99, 1.0, 1.01, 1.5, 2.0]);
    let sur = if r.below(3) == 0 { r.range(0.0, 2.0) } else { sur };
    (wp, al, bg, sur, r.below(3) == 0)
}
fn c05(x: &Ctx) {
    for w in 0..5 {
        x.call(true, "dvc", vec![("which", V::I(w))], || real::default_vc(w), || shade::default_vc(w));
    }
    let inp = |wp: [f64; 3], al: f64, bg: f64, sur: f64, d: bool| {
        vec![("wp", V::Rs(wp.to_vec())), ("al", V::R(al)), ("bg", V::R(bg)), ("sur", V::R(sur)), ("disc", V::B(d))]
    };
    x.scan("make", x.n(1_000_000, 10_000_000), |i| {
        let mut r = x.rng(70_000_000 + i);
        let (w, al, bg, s, d) = vcs(&mut r);
        x.call(i % 250 == 0, "vc", inp(w, al, bg, s, d), || real::make_vc(w, al, bg, s, d), || shade::make_vc(w, al, bg, s, d));
    });
    x.scan("seen", x.n(1_000_000, 10_000_000), |i| {
        let mut r = x.rng(80_000_000 + i);
        let (w, al, bg, s, d) = vcs(&mut r);
        let w = if r.below(4) > 0 { WPS[0] } else { w };
        let a = if i % 11 == 0 { 0xff000000 | *r.pick(&SPECIAL) as i64 } else { r.argb() };
        let mut ip = inp(w, al, bg, s, d);
        ip.push(("argb", V::C(a)));
        let o = x.call(i % 250 == 0, "seen", ip.clone(), || real::seen(a, w, al, bg, s, d), || shade::seen(a, w, al, bg, s, d));
        if let (Some(o), true) = (o, i % 250 != 0) {
            if o.iter().any(|(k, v)| matches!(v, V::C(b) if *b != a && (*k == "back" || *k == "ub"))) {
                x.suspect(|| Ev::new("seen").out(&ip).out(&o));
            }
        }
    });
    // any mixture of light, not only 8-bit ones
    let mix = |rgb: [f64; 3]| {
        [
            0.41233895 * rgb[0] + 0.35762064 * rgb[1] + 0.18051042 * rgb[2],
            0.2126 * rgb[0] + 0.7152 * rgb[1] + 0.0722 * rgb[2],
            0.01932141 * rgb[0] + 0.11916382 * rgb[1] + 0.95034478 * rgb[2],
        ]
    };
    let light = |xyz: [f64; 3], (w, al, bg, s, d): ([f64; 3], f64, f64, f64, bool), keep: bool| {
        let mut ip = inp(w, al, bg, s, d);
        ip.push(("in", V::Rs(xyz.to_vec())));
        x.call(keep, "stimulus", ip, || real::stimulus(xyz, w, al, bg, s, d), || shade::stimulus(xyz, w, al, bg, s, d))
    };
    x.scan("stimuli", x.n(300_000, 3_000_000), |i| {
        let mut r = x.rng(81_000_000 + i);
        let v = vcs(&mut r);
        let rgb = [r.range(0.0, 100.0), r.range(0.0, 100.0), r.range(0.0, 100.0)];
        let rgb = if i % 3 == 0 { rgb.map(|q| q * 0.01) } else { rgb };
        light(mix(rgb), v, i % 400 == 0);
    });
    // stimuli of hue exactly 0, or a hair on either side
    x.scan("hue_zero", x.n(2_000, 20_000), |i| {
        let mut r = x.rng(82_000_000 + i);
        let v = (WPS[0], r.range(1.0, 100.0), r.range(10.0, 90.0), r.range(0.0, 2.0), r.below(3) == 0);
        let c = real::vc(v.0, v.1, v.2, v.3, v.4);
        let (j, k) = (r.range(1.0, 100.0), r.range(1.0, 60.0));
        let at = |h: f64| K16::from_jch_in_viewing_conditions(j, k, h, &c).xyz_in_viewing_conditions(&c, None);
        let (a, b) = (at(-0.01), at(0.01));
        let (mut lo, mut hi) = (0.0, 1.0);
        for n in 0..60 {
            let m = (lo + hi) / 2.0;
            let q = |k: usize| a[k] + m * (b[k] - a[k]);
            match light([q(0), q(1), q(2)], v, i % 100 == 0 && n % 10 == 9) {
                Some(o) if matches!(&o[0].1, V::R(h) if *h > 180.0) => lo = m,
                Some(_) => hi = m,
                None => break,
            }
        }
    });
    x.scan("jch_under_conditions", x.n(300_000, 3_000_000), |i| {
        let mut r = x.rng(83_000_000 + i);
        let (w, al, bg, s, d) = vcs(&mut r);
        let (j, c, h) = (r.range(0.5, 100.0), r.range(0.0, 130.0), r.range(0.0, 360.0));
        let mut ip = inp(w, al, bg, s, d);
        ip.extend([("ij", V::R(j)), ("ic", V::R(c)), ("ih", V::R(h))]);
        x.call(i % 400 == 0, "jchin", ip, || real::jchin(j, c, h, w, al, bg, s, d), || shade::jchin(j, c, h, w, al, bg, s, d));
    });
}

fn c06(x: &Ctx) {
    let one = |h: f64, c: f64, t: f64, keep: bool| {
        x.call(keep, "solve", vec![("h", V::R(h)), ("c", V::R(c)), ("t", V::R(t))], || real::solve(h, c, t), || shade::solve(h, c, t));
    };
    // whole-number requests
    let cs = [0.0, 0.00005, 0.0001, 1.0, 4.0, 6.0, 8.0, 12.0, 16.0, 24.0, 32.0, 36.0, 40.0, 48.0, 56.0, 64.0, 80.0, 84.0, 100.0, 120.0, 150.0, 200.0, 1000.0];
    let nc = cs.len() as u64;
    x.scan("grid", 361 * 101 * nc, |i| {
        let (h, t, c) = (i % 361, i / 361 % 101, i / 361 / 101);
        one(h as f64, cs[c as usize], t as f64, i % 211 == 0)
    });
    let ts = [-10.0, -1e-9, 0.0, 1e-9, 0.00005, 0.0001, 0.0002, 0.01, 0.5, 1.0, 2.0, 4.0, 6.0, 8.0, 97.9, 98.0, 98.1, 99.0, 99.9, 99.999, 99.9998, 99.9999, 99.99995, 100.0, 100.5, 150.0];
    let hs = [-720.0, -360.0, -359.5, -90.0, -1e-12, 0.0, 1e-12, 20.14, 90.0, 111.0, 179.9999, 180.0, 270.0, 359.5, 359.9999999, 360.0, 361.0, 720.0, 1080.5];
    for &h in &hs {
        for &t in &ts {
            for &c in &cs {
                one(h, c, t, true);
            }
        }
    }
    // requests that are exactly a colour's own coordinates
    x.scan("own", x.n(1_000_000, 1 << 24), |i| {
        let mut r = x.rng(90_000_000 + i);
        let a = if x.thorough { 0xff000000 | i as i64 } else { r.argb() };
        let o = shade::solve_own(a);
        one(o.0, o.1, o.2, i % 400 == 0)
    });
    // more chroma than there is, at the hue and tone of a colour on an edge of
    // the RGB cube: a corner of the polygon of the colours of that tone
    x.scan("corners", x.n(12 * 256 * 15, 12 * 256 * 150), |i| {
        let o = shade::solve_own(edge(i % 3072));
        let mut r = x.rng(95_000_000 + i);
        let k = i / 3072;
        let dh = if k < 3 { 0.0 } else { *r.pick(&[0.0, 1e-15, -1e-15, 1e-14, -1e-14, 1e-12, -1e-12]) };
        let dt = if k < 3 { 0.0 } else { *r.pick(&[0.0, 1e-14, -1e-14, 1e-12, -1e-12]) };
        let c = if k % 3 == 0 { o.1 + 0.5 } else if k % 3 == 1 { 700.0 } else { r.range(o.1, 200.0) };
        one(o.0 * (1.0 + dh), c, o.2 * (1.0 + dt), i % 60 == 7)
    });
    x.scan("random", x.n(3_000_000, 30_000_000), |i| {
        let mut r = x.rng(100_000_000 + i);
        let c = match i % 4 {
            0 => r.range(0.0, 20.0),
            1 => r.range(0.0, 200.0),
            _ => r.range(0.0, 110.0),
        };
        let t = if i % 9 == 0 { r.range(0.0, 6.0) } else if i % 9 == 1 { r.range(95.0, 100.0) } else { r.range(0.0, 100.0) };
        one(r.range(0.0, 360.0), c, t, i % 600 == 0)
    });
}

fn c07(x: &Ctx) {
    let one = |start: i64, ops: &[(i64, f64)], keep: bool| {
        let inp = vec![
            ("start", V::C(start)),
            ("kinds", V::Is(ops.iter().map(|o| o.0).collect())),
            ("vals", V::Rs(ops.iter().map(|o| o.1).collect())),
        ];
        x.call(keep, "setters", inp, || real::setters(start, ops), || shade::setters(start, ops));
    };
    // behaviours generated by TLC from HctHistories
    if let Some(p) = &x.input {
        let hist = parse_hist(p);
        x.stat("tlc_behaviours", hist.len() as i64);
        let h = &hist;
        x.scan("tlc_behaviours", h.len() as u64, |i| one(h[i as usize].0, &h[i as usize].1, true));
    }
    // colours on an edge of the RGB cube made more colourful than there are
    x.scan("corners", 12 * 256 * 4, |i| {
        let start = edge(i % 3072);
        let c = shade::solve_own(start).1;
        let mut r = x.rng(112_000_000 + i);
        let more = [c + 0.5, 700.0, c + r.range(0.0, 60.0), 828.0][(i / 3072) as usize];
        let ops = [(2, more), (3, r.range(0.0, 100.0)), (2, 700.0)];
        one(start, &ops[..1 + 2 * (i % 2) as usize], i % 60 == 7)
    });
    // steps from where the object is: tiny, none, or beyond the ends
    x.scan("steps", x.n(200_000, 2_000_000), |i| {
        let mut r = x.rng(115_000_000 + i);
        let start = if i % 7 == 0 { 0xff000000 | *r.pick(&SPECIAL) as i64 } else { r.argb() };
        let mut at = mcu_shadow::hct::hct::Hct::from_int(start);
        let n = 1 + r.below(5);
        let ops: Vec<(i64, f64)> = (0..n)
            .map(|_| {
                let step = match r.below(6) {
                    0 => 0.0,
                    1 => r.range(-0.01, 0.01),
                    2 => r.range(-1.0, 1.0),
                    3 => r.range(-10.0, 10.0),
                    4 => *r.pick(&[360.0, -360.0, 720.0, 180.0, 100.0, -100.0]),
                    _ => r.range(-60.0, 60.0),
                };
                match r.below(3) {
                    0 => {
                        let v = at.get_hue() + step;
                        at.set_hue(v);
                        (1, v)
                    }
                    1 => {
                        let v = (at.get_chroma() + step).max(0.0);
                        at.set_chroma(v);
                        (2, v)
                    }
                    _ => {
                        let v = at.get_tone() + step;
                        at.set_tone(v);
                        (3, v)
                    }
                }
            })
            .collect();
        one(start, &ops, i % 400 == 0)
    });
    x.scan("random", x.n(400_000, 4_000_000), |i| {
        let mut r = x.rng(110_000_000 + i);
        let start = if i % 7 == 0 { 0xff000000 | *r.pick(&SPECIAL) as i64 } else { r.argb() };
        let n = 1 + r.below(6);
        let ops: Vec<(i64, f64)> = (0..n)
            .map(|_| match r.below(3) {
                0 => (1, if r.below(4) == 0 { (r.below(9) * 45) as f64 } else { r.range(-10.0, 370.0) }),
                1 => (2, if r.below(4) == 0 { (r.below(9) * 20) as f64 } else { r.range(0.0, 120.0) }),
                _ => (3, if r.below(4) == 0 { (r.below(11) * 10) as f64 } else { r.range(0.0, 100.0) }),
            })
            .collect();
        one(start, &ops, i % 400 == 0)
    });
}
/// Lines `start kind:value kind:value ...`
fn parse_hist(p: &str) -> Vec<(i64, Vec<(i64, f64)>)> {
    lines(p)
        .iter()
        .map(|l| {
            let mut w = l.split_whitespace();
            let start = w.next().unwrap().parse::<i64>().unwrap() as i32 as u32 as i64;
            let ops = w
                .map(|s| {
                    let (a, b) = s.split_once(':').unwrap();
                    (a.parse().unwrap(), b.parse().unwrap())
                })
                .collect();
            (start, ops)
        })
        .collect()
}

fn main() {
    let x = Ctx::from_args();
    match x.prop.as_str() {
        "C04" => c04(&x),
        "C05" => c05(&x),
        "C06" => c06(&x),
        "C07" => c07(&x),
        p => panic!("unknown property {p}"),
    }
    x.finish();
}
