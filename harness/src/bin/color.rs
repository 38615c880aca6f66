//! C01 ARGB and hex, C02 luminance, C03 XYZ/Lab, C08/C09 contrast, C28 math,
//! C29 contrast curves.
use mcu_harness::*;
mod real {
    use material_color_utilities_rs as k;
    include!("../ops/color.rs");
}
mod shade {
    use mcu_shadow as k;
    include!("../ops/color.rs");
}

fn c01(x: &Ctx) {
    let pack = |r: i64, g: i64, b: i64, keep: bool| {
        x.call(keep, "pack", vec![("ir", V::I(r)), ("ig", V::I(g)), ("ib", V::I(b))], || real::pack(r, g, b), || shade::pack(r, g, b));
    };
    x.scan("components", 1 << 24, |i| {
        let (r, g, b) = ((i >> 16) as i64, (i >> 8 & 255) as i64, (i & 255) as i64);
        pack(r, g, b, i % 9001 == 0);
    });
    x.scan("wild_components", x.n(500_000, 5_000_000), |i| {
        let mut r = x.rng(1_000_000 + i);
        let mut c = || match r.below(4) {
            0 => *r.pick(&[0, 1, 127, 128, 254, 255, 256, 257, -1, -128, -255, -256, -257, 511, 512, 65535, 65536]),
            1 => r.below(2000) as i64 - 1000,
            2 => r.below(1 << 31) as i64 - (1 << 30),
            _ => r.below(256) as i64,
        };
        let (a, b, d) = (c(), c(), c());
        pack(a, b, d, i % 400 == 0);
    });
    x.scan("colours", x.n(3_000_000, 30_000_000), |i| {
        let mut r = x.rng(2_000_000_000 + i);
        let c = (r.next() & 0xffffffff) as i64;
        let c = if i % 3 == 0 { c | 0xff000000 } else if i % 97 == 0 { c & 0xffffff } else { c };
        x.call(i % 1500 == 0, "unpack", vec![("argb", V::C(c))], || real::unpack(c), || shade::unpack(c));
    });
    x.scan("hex", 1 << 24, |i| {
        let c = if i % 5 == 0 { (i as i64).wrapping_mul(0x11) & 0xffffffff } else { 0xff000000 | i as i64 };
        x.call(i % 5003 == 0, "hex", vec![("argb", V::C(c))], || real::hex(c), || shade::hex(c));
    });
    x.scan("text", x.n(400_000, 4_000_000), |i| {
        let mut r = x.rng(3_000_000_000 + i);
        let n = r.below(10);
        let alphabet: &[u8] = if r.below(3) == 0 { b"0123456789abcdefABCDEF# gGxX-+.z~" } else { b"0123456789abcdefABCDEF" };
        let mut t: String = (0..n).map(|_| *r.pick(alphabet)).filter(|b| *b < 128).map(|b| b as char).collect();
        for _ in 0..*r.pick(&[0, 0, 1, 1, 1, 2]) {
            t.insert(0, '#');
        }
        // letters of several bytes, anywhere
        if i % 11 == 0 {
            let at = r.below(t.chars().count() as u64 + 1) as usize;
            let mut c: Vec<char> = t.chars().collect();
            c.insert(at, *r.pick(&['é', 'ß', '７', '😀', '٣', '\u{ff03}', '\u{0}', '\n', '\t']));
            t = c.into_iter().collect();
        }
        // numbers too long for any colour
        if i % 13 == 0 {
            for _ in 0..r.below(30) {
                t.push(*r.pick(alphabet) as char);
            }
        }
        let codes: Vec<i64> = t.chars().map(|c| c as i64).collect();
        x.call(i % 100 == 0, "parse", vec![("text", V::Is(codes))], || real::parse(&t), || shade::parse(&t));
    });
}
fn c02(x: &Ctx) {
    let n = x.n(1_000_000, 10_000_000);
    x.scan("lightness", n + 1, |i| {
        let l = 100.0 * i as f64 / n as f64;
        let m = (l + 100.0 / n as f64).min(100.0);
        x.call(i % (n / 4000) == 0, "lstar", vec![("l", V::R(l)), ("m", V::R(m))], || real::lstar(l, m), || shade::lstar(l, m));
    });
    x.scan("lightness_steps", 20001, |i| {
        let l = i as f64 / 200.0;
        let m = (l + 0.005).min(100.0);
        x.call(i % 40 == 0 || i > 19990, "lstar", vec![("l", V::R(l)), ("m", V::R(m))], || real::lstar(l, m), || shade::lstar(l, m));
    });
    x.scan("luminance", n + 1, |i| {
        let t = i as f64 / n as f64;
        let y = if i % 2 == 0 { 100.0 * t } else { 2.0 * t };
        x.call(i % (n / 3000) == 0, "yl", vec![("y", V::R(y))], || real::yl(y), || shade::yl(y));
    });
    x.scan("components", 256, |i| {
        x.call(true, "comp", vec![("n", V::I(i as i64))], || real::comp(i as i64), || shade::comp(i as i64));
    });
    x.scan("linear", n, |i| {
        let mut r = x.rng(4_000_000_000 + i);
        let v = match i % 4 {
            0 => r.range(-5.0, 105.0),
            1 => r.range(0.0, 1.0),
            2 => r.range(0.0, 20.0),
            _ => r.range(0.0, 100.0),
        };
        let v = if i % 1001 == 0 { *r.pick(&[-1e9, -1.0, 0.0, 0.31308, 0.3130801, 0.3130799, 100.0, 100.0001, 1e9]) } else { v };
        let w = v + if i % 2 == 0 { 1e-4 } else { r.range(0.0, 10.0) };
        x.call(i % (n / 3000) == 0, "delin", vec![("v", V::R(v)), ("w", V::R(w))], || real::delin(v, w), || shade::delin(v, w));
    });
    x.scan("every_colour", 1 << 24, |i| {
        let c = 0xff000000 | i as i64;
        x.call(i % 6007 == 0, "tone", vec![("argb", V::C(c))], || real::tone(c), || shade::tone(c));
    });
    x.scan("veiled_colours", x.n(300_000, 3_000_000), |i| {
        let c = (x.rng(12_000_000_000 + i).next() & 0xffffffff) as i64;
        x.call(i % 500 == 0, "tone", vec![("argb", V::C(c))], || real::tone(c), || shade::tone(c));
    });
}
fn c03(x: &Ctx) {
    let one = |c: i64, keep: bool| {
        let o = x.call(keep, "space", vec![("argb", V::C(c))], || real::space(c), || shade::space(c));
        if let (Some(o), false) = (o, keep) {
            if o.iter().any(|(_, v)| matches!(v, V::C(b) if *b != c)) {
                x.suspect(|| Ev::new("space").c("argb", c).out(&o));
            }
        }
    };
    let step = x.n(2, 1);
    x.scan("every_colour", (1 << 24) / step, |i| {
        let i = i * step + x.seed % step;
        one(0xff000000 | i as i64, i / step % 2003 == 0)
    });
    x.scan("greys", 256, |i| one(0xff000000 | (i * 0x10101) as i64, true));
    x.scan("veiled_colours", x.n(300_000, 3_000_000), |i| {
        let c = (x.rng(13_000_000_000 + i).next() & 0xffffffff) as i64;
        x.call(i % 500 == 0, "space", vec![("argb", V::C(c))], || real::space(c), || shade::space(c));
    });
    x.call(true, "white", vec![], real::white, shade::white);
    let n = x.n(600_000, 6_000_000);
    x.scan("wild", 3 * n, |i| {
        let mut r = x.rng(5_000_000_000 + i);
        let w = (i % 3) as i64;
        let v = match w {
            0 => [r.range(-20.0, 130.0), r.range(-20.0, 130.0), r.range(-20.0, 140.0)],
            1 => [r.range(-10.0, 110.0), r.range(-130.0, 130.0), r.range(-130.0, 130.0)],
            _ => [r.range(-10.0, 110.0), r.range(-10.0, 110.0), r.range(-10.0, 110.0)],
        };
        let v = if i % 50 < 3 { [v[0] / 30.0, v[1] / 30.0, v[2] / 30.0] } else { v };
        let (op, key) = [("fromxyz", "xyz"), ("fromlab", "lab"), ("fromlin", "lin")][w as usize];
        x.call(i % (n / 1000) < 3, op, vec![(key, V::Rs(v.to_vec()))], || real::from3(w, v), || shade::from3(w, v));
    });
}
fn c08(x: &Ctx) {
    let one = |a: f64, b: f64, c: f64, keep: bool| {
        x.call(keep, "ratio", vec![("a", V::R(a)), ("b", V::R(b)), ("c", V::R(c))], || real::ratio(a, b, c), || shade::ratio(a, b, c));
    };
    // all pairs of tones in steps of a tenth
    let m = x.n(1001, 4001);
    x.scan("tone_pairs", m * m, |i| {
        let (a, b) = ((i % m) as f64 * 100.0 / (m - 1) as f64, (i / m) as f64 * 100.0 / (m - 1) as f64);
        let c = if b >= a { b + 0.1 } else { b - 0.1 };
        one(a, b, c, i % (m * m / 6000) == 0)
    });
    x.scan("random", x.n(1_000_000, 10_000_000), |i| {
        let mut r = x.rng(6_000_000_000 + i);
        let mut t = || match r.below(4) {
            0 => r.range(-50.0, 150.0),
            1 => *r.pick(&[0.0, 100.0, 50.0, 49.0, 60.0, -1.0, 101.0, 8.0, 7.999, 1e-9]),
            _ => r.range(0.0, 100.0),
        };
        let (a, b, d) = (t(), t(), t());
        let c = if b >= a { b + d.abs() } else { b - d.abs() };
        one(a, b, c, i % 400 == 0)
    });
}
fn c09(x: &Ctx) {
    let one = |t: f64, q: f64, keep: bool| {
        x.call(keep, "find", vec![("t", V::R(t)), ("r", V::R(q))], || real::find(t, q), || shade::find(t, q));
    };
    x.scan("grid", 1001 * 401, |i| {
        let (t, q) = ((i % 1001) as f64 / 10.0, 1.0 + (i / 1001) as f64 / 20.0);
        one(t, q, i % 100 == 0)
    });
    for t in [-10.0, -1e-9, 0.0, 100.0, 100.0000001, 150.0, 50.0, 99.6, 0.4, 0.39] {
        for q in [1.0, 1.0001, 1.5, 3.0, 4.5, 7.0, 11.0, 20.99, 21.0, 21.01, 25.0, 1000.0] {
            one(t, q, true);
        }
    }
    x.scan("random", x.n(2_000_000, 20_000_000), |i| {
        let mut r = x.rng(7_000_000_000 + i);
        let t = if i % 10 == 0 { r.range(-5.0, 105.0) } else { r.range(0.0, 100.0) };
        let q = match i % 12 {
            0 | 3 | 6 | 9 => *r.pick(&[1.0, 1.5, 3.0, 4.5, 7.0, 11.0, 21.0]),
            1 => r.range(20.0, 40.0),
            2 => r.range(1.0, 1.2),
            _ => r.range(1.0, 21.0),
        };
        one(t, q, i % 500 == 0)
    });
}
fn c28(x: &Ctx) {
    let one = |a: f64, b: f64, i: i64, keep: bool| {
        x.call(keep, "angle", vec![("a", V::R(a)), ("b", V::R(b)), ("i", V::I(i))], || real::angle(a, b, i), || shade::angle(a, b, i));
    };
    x.scan("whole_degrees", 1081 * 1081, |i| {
        let (a, b) = ((i % 1081) as i64 - 540, (i / 1081) as i64 - 540);
        one(a as f64, b as f64, a, i % 397 == 0)
    });
    let odd = [0.0, -1e-20, -1e-13, -1e-14, 1e-300, 360.0, 359.99999999999994, -360.0, 720.0, -720.0, 180.0, 180.00000000000003, 90.0, 540.0, -0.0, 1e6, -1e6];
    for a in odd {
        for b in odd {
            one(a, b, a as i64, true);
        }
    }
    for i in [0, 1, 359, 360, 361, -1, -359, -360, -361, 720, -720, 1 << 30, -(1 << 30), 2147483647, -2147483647] {
        one(1.0, 2.0, i, true);
    }
    x.scan("random", x.n(2_000_000, 20_000_000), |i| {
        let mut r = x.rng(8_000_000_000 + i);
        let a = if i % 3 == 0 { r.range(-10000.0, 10000.0) } else { r.range(-720.0, 720.0) };
        let b = match i % 5 {
            0 => a + 180.0,
            1 => a + r.range(-1e-6, 1e-6),
            _ => r.range(-720.0, 720.0),
        };
        one(a, b, r.below(1 << 31) as i64 - (1 << 30), i % 500 == 0)
    });
    x.scan("calc", x.n(1_000_000, 10_000_000), |i| {
        let mut r = x.rng(9_000_000_000 + i);
        let pick = [0.0, -0.0, 1.0, -1.0, 1e-300, -1e-300, 0.5, 100.0];
        let v = if i % 4 == 0 { *r.pick(&pick) } else { r.range(-200.0, 200.0) };
        let w = if i % 5 == 0 { *r.pick(&pick) } else { r.range(-200.0, 200.0) };
        let t = if i % 6 == 0 { *r.pick(&[0.0, 0.5, 1.0]) } else { r.f() };
        let lo = r.range(-150.0, 100.0);
        let hi = lo + r.range(0.0, 100.0);
        let (n, ilo) = (r.below(600) as i64 - 300, r.below(400) as i64 - 200);
        let ihi = ilo + r.below(300) as i64;
        let inp = vec![("x", V::R(v)), ("y", V::R(w)), ("t", V::R(t)), ("lo", V::R(lo)), ("hi", V::R(hi)), ("n", V::I(n)), ("ilo", V::I(ilo)), ("ihi", V::I(ihi))];
        x.call(i % 400 == 0, "calc", inp, || real::calc(v, w, t, lo, hi, n, ilo, ihi), || shade::calc(v, w, t, lo, hi, n, ilo, ihi));
    });
    x.scan("matrix", x.n(200_000, 2_000_000), |i| {
        let mut r = x.rng(10_000_000_000 + i);
        let mut g = || [r.range(-3.0, 3.0), r.range(-3.0, 3.0), r.range(-3.0, 3.0)];
        let (v, m) = (g(), [g(), g(), g()]);
        x.call(i % 200 == 0, "matrix", vec![("v", V::Rs(v.to_vec())), ("m", V::L0(m.iter().map(|r| r.to_vec()).collect()))], || real::matrix(v, m), || shade::matrix(v, m));
    });
}
fn c29(x: &Ctx) {
    let known = [
        [1.0, 1.0, 3.0, 4.5], [3.0, 4.5, 7.0, 7.0], [4.5, 7.0, 11.0, 21.0], [3.0, 4.5, 7.0, 11.0], [1.5, 3.0, 4.5, 7.0],
        [3.0, 3.0, 4.5, 7.0], [87.0, 87.0, 80.0, 75.0], [4.0, 4.0, 2.0, 0.0], [24.0, 24.0, 29.0, 34.0],
    ];
    let one = |c: [f64; 4], a: f64, b: f64, keep: bool| {
        x.call(keep, "curve", vec![("c", V::Rs(c.to_vec())), ("level", V::R(a)), ("level2", V::R(b))], || real::curve(c, a, b), || shade::curve(c, a, b));
    };
    x.scan("levels", 9 * 3001, |i| {
        let a = (i / 9) as f64 / 1000.0 - 1.5;
        one(known[(i % 9) as usize], a, a + 0.001, i % 7 == 0)
    });
    x.scan("random", x.n(2_000_000, 20_000_000), |i| {
        let mut r = x.rng(11_000_000_000 + i);
        let mut c = [r.range(1.0, 21.0), r.range(1.0, 21.0), r.range(1.0, 21.0), r.range(1.0, 21.0)];
        if i % 5 == 0 {
            c = [r.range(-100.0, 100.0), r.range(0.0, 100.0), r.range(-5.0, 5.0), r.range(0.0, 200.0)];
        }
        if i % 2 == 0 {
            c.sort_by(|a, b| a.partial_cmp(b).unwrap());
        }
        let a = if i % 9 == 0 { *r.pick(&[-1.0, 0.0, 0.5, 1.0, -1e-12, 1e-12, 0.25, 0.75, -0.5, -5.0, 5.0, 1.0000001, 0.9999999, -1.0000001, -0.9999999, 0.4999999, 0.5000001]) } else { r.range(-1.3, 1.3) };
        one(c, a, a + r.range(0.0, 1.0), i % 500 == 0)
    });
}

fn main() {
    let x = Ctx::from_args();
    match x.prop.as_str() {
        "C01" => c01(&x),
        "C02" => c02(&x),
        "C03" => c03(&x),
        "C08" => c08(&x),
        "C09" => c09(&x),
        "C28" => c28(&x),
        "C29" => c29(&x),
        p => panic!("unknown property {p}"),
    }
    x.finish();
}
