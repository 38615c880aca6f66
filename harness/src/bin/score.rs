//! C24: scoring.
use mcu_harness::*;
mod real {
    use material_color_utilities_rs as k;
    include!("../ops/score.rs");
}
mod shade {
    use mcu_shadow as k;
    include!("../ops/score.rs");
}
use mcu_shadow::hct::hct::Hct;
fn table(r: &mut Rng, size: u64) -> (Vec<i64>, Vec<i64>) {
    let n = 1 + r.below(size);
    let kind = r.below(7);
    let h0 = r.range(0.0, 360.0);
    let mut cols: Vec<i64> = vec![];
    for k in 0..n {
        let c = match kind {
            0 => r.argb(),
            // one hue and its neighbourhood (15 and 30 degree limits)
            1 => Hct::from(h0 + r.range(-35.0, 35.0), r.range(4.0, 80.0), r.range(20.0, 90.0)).to_int(),
            // a ring of hues
            2 => Hct::from(h0 + 360.0 * k as f64 / n as f64, r.range(20.0, 60.0), 60.0).to_int(),
            // around the chroma limits
            3 => Hct::from(r.range(0.0, 360.0), *r.pick(&[4.0, 5.0, 6.0, 47.0, 48.0, 49.0]), r.range(20.0, 90.0)).to_int(),
            // greys, black, white and a few colours
            4 => {
                if r.below(3) > 0 {
                    0xff000000 | (r.below(256) * 0x10101) as i64
                } else {
                    r.argb()
                }
            }
            // around the end of the circle
            5 => Hct::from(r.range(340.0, 380.0), r.range(10.0, 80.0), r.range(20.0, 90.0)).to_int(),
            _ => *r.pick(&[0xffff0000, 0xff00ff00, 0xff0000ff, 0xffffff00, 0xff00ffff, 0xffff00ff, 0xff7f4285, 0xff4285f4, 0xff000000, 0xffffffff]),
        };
        if !cols.contains(&c) {
            cols.push(c);
        }
    }
    let w = r.below(6);
    let mut pops: Vec<i64> = cols
        .iter()
        .map(|_| match w {
            0 => 1,
            1 => 1 + r.below(100) as i64,
            2 => *r.pick(&[0, 1, 1, 2, 50, 1000]),
            3 => r.below(1_000_000) as i64,
            // more pixels than fit 16, 31 or 32 bits
            4 => *r.pick(&[1, 65_535, 65_536, 1_000_000_000, 2_147_483_647, 2_147_483_648, 4_294_967_296, 1_000_000_000_000]),
            _ => 1 + r.below(4) as i64,
        })
        .collect();
    // some colours with a share of about 1%
    if r.below(2) == 0 {
        let others: i64 = pops.iter().skip(1).sum();
        pops[0] = (others / 99 + r.below(3) as i64 - 1).max(0);
        if r.below(2) == 0 && pops.len() > 1 {
            let want = 100 * pops[0].max(1);
            pops[0] = pops[0].max(1);
            pops[1] += (want - pops.iter().sum::<i64>()).max(0);
        }
    }
    if pops.iter().sum::<i64>() == 0 {
        pops[0] = 1;
    }
    (cols, pops)
}
fn ask(x: &Ctx, stream: u64, i: u64, every: u64, size: u64) {
    let mut r = x.rng(stream << 40 | i);
    let (cols, pops) = table(&mut r, size);
    let desired = if r.below(4) == 0 { None } else { Some(*r.pick(&[1, 2, 3, 4, 4, 5, 7, 12, 100])) };
    let fallback = if r.below(2) == 0 { None } else { Some(r.argb()) };
    let filter = match r.below(4) {
        0 => Some(false),
        1 => Some(true),
        _ => None,
    };
    let inp = vec![
        ("cols", V::Cs(cols.clone())),
        ("pops", V::Rs(pops.iter().map(|n| *n as f64).collect())),
        ("desired", V::I(desired.unwrap_or(4))),
        ("fallback", V::C(fallback.unwrap_or(0xff4285f4))),
        ("filter", V::B(filter.unwrap_or(true))),
    ];
    let a = real::Asked { cols: cols.clone(), pops: pops.clone(), desired, fallback, filter };
    let b = shade::Asked { cols, pops, desired, fallback, filter };
    x.call(i % every == 0, "score", inp, || real::score(&a), || shade::score(&b));
}
fn main() {
    let x = Ctx::from_args();
    x.scan("few", x.n(60_000, 1_000_000), |i| ask(&x, 1, i, 150, 5));
    x.scan("some", x.n(20_000, 400_000), |i| ask(&x, 2, i, 50, 16));
    x.scan("many", x.n(2_000, 40_000), |i| ask(&x, 3, i, 40, 128));
    for (n, f, d) in [(None, None, None), (Some(1), Some(0xff123456), Some(true)), (Some(9), None, Some(false))] {
        let inp = vec![
            ("cols", V::Cs(vec![])),
            ("pops", V::Rs(vec![])),
            ("desired", V::I(n.unwrap_or(4))),
            ("fallback", V::C(f.unwrap_or(0xff4285f4))),
            ("filter", V::B(d.unwrap_or(true))),
        ];
        let a = real::Asked { cols: vec![], pops: vec![], desired: n, fallback: f, filter: d };
        let b = shade::Asked { cols: vec![], pops: vec![], desired: n, fallback: f, filter: d };
        x.call(true, "score", inp, || real::score(&a), || shade::score(&b));
    }
    x.finish();
}
