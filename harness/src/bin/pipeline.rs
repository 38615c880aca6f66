//! C30: from image to theme.
use mcu_harness::*;
#[path = "../ops/images.rs"]
mod images;
use images::*;
mod real {
    pub mod d {
        use material_color_utilities_rs as k;
        include!("../ops/dynamic.rs");
    }
    use material_color_utilities_rs as k;
    include!("../ops/pipeline.rs");
}
mod shade {
    pub mod d {
        use mcu_shadow as k;
        include!("../ops/dynamic.rs");
    }
    use mcu_shadow as k;
    include!("../ops/pipeline.rs");
}
fn one(x: &Ctx, stream: u64, i: u64, every: u64, size: u64) {
    let mut r = x.rng(stream << 40 | i);
    let px = image(&mut r, size, size * 3);
    let want = *r.pick(&[1, 2, 4, 8, 16, 64, 128]);
    let desired = if r.below(3) == 0 { None } else { Some(1 + r.below(6) as i64) };
    let pick = r.below(6) as usize;
    let v = (i % 9) as usize;
    let dark = r.below(2) == 0;
    let level = if r.below(4) == 0 { r.range(-1.0, 1.0) } else { *r.pick(&[-1.0, 0.0, 0.5, 1.0]) };
    let inp = vec![
        ("px", V::Cs(px.clone())),
        ("want", V::I(want)),
        ("desired", V::I(desired.unwrap_or(4))),
        ("variant", V::S(real::d::VARIANTS[v].to_string())),
        ("dark", V::B(dark)),
        ("level", V::R(level)),
    ];
    x.call(
        (i / 9) % every == 0,
        "pipeline",
        inp,
        || real::pipeline(&px, want, desired, pick, v, dark, level),
        || shade::pipeline(&px, want, desired, pick, v, dark, level),
    );
}
fn main() {
    let x = Ctx::from_args();
    x.scan("tiny", x.n(900, 18_000), |i| one(&x, 1, i, 10, 3));
    x.scan("small", x.n(900, 18_000), |i| one(&x, 2, i, 10, 12));
    x.scan("medium", x.n(450, 9_000), |i| one(&x, 3, i, 10, 60));
    x.scan("large", x.n(90, 1_800), |i| one(&x, 4, i, 5, 300));
    x.finish();
}
