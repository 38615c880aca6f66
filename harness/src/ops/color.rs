// Included twice: `k` is the library under test or its frozen copy.
use k::contrast::contrast::Contrast;
use k::dynamiccolor::src::contrast_curve::ContrastCurve;
use k::utils::color_utils::ColorUtils as U;
use k::utils::math_utils::MathUtils as M;
use k::utils::string_utils::StringUtils as S;
use mcu_harness::*;

pub fn pack(r: i64, g: i64, b: i64) -> Out {
    let c = U::argb_from_rgb(r, g, b);
    let mut o = vec![("argb", V::C(c))];
    o.extend(parts(c));
    o
}
fn parts(c: i64) -> Out {
    vec![
        ("a", V::I(U::alpha_from_argb(c))),
        ("r", V::I(U::red_from_argb(c))),
        ("g", V::I(U::green_from_argb(c))),
        ("b", V::I(U::blue_from_argb(c))),
        ("opaque", V::B(U::is_opaque(c))),
    ]
}
pub fn unpack(c: i64) -> Out {
    parts(c)
}
pub fn hex(c: i64) -> Out {
    let (p, h, d) = (S::hex_from_argb(c, Some(false)), S::hex_from_argb(c, Some(true)), S::hex_from_argb(c, None));
    let (b1, b2) = (S::argb_from_hex(p.clone()), S::argb_from_hex(h.clone()));
    vec![
        ("plain", V::S(p)),
        ("hash", V::S(h)),
        ("dflt", V::S(d)),
        ("ok1", V::B(b1.is_some())),
        ("ok2", V::B(b2.is_some())),
        ("back1", V::C(b1.unwrap_or(-1))),
        ("back2", V::C(b2.unwrap_or(-1))),
    ]
}
pub fn parse(t: &str) -> Out {
    let v = S::argb_from_hex(t.to_string());
    vec![("ok", V::B(v.is_some())), ("value", V::C(v.unwrap_or(0)))]
}
pub fn lstar(l: f64, m: f64) -> Out {
    let (y, ym) = (U::y_from_lstar(l), U::y_from_lstar(m));
    let (g, gm) = (U::argb_from_lstar(l), U::argb_from_lstar(m));
    vec![
        ("y", V::R(y)),
        ("ym", V::R(ym)),
        ("lback", V::R(U::lstar_from_y(y))),
        ("grey", V::C(g)),
        ("greym", V::C(gm)),
        ("lgrey", V::R(U::lstar_from_argb(g))),
    ]
}
pub fn yl(y: f64) -> Out {
    let l = U::lstar_from_y(y);
    vec![("l", V::R(l)), ("yback", V::R(U::y_from_lstar(l)))]
}
pub fn comp(n: i64) -> Out {
    let l = U::linearized(n);
    vec![("lin", V::R(l)), ("back", V::I(U::delinearized(l))), ("prev", V::R(U::linearized((n - 1).max(0))))]
}
pub fn delin(v: f64, w: f64) -> Out {
    vec![("n", V::I(U::delinearized(v))), ("m", V::I(U::delinearized(w)))]
}
pub fn tone(c: i64) -> Out {
    vec![("l", V::R(U::lstar_from_argb(c))), ("lab", V::R(U::lab_from_argb(c)[0])), ("y", V::R(U::xyz_from_argb(c)[1]))]
}
pub fn space(c: i64) -> Out {
    let x = U::xyz_from_argb(c);
    let l = U::lab_from_argb(c);
    let lin = vec![U::linearized(U::red_from_argb(c)), U::linearized(U::green_from_argb(c)), U::linearized(U::blue_from_argb(c))];
    vec![
        ("xback", V::C(U::argb_from_xyz(x[0], x[1], x[2]))),
        ("lback", V::C(U::argb_from_lab(l[0], l[1], l[2]))),
        ("linback", V::C(U::argb_from_linrgb(lin))),
        ("xyz", V::Rs(x)),
        ("lab", V::Rs(l)),
    ]
}
pub fn from3(which: i64, v: [f64; 3]) -> Out {
    vec![(
        "argb",
        V::C(match which {
            0 => U::argb_from_xyz(v[0], v[1], v[2]),
            1 => U::argb_from_lab(v[0], v[1], v[2]),
            _ => U::argb_from_linrgb(v.to_vec()),
        }),
    )]
}
pub fn white() -> Out {
    vec![("wp", V::Rs(U::white_point_d65())), ("xyz", V::Rs(U::xyz_from_argb(0xffffffff)))]
}
pub fn ratio(a: f64, b: f64, c: f64) -> Out {
    vec![
        ("r", V::R(Contrast::ratio_of_tones(a, b))),
        ("s", V::R(Contrast::ratio_of_tones(b, a))),
        ("self", V::R(Contrast::ratio_of_tones(a, a))),
        ("far", V::R(Contrast::ratio_of_tones(a, c))),
    ]
}
pub fn find(t: f64, r: f64) -> Out {
    vec![
        ("lighter", V::R(Contrast::lighter(t, r))),
        ("darker", V::R(Contrast::darker(t, r))),
        ("ulighter", V::R(Contrast::lighter_unsafe(t, r))),
        ("udarker", V::R(Contrast::darker_unsafe(t, r))),
    ]
}
pub fn angle(a: f64, b: f64, i: i64) -> Out {
    let (sa, sb) = (M::sanitize_degrees_double(a), M::sanitize_degrees_double(b));
    vec![
        ("sa", V::R(sa)),
        ("sb", V::R(sb)),
        ("ssa", V::R(M::sanitize_degrees_double(sa))),
        ("si", V::I(M::sanitize_degrees_int(i))),
        ("diff", V::R(M::difference_degrees(sa, sb))),
        ("diffr", V::R(M::difference_degrees(sb, sa))),
        ("dir", V::R(M::rotation_direction(sa, sb))),
    ]
}
pub fn calc(x: f64, y: f64, t: f64, lo: f64, hi: f64, n: i64, ilo: i64, ihi: i64) -> Out {
    vec![
        ("sign", V::I(M::signum(x))),
        ("l0", V::R(M::lerp(x, y, 0.0))),
        ("l1", V::R(M::lerp(x, y, 1.0))),
        ("lt", V::R(M::lerp(x, y, t))),
        ("cd", V::R(M::clamp_double(lo, hi, x))),
        ("ci", V::I(M::clamp_int(ilo, ihi, n))),
    ]
}
pub fn matrix(v: [f64; 3], m: [[f64; 3]; 3]) -> Out {
    vec![("p", V::Rs(M::matrix_multiply(v.to_vec(), m.iter().map(|r| r.to_vec()).collect())))]
}
pub fn curve(c: [f64; 4], level: f64, level2: f64) -> Out {
    let q = ContrastCurve::new(c[0], c[1], c[2], c[3]);
    vec![
        ("v", V::R(q.get(level))),
        ("v2", V::R(q.get(level2))),
        ("vnear", V::R(q.get(level + 1e-7))),
        ("at", V::Rs(vec![q.get(-1.0), q.get(0.0), q.get(0.5), q.get(1.0)])),
    ]
}
