// Included twice: `k` is the library under test or its frozen copy.
use k::hct::cam16::Cam16;
use k::hct::hct::Hct;
use k::hct::viewing_conditions::ViewingConditions;
use mcu_harness::*;

fn cam_out(c: &Cam16) -> Out {
    vec![
        ("hue", V::R(c.hue)),
        ("chroma", V::R(c.chroma)),
        ("j", V::R(c.j)),
        ("q", V::R(c.q)),
        ("m", V::R(c.m)),
        ("s", V::R(c.s)),
        ("jstar", V::R(c.jstar)),
        ("astar", V::R(c.astar)),
        ("bstar", V::R(c.bstar)),
    ]
}
/// Everything the library says about one colour.
pub fn coords(argb: i64) -> Out {
    let c = Cam16::from_int(argb);
    let h = Hct::from_int(argb);
    let u = Cam16::from_ucs(c.jstar, c.astar, c.bstar);
    let j = Cam16::from_jch(c.j, c.chroma, c.hue);
    let mut o = cam_out(&c);
    o.push(("back", V::C(c.to_int())));
    o.push(("hh", V::R(h.get_hue())));
    o.push(("hc", V::R(h.get_chroma())));
    o.push(("ht", V::R(h.get_tone())));
    o.push(("hint", V::C(h.to_int())));
    o.push(("ub", V::C(u.to_int())));
    o.push(("jb", V::C(j.to_int())));
    o
}
pub fn jch(j: f64, c: f64, h: f64) -> Out {
    let x = Cam16::from_jch(j, c, h);
    let mut o = cam_out(&x);
    o.push(("argb", V::C(x.to_int())));
    o
}
pub fn ucs(j: f64, a: f64, b: f64) -> Out {
    let x = Cam16::from_ucs(j, a, b);
    let mut o = cam_out(&x);
    o.push(("argb", V::C(x.to_int())));
    o
}
pub fn dist(a: i64, b: i64) -> Out {
    let (x, y) = (Cam16::from_int(a), Cam16::from_int(b));
    vec![("d", V::R(x.distance(&y))), ("e", V::R(y.distance(&x)))]
}

// ------------------------------------------------------ viewing conditions
pub fn vc(wp: [f64; 3], al: f64, bg: f64, sur: f64, disc: bool) -> ViewingConditions {
    ViewingConditions::make(Some(wp.to_vec()), Some(al), Some(bg), Some(sur), Some(disc))
}
fn vc_out(v: &ViewingConditions) -> Out {
    vec![
        ("n", V::R(v.background_y_to_white_point_y)),
        ("aw", V::R(v.aw)),
        ("nbb", V::R(v.nbb)),
        ("ncb", V::R(v.ncb)),
        ("c", V::R(v.c)),
        ("nc", V::R(v.n_c)),
        ("rgbd", V::Rs(v.rgb_d.clone())),
        ("fl", V::R(v.fl)),
        ("flroot", V::R(v.f_lroot)),
        ("z", V::R(v.z)),
    ]
}
pub fn default_vc(which: i64) -> Out {
    vc_out(&match which {
        0 => ViewingConditions::s_rgb(),
        1 => ViewingConditions::standard(),
        2 => ViewingConditions::make(None, None, None, None, None),
        3 => ViewingConditions::make(None, Some(-1.0), None, None, None),
        _ => ViewingConditions::make(None, Some(0.0), Some(50.0), Some(2.0), Some(false)),
    })
}
pub fn make_vc(wp: [f64; 3], al: f64, bg: f64, sur: f64, disc: bool) -> Out {
    vc_out(&vc(wp, al, bg, sur, disc))
}
/// A colour seen under given conditions, and recast to the default ones.
pub fn seen(argb: i64, wp: [f64; 3], al: f64, bg: f64, sur: f64, disc: bool) -> Out {
    let v = vc(wp, al, bg, sur, disc);
    let c = Cam16::from_int_in_viewing_conditions(argb, &v);
    let u = Cam16::from_ucs_in_viewing_conditions(c.jstar, c.astar, c.bstar, &v);
    let mut o = cam_out(&c);
    o.push(("back", V::C(c.viewed(&v))));
    o.push(("ub", V::C(u.viewed(&v))));
    let d = Cam16::from_int(argb);
    o.push(("xyz", V::Rs(d.xyz_in_viewing_conditions(&v, None))));
    o.push(("viewed", V::C(d.viewed(&v))));
    let h = Hct::from_int(argb).in_viewing_conditions(&v);
    o.push(("recast", V::C(h.to_int())));
    o
}
/// An XYZ stimulus seen under given conditions, and shown again from J, C and h.
pub fn stimulus(xyz: [f64; 3], wp: [f64; 3], al: f64, bg: f64, sur: f64, disc: bool) -> Out {
    let v = vc(wp, al, bg, sur, disc);
    let c = Cam16::from_xyz_in_viewing_conditions(xyz[0], xyz[1], xyz[2], &v);
    let d = Cam16::from_jch_in_viewing_conditions(c.j, c.chroma, c.hue, &v);
    let mut o = cam_out(&c);
    o.push(("xyz", V::Rs(d.xyz_in_viewing_conditions(&v, Some(&vec![0.0; 3])))));
    o
}
pub fn jchin(j: f64, c: f64, h: f64, wp: [f64; 3], al: f64, bg: f64, sur: f64, disc: bool) -> Out {
    let v = vc(wp, al, bg, sur, disc);
    let x = Cam16::from_jch_in_viewing_conditions(j, c, h, &v);
    let mut o = cam_out(&x);
    o.push(("argb", V::C(x.viewed(&v))));
    o
}

// ------------------------------------------------------------- HCT requests
pub fn solve(h: f64, c: f64, t: f64) -> Out {
    let x = Hct::from(h, c, t);
    vec![
        ("argb", V::C(x.to_int())),
        ("oh", V::R(x.get_hue())),
        ("oc", V::R(x.get_chroma())),
        ("ot", V::R(x.get_tone())),
    ]
}
/// Replays a history of setters on one object; op 1 hue, 2 chroma, 3 tone.
pub fn setters(start: i64, ops: &[(i64, f64)]) -> Out {
    use std::hash::{Hash, Hasher};
    let obs = |x: &Hct| -> Out {
        let f = Hct::from_int(x.to_int());
        let hash = |x: &Hct| {
            let mut s = std::collections::hash_map::DefaultHasher::new();
            x.hash(&mut s);
            s.finish()
        };
        vec![
            ("argb", V::C(x.to_int())),
            ("oh", V::R(x.get_hue())),
            ("oc", V::R(x.get_chroma())),
            ("ot", V::R(x.get_tone())),
            ("text", V::S(x.to_string())),
            ("eqfresh", V::B(*x == f && hash(x) == hash(&f))),
        ]
    };
    let mut x = Hct::from_int(start);
    let first = x.clone();
    let mut l = vec![obs(&x)];
    for (op, v) in ops {
        let before = x.clone();
        match op {
            1 => x.set_hue(*v),
            2 => x.set_chroma(*v),
            _ => x.set_tone(*v),
        }
        let mut o = obs(&x);
        // the clone taken before must not move, and equality is colour equality
        o.push(("was", V::C(before.to_int())));
        o.push(("eqwas", V::B(x == before)));
        o.push(("eqfirst", V::B(x == first)));
        l.push(o);
    }
    vec![("obs", V::L(l))]
}
#[allow(dead_code)]
pub fn solve_own(a: i64) -> (f64, f64, f64) {
    let h = Hct::from_int(a);
    (h.get_hue(), h.get_chroma(), h.get_tone())
}
