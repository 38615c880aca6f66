// Included twice: `k` is the library under test or its frozen copy.
use k::dislike::dislike_analyzer::DislikeAnalyzer;
use k::dynamiccolor::dynamic_color::DynamicColor;
use k::dynamiccolor::dynamic_scheme::DynamicScheme as S;
use k::dynamiccolor::material_dynamic_colors::MaterialDynamicColors as M;
use k::dynamiccolor::src::contrast_curve::ContrastCurve;
use k::dynamiccolor::src::tone_delta_pair::{ToneDeltaPair, TonePolarity};
use k::dynamiccolor::variant::Variant;
use k::hct::hct::Hct;
use k::palettes::tonal_palette::TonalPalette;
use k::scheme::{
    scheme_content::SchemeContent, scheme_expressive::SchemeExpressive, scheme_fidelity::SchemeFidelity,
    scheme_fruit_salad::SchemeFruitSalad, scheme_monochrome::SchemeMonochrome, scheme_neutral::SchemeNeutral,
    scheme_rainbow::SchemeRainbow, scheme_tonal_spot::SchemeTonalSpot, scheme_vibrant::SchemeVibrant,
};
use k::temperature::temperature_cache::TemperatureCache;
use mcu_harness::*;

type Role = (fn() -> DynamicColor, fn(&S) -> i64);
/// In the order of MaterialRoles.tla.
pub const ROLES: [Role; 54] = [
    (M::primary_palette_key_color, S::get_primary_palette_key_color),
    (M::secondary_palette_key_color, S::get_secondary_palette_key_color),
    (M::tertiary_palette_key_color, S::get_tertiary_palette_key_color),
    (M::neutral_palette_key_color, S::get_neutral_palette_key_color),
    (M::neutral_variant_palette_key_color, S::get_neutral_variant_palette_key_color),
    (M::background, S::get_background),
    (M::on_background, S::get_on_background),
    (M::surface, S::get_surface),
    (M::surface_dim, S::get_surface_dim),
    (M::surface_bright, S::get_surface_bright),
    (M::surface_container_lowest, S::get_surface_container_lowest),
    (M::surface_container_low, S::get_surface_container_low),
    (M::surface_container, S::get_surface_container),
    (M::surface_container_high, S::get_surface_container_high),
    (M::surface_container_highest, S::get_surface_container_highest),
    (M::on_surface, S::get_on_surface),
    (M::surface_variant, S::get_surface_variant),
    (M::on_surface_variant, S::get_on_surface_variant),
    (M::inverse_surface, S::get_inverse_surface),
    (M::inverse_on_surface, S::get_inverse_on_surface),
    (M::outline, S::get_outline),
    (M::outline_variant, S::get_outline_variant),
    (M::shadow, S::get_shadow),
    (M::scrim, S::get_scrim),
    (M::surface_tint, S::get_surface_tint),
    (M::primary, S::get_primary),
    (M::on_primary, S::get_on_primary),
    (M::primary_container, S::get_primary_container),
    (M::on_primary_container, S::get_on_primary_container),
    (M::inverse_primary, S::get_inverse_primary),
    (M::secondary, S::get_secondary),
    (M::on_secondary, S::get_on_secondary),
    (M::secondary_container, S::get_secondary_container),
    (M::on_secondary_container, S::get_on_secondary_container),
    (M::tertiary, S::get_tertiary),
    (M::on_tertiary, S::get_on_tertiary),
    (M::tertiary_container, S::get_tertiary_container),
    (M::on_tertiary_container, S::get_on_tertiary_container),
    (M::error, S::get_error),
    (M::on_error, S::get_on_error),
    (M::error_container, S::get_error_container),
    (M::on_error_container, S::get_on_error_container),
    (M::primary_fixed, S::get_primary_fixed),
    (M::primary_fixed_dim, S::get_primary_fixed_dim),
    (M::on_primary_fixed, S::get_on_primary_fixed),
    (M::on_primary_fixed_variant, S::get_on_primary_fixed_variant),
    (M::secondary_fixed, S::get_secondary_fixed),
    (M::secondary_fixed_dim, S::get_secondary_fixed_dim),
    (M::on_secondary_fixed, S::get_on_secondary_fixed),
    (M::on_secondary_fixed_variant, S::get_on_secondary_fixed_variant),
    (M::tertiary_fixed, S::get_tertiary_fixed),
    (M::tertiary_fixed_dim, S::get_tertiary_fixed_dim),
    (M::on_tertiary_fixed, S::get_on_tertiary_fixed),
    (M::on_tertiary_fixed_variant, S::get_on_tertiary_fixed_variant),
];
pub const VARIANTS: [&str; 9] =
    ["Monochrome", "Neutral", "TonalSpot", "Vibrant", "Expressive", "Content", "Fidelity", "Rainbow", "FruitSalad"];
pub fn scheme(variant: usize, argb: i64, dark: bool, level: f64) -> S {
    let h = Hct::from_int(argb);
    match VARIANTS[variant] {
        "Monochrome" => SchemeMonochrome::new(h, dark, level).dynamic_scheme,
        "Neutral" => SchemeNeutral::new(h, dark, level).dynamic_scheme,
        "TonalSpot" => SchemeTonalSpot::new(h, dark, level).dynamic_scheme,
        "Vibrant" => SchemeVibrant::new(h, dark, level).dynamic_scheme,
        "Expressive" => SchemeExpressive::new(h, dark, level).dynamic_scheme,
        "Content" => SchemeContent::new(h, dark, level).dynamic_scheme,
        "Fidelity" => SchemeFidelity::new(h, dark, level).dynamic_scheme,
        "Rainbow" => SchemeRainbow::new(h, dark, level).dynamic_scheme,
        _ => SchemeFruitSalad::new(h, dark, level).dynamic_scheme,
    }
}
fn pals(s: &S) -> [&TonalPalette; 6] {
    [&s.primary_palette, &s.secondary_palette, &s.tertiary_palette, &s.neutral_palette, &s.neutral_variant_palette, &s.error_palette]
}
fn pal_out(s: &S) -> Out {
    let p = pals(s);
    vec![
        ("hues", V::Rs(p.iter().map(|p| p.hue).collect())),
        ("chromas", V::Rs(p.iter().map(|p| p.chroma).collect())),
        ("keytones", V::Rs(p.iter().map(|p| p.key_color.get_tone()).collect())),
    ]
}
/// Every role of a scheme, both ways of asking.
pub fn roles(s: &S) -> Out {
    let mut o = pal_out(s);
    o.push(("srctone", V::R(s.source_color_hct.get_tone())));
    o.push(("tones", V::Rs(ROLES.iter().map(|r| (r.0)().get_tone(s)).collect())));
    o.push(("colours", V::Cs(ROLES.iter().map(|r| (r.1)(s)).collect())));
    o.push(("direct", V::Cs(ROLES.iter().map(|r| s.get_argb(&mut (r.0)())).collect())));
    o.push(("hcts", V::Cs(ROLES.iter().map(|r| (r.0)().get_hct(s).to_int()).collect())));
    o
}
/// What the roles say of themselves, and the surface that matters most for contrast (light, dark).
pub fn kinds() -> Out {
    let all: Vec<DynamicColor> = ROLES.iter().map(|r| (r.0)()).collect();
    let m = |dark: bool| plain_scheme(dark, 0.0);
    vec![
        ("names", V::Ss(all.iter().map(|d| d.name.clone()).collect())),
        ("isbg", V::Is(all.iter().map(|d| d.is_background as i64).collect())),
        ("highest", V::Cs([false, true].iter().map(|d| M::highest_surface(&m(*d)).get_argb(&m(*d))).collect())),
        ("dim", V::C(M::surface_dim().get_argb(&m(false)))),
        ("bright", V::C(M::surface_bright().get_argb(&m(true)))),
    ]
}
/// A scheme whose palettes are not those of any variant.
pub fn custom_scheme(variant: usize, argb: i64, dark: bool, level: f64, hc: &[f64]) -> S {
    let v = [
        Variant::Monochrome, Variant::Neutral, Variant::TonalSpot, Variant::Vibrant, Variant::Expressive, Variant::Content,
        Variant::Fidelity, Variant::Rainbow, Variant::FruitSalad,
    ];
    let p = |k: usize| TonalPalette::of(hc[2 * k], hc[2 * k + 1]);
    S::new(argb, v[variant].clone(), if level == 0.0 { None } else { Some(level) }, dark, p(0), p(1), p(2), p(3), p(4))
}
/// What a variant makes of a source colour.
pub fn variant(v: usize, argb: i64, dark: bool, level: f64) -> Out {
    let s = scheme(v, argb, dark, level);
    let src = Hct::from_int(argb);
    let mut o = pal_out(&s);
    let temp = match VARIANTS[v] {
        "Content" => TemperatureCache::new(src).analogous(Some(3), Some(6))[2].clone(),
        "Fidelity" => TemperatureCache::new(src).get_complement(),
        _ => src,
    };
    o.push(("third", V::C(temp.to_int())));
    o.push(("fixed", V::C(DislikeAnalyzer::fix_if_disliked(&temp).to_int())));
    o.push(("keys", V::Cs(pals(&s).iter().map(|p| p.key_color.to_int()).collect())));
    o.push(("is", V::S(format!("{:?}", s.variant))));
    o.push(("isdark", V::B(s.is_dark)));
    o.push(("islevel", V::R(s.contrast_level)));
    o.push(("issrc", V::C(s.source_color_argb)));
    o.push(("ishct", V::C(s.source_color_hct.to_int())));
    o
}
pub fn rotated(argb: i64, hues: &[f64], rots: &[f64]) -> Out {
    let h = Hct::from_int(argb);
    vec![("hue", V::R(h.get_hue())), ("turned", V::R(S::get_rotated_hue(&h, &hues.to_vec(), &rots.to_vec())))]
}

// ------------------------------------------------------ colours of one's own
fn bg(name: &'static str, t: f64) -> Option<Box<dyn Fn(&S) -> DynamicColor>> {
    Some(Box::new(move |_| DynamicColor::from_palette(Some(name), Box::new(|s| &s.neutral_palette), Box::new(move |_| t), Some(true), None, None, None, None)))
}
fn curve(c: &[f64]) -> Option<ContrastCurve> {
    Some(ContrastCurve::new(c[0], c[1], c[2], c[3]))
}
pub fn plain_scheme(dark: bool, level: f64) -> S {
    scheme(2, 0xff4285f4, dark, level)
}
/// One colour on one or two backgrounds.
pub fn solo(s: &S, wish: f64, is_bg: bool, bgs: &[f64], c: &[f64]) -> Out {
    let mut d = DynamicColor::from_palette(
        Some("it"),
        Box::new(|s| &s.primary_palette),
        Box::new(move |_| wish),
        Some(is_bg),
        if bgs.is_empty() { None } else { bg("bg", bgs[0]) },
        if bgs.len() > 1 { bg("bg2", bgs[1]) } else { None },
        if bgs.is_empty() { None } else { curve(c) },
        None,
    );
    let other = DynamicColor::new(
        "it",
        Box::new(|s| &s.primary_palette),
        Box::new(move |_| wish),
        is_bg,
        if bgs.is_empty() { None } else { bg("bg", bgs[0]) },
        if bgs.len() > 1 { bg("bg2", bgs[1]) } else { None },
        if bgs.is_empty() { None } else { curve(c) },
        None,
    );
    let t = d.get_tone(s);
    let argb = d.get_argb(s);
    vec![
        ("t", V::R(t)),
        ("argb", V::C(argb)),
        ("ph", V::R(s.primary_palette.hue)),
        ("pc", V::R(s.primary_palette.chroma)),
        ("t2", V::R(other.get_tone(s))),
    ]
}
fn half(name: &'static str, wish: f64, bg_tone: f64, c: [f64; 4], pair: Option<Box<dyn Fn(&S) -> ToneDeltaPair>>) -> DynamicColor {
    DynamicColor::new(name, Box::new(|s| &s.primary_palette), Box::new(move |_| wish), true, bg("bg", bg_tone), None, curve(&c), pair)
}
/// A pair a, b with a distance to keep; answers both tones.
#[allow(clippy::too_many_arguments)]
pub fn pair(s: &S, bg_tone: f64, wishes: [f64; 2], ca: [f64; 4], cb: [f64; 4], delta: f64, polarity: usize, together: bool) -> Out {
    let mk = move || -> Option<Box<dyn Fn(&S) -> ToneDeltaPair>> {
        Some(Box::new(move |_| {
            let p = [TonePolarity::Nearer, TonePolarity::Farther, TonePolarity::Lighter, TonePolarity::Darker];
            let p = p.into_iter().nth(polarity).unwrap();
            ToneDeltaPair::new(half("a", wishes[0], bg_tone, ca, None), half("b", wishes[1], bg_tone, cb, None), delta, p, together)
        }))
    };
    let a = half("a", wishes[0], bg_tone, ca, mk()).get_tone(s);
    let b = half("b", wishes[1], bg_tone, cb, mk()).get_tone(s);
    vec![("a", V::R(a)), ("b", V::R(b))]
}
pub fn fg(bgt: f64, ratio: f64) -> Out {
    vec![
        ("t", V::R(DynamicColor::foreground_tone(bgt, ratio))),
        ("enable", V::R(DynamicColor::enable_light_foreground(bgt))),
        ("prefers", V::B(DynamicColor::tone_prefers_light_foreground(bgt))),
        ("allows", V::B(DynamicColor::tone_allows_light_foreground(bgt))),
    ]
}

// ---------------------------------------------------------------- histories
#[derive(Clone)]
pub struct Ask {
    pub variant: usize,
    pub argb: i64,
    pub dark: bool,
    pub level: f64,
    pub twist: i64,
}
pub fn build(a: &Ask) -> S {
    let mut s = scheme(a.variant, a.argb, a.dark, a.level);
    match a.twist {
        1 => s.primary_palette = TonalPalette::of(s.primary_palette.hue + 1.0, s.primary_palette.chroma),
        2 => s.neutral_palette = TonalPalette::of(s.neutral_palette.hue, s.neutral_palette.chroma + 9.0),
        3 => s.secondary_palette = TonalPalette::of(s.secondary_palette.hue + 90.0, s.secondary_palette.chroma),
        4 => s.tertiary_palette = TonalPalette::of(s.tertiary_palette.hue, s.tertiary_palette.chroma * 0.5 + 20.0),
        5 => s.neutral_variant_palette = TonalPalette::of(s.neutral_variant_palette.hue + 180.0, 30.0),
        6 => s.error_palette = TonalPalette::of(300.0, 84.0),
        // another source, or another variant, with the very same palettes
        7 => {
            s.source_color_argb ^= 0x100040;
            s.source_color_hct = Hct::from_int(s.source_color_argb);
        }
        8 => s.variant = if matches!(s.variant, k::dynamiccolor::variant::Variant::Fidelity) { k::dynamiccolor::variant::Variant::Vibrant } else { k::dynamiccolor::variant::Variant::Fidelity },
        _ => {}
    }
    s
}
/// One dynamic colour object per role asked about several schemes in turn.
pub fn history(role: usize, schemes: &[Ask], order: &[usize]) -> Out {
    let all: Vec<S> = schemes.iter().map(build).collect();
    let mut d = (ROLES[role].0)();
    let mut l = vec![];
    for k in order {
        let s = &all[*k];
        let c = match l.len() % 3 {
            0 => d.get_argb(s),
            1 => d.get_hct(s).to_int(),
            _ => s.get_argb(&mut d),
        };
        let t = d.get_tone(s);
        let f = (ROLES[role].0)().get_argb(&build(&schemes[*k]));
        l.push(vec![("c", V::C(c)), ("t", V::R(t)), ("fresh", V::C(f)), ("getter", V::C((ROLES[role].1)(s)))]);
    }
    let mut same = vec![];
    for (i, a) in all.iter().enumerate() {
        for b in all[..i].iter() {
            same.push((a == b) as i64);
        }
    }
    let hash = |s: &S| {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        s.hash(&mut h);
        h.finish()
    };
    let again: bool = schemes.iter().zip(&all).all(|(a, s)| build(a) == *s && s.clone() == *s);
    // whatever equals a scheme hashes like it; -0.0 is 0.0
    let mut twins: Vec<S> = schemes.iter().map(build).collect();
    for s in twins.iter_mut() {
        s.contrast_level = if s.contrast_level == 0.0 { -s.contrast_level } else { s.contrast_level };
        let l = s.primary_palette.clone().get_as_list();
        s.primary_palette = TonalPalette::from_list(&l);
    }
    let like = twins.iter().zip(&all).all(|(a, s)| a == s && s == a && hash(a) == hash(s));
    vec![("same", V::Is(same)), ("again", V::B(again)), ("obs", V::L(l)), ("like", V::B(like))]
}
