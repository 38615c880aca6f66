// Included twice: `k` is the library under test or its frozen copy.
use k::blend::blend::Blend;
use k::dislike::dislike_analyzer::DislikeAnalyzer;
use k::hct::hct::Hct;
use k::palettes::core_palette::CorePalette;
use k::palettes::tonal_palette::TonalPalette;
#[allow(deprecated)]
use k::scheme::scheme::Scheme;
use mcu_harness::*;
use std::hash::{Hash, Hasher};

fn hash<T: Hash>(t: &T) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}
pub fn tones(h: f64, c: f64, whole: &[i64], reals: &[f64]) -> Out {
    let mut p = TonalPalette::of(h, c);
    vec![
        ("hue", V::R(p.hue)),
        ("chroma", V::R(p.chroma)),
        ("hcts", V::Cs(reals.iter().map(|t| p.get_hct(*t).to_int()).collect())),
        ("colours", V::Cs(whole.iter().map(|t| p.get(*t)).collect())),
    ]
}
pub fn key(h: f64, c: f64) -> Out {
    let k = TonalPalette::of(h, c).key_color;
    vec![("argb", V::C(k.to_int())), ("kh", V::R(k.get_hue())), ("kc", V::R(k.get_chroma())), ("kt", V::R(k.get_tone()))]
}
pub fn hctpal(argb: i64, tone: i64) -> Out {
    let h = Hct::from_int(argb);
    let mut p = TonalPalette::from_hct(&h);
    vec![
        ("hue", V::R(p.hue)),
        ("chroma", V::R(p.chroma)),
        ("key", V::C(p.key_color.to_int())),
        ("own", V::C(p.get_hct(h.get_tone()).to_int())),
        ("colour", V::C(p.get(tone))),
    ]
}

// ---------------------------------------------------------------- histories
fn make(kind: i64, h: f64, c: f64, list: &[i64]) -> TonalPalette {
    match kind {
        0 => TonalPalette::of(h, c),
        1 => TonalPalette::from_list(&list.to_vec()),
        _ => TonalPalette::from_hct(&Hct::from_int(list[0])),
    }
}
fn ask(p: &mut TonalPalette, op: i64, tone: f64) -> Vec<i64> {
    match op {
        1 => vec![p.get(tone as i64)],
        2 => vec![p.get_hct(tone).to_int()],
        3 => p.get_as_list(),
        _ => vec![],
    }
}
/// Palettes that resemble p: another hue or chroma by a hair, the same colours as a list, a list that differs in one.
fn kin(p: &TonalPalette) -> Vec<TonalPalette> {
    let l = p.clone().get_as_list();
    let mut m = l.clone();
    m[7] ^= 1;
    let mut near = TonalPalette::of(p.hue, p.chroma + 1e-9);
    let unasked = near.clone();
    near.get_as_list();
    vec![near, unasked, TonalPalette::from_list(&l), TonalPalette::from_list(&m)]
}
fn likes(p: &TonalPalette, kin: &[TonalPalette]) -> Vec<i64> {
    kin.iter().flat_map(|q| [(p == q) as i64, (q == p) as i64]).collect()
}
/// ops: (operation, who, tone); see PaletteObject.
pub fn history(kind: i64, h: f64, c: f64, list: &[i64], ops: &[(i64, i64, f64)]) -> Out {
    let mut a = make(kind, h, c, list);
    let mut b: Option<TonalPalette> = None;
    let (hue, chroma, key) = (a.hue, a.chroma, a.key_color.to_int());
    let kin = kin(&a);
    let like = likes(&make(kind, h, c, list), &kin);
    let mut l = vec![];
    for (op, who, tone) in ops {
        if *op == 4 {
            b = Some(a.clone());
        }
        let p = if *who == 2 { b.as_mut().unwrap_or(&mut a) } else { &mut a };
        let ans = ask(p, *op, *tone);
        let mut fresh = make(kind, h, c, list);
        let text = p.to_string() == fresh.to_string();
        let eq = *p == fresh && fresh == *p && hash(p) == hash(&fresh);
        l.push(vec![
            ("ans", V::Cs(ans)),
            ("hue", V::R(p.hue)),
            ("chroma", V::R(p.chroma)),
            ("key", V::C(p.key_color.to_int())),
            ("eq", V::B(eq)),
            ("text", V::B(text)),
            ("fresh", V::Cs(ask(&mut fresh, *op, *tone))),
            ("likes", V::Is(likes(p, &kin))),
            ("freshlikes", V::Is(like.clone())),
        ]);
    }
    vec![
        ("hue", V::R(hue)),
        ("chroma", V::R(chroma)),
        ("key", V::C(key)),
        ("given", V::Cs(if kind == 1 { list.to_vec() } else { vec![] })),
        ("obs", V::L(l)),
    ]
}

// ---------------------------------------------------------- lists, equality
fn numbers(s: &str) -> Vec<f64> {
    s.split(|c: char| !(c.is_ascii_digit() || c == '.' || c == '-' || c == 'e'))
        .filter(|w| w.chars().any(|c| c.is_ascii_digit()))
        .filter_map(|w| w.parse().ok())
        .collect()
}
pub fn list(list: &[i64], list2: &[i64], tone: i64) -> Out {
    let mut p = TonalPalette::from_list(&list.to_vec());
    let (hue, chroma) = (p.hue, p.chroma);
    let key = p.key_color.to_int();
    let tones = TonalPalette::COMMON_TONES;
    let got = tones.iter().map(|t| p.get(*t)).collect();
    let hct = tones.iter().map(|t| p.get_hct(*t as f64).to_int()).collect();
    let text = if p.to_string().contains("fromList") { numbers(&p.to_string().replace("TonalPalette.fromList", "")) } else { vec![] };
    let back = p.get_as_list();
    let again = TonalPalette::from_list(&back);
    let q = TonalPalette::from_list(&list2.to_vec());
    vec![
        ("back", V::Cs(back)),
        ("got", V::Cs(got)),
        ("hct", V::Cs(hct)),
        ("hue", V::R(hue)),
        ("chroma", V::R(chroma)),
        ("key", V::C(key)),
        ("eqself", V::B(p == again && again == p)),
        ("hashself", V::B(hash(&p) == hash(&again))),
        ("eqother", V::B(p == q)),
        ("hashother", V::B(hash(&p) == hash(&q))),
        ("text", V::Cs(text.iter().map(|x| *x as i64).collect())),
        ("other", V::C(p.get(tone))),
    ]
}
pub fn eq(h: f64, c: f64, h2: f64, c2: f64) -> Out {
    let (mut p, mut q) = (TonalPalette::of(h, c), TonalPalette::of(h2, c2));
    let text = if p.to_string().contains("TonalPalette.of(") { numbers(&p.to_string().replace("TonalPalette.of", "")) } else { vec![] };
    let (la, lb) = (p.get_as_list(), q.get_as_list());
    let l = TonalPalette::from_list(&la);
    // palettes made from HCT colours
    let (x, y) = (TonalPalette::from_hct(&Hct::from(h, c, 40.0)), TonalPalette::from_hct(&Hct::from(h2, c2, 40.0)));
    let z = TonalPalette::of(x.hue, x.chroma);
    let said = if x.to_string().contains("TonalPalette.of(") { numbers(&x.to_string().replace("TonalPalette.of", "")) } else { vec![] };
    vec![
        ("hct", V::Rs(vec![x.hue, x.chroma, y.hue, y.chroma])),
        ("hcteq", V::B(x == y)),
        ("hcteqr", V::B(y == x)),
        ("hcthash", V::B(hash(&x) == hash(&y))),
        ("hcteqof", V::B(x == z && z == x && hash(&x) == hash(&z))),
        ("hcttext", V::Rs(said)),
        ("eq", V::B(p == q)),
        ("eqr", V::B(q == p)),
        ("hash", V::B(hash(&p) == hash(&q))),
        ("eqlist", V::B(p == l)),
        ("eqlistr", V::B(l == p)),
        ("eqodd", V::B(l == q)),
        ("hashlist", V::B(hash(&l) == hash(&p))),
        ("hashodd", V::B(hash(&l) == hash(&q))),
        ("lista", V::Cs(la)),
        ("listb", V::Cs(lb)),
        ("text", V::Rs(text)),
    ]
}
fn parts(p: &mut CorePalette) -> Vec<i64> {
    let mut v = p.primary.get_as_list();
    v.extend(p.secondary.get_as_list());
    v.extend(p.tertiary.get_as_list());
    v.extend(p.neutral.get_as_list());
    v.extend(p.neutral_variant.get_as_list());
    v
}
pub fn corelist(argb: i64, content: bool) -> Out {
    let mut p = if content { CorePalette::content_of(argb) } else { CorePalette::of(argb) };
    let l = p.as_list();
    let mut q = CorePalette::from_list(&l);
    vec![
        ("parts", V::Cs(parts(&mut p))),
        ("eq", V::B(p == q)),
        ("back", V::Cs(q.as_list())),
        ("parts2", V::Cs(parts(&mut q))),
        ("list", V::Cs(l)),
        ("texts", V::Ss(texts(&p))),
        ("tonal", V::Ss(tonal(&p))),
    ]
}
fn tonal(p: &CorePalette) -> Vec<String> {
    [&p.primary, &p.secondary, &p.tertiary, &p.neutral, &p.neutral_variant, &p.error].iter().map(|t| t.to_string().trim().to_string()).collect()
}
/// What a core palette's text says after each name.
fn texts(p: &CorePalette) -> Vec<String> {
    let t = p.to_string();
    let say = |name: &str| {
        let l: Vec<String> = t.lines().filter_map(|l| l.trim().strip_prefix(name).map(|r| r.trim().to_string())).collect();
        l.join("|")
    };
    ["primary:", "secondary:", "tertiary:", "neutral:", "neutralVariant:", "error:"].iter().map(|n| say(n)).collect()
}
/// A core palette made from any list.
pub fn corefrom(l: &Vec<i64>, l2: &Vec<i64>) -> Out {
    let mut p = CorePalette::from_list(l);
    let q = CorePalette::from_list(l2);
    vec![
        ("parts", V::Cs(parts(&mut p))),
        ("back", V::Cs(p.as_list())),
        ("eq", V::B(p == CorePalette::from_list(l))),
        ("eqother", V::B(p == q)),
        ("texts", V::Ss(texts(&p))),
        ("tonal", V::Ss(tonal(&p))),
        ("error", V::Rs(vec![p.error.hue, p.error.chroma])),
    ]
}
pub fn core(argb: i64, content: bool) -> Out {
    let p = if content { CorePalette::content_of(argb) } else { CorePalette::of(argb) };
    let f = |t: &TonalPalette| V::Rs(vec![t.hue, t.chroma]);
    vec![
        ("primary", f(&p.primary)),
        ("secondary", f(&p.secondary)),
        ("tertiary", f(&p.tertiary)),
        ("neutral", f(&p.neutral)),
        ("neutralv", f(&p.neutral_variant)),
        ("error", f(&p.error)),
    ]
}
#[allow(deprecated)]
pub fn legacy(argb: i64, dark: bool, content: bool) -> Out {
    let s = match (dark, content) {
        (false, false) => Scheme::light(argb),
        (true, false) => Scheme::dark(argb),
        (false, true) => Scheme::light_content(argb),
        (true, true) => Scheme::dark_content(argb),
    };
    legacy_roles(&s)
}
/// The scheme of a core palette made from any 65 colours.
#[allow(deprecated)]
pub fn fromcore(l: &Vec<i64>, dark: bool) -> Out {
    let p = CorePalette::from_list(l);
    legacy_roles(&if dark { Scheme::dark_from_core_palette(p) } else { Scheme::light_from_core_palette(p) })
}
#[allow(deprecated)]
fn legacy_roles(s: &Scheme) -> Out {
    vec![(
        "roles",
        V::Cs(vec![
            s.primary, s.on_primary, s.primary_container, s.on_primary_container, s.secondary, s.on_secondary,
            s.secondary_container, s.on_secondary_container, s.tertiary, s.on_tertiary, s.tertiary_container,
            s.on_tertiary_container, s.error, s.on_error, s.error_container, s.on_error_container, s.background,
            s.on_background, s.surface, s.on_surface, s.surface_variant, s.on_surface_variant, s.outline,
            s.outline_variant, s.shadow, s.scrim, s.inverse_surface, s.inverse_on_surface, s.inverse_primary,
        ]),
    )]
}

// ------------------------------------------------------------ dislike, blend
pub fn dislike(argb: i64) -> Out {
    let h = Hct::from_int(argb);
    let f = DislikeAnalyzer::fix_if_disliked(&h);
    vec![
        ("bad", V::B(DislikeAnalyzer::is_disliked(&h))),
        ("fixed", V::C(f.to_int())),
        ("still", V::B(DislikeAnalyzer::is_disliked(&f))),
        ("again", V::C(DislikeAnalyzer::fix_if_disliked(&f).to_int())),
    ]
}
pub fn blend(a: i64, b: i64, t: f64) -> Out {
    vec![
        ("harm", V::C(Blend::harmonize(a, b))),
        ("selfharm", V::C(Blend::harmonize(a, a))),
        ("ucs", V::C(Blend::cam16_ucs(a, b, t))),
        ("ucs0", V::C(Blend::cam16_ucs(a, b, 0.0))),
        ("ucs1", V::C(Blend::cam16_ucs(a, b, 1.0))),
        ("hue", V::C(Blend::hct_hue(a, b, t))),
        ("hue0", V::C(Blend::hct_hue(a, b, 0.0))),
        ("hue1", V::C(Blend::hct_hue(a, b, 1.0))),
    ]
}
