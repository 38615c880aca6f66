// Included twice: `k` is the library under test or its frozen copy.
use k::quantize::quantizer::{Quantizer, QuantizerResult};
use k::quantize::quantizer_celebi::QuantizerCelebi;
use k::quantize::quantizer_map::QuantizerMap;
use k::quantize::quantizer_wsmeans::QuantizerWsmeans;
use k::quantize::quantizer_wu::QuantizerWu;
use mcu_harness::*;

/// Colours ascending with their counts.
fn table(r: &QuantizerResult) -> (Vec<i64>, Vec<i64>) {
    let mut v: Vec<(i64, i64)> = r.color_to_count.iter().map(|(c, n)| (*c, *n)).collect();
    v.sort();
    (v.iter().map(|e| e.0).collect(), v.iter().map(|e| e.1).collect())
}
/// The colour each distinct pixel is mapped to, in order of first appearance.
fn mapping(r: &QuantizerResult, px: &[i64]) -> Vec<i64> {
    let mut seen = std::collections::HashSet::new();
    px.iter().filter(|p| seen.insert(**p)).map(|p| r.input_pixel_to_cluster_pixel.get(p).copied().unwrap_or(-1)).collect()
}
fn answer(r: &QuantizerResult) -> Out {
    let (c, n) = table(r);
    vec![("cols", V::Cs(c)), ("counts", V::Is(n))]
}
pub fn count(px: &Vec<i64>, want: i64) -> Out {
    answer(&QuantizerMap {}.quantize(px, want, None))
}
pub fn wu(px: &Vec<i64>, want: i64) -> Out {
    answer(&QuantizerWu::new().quantize(px, want, None))
}
fn full(m: &QuantizerResult, p: &QuantizerResult, px: &[i64]) -> Out {
    let mut o = answer(m);
    let (c, n) = table(p);
    o.push(("to", V::Cs(mapping(m, px))));
    o.push(("keys", V::I(m.input_pixel_to_cluster_pixel.len() as i64)));
    o.push(("plaincols", V::Cs(c)));
    o.push(("plaincounts", V::Is(n)));
    o.push(("plainkeys", V::I(p.input_pixel_to_cluster_pixel.len() as i64)));
    o
}
/// iters < 0: the default
pub fn means(px: &Vec<i64>, want: i64, start: Option<&Vec<i64>>, iters: i64) -> Out {
    let it = if iters < 0 { None } else { Some(iters) };
    let m = QuantizerWsmeans::quantize(px, want, start, None, it, Some(true));
    let p = QuantizerWsmeans::quantize(px, want, start, None, it, None);
    full(&m, &p, px)
}
pub fn celebi(px: &Vec<i64>, want: i64) -> Out {
    let m = QuantizerCelebi {}.quantize(px, want, Some(true));
    let p = QuantizerCelebi {}.quantize(px, want, None);
    let mut o = full(&m, &p, px);
    o.push(("wu", V::Cs(table(&QuantizerWu::new().quantize(px, want, None)).0)));
    o
}
/// Result of one quantizer by name, with the mapping where there is one.
pub fn once(which: &str, px: &Vec<i64>, want: i64) -> Out {
    let r = match which {
        "map" => QuantizerMap {}.quantize(px, want, Some(true)),
        "wu" => QuantizerWu::new().quantize(px, want, Some(true)),
        "celebi" => QuantizerCelebi {}.quantize(px, want, Some(true)),
        _ => QuantizerWsmeans::quantize(px, want, None, None, None, Some(true)),
    };
    let mut o = answer(&r);
    o.push(("to", V::Cs(if which == "map" || which == "wu" { vec![] } else { mapping(&r, px) })));
    o
}
/// One quantizer used for several images, each use next to a fresh one's.
pub fn uses(which: &str, plan: &[(Vec<i64>, i64)]) -> Vec<Out> {
    let mut q: Box<dyn Quantizer> = match which {
        "wu" => Box::new(QuantizerWu::new()),
        "map" => Box::new(QuantizerMap {}),
        _ => Box::new(QuantizerCelebi {}),
    };
    let mut l = vec![];
    for (px, want) in plan {
        let mut o = answer(&q.quantize(px, *want, None));
        let f = match which {
            "wu" => QuantizerWu::new().quantize(px, *want, None),
            "map" => QuantizerMap {}.quantize(px, *want, None),
            _ => QuantizerCelebi {}.quantize(px, *want, None),
        };
        let (c, n) = table(&f);
        o.push(("freshcols", V::Cs(c)));
        o.push(("freshcounts", V::Is(n)));
        l.push(o);
    }
    l
}
pub fn table_of_celebi(px: &Vec<i64>, want: i64) -> Out {
    answer(&QuantizerCelebi {}.quantize(px, want, None))
}

/// Counting and Celebi on a large image, with the totals of the pixels mapped to each colour.
pub fn totals(px: &Vec<i64>, want: i64) -> Out {
    let m = QuantizerMap {}.quantize(px, want, None);
    let r = QuantizerCelebi {}.quantize(px, want, Some(true));
    let (cols, counts) = table(&r);
    let mut mapped = vec![0i64; cols.len()];
    let mut sums = vec![vec![0.0; 3]; cols.len()];
    let mut stray = 0;
    for p in px {
        match r.input_pixel_to_cluster_pixel.get(p).and_then(|c| cols.binary_search(c).ok()) {
            Some(k) => {
                mapped[k] += 1;
                let l = k::utils::color_utils::ColorUtils::lab_from_argb(*p);
                (0..3).for_each(|d| sums[k][d] += l[d]);
            }
            None => stray += 1,
        }
    }
    vec![
        ("cols", V::Cs(cols)),
        ("counts", V::Is(counts)),
        ("mapped", V::Is(mapped)),
        ("stray", V::I(stray)),
        ("keys", V::I(r.input_pixel_to_cluster_pixel.len() as i64)),
        ("counted", V::I(m.color_to_count.len() as i64)),
        ("countsum", V::I(m.color_to_count.values().sum())),
        ("wu", V::I(QuantizerWu::new().quantize(px, want, None).color_to_count.len() as i64)),
        ("sums", V::L0(sums)),
    ]
}
