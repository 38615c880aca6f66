// Included twice: `k` is the library under test or its frozen copy.
use k::quantize::quantizer::Quantizer;
use k::quantize::quantizer_celebi::QuantizerCelebi;
use k::score::score::Score;
use mcu_harness::*;

/// Quantizes, ranks, and builds one theme from the ranked colour number
/// `pick` (counted round).
pub fn pipeline(px: &Vec<i64>, want: i64, desired: Option<i64>, pick: usize, variant: usize, dark: bool, level: f64) -> Out {
    let run = || {
        let q = QuantizerCelebi {}.quantize(px, want, None);
        let out = Score::score(&q.color_to_count, desired, None, None);
        let mut t: Vec<(i64, i64)> = q.color_to_count.iter().map(|(c, n)| (*c, *n)).collect();
        t.sort();
        let pick = pick % out.len();
        let roles = d::roles(&d::scheme(variant, out[pick], dark, level));
        (t.iter().map(|e| e.0).collect::<Vec<_>>(), t.iter().map(|e| e.1).collect::<Vec<_>>(), out, pick, roles)
    };
    let (cols, counts, out, pick, roles) = run();
    let again = run();
    let mut o = vec![("cols", V::Cs(cols)), ("counts", V::Is(counts)), ("argb", V::C(out[pick])), ("out", V::Cs(out)), ("pick", V::I(pick as i64))];
    o.extend(roles);
    o.push(("againcols", V::Cs(again.0)));
    o.push(("againcounts", V::Is(again.1)));
    o.push(("againout", V::Cs(again.2)));
    o.push(("againcolours", again.4.iter().find(|e| e.0 == "colours").unwrap().1.clone()));
    o
}
