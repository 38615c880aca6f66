// Included twice: `k` is the library under test or its frozen copy.
use k::score::score::Score;
use mcu_harness::*;
use std::collections::HashMap;

pub struct Asked {
    pub cols: Vec<i64>,
    pub pops: Vec<i64>,
    pub desired: Option<i64>,
    pub fallback: Option<i64>,
    pub filter: Option<bool>,
}
pub fn score(a: &Asked) -> Out {
    let map = |v: Vec<(i64, i64)>| v.into_iter().collect::<HashMap<i64, i64>>();
    let pairs: Vec<(i64, i64)> = a.cols.iter().copied().zip(a.pops.iter().copied()).collect();
    let mut back = pairs.clone();
    back.reverse();
    let out = Score::score(&map(pairs), a.desired, a.fallback, a.filter);
    let again = Score::score(&map(back), a.desired, a.fallback, a.filter);
    vec![("out", V::Cs(out)), ("again", V::Cs(again))]
}
