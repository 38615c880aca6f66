// Included twice: `k` is the library under test or its frozen copy.
use k::hct::hct::Hct;
use k::temperature::temperature_cache::TemperatureCache as T;
use mcu_harness::*;

pub fn raw(argb: i64) -> Out {
    vec![("t", V::R(T::raw_temperature(&Hct::from_int(argb))))]
}
pub fn between(x: f64, a: f64, b: f64) -> Out {
    vec![("yes", V::B(T::is_between(x, a, b)))]
}
fn ints(v: &[Hct]) -> Vec<i64> {
    v.iter().map(|h| h.to_int()).collect()
}
/// Everything about one colour.
pub fn temp(argb: i64, at: &[i64], analogues: &[(i64, i64)]) -> Out {
    let h = Hct::from_int(argb);
    let mut round = T::new(h.clone());
    let circle = round.get_hcts_by_hue();
    let mut c = T::new(h.clone());
    let mut heat = T::new(h.clone());
    let map = heat.get_temps_by_hct();
    let mut temps: Vec<f64> = circle.iter().map(|h| map[h]).collect();
    temps.push(map[&h]);
    let rel: Vec<f64> = at.iter().map(|k| c.relative_temperature(&circle[*k as usize])).collect();
    let mut l = vec![];
    for (n, d) in analogues {
        // 0 stands for the default: 5 colours, 12 divisions
        let some = |x: &i64| if *x == 0 { None } else { Some(*x) };
        let a = T::new(h.clone()).analogous(some(n), some(d));
        l.push(vec![("count", V::I(if *n == 0 { 5 } else { *n })), ("divisions", V::I(if *d == 0 { 12 } else { *d })), ("list", V::Cs(ints(&a)))]);
    }
    vec![
        ("circle", V::Cs(ints(&circle))),
        ("warmest", V::C(T::new(h.clone()).get_warmest().to_int())),
        ("coldest", V::C(T::new(h.clone()).get_coldest().to_int())),
        ("complement", V::C(T::new(h.clone()).get_complement().to_int())),
        ("rel", V::R(T::new(h.clone()).get_input_relative_temperature())),
        ("rels", V::Rs(rel)),
        ("temps", V::Rs(temps)),
        ("order", V::Cs(ints(&T::new(h.clone()).get_hcts_by_temp()))),
        ("analogues", V::L(l)),
    ]
}
/// One question; the answer as colours and reals.
fn ask(c: &mut T, q: &str, arg: i64) -> (Vec<i64>, Vec<f64>) {
    match q {
        "warmest" => (vec![c.get_warmest().to_int()], vec![]),
        "coldest" => (vec![c.get_coldest().to_int()], vec![]),
        "complement" => (vec![c.get_complement().to_int()], vec![]),
        "analogous" => (
            ints(&match arg % 3 {
                0 => c.analogous(None, None),
                1 => c.analogous(Some(3), Some(6)),
                _ => c.analogous(Some(1 + arg % 9), Some(1 + arg % 13)),
            }),
            vec![],
        ),
        "relative" => {
            let x = Hct::from((arg % 361) as f64, c.input.get_chroma(), c.input.get_tone());
            (vec![], vec![c.relative_temperature(&x)])
        }
        "input" => (vec![], vec![c.get_input_relative_temperature()]),
        "order" => (ints(&c.get_hcts_by_temp()), vec![]),
        "hues" => (ints(&c.get_hcts_by_hue()), vec![]),
        _ => {
            let m = c.get_temps_by_hct();
            let mut v: Vec<(i64, f64)> = m.iter().map(|(h, t)| (h.to_int(), *t)).collect();
            v.sort_by_key(|e| e.0);
            (v.iter().map(|e| e.0).collect(), v.iter().map(|e| e.1).collect())
        }
    }
}
pub fn order(argb: i64, questions: &[String], args: &[i64]) -> Out {
    let h = Hct::from_int(argb);
    let mut c = T::new(h.clone());
    let mut l = vec![];
    for (q, a) in questions.iter().zip(args) {
        let (x, y) = ask(&mut c, q, *a);
        let (fx, fy) = ask(&mut T::new(h.clone()), q, *a);
        l.push(vec![("q", V::S(q.clone())), ("c", V::Cs(x)), ("r", V::Rs(y)), ("freshc", V::Cs(fx)), ("freshr", V::Rs(fy))]);
    }
    vec![("circle", V::Cs(ints(&T::new(h).get_hcts_by_hue()))), ("obs", V::L(l))]
}
