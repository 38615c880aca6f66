//! C20, C21, C22, C23: quantizers.
use mcu_harness::*;
mod real {
    use material_color_utilities_rs as k;
    include!("../ops/quantize.rs");
}
mod shade {
    use mcu_shadow as k;
    include!("../ops/quantize.rs");
}
#[path = "../ops/images.rs"]
mod images;
use images::*;
/// The same, with pixels that are not opaque here and there.
fn veiled(r: &mut Rng, mut px: Vec<i64>) -> Vec<i64> {
    if r.below(3) == 0 {
        for p in px.iter_mut() {
            if r.below(4) == 0 {
                let a = if r.below(2) == 0 { *r.pick(&[0i64, 1, 127, 128, 254]) } else { r.below(255) as i64 };
                *p = (*p & 0xffffff) | (a << 24);
            }
        }
    }
    px
}
fn starts(r: &mut Rng, px: &[i64], want: i64) -> Vec<i64> {
    let n = match r.below(6) {
        0 => 0,
        1 => r.below(want as u64 + 1),
        _ => want as u64 + r.below(3),
    };
    let mut v: Vec<i64> = (0..n).map(|_| if r.below(3) == 0 { r.argb() } else { *r.pick(px) }).collect();
    if r.below(3) == 0 {
        v.sort();
        v.dedup();
    }
    v
}
fn inp(px: &[i64], want: i64) -> Out {
    vec![("px", V::Cs(px.to_vec())), ("want", V::I(want))]
}
fn counting(x: &Ctx, i: u64, every: u64, size: u64) {
    let mut r = x.rng(1 << 40 | size << 32 | i);
    let p = image(&mut r, size, size * 2);
    let px = veiled(&mut r, p);
    let w = budget(&mut r);
    x.call(i % every == 0, "map", inp(&px, w), || real::count(&px, w), || shade::count(&px, w));
}
fn boxes(x: &Ctx, i: u64, every: u64, size: u64) {
    let mut r = x.rng(2 << 40 | size << 32 | i);
    let p = image(&mut r, size, size * 3);
    let px = veiled(&mut r, p);
    let w = budget(&mut r);
    x.call(i % every == 0, "wu", inp(&px, w), || real::wu(&px, w), || shade::wu(&px, w));
}
fn clusters(x: &Ctx, i: u64, every: u64, size: u64) {
    let mut r = x.rng(3 << 40 | size << 32 | i);
    let px = image(&mut r, size, size * 3);
    let w = if size >= 300 && i % 20 == 0 { *r.pick(&[25, 48, 64, 128]) } else { budget(&mut r).min(24) };
    let s = starts(&mut r, &px, w);
    let it = *r.pick(&[1, 2, 3, 5, 8, 20, -1]);
    let mut a = inp(&px, w);
    a.push(("start", V::Cs(s.clone())));
    a.push(("iters", V::I(if it < 0 { 5 } else { it })));
    let st = if s.is_empty() && i % 2 == 0 { None } else { Some(&s) };
    x.call(i % every == 0, "means", a, || real::means(&px, w, st, it), || shade::means(&px, w, st, it));
}
/// Hundreds of clusters, all of them given.
fn crowd(x: &Ctx, i: u64, every: u64) {
    let mut r = x.rng(10 << 40 | i);
    let n = [257usize, 129, 280, 200][(i % 4) as usize];
    let mut px: Vec<i64> = vec![];
    while px.len() < n {
        let c = r.argb();
        if !px.contains(&c) {
            px.push(c);
        }
    }
    let w = *r.pick(&[n as i64, n as i64 + 1, 300, n as i64 - 1]);
    let mut s = px.clone();
    if i % 2 == 0 {
        shuffle(&mut r, &mut s);
    }
    for c in s.iter_mut() {
        if r.below(4) == 0 {
            *c ^= 1 + r.below(7) as i64;
        }
    }
    let mut a = inp(&px, w);
    a.push(("start", V::Cs(s.clone())));
    a.push(("iters", V::I(3)));
    x.call(i % every == 0, "means", a, || real::means(&px, w, Some(&s), 3), || shade::means(&px, w, Some(&s), 3));
}
fn celebi(x: &Ctx, i: u64, every: u64, size: u64) {
    let mut r = x.rng(4 << 40 | size << 32 | i);
    let px = image(&mut r, size, size * 3);
    let w = budget(&mut r);
    let mut a = inp(&px, w);
    a.push(("iters", V::I(5)));
    x.call(i % every == 0, "celebi", a, || real::celebi(&px, w), || shade::celebi(&px, w));
}
/// Few colours, many pixels of each.
fn heavy(x: &Ctx, op: &str, i: u64, every: u64) {
    let mut r = x.rng(9 << 40 | i);
    let size = *r.pick(&[2, 5, 12, 30]);
    let mut cols = image(&mut r, size, 1);
    if op == "map" || op == "wu" {
        cols = veiled(&mut r, cols);
    }
    let mut seen = std::collections::HashSet::new();
    cols.retain(|c| seen.insert(*c));
    let times: Vec<i64> = cols
        .iter()
        .map(|_| match r.below(5) {
            0 => 1,
            1 => 1 + r.below(20) as i64,
            2 => *r.pick(&[255, 256, 257, 999, 1000, 32767, 32768, 65535, 65536, 65537, 100_000]),
            _ => 1 + r.below(30_000) as i64,
        })
        .collect();
    let w = budget(&mut r);
    let w = if op == "means" { w.min(24) } else { w };
    let mut px: Vec<i64> = cols.iter().zip(&times).flat_map(|(c, n)| std::iter::repeat(*c).take(*n as usize)).collect();
    // the first of each in the recorded order, the rest anywhere
    if r.below(2) == 0 {
        let mut rest = px;
        px = cols.clone();
        let mut first = std::collections::HashSet::new();
        rest.retain(|c| !first.insert(*c));
        shuffle(&mut r, &mut rest);
        px.extend(rest);
    }
    let mut a = vec![("px", V::Cs(cols.clone())), ("times", V::Is(times)), ("want", V::I(w))];
    let keep = i % every == 0;
    match op {
        "map" => x.call(keep, op, a, || real::count(&px, w), || shade::count(&px, w)),
        "wu" => x.call(keep, op, a, || real::wu(&px, w), || shade::wu(&px, w)),
        "celebi" => {
            a.push(("iters", V::I(5)));
            x.call(keep, op, a, || real::celebi(&px, w), || shade::celebi(&px, w))
        }
        _ => {
            let s = starts(&mut r, &cols, w);
            a.push(("start", V::Cs(s.clone())));
            a.push(("iters", V::I(5)));
            x.call(keep, op, a, || real::means(&px, w, Some(&s), -1), || shade::means(&px, w, Some(&s), -1))
        }
    };
}
/// Images of millions of pixels.
fn bulk(x: &Ctx, i: u64, k_means: bool) {
    let mut r = x.rng(8 << 40 | i);
    let n = 1 + r.below(4) as usize;
    let mut cols: Vec<i64> = vec![];
    while cols.len() < n {
        let c = match r.below(3) {
            0 => 0xffffffff - (r.below(16) * 0x10101) as i64,
            1 => 0xffffffff & !(r.below(0x3f3f3f) as i64 & 0x3f3f3f),
            _ => r.argb(),
        };
        if !cols.contains(&c) {
            cols.push(c);
        }
    }
    let times: Vec<i64> = cols.iter().map(|_| *r.pick(&[1, 1000, 3_000_000, 5_000_000, 8_000_000])).collect();
    let w = *r.pick(&[1, 2, 4, 16]);
    let px: Vec<i64> = cols.iter().zip(&times).flat_map(|(c, n)| std::iter::repeat(*c).take(*n as usize)).collect();
    let inp = vec![("px", V::Cs(cols)), ("times", V::Is(times)), ("want", V::I(w))];
    if k_means {
        x.call(true, "bulk", inp, || real::table_of_celebi(&px, w), || shade::table_of_celebi(&px, w));
    } else {
        x.call(true, "bulk", inp, || real::wu(&px, w), || shade::wu(&px, w));
    }
}
/// Images of tens of thousands of different colours, told by totals.
fn motley(x: &Ctx, i: u64) {
    let mut r = x.rng(11 << 40 | i);
    let n = *r.pick(&[5_000usize, 17_000, 33_000, 66_000]);
    let base = r.argb();
    let narrow = r.below(2) == 0;
    let mut seen = std::collections::HashSet::new();
    let mut px = vec![];
    while seen.len() < n {
        let mut c = r.argb();
        if narrow {
            c = 0xff000000 | ((base ^ (c & 0x3f3f3f)) & 0xffffff);
        }
        seen.insert(c);
        px.push(c);
        if r.below(5) == 0 {
            px.push(c);
        }
    }
    let w = *r.pick(&[1, 2, 4, 8]);
    let inp = vec![("want", V::I(w)), ("distinct", V::I(n as i64)), ("size", V::I(px.len() as i64))];
    x.call(true, "motley", inp, || real::totals(&px, w), || shade::totals(&px, w));
}
fn text(o: &Out) -> String {
    Ev::obj().out(o).end()
}
fn cs(o: &Out, k: usize) -> Vec<i64> {
    match &o[k].1 {
        V::Cs(v) | V::Is(v) => v.clone(),
        _ => vec![],
    }
}
const WHICH: [&str; 4] = ["map", "wu", "means", "celebi"];
fn sample(x: &Ctx, i: u64) -> (&'static str, Vec<i64>, i64) {
    let mut r = x.rng(5 << 40 | i);
    let which = WHICH[(i % 4) as usize];
    let size = *r.pick(&[6, 20, 40, 80]);
    let px = image(&mut r, size, size * 2);
    (which, px, budget(&mut r))
}
/// Quantizes the sample images in a process of its own and prints the answers.
fn child(x: &Ctx, n: u64) {
    for i in 0..n {
        let (which, px, w) = sample(x, i);
        let o = guard(|| real::once(which, &px, w)).unwrap_or_default();
        let j = |k: usize| cs(&o, k).iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ");
        if o.is_empty() {
            println!("-|-|-");
        } else {
            println!("{}|{}|{}", j(0), j(1), j(2));
        }
    }
}
fn c21(x: &Ctx) {
    let n = x.n(600, 6_000);
    let exe = std::env::current_exe().unwrap();
    let other = &|k: u64| -> Vec<String> {
        let o = std::process::Command::new(&exe)
            .args(["--prop", "C21", "--seed", &x.seed.to_string(), "--dir", &x.dir, "--child", &n.to_string(), "--salt", &k.to_string()])
            .output()
            .expect("child process");
        String::from_utf8_lossy(&o.stdout).lines().map(|l| l.to_string()).collect()
    };
    let kids: Vec<Vec<String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..2).map(|k| s.spawn(move || other(k))).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    x.scan("images", n, |i| {
        let (which, px, w) = sample(x, i);
        let mut r = x.rng(6 << 40 | i);
        let first = match guard(|| real::once(which, &px, w)) {
            Ok(o) => o,
            Err(m) => {
                x.suspect(|| Ev::new("again").s("which", which).out(&inp(&px, w)).s("panic", &m));
                return;
            }
        };
        let mut ways: Vec<(String, Out)> = vec![];
        for k in 0..6 {
            ways.push((format!("again {}", k), real::once(which, &px, w)));
        }
        let copy = px.clone();
        ways.push(("a copy of the image".into(), real::once(which, &copy, w)));
        let seed = copy.len() as i64;
        let _other = real::once("celebi", &vec![0xff123456, 0xff654321, 0xff000000 | seed], 3);
        ways.push(("after other images".into(), real::once(which, &px, w)));
        let t = std::thread::scope(|s| s.spawn(|| guard(|| real::once(which, &px, w))).join());
        if let Ok(Ok(o)) = t {
            ways.push(("on another thread".into(), o));
        }
        if which == "map" || which == "wu" {
            let mut p = px.clone();
            p.reverse();
            ways.push(("pixels reversed".into(), real::once(which, &p, w)));
            p.sort();
            ways.push(("pixels sorted".into(), real::once(which, &p, w)));
            shuffle(&mut r, &mut p);
            ways.push(("pixels shuffled".into(), real::once(which, &p, w)));
        }
        for (k, kid) in kids.iter().enumerate() {
            let line = kid.get(i as usize).cloned().unwrap_or_else(|| "-|-|-".into());
            let f: Vec<Vec<i64>> = line.split('|').map(|p| p.split_whitespace().map(|v| v.parse().unwrap_or(-1)).collect()).collect();
            ways.push((format!("in another process {}", k), vec![("cols", V::Cs(f[0].clone())), ("counts", V::Is(f[1].clone())), ("to", V::Cs(f[2].clone()))]));
        }
        let odd = ways.iter().any(|w| text(&w.1) != text(&first));
        if odd || i % 4 < 2 && i % 3 == 0 || i % 16 > 13 {
            let l: Vec<Ev> = ways.iter().map(|(h, o)| Ev::obj().s("how", h).out(o)).collect();
            let e = || Ev::new("again").s("which", which).out(&inp(&px, w)).out(&first).raw("ways", &arr(l));
            if odd {
                x.suspect(e);
            } else {
                x.push(e());
            }
        }
    });
    if let Some(p) = &x.input {
        let hist = lines(p);
        x.stat("tlc_behaviours", hist.len() as i64);
        let deep = x.n(200, 2_000);
        x.scan("uses", hist.len() as u64 + deep, |i| {
            let mut r = x.rng(7 << 40 | i);
            let plan: Vec<usize> = match hist.get(i as usize) {
                Some(l) => l.split_whitespace().map(|s| s.parse().unwrap()).collect(),
                None => (0..24).map(|_| 1 + r.below(3) as usize).collect(),
            };
            // two images with the same cells, one elsewhere; the budgets differ
            let a = image(&mut r, 24, 60);
            let mut b = a.clone();
            for p in b.iter_mut() {
                *p ^= r.below(8) as i64;
            }
            let c = image(&mut r, 8, 10);
            let imgs = [a, b, c];
            let w0 = budget(&mut r);
            let want = [w0, (w0 / 2).max(1), w0 + 3];
            let todo: Vec<(Vec<i64>, i64)> = plan.chunks(2).map(|k| (imgs[k[0] - 1].clone(), want[k[1] - 1])).collect();
            let which = if i % 5 == 4 { *r.pick(&["celebi", "map"]) } else { "wu" };
            let base = Ev::new("uses").s("which", which).is("plan", &plan.iter().map(|v| *v as i64).collect::<Vec<_>>());
            match guard(|| real::uses(which, &todo)) {
                Err(m) => x.suspect(|| base.s("panic", &m)),
                Ok(l) => {
                    let odd = l.iter().any(|o| cs(o, 0) != cs(o, 2) || cs(o, 1) != cs(o, 3));
                    let e = base.v("uses", &V::L(l));
                    if odd {
                        let e = todo.iter().fold(e, |e, t| e.cs(&format!("px{}", t.0.len()), &t.0));
                        x.suspect(|| e);
                    } else {
                        x.push(e);
                    }
                }
            }
        });
    }
}
fn main() {
    let x = Ctx::from_args();
    let a: Vec<String> = std::env::args().collect();
    if let Some(k) = a.iter().position(|s| s == "--child") {
        child(&x, a[k + 1].parse().unwrap());
        return;
    }
    match x.prop.as_str() {
        "C20" => {
            for (w, f) in [("map", counting as fn(&Ctx, u64, u64, u64)), ("wu", boxes), ("means", clusters), ("celebi", celebi)] {
                x.scan(&format!("small_{}", w), x.n(1500, 20_000), |i| f(&x, i, 30, 6));
                x.scan(&format!("medium_{}", w), x.n(600, 8_000), |i| f(&x, i, 20, 40));
                x.scan(&format!("large_{}", w), x.n(60, 1_000), |i| f(&x, i, 20, 400));
            }
            for op in WHICH {
                x.scan(&format!("heavy_{}", op), x.n(80, 1_000), |i| heavy(&x, op, i, 8));
            }
            x.scan("bulk", x.n(6, 40), |i| bulk(&x, i, true));
            x.scan("motley", x.n(8, 60), |i| motley(&x, i));
            for w in [1, 5, 128] {
                let e: Vec<i64> = vec![];
                x.call(true, "map", inp(&e, w), || real::count(&e, w), || shade::count(&e, w));
                x.call(true, "wu", inp(&e, w), || real::wu(&e, w), || shade::wu(&e, w));
            }
        }
        "C21" => c21(&x),
        "C22" => {
            x.scan("small", x.n(4000, 40_000), |i| boxes(&x, i, 20, 8));
            x.scan("medium", x.n(2000, 20_000), |i| boxes(&x, i, 40, 24));
            x.scan("large", x.n(300, 4_000), |i| boxes(&x, i, 60, 100));
            x.scan("heavy", x.n(150, 2_000), |i| heavy(&x, "wu", i, 10));
            x.scan("bulk", x.n(8, 60), |i| bulk(&x, i, false));
        }
        "C23" => {
            x.scan("tiny_means", x.n(3000, 40_000), |i| clusters(&x, i, 20, 4));
            x.scan("small_means", x.n(3000, 40_000), |i| clusters(&x, i, 20, 10));
            x.scan("medium_means", x.n(2000, 20_000), |i| clusters(&x, i, 50, 40));
            x.scan("large_means", x.n(200, 2_000), |i| clusters(&x, i, 100, 300));
            x.scan("motley", x.n(8, 60), |i| motley(&x, i));
            x.scan("crowd", x.n(4, 12), |i| crowd(&x, i, 4));
            x.scan("heavy_means", x.n(150, 2_000), |i| heavy(&x, "means", i, 10));
            x.scan("heavy_celebi", x.n(150, 2_000), |i| heavy(&x, "celebi", i, 10));
            x.scan("tiny_celebi", x.n(2000, 40_000), |i| celebi(&x, i, 20, 4));
            x.scan("small_celebi", x.n(2000, 20_000), |i| celebi(&x, i, 40, 12));
            x.scan("medium_celebi", x.n(400, 8_000), |i| celebi(&x, i, 40, 60));
        }
        p => panic!("unknown property {}", p),
    }
    x.finish();
}
