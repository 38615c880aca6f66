//! Recording side of the conformance checks: JSON events, random numbers,
//! parallel scans, panics and hangs as data.
use std::cell::RefCell;
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ random
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng {
        let mut r = Rng(seed ^ stream.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.f()
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn argb(&mut self) -> i64 {
        0xff000000 | (self.next() & 0xffffff) as i64
    }
}

// ------------------------------------------------------------------ events
#[derive(Clone, Default)]
pub struct Ev(pub String);
pub fn real(x: f64) -> String {
    let b = x.to_bits();
    format!("[{},{}]", (b >> 32) as u32 as i32, b as u32 as i32)
}
/// ARGB as a signed 32-bit integer; anything wider becomes a non-opaque marker.
pub fn col(c: i64) -> i64 {
    if (0..=0xffffffff).contains(&c) {
        c as u32 as i32 as i64
    } else {
        0x00BADBAD
    }
}
pub fn int(x: i64) -> i64 {
    x.clamp(-2147483647, 2147483647)
}
fn esc(s: &str) -> String {
    s.chars()
        .map(|c| match c {
            '"' => "'".to_string(),
            '\\' => "/".to_string(),
            c if (c as u32) < 32 => " ".to_string(),
            c => c.to_string(),
        })
        .collect()
}
impl Ev {
    pub fn new(op: &str) -> Ev {
        Ev(format!("{{\"op\":\"{}\"", op))
    }
    pub fn obj() -> Ev {
        Ev("{\"_\":0".to_string())
    }
    pub fn raw(mut self, k: &str, v: &str) -> Ev {
        let _ = write!(self.0, ",\"{}\":{}", k, v);
        self
    }
    pub fn r(self, k: &str, v: f64) -> Ev {
        let s = real(v);
        self.raw(k, &s)
    }
    pub fn rs(self, k: &str, v: &[f64]) -> Ev {
        let s: Vec<String> = v.iter().map(|x| real(*x)).collect();
        self.raw(k, &format!("[{}]", s.join(",")))
    }
    pub fn c(self, k: &str, v: i64) -> Ev {
        let s = col(v).to_string();
        self.raw(k, &s)
    }
    pub fn cs(self, k: &str, v: &[i64]) -> Ev {
        let s: Vec<String> = v.iter().map(|x| col(*x).to_string()).collect();
        self.raw(k, &format!("[{}]", s.join(",")))
    }
    pub fn i(self, k: &str, v: i64) -> Ev {
        let s = int(v).to_string();
        self.raw(k, &s)
    }
    pub fn is(self, k: &str, v: &[i64]) -> Ev {
        let s: Vec<String> = v.iter().map(|x| int(*x).to_string()).collect();
        self.raw(k, &format!("[{}]", s.join(",")))
    }
    pub fn b(self, k: &str, v: bool) -> Ev {
        self.raw(k, if v { "true" } else { "false" })
    }
    pub fn s(self, k: &str, v: &str) -> Ev {
        let s = format!("\"{}\"", esc(v));
        self.raw(k, &s)
    }
    pub fn list(self, k: &str, v: &[String]) -> Ev {
        let s = format!("[{}]", v.join(","));
        self.raw(k, &s)
    }
    pub fn end(self) -> String {
        self.0 + "}"
    }
}
/// A closed JSON array of sub-objects.
pub fn arr(v: Vec<Ev>) -> String {
    let s: Vec<String> = v.into_iter().map(|e| e.end()).collect();
    format!("[{}]", s.join(","))
}

// ------------------------------------------------- panics and hangs as data
thread_local! { static SLOT: RefCell<usize> = RefCell::new(usize::MAX); static LAST: RefCell<String> = RefCell::new(String::new()); }
const SLOTS: usize = 64;
static NEXT: AtomicUsize = AtomicUsize::new(0);
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicU64 = AtomicU64::new(0);
static SINCE: [AtomicU64; SLOTS] = [Z; SLOTS];
static ITEM: [AtomicU64; SLOTS] = [Z; SLOTS];
static TICK: [AtomicU64; SLOTS] = [Z; SLOTS];
static SCAN: Mutex<String> = Mutex::new(String::new());

/// Runs code under test; a panic comes back as Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST.with(|l| l.borrow().clone())),
    }
}
pub fn ev_guard(base: Ev, f: impl FnOnce(Ev) -> Ev) -> Ev {
    let b2 = base.clone();
    match guard(move || f(b2)) {
        Ok(e) => e,
        Err(m) => base.s("panic", &m),
    }
}
fn slot() -> usize {
    SLOT.with(|s| {
        let mut s = s.borrow_mut();
        if *s == usize::MAX {
            *s = NEXT.fetch_add(1, Ordering::SeqCst) % SLOTS;
        }
        *s
    })
}
fn now_ms() -> u64 {
    static T0: Mutex<Option<Instant>> = Mutex::new(None);
    let mut t = T0.lock().unwrap();
    let t0 = *t.get_or_insert_with(Instant::now);
    t0.elapsed().as_millis() as u64 + 1
}

// -------------------------------------------------------------- run context
pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub dir: String,
    pub input: Option<String>,
    events: Mutex<Vec<String>>,
    stats: Mutex<Vec<(String, i64)>>,
    odd: Mutex<Vec<(String, f64, Vec<(f64, String)>)>>,
    suspects: AtomicUsize,
    t0: Instant,
}
/// Suspects kept per operation: the heaviest.
pub const SUSPECT_CAP: usize = 160;
impl Ctx {
    pub fn from_args() -> Ctx {
        let a: Vec<String> = std::env::args().collect();
        let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
        std::panic::set_hook(Box::new(|info| {
            LAST.with(|l| *l.borrow_mut() = info.to_string());
        }));
        let c = Ctx {
            prop: get("--prop").expect("--prop"),
            seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
            thorough: get("--tier").as_deref() == Some("thorough"),
            dir: get("--dir").expect("--dir"),
            input: get("--in"),
            events: Mutex::new(vec![]),
            stats: Mutex::new(vec![]),
            odd: Mutex::new(vec![]),
            suspects: AtomicUsize::new(0),
            t0: Instant::now(),
        };
        let dir = c.dir.clone();
        now_ms();
        let mut seen = [(0u64, 0u64); SLOTS];
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = now_ms();
            for k in 0..SLOTS {
                let tick = TICK[k].load(Ordering::SeqCst);
                if SINCE[k].load(Ordering::SeqCst) == 0 || tick != seen[k].0 {
                    seen[k] = (tick, now);
                } else if now > seen[k].1 + 60_000 {
                    let scan = SCAN.lock().map(|s| s.clone()).unwrap_or_default();
                    let e = Ev::new("hang").s("scan", &scan).i("item", ITEM[k].load(Ordering::SeqCst) as i64).end();
                    let _ = std::fs::write(format!("{}/hang.ndjson", dir), e + "\n");
                    std::process::exit(7);
                }
            }
        });
        c
    }
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn rng(&self, stream: u64) -> Rng {
        Rng::new(self.seed, stream)
    }
    pub fn push(&self, e: Ev) {
        self.events.lock().unwrap().push(e.end());
    }
    pub fn push_all(&self, v: Vec<Ev>) {
        let mut g = self.events.lock().unwrap();
        for e in v {
            g.push(e.end());
        }
    }
    /// Records a call that is unusual (bounded; the heaviest are kept).
    pub fn suspect(&self, e: impl FnOnce() -> Ev) {
        self.weigh("", 1e6, e)
    }
    fn weigh(&self, op: &str, weight: f64, e: impl FnOnce() -> Ev) {
        self.suspects.fetch_add(1, Ordering::Relaxed);
        let mut g = self.odd.lock().unwrap();
        let k = match g.iter().position(|o| o.0 == op) {
            Some(k) => k,
            None => {
                g.push((op.to_string(), -1.0, vec![]));
                g.len() - 1
            }
        };
        let (_, floor, v) = &mut g[k];
        if weight <= *floor {
            return;
        }
        if v.len() >= 2 * SUSPECT_CAP {
            v.sort_by(|a, b| b.0.total_cmp(&a.0));
            v.truncate(SUSPECT_CAP);
            *floor = v[SUSPECT_CAP - 1].0;
        }
        v.push((weight, e().b("suspect", true).end()));
    }
    pub fn stat(&self, k: &str, v: i64) {
        let mut s = self.stats.lock().unwrap();
        if let Some(p) = s.iter_mut().find(|p| p.0 == k) {
            p.1 += v;
        } else {
            s.push((k.to_string(), v));
        }
    }
    /// Calls f(i) for i in 0..n on all cores; f's panics are its own business.
    pub fn scan(&self, name: &str, n: u64, f: impl Fn(u64) + Sync) {
        *SCAN.lock().unwrap() = name.to_string();
        let next = AtomicU64::new(0);
        let chunk = (n / 512).clamp(1, 4096);
        let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
        std::thread::scope(|s| {
            for _ in 0..threads {
                s.spawn(|| {
                    let k = slot();
                    loop {
                        let a = next.fetch_add(chunk, Ordering::SeqCst);
                        if a >= n {
                            break;
                        }
                        SINCE[k].store(now_ms(), Ordering::SeqCst);
                        for i in a..(a + chunk).min(n) {
                            ITEM[k].store(i, Ordering::Relaxed);
                            TICK[k].fetch_add(1, Ordering::Relaxed);
                            if let Err(m) = guard(|| f(i)) {
                                self.suspect(|| Ev::new("crash").s("scan", name).i("item", i as i64).s("panic", &m));
                            }
                        }
                    }
                    SINCE[k].store(0, Ordering::SeqCst);
                });
            }
        });
        self.stat("evaluations", n as i64);
        self.stat(&format!("scan_{}", name), n as i64);
    }
    /// One piece of sequential work under the hang watchdog.
    pub fn timed<T>(&self, name: &str, f: impl FnOnce() -> T) -> T {
        *SCAN.lock().unwrap() = name.to_string();
        let k = slot();
        TICK[k].fetch_add(1, Ordering::Relaxed);
        SINCE[k].store(now_ms(), Ordering::SeqCst);
        let v = f();
        SINCE[k].store(0, Ordering::SeqCst);
        v
    }
    pub fn finish(&self) {
        let ev = self.events.lock().unwrap();
        let mut rest: Vec<&String> = ev.iter().collect();
        rest.sort();
        // suspects first, so that they are judged first
        let mut odd = self.odd.lock().unwrap();
        let mut sorted: Vec<&String> = vec![];
        for (_, _, v) in odd.iter_mut() {
            v.sort_by(|a, b| b.0.total_cmp(&a.0).then_with(|| a.1.cmp(&b.1)));
            v.truncate(SUSPECT_CAP);
            sorted.extend(v.iter().map(|e| &e.1));
        }
        sorted.extend(rest);
        let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{}/trace.ndjson", self.dir)).unwrap());
        for e in &sorted {
            writeln!(f, "{}", e).unwrap();
        }
        f.flush().unwrap();
        let st = self.stats.lock().unwrap();
        let mut s = Ev::obj();
        for (k, v) in st.iter() {
            s = s.raw(k, &v.to_string());
        }
        s = s
            .raw("events", &sorted.len().to_string())
            .raw("suspects", &self.suspects.load(Ordering::Relaxed).to_string())
            .raw("harness_s", &format!("{:.2}", self.t0.elapsed().as_secs_f64()));
        std::fs::write(format!("{}/stats.json", self.dir), s.end()).unwrap();
    }
}
pub fn lines(path: &str) -> Vec<String> {
    std::fs::read_to_string(path).unwrap().lines().map(|s| s.to_string()).collect()
}
/// Same bits, or both the same NaN-ness.
pub fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

// ------------------------------------------------------------ typed outputs
/// One named answer of a call.
#[derive(Clone, Debug)]
pub enum V {
    R(f64),
    C(i64),
    I(i64),
    B(bool),
    S(String),
    Rs(Vec<f64>),
    Cs(Vec<i64>),
    Is(Vec<i64>),
    Ss(Vec<String>),
    L(Vec<Out>),
    L0(Vec<Vec<f64>>),
}
pub type Out = Vec<(&'static str, V)>;

fn far(a: f64, b: f64) -> bool {
    !(same(a, b) || (a - b).abs() <= 1e-8 * (1.0 + a.abs().max(b.abs())))
}
/// Do two answers differ by more than rounding noise?
pub fn differs(a: &Out, b: &Out) -> bool {
    a.len() != b.len() || a.iter().zip(b).any(|(x, y)| x.0 != y.0 || vdiffers(&x.1, &y.1))
}
fn vdiffers(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::R(x), V::R(y)) => far(*x, *y),
        (V::C(x), V::C(y)) | (V::I(x), V::I(y)) => x != y,
        (V::B(x), V::B(y)) => x != y,
        (V::S(x), V::S(y)) => x != y,
        (V::Rs(x), V::Rs(y)) => x.len() != y.len() || x.iter().zip(y).any(|(p, q)| far(*p, *q)),
        (V::Cs(x), V::Cs(y)) | (V::Is(x), V::Is(y)) => x != y,
        (V::Ss(x), V::Ss(y)) => x != y,
        (V::L0(x), V::L0(y)) => x.len() != y.len() || x.iter().zip(y).any(|(p, q)| vdiffers(&V::Rs(p.clone()), &V::Rs(q.clone()))),
        (V::L(x), V::L(y)) => x.len() != y.len() || x.iter().zip(y).any(|(p, q)| differs(p, q)),
        _ => true,
    }
}
/// How much two differing answers differ: discrete differences weigh most.
fn weight(a: &Out, b: &Out) -> f64 {
    if a.len() != b.len() {
        return 1e5;
    }
    a.iter().zip(b).map(|(x, y)| vweight(&x.1, &y.1)).fold(0.0, f64::max)
}
fn rweight(a: f64, b: f64) -> f64 {
    if !far(a, b) {
        0.0
    } else if !(a - b).is_finite() {
        1e5
    } else {
        ((a - b).abs() / (1.0 + a.abs().min(b.abs()))).min(1e4)
    }
}
fn cweight(a: i64, b: i64) -> f64 {
    (0..4).map(|k| (((a >> (8 * k)) & 255) - ((b >> (8 * k)) & 255)).abs()).max().unwrap() as f64
}
fn vweight(a: &V, b: &V) -> f64 {
    match (a, b) {
        (V::R(x), V::R(y)) => rweight(*x, *y),
        (V::C(x), V::C(y)) => cweight(*x, *y),
        (V::I(x), V::I(y)) => ((x - y).abs() as f64).min(1e4),
        (V::Rs(x), V::Rs(y)) if x.len() == y.len() => x.iter().zip(y).map(|(p, q)| rweight(*p, *q)).fold(0.0, f64::max),
        (V::Cs(x), V::Cs(y)) if x.len() == y.len() => x.iter().zip(y).map(|(p, q)| cweight(*p, *q)).fold(0.0, f64::max),
        (V::Is(x), V::Is(y)) if x.len() == y.len() => x.iter().zip(y).map(|(p, q)| ((p - q).abs() as f64).min(1e4)).fold(0.0, f64::max),
        (V::L(x), V::L(y)) if x.len() == y.len() => x.iter().zip(y).map(|(p, q)| weight(p, q)).fold(0.0, f64::max),
        _ => {
            if vdiffers(a, b) {
                1e5
            } else {
                0.0
            }
        }
    }
}
impl Ev {
    pub fn v(self, k: &str, v: &V) -> Ev {
        match v {
            V::R(x) => self.r(k, *x),
            V::C(x) => self.c(k, *x),
            V::I(x) => self.i(k, *x),
            V::B(x) => self.b(k, *x),
            V::S(x) => self.s(k, x),
            V::Rs(x) => self.rs(k, x),
            V::Cs(x) => self.cs(k, x),
            V::Is(x) => self.is(k, x),
            V::Ss(x) => {
                let s: Vec<String> = x.iter().map(|s| format!("\"{}\"", esc(s))).collect();
                self.raw(k, &format!("[{}]", s.join(",")))
            }
            V::L0(x) => {
                let s: Vec<String> = x.iter().map(|r| format!("[{}]", r.iter().map(|v| real(*v)).collect::<Vec<_>>().join(","))).collect();
                self.raw(k, &format!("[{}]", s.join(",")))
            }
            V::L(x) => {
                let s: Vec<String> = x.iter().map(|o| Ev::obj().out(o).end()).collect();
                self.raw(k, &format!("[{}]", s.join(",")))
            }
        }
    }
    pub fn out(mut self, o: &Out) -> Ev {
        for (k, v) in o {
            self = self.v(k, v);
        }
        self
    }
}
impl Ctx {
    /// Records one call.  `real` is the code under test, `shade` the frozen
    /// copy that only decides whether the call is interesting enough to be
    /// recorded when it is not sampled (`keep`).
    pub fn call(
        &self,
        keep: bool,
        op: &str,
        inp: Out,
        real: impl FnOnce() -> Out,
        shade: impl FnOnce() -> Out,
    ) -> Option<Out> {
        match guard(real) {
            Err(m) => {
                self.weigh(op, 1e9, || Ev::new(op).out(&inp).s("panic", &m));
                None
            }
            Ok(o) => {
                let odd = match guard(shade) {
                    Ok(s) if differs(&o, &s) => Some(weight(&o, &s)),
                    Ok(_) => None,
                    Err(_) => Some(1e6),
                };
                if let Some(w) = odd {
                    self.weigh(op, w, || Ev::new(op).out(&inp).out(&o));
                } else if keep {
                    self.push(Ev::new(op).out(&inp).out(&o));
                }
                Some(o)
            }
        }
    }
}
