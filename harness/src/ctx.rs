//! Suites, monitors, cases and verdicts.
use crate::probe::BudgetExceeded;
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::Instant;

pub struct CheckFail {
    pub tag: String,
    pub msg: String,
}
/// The generator produced a case outside the monitored domain; it is not counted.
pub struct Discard;

thread_local! {
    static PANIC_INFO: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub struct Case {
    s: [u64; 4],
    pub index: u64,
    pub seed: u64,
    hash: u64,
    checks: u64,
    events: BTreeMap<&'static str, u64>,
    pub tracing: bool,
    trace: Vec<String>,
}

impl Case {
    pub fn new(seed: u64, monitor: &str, index: u64) -> Case {
        let mut x = seed ^ hash_str(monitor).rotate_left(17) ^ index.wrapping_mul(0xd1342543de82ef95);
        let s = [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)];
        Case { s, index, seed, hash: 0x1234_5678, checks: 0, events: BTreeMap::new(), tracing: false, trace: vec![] }
    }
    fn raw(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    fn mix(&mut self, v: u64) {
        self.hash = (self.hash ^ v).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(23);
    }
    pub fn u64(&mut self) -> u64 {
        let v = self.raw();
        self.mix(v);
        v
    }
    /// Uniform in [0,1).
    pub fn unit(&mut self) -> f64 {
        let v = (self.raw() >> 11) as f64 / (1u64 << 53) as f64;
        self.mix(v.to_bits());
        v
    }
    pub fn f(&mut self, lo: f64, hi: f64) -> f64 {
        let v = lo + (hi - lo) * ((self.raw() >> 11) as f64 / (1u64 << 53) as f64);
        self.mix(v.to_bits());
        v
    }
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        let v = lo + (self.raw() % ((hi - lo + 1) as u64)) as i64;
        self.mix(v as u64);
        v
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        self.int(lo as i64, hi as i64) as usize
    }
    pub fn p(&mut self, prob: f64) -> bool {
        let v = ((self.raw() >> 11) as f64 / (1u64 << 53) as f64) < prob;
        self.mix(v as u64);
        v
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        let i = self.us(0, xs.len() - 1);
        xs[i].clone()
    }
    pub fn sign(&mut self) -> f64 {
        if self.p(0.5) { 1.0 } else { -1.0 }
    }
    /// Magnitude log-uniform in 10^[lo,hi], positive.
    pub fn lu(&mut self, lo: f64, hi: f64) -> f64 {
        let e = self.f(lo, hi);
        let v = 10f64.powf(e);
        self.mix(v.to_bits());
        v
    }
    /// Log-uniform magnitude with random sign.
    pub fn ls(&mut self, lo: f64, hi: f64) -> f64 {
        self.sign() * self.lu(lo, hi)
    }
    pub fn normal(&mut self) -> f64 {
        let u = 1.0 - self.unit();
        let v = self.unit();
        (-2.0 * u.ln()).sqrt() * (core::f64::consts::TAU * v).cos()
    }
    /// A "nice" mixture for well-scaled reals: uniform, integers, zeros, small and large values.
    pub fn real(&mut self) -> f64 {
        match self.us(0, 9) {
            0 => 0.0,
            1 => self.int(-4, 4) as f64,
            2 => self.ls(-6.0, 0.0),
            3 => self.ls(0.0, 3.0),
            4 => self.int(-9, 9) as f64 * 0.5,
            _ => self.f(-3.0, 3.0),
        }
    }
    /// Hostile values: NaN, infinities, zeros, subnormals, extremes, plus ordinary ones.
    pub fn hostile(&mut self) -> f64 {
        match self.us(0, 23) {
            0 => f64::NAN,
            1 => f64::INFINITY,
            2 => f64::NEG_INFINITY,
            3 => 0.0,
            4 => -0.0,
            5 => f64::MAX,
            6 => f64::MIN,
            7 => f64::MIN_POSITIVE,
            8 => 5e-324,
            9 => -5e-324,
            10 => f64::EPSILON,
            11 => 1.0,
            12 => -1.0,
            13 => self.ls(-308.0, 308.0),
            14 => self.ls(-20.0, 20.0),
            15 => self.int(-10, 10) as f64,
            16 => core::f64::consts::PI * self.int(-4, 4) as f64,
            17 => 1e16,
            18 => -2147483649.0,
            19 => 1.8446744073709552e19,
            _ => self.f(-3.0, 3.0),
        }
    }
    /// Hostile with probability `p`, else ordinary.
    pub fn maybe_hostile(&mut self, p: f64) -> f64 {
        if self.p(p) { self.hostile() } else { self.real() }
    }
    pub fn arr<const N: usize>(&mut self, mut g: impl FnMut(&mut Case) -> f64) -> [f64; N] {
        core::array::from_fn(|_| g(self))
    }
    pub fn vecf(&mut self, n: usize, mut g: impl FnMut(&mut Case) -> f64) -> Vec<f64> {
        (0..n).map(|_| g(self)).collect()
    }
    pub fn unit3(&mut self) -> [f64; 3] {
        loop {
            let v = [self.normal(), self.normal(), self.normal()];
            let n = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
            if n > 1e-3 {
                return [v[0] / n, v[1] / n, v[2] / n];
            }
        }
    }
    pub fn unit4(&mut self) -> [f64; 4] {
        loop {
            let v = [self.normal(), self.normal(), self.normal(), self.normal()];
            let n = v.iter().map(|x| x * x).sum::<f64>().sqrt();
            if n > 1e-3 {
                return v.map(|x| x / n);
            }
        }
    }
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut p: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            let j = self.us(0, i);
            p.swap(i, j);
        }
        p
    }

    pub fn hit(&mut self, ev: &'static str) {
        *self.events.entry(ev).or_insert(0) += 1;
    }
    pub fn hits(&mut self, ev: &'static str, n: u64) {
        *self.events.entry(ev).or_insert(0) += n;
    }
    /// Records an input or observation for the replay file and the evidence samples.
    pub fn note<T: std::fmt::Debug>(&mut self, name: &str, v: &T) {
        if self.tracing {
            let mut s = format!("{name} = {v:?}");
            if s.len() > 1500 {
                let mut e = 1500;
                while !s.is_char_boundary(e) { e -= 1; }
                s.truncate(e);
                s.push_str("...");
            }
            self.trace.push(s);
        }
    }
    pub fn discard(&self) -> ! {
        resume_unwind(Box::new(Discard))
    }
    pub fn fail(&self, tag: &str, msg: impl AsRef<str>) -> ! {
        resume_unwind(Box::new(CheckFail { tag: tag.to_string(), msg: msg.as_ref().to_string() }))
    }
    /// One oracle evaluation.
    pub fn ok(&mut self, cond: bool, tag: &str, msg: impl FnOnce() -> String) {
        self.checks += 1;
        if !cond {
            let m = msg();
            self.fail(tag, m)
        }
    }
    /// |got - want| <= tol (NaN never passes).
    pub fn near(&mut self, tag: &str, got: f64, want: f64, tol: f64) {
        self.checks += 1;
        let good = got == want || (got - want).abs() <= tol;
        if !good {
            self.fail(tag, format!("got {got:e}, want {want:e}, |diff| {:e} > tol {tol:e}", (got - want).abs()))
        }
    }
    /// got and want agree within `ulps`*eps relative to max(|want|, floor).
    pub fn rel(&mut self, tag: &str, got: f64, want: f64, rel: f64, floor: f64) {
        let tol = rel * want.abs().max(floor);
        self.near(tag, got, want, tol)
    }
    pub fn same_bits(&mut self, tag: &str, got: f64, want: f64) {
        self.checks += 1;
        if got.to_bits() != want.to_bits() && !(got.is_nan() && want.is_nan()) {
            self.fail(tag, format!("got {got:e}, want exactly {want:e}"))
        }
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, tag: &str, got: T, want: T) {
        self.checks += 1;
        if got != want {
            self.fail(tag, format!("got {got:?}, want {want:?}"))
        }
    }
    pub fn get<T, E: std::fmt::Debug>(&mut self, tag: &str, r: Result<T, E>) -> T {
        self.checks += 1;
        match r {
            Ok(v) => v,
            Err(e) => self.fail(tag, format!("unexpected error {e:?}")),
        }
    }
    pub fn some<T>(&mut self, tag: &str, r: Option<T>) -> T {
        self.checks += 1;
        match r {
            Some(v) => v,
            None => self.fail(tag, "unexpected None"),
        }
    }
}

#[derive(Clone)]
struct Violation {
    monitor: String,
    index: u64,
    tag: String,
    msg: String,
}

enum Outcome {
    Ok,
    Discarded,
    Fail { tag: String, msg: String },
    Harness(String),
}

fn classify(p: Box<dyn Any + Send>) -> Outcome {
    if p.is::<Discard>() {
        return Outcome::Discarded;
    }
    let p = match p.downcast::<CheckFail>() {
        Ok(f) => return Outcome::Fail { tag: f.tag, msg: f.msg },
        Err(p) => p,
    };
    if let Some(b) = p.downcast_ref::<BudgetExceeded>() {
        return Outcome::Fail { tag: "unbounded-work".into(), msg: format!("the call exceeded its work budget ({} steps)", b.0) };
    }
    let (loc, msg) = PANIC_INFO.with(|i| i.borrow_mut().take()).unwrap_or(("?".into(), "?".into()));
    // The harness is the root package, so its own locations are relative ("src/...").
    if loc.starts_with("src/") || loc.contains("/verif/harness/") || loc == "?" {
        Outcome::Harness(format!("harness panic at {loc}: {msg}"))
    } else {
        Outcome::Fail { tag: "panic".into(), msg: format!("panicked at {loc}: {msg}") }
    }
}

/// Runs library code that may panic; Err(description) when it did. CheckFail/budget payloads pass through.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            if p.is::<Discard>() || p.is::<CheckFail>() || p.is::<BudgetExceeded>() {
                resume_unwind(p)
            }
            let (loc, msg) = PANIC_INFO.with(|i| i.borrow_mut().take()).unwrap_or(("?".into(), "?".into()));
            if loc.starts_with("src/") || loc.contains("/verif/harness/") {
                resume_unwind(Box::new(CheckFail { tag: "HARNESS".into(), msg: format!("harness panic at {loc}: {msg}") }))
            }
            Err(format!("panicked at {loc}: {msg}"))
        }
    }
}

struct MonStat {
    name: String,
    evals: u64,
    discarded: u64,
    nontrivial: u64,
    checks: u64,
}

pub struct Suite {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    start: Instant,
    replay: Option<(String, u64)>,
    only: Option<String>,
    scale: f64,
    known: Vec<(String, String, String)>,
    known_seen: BTreeMap<usize, u64>,
    violations: Vec<Violation>,
    harness_errors: Vec<String>,
    stats: Vec<MonStat>,
    events: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    rule: String,
    assumptions: Vec<String>,
    requires: Vec<(String, u64)>,
    root: String,
}

static CUR: Mutex<BTreeMap<u64, (String, u64, Instant)>> = Mutex::new(BTreeMap::new());
static TID: AtomicU64 = AtomicU64::new(0);
thread_local! { static MYTID: Cell<u64> = Cell::new(TID.fetch_add(1, Ordering::SeqCst)); }

impl Suite {
    /// Registers and runs `n` cases of a monitor (n = quick count; thorough multiplies it).
    pub fn monitor(&mut self, name: &str, quick: u64, mult: u64, f: impl Fn(&mut Case) + Sync) {
        if let Some(o) = &self.only {
            if !name.contains(o.as_str()) {
                return;
            }
        }
        let t0 = Instant::now();
        if let Some((m, idx)) = self.replay.clone() {
            if m != name {
                return;
            }
            let mut c = Case::new(self.seed, name, idx);
            c.tracing = true;
            let r = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
            for t in &c.trace {
                println!("  {t}");
            }
            match r.map_err(classify) {
                Ok(()) => println!("replay {name} #{idx}: held"),
                Err(Outcome::Fail { tag, msg }) => {
                    self.violations.push(Violation { monitor: name.into(), index: idx, tag, msg });
                }
                Err(Outcome::Discarded) => println!("replay {name} #{idx}: discarded"),
                Err(Outcome::Harness(h)) => self.harness_errors.push(h),
                Err(Outcome::Ok) => {}
            }
            return;
        }
        let n = ((if self.thorough { quick * mult } else { quick }) as f64 * self.scale).ceil() as u64;
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        struct Acc {
            stat: (u64, u64, u64, u64),
            events: BTreeMap<&'static str, u64>,
            distinct: HashSet<u64>,
            fails: Vec<Violation>,
            harness: Vec<String>,
            known: BTreeMap<usize, u64>,
        }
        let acc = Mutex::new(Acc { stat: (0, 0, 0, 0), events: BTreeMap::new(), distinct: HashSet::new(), fails: vec![], harness: vec![], known: BTreeMap::new() });
        let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8).min(n.max(1) as usize);
        let seed = self.seed;
        let known: Vec<(usize, String)> = self.known.iter().enumerate().filter(|(_, k)| k.0 == name).map(|(i, k)| (i, k.1.clone())).collect();
        let known = &known;
        let f = &f;
        std::thread::scope(|sc| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, || {
                        let tid = MYTID.with(|t| t.get());
                        let mut stat = (0u64, 0u64, 0u64, 0u64);
                        let mut events: BTreeMap<&'static str, u64> = BTreeMap::new();
                        let mut distinct = HashSet::new();
                        let mut known_hits: BTreeMap<usize, u64> = BTreeMap::new();
                        const CH: u64 = 16;
                        loop {
                            let base = next.fetch_add(CH, Ordering::Relaxed);
                            if base >= n || stop.load(Ordering::Relaxed) {
                                break;
                            }
                            for i in base..(base + CH).min(n) {
                                CUR.lock().unwrap().insert(tid, (name.to_string(), i, Instant::now()));
                                let mut c = Case::new(seed, name, i);
                                let r = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
                                let o = match r {
                                    Ok(()) => Outcome::Ok,
                                    Err(p) => classify(p),
                                };
                                stat.0 += 1;
                                stat.3 += c.checks;
                                for (k, v) in &c.events {
                                    *events.entry(k).or_insert(0) += v;
                                }
                                match o {
                                    Outcome::Discarded => stat.1 += 1,
                                    Outcome::Ok => {
                                        if c.checks > 0 {
                                            stat.2 += 1;
                                            distinct.insert(c.hash);
                                        }
                                    }
                                    Outcome::Fail { tag, msg } => {
                                        if let Some((k, _)) = known.iter().find(|(_, t)| *t == tag) {
                                            *known_hits.entry(*k).or_insert(0) += 1;
                                        } else {
                                            let mut a = acc.lock().unwrap();
                                            if tag == "HARNESS" {
                                                a.harness.push(format!("{name} #{i}: {msg}"));
                                            } else {
                                                a.fails.push(Violation { monitor: name.into(), index: i, tag, msg });
                                            }
                                            if a.fails.len() + a.harness.len() >= 6 {
                                                stop.store(true, Ordering::Relaxed);
                                            }
                                        }
                                    }
                                    Outcome::Harness(h) => {
                                        let mut a = acc.lock().unwrap();
                                        a.harness.push(format!("{name} #{i}: {h}"));
                                        if a.harness.len() >= 6 {
                                            stop.store(true, Ordering::Relaxed);
                                        }
                                    }
                                }
                            }
                        }
                        CUR.lock().unwrap().remove(&tid);
                        let mut a = acc.lock().unwrap();
                        a.stat.0 += stat.0;
                        a.stat.1 += stat.1;
                        a.stat.2 += stat.2;
                        a.stat.3 += stat.3;
                        for (k, v) in events {
                            *a.events.entry(k).or_insert(0) += v;
                        }
                        for (k, v) in known_hits {
                            *a.known.entry(k).or_insert(0) += v;
                        }
                        a.distinct.extend(distinct);
                    })
                    .unwrap();
            }
        });
        let mut acc = acc.into_inner().unwrap();
        acc.fails.sort_by_key(|v| v.index);
        self.stats.push(MonStat { name: name.into(), evals: acc.stat.0, discarded: acc.stat.1, nontrivial: acc.stat.2, checks: acc.stat.3 });
        for (k, v) in acc.events {
            *self.events.entry(k.to_string()).or_insert(0) += v;
        }
        for (k, v) in acc.known {
            *self.known_seen.entry(k).or_insert(0) += v;
        }
        let h0 = hash_str(name);
        self.distinct.extend(acc.distinct.iter().map(|h| h ^ h0));
        self.violations.extend(acc.fails);
        self.harness_errors.extend(acc.harness);
        // A sample case, written out.
        for i in 0..2u64.min(n) {
            let mut c = Case::new(self.seed, name, i);
            c.tracing = true;
            let _ = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
            if !c.trace.is_empty() && self.samples.len() < 40 {
                let mut t = c.trace.join("; ");
                if t.len() > 700 {
                    let mut e = 700;
                    while !t.is_char_boundary(e) { e -= 1; }
                    t.truncate(e);
                    t.push_str("...");
                }
                self.samples.push(format!("{name} #{i}: {t}"));
                break;
            }
        }
        if std::env::var("VMON_VERBOSE").is_ok() {
            eprintln!("  {name}: {} cases, {} discarded, {} oracle evals, {:.2}s", acc.stat.0, acc.stat.1, acc.stat.3, t0.elapsed().as_secs_f64());
        }
    }
    pub fn rule(&mut self, r: &str) {
        self.rule = r.into();
    }
    pub fn assume(&mut self, r: &str) {
        self.assumptions.push(r.into());
    }
    /// The run is inconclusive unless this event was seen at least `min` times.
    pub fn require(&mut self, ev: &str, min: u64) {
        self.requires.push((ev.into(), min));
    }
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Entry point of every check binary.
pub fn run(id: &str, f: impl FnOnce(&mut Suite)) -> ! {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or("?".into());
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or("<payload>".into());
        PANIC_INFO.with(|i| *i.borrow_mut() = Some((loc, msg)));
    }));
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("VMON_ROOT").unwrap_or("/verif".into());
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let mut replay = None;
    let mut only = None;
    let mut scale = 1.0;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--replay" => {
                let txt = std::fs::read_to_string(&args[i + 1]).unwrap_or_default();
                let mut m = String::new();
                let mut ix = 0;
                for l in txt.lines() {
                    if let Some(v) = l.strip_prefix("monitor=") {
                        m = v.to_string();
                    }
                    if let Some(v) = l.strip_prefix("index=") {
                        ix = v.parse().unwrap_or(0);
                    }
                    if let Some(v) = l.strip_prefix("seed=") {
                        seed = v.parse().unwrap_or(1);
                    }
                }
                replay = Some((m, ix));
                i += 1;
            }
            "--only" => {
                only = Some(args[i + 1].clone());
                i += 1;
            }
            "--scale" => {
                scale = args[i + 1].parse().unwrap_or(1.0);
                i += 1;
            }
            "--seed" => {
                seed = args[i + 1].parse().unwrap_or(1);
                i += 1;
            }
            "thorough" => thorough = true,
            "quick" => thorough = false,
            _ => {}
        }
        i += 1;
    }
    // Known findings: tab-separated "property<TAB>monitor<TAB>tag<TAB>description".
    let mut known = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{root}/known_findings.tsv")) {
        for l in t.lines() {
            if l.starts_with('#') || l.starts_with("fixed:") {
                continue;
            }
            let p: Vec<&str> = l.split('\t').collect();
            if p.len() == 4 && p[0] == id {
                known.push((p[1].to_string(), p[2].to_string(), p[3].to_string()));
            }
        }
    }
    let limit: u64 = if thorough { 6 * 3600 } else { 780 };
    let case_limit: u64 = 180;
    let wid = id.to_string();
    std::thread::spawn(move || {
        let t0 = Instant::now();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            // A call that never stops may also hand the harness's own recorders an endless log.
            let resident = std::fs::read_to_string("/proc/self/statm")
                .ok()
                .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
                .unwrap_or(0)
                * 4096;
            let allowed = if resident > 8 << 30 { 4 } else { case_limit };
            let stuck = CUR.lock().unwrap().values().find(|(_, _, t)| t.elapsed().as_secs() > allowed).cloned();
            if let Some((m, ix, _)) = stuck {
                // Cases take milliseconds; a call that has not returned after minutes is unbounded work.
                let rdir = format!("{}/replays", std::env::var("VMON_ROOT").unwrap_or("/verif".into()));
                let _ = std::fs::create_dir_all(&rdir);
                let path = format!("{rdir}/{wid}-{}-{ix}.txt", m.replace(|c: char| !c.is_alphanumeric(), "_"));
                let _ = std::fs::write(&path, format!("property={wid}\nmonitor={m}\nindex={ix}\nseed={seed}\ntag=unbounded-work\nmessage=the call did not return\n"));
                println!("VIOLATION property={wid} replay={path}");
                println!("  monitor {m} case {ix} [unbounded-work]: the case ran for more than {allowed} s (resident {} MB)", resident >> 20);
                let _ = std::io::stdout().flush();
                std::process::exit(1);
            }
            if t0.elapsed().as_secs() > limit {
                println!("INCONCLUSIVE property={wid} watchdog: run longer than {limit} s");
                let _ = std::io::stdout().flush();
                std::process::exit(3);
            }
        }
    });
    let is_replay = replay.is_some();
    let partial = only.is_some() || is_replay;
    let mut s = Suite {
        id: id.into(),
        seed,
        thorough,
        start: Instant::now(),
        replay,
        only,
        scale,
        known,
        known_seen: BTreeMap::new(),
        violations: vec![],
        harness_errors: vec![],
        stats: vec![],
        events: BTreeMap::new(),
        distinct: HashSet::new(),
        samples: vec![],
        rule: String::new(),
        assumptions: vec![],
        requires: vec![],
        root,
    };
    f(&mut s);
    finish(s, partial, is_replay)
}

fn finish(s: Suite, partial: bool, is_replay: bool) -> ! {
    let evals: u64 = s.stats.iter().map(|m| m.evals - m.discarded).sum();
    let checks: u64 = s.stats.iter().map(|m| m.checks).sum();
    let mut code = 0;
    let mut missing = vec![];
    for (k, &n) in &s.known_seen {
        let (m, t, d) = &s.known[*k];
        println!("KNOWN-FINDING: property={} {} [{}/{}; seen {} times]", s.id, d, m, t, n);
    }
    if !s.harness_errors.is_empty() {
        for h in s.harness_errors.iter().take(5) {
            println!("HARNESS-ERROR property={} {h}", s.id);
        }
        code = 2;
    }
    if !partial {
        for (ev, min) in &s.requires {
            let got = s.events.get(ev).copied().unwrap_or(0);
            if got < *min {
                missing.push(format!("event '{ev}' seen {got} times, needs {min}"));
            }
        }
        for m in &s.stats {
            if m.nontrivial == 0 {
                missing.push(format!("monitor '{}' evaluated no oracle", m.name));
            }
        }
        if s.scale >= 1.0 && s.violations.is_empty() {
            for m in &missing {
                println!("INCONCLUSIVE property={} {m}", s.id);
                code = 2;
            }
        }
    }
    let rdir = format!("{}/replays", s.root);
    if !s.violations.is_empty() {
        code = 1;
        let _ = std::fs::create_dir_all(&rdir);
        let mut seen: HashSet<(String, String)> = HashSet::new();
        let mut shown = 0;
        for v in &s.violations {
            if !seen.insert((v.monitor.clone(), v.tag.clone())) || shown >= 12 {
                continue;
            }
            shown += 1;
            let path = format!("{rdir}/{}-{}-{}.txt", s.id, v.monitor.replace(|c: char| !c.is_alphanumeric(), "_"), v.index);
            if !is_replay {
                let _ = std::fs::write(&path, format!("property={}\nmonitor={}\nindex={}\nseed={}\ntag={}\nmessage={}\nreplay: ./check {} --replay {}\n", s.id, v.monitor, v.index, s.seed, v.tag, v.msg, s.id, path));
            }
            println!("VIOLATION property={} replay={}", s.id, path);
            println!("  monitor {} case {} [{}]: {}", v.monitor, v.index, v.tag, v.msg);
        }
    }
    let mut mons = String::new();
    for (i, m) in s.stats.iter().enumerate() {
        if i > 0 {
            mons.push_str(", ");
        }
        mons.push_str(&format!("{{\"monitor\": {}, \"cases\": {}, \"discarded\": {}, \"with_oracle\": {}, \"oracle_evaluations\": {}}}", jstr(&m.name), m.evals, m.discarded, m.nontrivial, m.checks));
    }
    let evs: Vec<String> = s.events.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
    let samples: Vec<String> = s.samples.iter().map(|x| jstr(x)).collect();
    let assumptions: Vec<String> = s.assumptions.iter().map(|x| jstr(x)).collect();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"oracle_evaluations\": {},\n  \"rule\": {},\n  \"events\": {{{}}},\n  \"monitors\": [{}],\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        jstr(&s.id),
        jstr(if s.thorough { "thorough" } else { "quick" }),
        s.seed,
        evals,
        s.distinct.len(),
        checks,
        jstr(&s.rule),
        evs.join(", "),
        mons,
        samples.join(",\n   "),
        assumptions.join(", "),
        s.start.elapsed().as_secs_f64(),
        s.violations.len()
    );
    if !partial {
        let _ = std::fs::create_dir_all(format!("{}/evidence", s.root));
        let _ = std::fs::write(format!("{}/evidence/{}.json", s.root, s.id), ev);
    }
    if code == 0 {
        println!(
            "{} property={}: no violation on {} cases ({} distinct, {} oracle evaluations) in {:.1}s",
            if partial { "PARTIAL" } else { "HELD" },
            s.id,
            evals,
            s.distinct.len(),
            checks,
            s.start.elapsed().as_secs_f64()
        );
    }
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}
