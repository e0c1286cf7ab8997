//! C31: the random generator and the draws built on it.
use multicalc::random::RandomScalar;
use multicalc::{Pcg32, RandomSource};
use vmon::*;

/// The published generator, written out on its own.
struct Reference {
    state: u128,
    inc: u128,
}
const M64: u128 = 1 << 64;
impl Reference {
    fn new(seed: u64, stream: u64) -> Reference {
        let inc = ((stream as u128 * 2) | 1) % M64;
        // Two steps from nothing, the seed added between them.
        let s = (inc + seed as u128) % M64;
        Reference { state: (s * 6364136223846793005 + inc) % M64, inc }
    }
    fn word(&mut self) -> u32 {
        let old = self.state as u64;
        self.state = (self.state * 6364136223846793005 + self.inc) % M64;
        let x = (((old >> 18) ^ old) >> 27) & 0xffff_ffff;
        let r = old >> 59;
        (((x >> r) | (x << ((32 - r) % 32))) & 0xffff_ffff) as u32
    }
}
const STREAM: u64 = 0xda3e_39cb_94b9_5bdb;

fn seed(c: &mut Case) -> u64 {
    match c.us(0, 4) {
        0 => c.pick(&[0, 1, 2, u64::MAX, u64::MAX - 1, 1 << 63, 42]),
        1 => c.us(0, 1000) as u64,
        _ => c.u64(),
    }
}
fn unit<T: Fl>(r: &mut Reference) -> f64 {
    if T::F32 {
        (r.word() >> 8) as f64 / (1u64 << 24) as f64
    } else {
        let (h, l) = (r.word() as u64, r.word() as u64);
        (((h << 32) | l) >> 11) as f64 / (1u64 << 53) as f64
    }
}
/// A pair of normal draws, and how far rounding may move each. None for a throw
/// so near the rim that rounding decides whether it counts.
fn pair<T: Fl>(r: &mut Reference) -> Option<([f64; 2], [f64; 2])> {
    loop {
        let (x, y) = (2.0 * unit::<T>(r) - 1.0, 2.0 * unit::<T>(r) - 1.0);
        let s = dd(x).sq() + dd(y).sq();
        if (s.f() - 1.0).abs() < 4.0 * T::EPS {
            return None;
        }
        if s.f() > 0.0 && s.f() < 1.0 {
            let l = -(s.ln_());
            let k = (l * dd(2.0) / s).sqr();
            let slip = T::EPS * (8.0 + 4.0 / l.f().max(T::EPS));
            let v = [(dd(x) * k).f(), (dd(y) * k).f()];
            return Some((v, v.map(|v| slip * v.abs() + 1e-300)));
        }
    }
}

fn sequence<T: Fl + RandomScalar>(c: &mut Case) {
    let (s, own) = (seed(c), c.p(0.5));
    let stream = if own { seed(c) } else { STREAM };
    let mut g = if own { Pcg32::<T>::with_stream(s, stream) } else { Pcg32::<T>::new(s) };
    let mut r = Reference::new(s, stream);
    c.note("seed, stream", &(s, stream));
    let mut held: Option<(f64, f64)> = None;
    for _ in 0..c.us(1, 120) {
        match c.us(0, 4) {
            0 => c.eq("word", g.next_u32(), r.word()),
            1 => {
                let (h, l) = (r.word() as u64, r.word() as u64);
                c.eq("double word, high half first", g.next_u64(), (h << 32) | l);
            }
            2 => {
                let u = g.next_unit().d();
                c.same_bits("uniform", u, unit::<T>(&mut r));
                c.ok((0.0..1.0).contains(&u), "uniform below one", || format!("{u}"));
            }
            3 => {
                let (want, tol) = match held.take() {
                    Some(h) => h,
                    None => {
                        let Some((v, t)) = pair::<T>(&mut r) else { return };
                        held = Some((v[1], t[1]));
                        (v[0], t[0])
                    }
                };
                let got = g.standard_normal().d();
                c.near("normal", got, want, tol);
                c.hit("normal draws");
            }
            _ => {
                let mut twin = g.clone();
                let mut me = g.clone();
                c.ok(twin == me, "a copy is the same", String::new);
                for _ in 0..4 {
                    c.ok(twin.next_u32() == me.next_u32() && twin.standard_normal().d() == me.standard_normal().d(), "a copy goes on the same", String::new);
                }
            }
        }
    }
    c.hit("sequences");
    // The published first words for seed 42 on stream 54.
    if c.p(0.01) {
        let mut g = Pcg32::<T>::with_stream(42, 54);
        let got: [u32; 6] = core::array::from_fn(|_| g.next_u32());
        c.eq("published sequence", got, [0xa15c02b7, 0x7b47f409, 0xba1d3330, 0x83d2f293, 0xbfa4784b, 0xcbed606e]);
    }
    let mut a = Pcg32::<T>::with_stream(s, stream);
    let mut b = Pcg32::<T>::with_stream(s, stream ^ (1 << c.us(0, 62)));
    let mut d = Pcg32::<T>::with_stream(s ^ (1 << c.us(0, 63)), stream);
    let (a, b, d): ([u32; 6], [u32; 6], [u32; 6]) =
        (core::array::from_fn(|_| a.next_u32()), core::array::from_fn(|_| b.next_u32()), core::array::from_fn(|_| d.next_u32()));
    c.ok(a != b && a != d, "another stream or seed, another sequence", String::new);
}

/// A caller's own source: only raw words are its own.
struct Words {
    words: Vec<u32>,
    at: usize,
}
impl<T: RandomScalar> RandomSource<T> for Words {
    fn next_u32(&mut self) -> u32 {
        let w = self.words[self.at % self.words.len()];
        self.at += 1;
        w
    }
    fn get_cache(&mut self) -> Option<T> {
        None
    }
    fn set_cache(&mut self, _: T) {}
}
fn own_source<T: Fl + RandomScalar>(c: &mut Case) {
    let n = c.us(2, 12);
    let mut words: Vec<u32> = (0..n).map(|_| c.pick(&[0u32, u32::MAX, 1, 1 << 31, (1 << 31) - 1, 0x7fff_ff00, 0x8000_0100])).collect();
    let noisy = c.pick(&[0.0, 0.1, 0.4]);
    for w in words.iter_mut() {
        if c.p(noisy) {
            *w = c.u64() as u32;
        }
    }
    // Enough noise after the scripted words to land in the circle.
    let mut z = c.u64();
    words.extend((0..600).map(|_| (splitmix(&mut z) >> 32) as u32));
    let mut s = Words { words: words.clone(), at: 0 };
    let u: T = s.next_unit();
    let want = if T::F32 { (words[0] >> 8) as f64 / 16777216.0 } else { ((((words[0] as u64) << 32) | words[1] as u64) >> 11) as f64 / (1u64 << 53) as f64 };
    c.same_bits("uniform from raw words", u.d(), want);
    c.ok((0.0..1.0).contains(&u.d()), "uniform below one", || format!("{u:?}"));
    c.eq("words taken", s.at, if T::F32 { 1 } else { 2 });
    let w: u64 = <Words as RandomSource<T>>::next_u64(&mut s);
    let k = s.at;
    c.eq("double word", w, ((words[k - 2] as u64) << 32) | words[k - 1] as u64);
    s.at = 0;
    let z: T = s.standard_normal();
    c.ok(z.d().is_finite() && z.d().abs() < 14.0, "a finite normal", || format!("{z:?}"));
    let per = if T::F32 { 2 } else { 4 };
    c.ok(s.at % per == 0 && s.at > 0, "a pair of uniforms at a time", String::new);
    // The pair it landed on, and every pair it passed over.
    let taken = s.at;
    let throw = |at: usize| {
        let uniform = |at: usize| {
            let w = |k: usize| words[k % words.len()] as u64;
            2.0 * (if T::F32 { (w(at) >> 8) as f64 / 16777216.0 } else { (((w(at) << 32) | w(at + 1)) >> 11) as f64 / (1u64 << 53) as f64 }) - 1.0
        };
        dd(uniform(at)).sq() + dd(uniform(at + per / 2)).sq()
    };
    for k in (0..taken - per).step_by(per) {
        let q = throw(k).f();
        c.ok(q < 1e-30 || q > 1.0 - 4.0 * T::EPS, "no throw inside the circle is passed over", || format!("{q}"));
        c.hit("throws passed over");
    }
    if throw(taken - per).f() < 1e-6 {
        c.hit("near-central throws used");
    }
    let mut at = s.at - per;
    let mut next = || {
        let v = if T::F32 { (words[at % words.len()] >> 8) as f64 / 16777216.0 } else { ((((words[at % words.len()] as u64) << 32) | words[(at + 1) % words.len()] as u64) >> 11) as f64 / (1u64 << 53) as f64 };
        at += per / 2;
        2.0 * v - 1.0
    };
    let (x, y) = (next(), next());
    let q = dd(x).sq() + dd(y).sq();
    c.ok(q.f() > 0.0 && q.f() < 1.0 + T::EPS, "only throws inside the circle", || format!("{x} {y}"));
    let l = -(q.ln_());
    let want = dd(x) * (l * dd(2.0) / q).sqr();
    c.near("normal from raw words", z.d(), want.f(), T::EPS * (8.0 + 4.0 / l.f().max(T::EPS)) * want.f().abs() + 1e-300);
    c.hit("own sources");
}

/// Long runs look the way they should.
fn looks<T: Fl + RandomScalar>(c: &mut Case) {
    let (s, st) = (seed(c), seed(c));
    let mut g = Pcg32::<T>::with_stream(s, st);
    let n = 40000;
    let mut bins = [0u32; 64];
    let mut grid = [0u32; 64];
    let mut last = 0.5;
    let mut bits = [0u32; 32];
    for _ in 0..n {
        let u = g.next_unit().d();
        bins[(u * 64.0) as usize] += 1;
        grid[(u * 8.0) as usize * 8 + (last * 8.0) as usize] += 1;
        last = u;
        let w = g.next_u32();
        for (i, b) in bits.iter_mut().enumerate() {
            *b += (w >> i) & 1;
        }
    }
    let chi = |b: &[u32]| {
        let e = n as f64 / b.len() as f64;
        b.iter().map(|x| (*x as f64 - e).powi(2) / e).sum::<f64>()
    };
    // 63 degrees of freedom: 63 give or take 11; 180 is far beyond one run in ten million million.
    c.ok(chi(&bins) < 180.0, "evenly spread", || format!("{}", chi(&bins)));
    c.ok(chi(&grid) < 200.0, "each draw apart from the last", || format!("{}", chi(&grid)));
    for b in bits {
        let z = (b as f64 - n as f64 / 2.0) / (n as f64).sqrt() * 2.0;
        c.ok(z.abs() < 8.0, "every bit is fair", || format!("{z}"));
    }
    let mut v: Vec<f64> = (0..n).map(|_| g.standard_normal().d()).collect();
    let nf = n as f64;
    let m: Vec<f64> = (1..5).map(|k| v.iter().map(|x| x.powi(k)).sum::<f64>() / nf).collect();
    // Spread of each average: 1, 2, 15, 96 over n.
    for (k, (want, var)) in [(0.0, 1.0), (1.0, 2.0), (0.0, 15.0), (3.0, 96.0f64)].into_iter().enumerate() {
        c.near("normal moments", m[k], want, 8.0 * (var / nf).sqrt());
    }
    let lag: f64 = v.windows(2).map(|p| p[0] * p[1]).sum::<f64>() / nf;
    c.near("one normal apart from the next", lag, 0.0, 8.0 / nf.sqrt());
    let lag: f64 = v.windows(2).map(|p| (p[0] * p[0] - 1.0) * (p[1] * p[1] - 1.0)).sum::<f64>() / nf / 2.0;
    c.near("one normal's size apart from the next", lag, 0.0, 10.0 / nf.sqrt());
    v.sort_by(f64::total_cmp);
    let ks = v.iter().enumerate().fold(0.0f64, |m, (i, x)| m.max((0.5 * libm::erfc(-x / 2f64.sqrt()) - (i as f64 + 0.5) / nf).abs()));
    c.ok(ks * nf.sqrt() < 4.0, "normally spread", || format!("{ks}"));
    c.hit("long runs");
}
fn main() {
    vmon::run("C31", |s| {
        s.rule("every word vs the published generator written in 128-bit arithmetic; uniforms bit for bit; normals vs the polar method in double-double; long runs by chi-square, bit balance, moments, lags and Kolmogorov-Smirnov at odds below 1e-12");
        macro_rules! both {
            ($n:literal, $q:expr, $f:expr, $g:expr) => {
                s.monitor($n, $q, 20, |c| if c.p(0.4) { $f(c) } else { $g(c) })
            };
        }
        both!("sequence", 200000, sequence::<f32>, sequence::<f64>);
        both!("own-source", 200000, own_source::<f32>, own_source::<f64>);
        both!("looks", 2500, looks::<f32>, looks::<f64>);
        for (e, n) in [("sequences", 10000), ("normal draws", 50000), ("own sources", 10000), ("throws passed over", 2000), ("near-central throws used", 200), ("long runs", 40)] {
            s.require(e, n);
        }
    });
}
