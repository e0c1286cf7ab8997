//! Scenarios: short programs that between them call the whole public surface of the library, generic
//! over the scalar, drawing every input from a seeded source and logging every output. The same
//! scenario run can then be watched in different ways: for panics, for work, for heap use, for
//! agreement between scalars.
use multicalc::random::Pcg32;
use multicalc::*;

pub mod calc;
pub mod est;
pub mod kin;
pub mod lin;
pub mod sig;
pub mod space;

pub mod scalars;
pub use scalars::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Style {
    /// Ordinary magnitudes.
    Tame,
    /// Ordinary magnitudes, none of them special, and formulas with bounded slopes.
    Smooth,
    /// Many decades.
    Wide,
    /// Ordinary, with about this share of impossible values (per mille).
    Hostile(u16),
}
pub const LOG: usize = 1500;
pub struct Sim {
    rng: u64,
    pub style: Style,
    pub log: [f64; LOG],
    pub n: usize,
    pub hash: u64,
    pub hostile: u32,
    /// The second part of each output (see [`Sc::second`]).
    pub log2: [f64; LOG],
    /// Which outputs stand for an error's text.
    pub errs: [bool; LOG],
    /// How many real numbers were drawn.
    pub drawn: u32,
    /// The number of the real draw that is varied, counted from 1, and by how much; 0 for none.
    pub target: u32,
    pub delta: f64,
    /// What the varied draw was before it was varied.
    pub varied: f64,
}
struct Hasher<'a>(&'a mut u64);
impl core::fmt::Write for Hasher<'_> {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for b in s.bytes() {
            *self.0 = (*self.0 ^ b as u64).wrapping_mul(0x100000001b3);
        }
        Ok(())
    }
}
const BAD: [f64; 26] = [
    f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, -f64::MIN_POSITIVE, 5e-324, -5e-324, f64::EPSILON,
    1.0, -1.0, 1e-300, 1e300, 1e154, 1e19, -1e19, 4294967296.0, 3.0e38, -3.5e38, 1e-45, 1e-39, 9007199254740993.0, core::f64::consts::PI,
];
impl Sim {
    pub fn new(seed: u64, style: Style) -> Sim {
        Sim { rng: seed ^ 0x9E3779B97F4A7C15, style, log: [0.0; LOG], n: 0, hash: 0xcbf29ce484222325, hostile: 0, log2: [0.0; LOG], errs: [false; LOG], drawn: 0, target: 0, delta: 0.0, varied: f64::NAN }
    }
    pub fn u(&mut self) -> u64 {
        self.rng = self.rng.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn unit(&mut self) -> f64 {
        (self.u() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn p(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        lo + (self.u() % (hi - lo + 1) as u64) as usize
    }
    /// An index that is mostly right, and in hostile runs sometimes far out.
    pub fn ix(&mut self, n: usize) -> usize {
        if let Style::Hostile(_) = self.style {
            if self.p(0.15) {
                return [n, n + 1, usize::MAX, usize::MAX - 1, usize::MAX / 2, 1 << 32][self.us(0, 5)];
            }
        }
        self.us(0, n.max(1) - 1)
    }
    fn bad(&mut self) -> Option<f64> {
        if let Style::Hostile(h) = self.style {
            if self.u() % 1000 < h as u64 {
                self.hostile += 1;
                return Some(BAD[self.us(0, BAD.len() - 1)]);
            }
        }
        None
    }
    /// A value in [lo, hi]; in hostile runs sometimes anything, in wide runs stretched over decades.
    pub fn r<T: Sc>(&mut self, lo: f64, hi: f64) -> T {
        self.drawn += T::VARIES as u32;
        if let Some(b) = self.bad() {
            return T::t(b);
        }
        let v = lo + (hi - lo) * self.unit();
        let v = if self.style == Style::Wide && self.p(0.3) { v * 10f64.powf(-9.0 + 18.0 * self.unit()) } else { v };
        self.var(v as f32 as f64)
    }
    fn var<T: Sc>(&mut self, v: f64) -> T {
        if T::VARIES && self.target != 0 && self.drawn == self.target {
            self.varied = v;
            return T::vary(v, self.delta);
        }
        T::t(v)
    }
    pub fn x<T: Sc>(&mut self) -> T {
        if self.style != Style::Smooth && self.p(0.12) {
            self.drawn += T::VARIES as u32;
            if let Some(b) = self.bad() {
                return T::t(b);
            }
            let v = [0.0, 1.0, -1.0, 2.0, 0.5, -3.0][self.us(0, 5)];
            return self.var(v);
        }
        self.r(-3.0, 3.0)
    }
    pub fn pos<T: Sc>(&mut self) -> T {
        self.r(0.05, 3.0)
    }
    pub fn small<T: Sc>(&mut self) -> T {
        self.r(0.001, 0.05)
    }
    pub fn v<const N: usize, T: Sc>(&mut self) -> Vector<N, T> {
        Vector::from_fn(|_| self.x())
    }
    pub fn a<const N: usize, T: Sc>(&mut self) -> [T; N] {
        core::array::from_fn(|_| self.x())
    }
    pub fn m<const R: usize, const C: usize, T: Sc>(&mut self) -> Matrix<R, C, T> {
        let low = self.style != Style::Smooth && self.p(0.15);
        let mut m = Matrix::from_fn(|_, _| self.x());
        if low && R > 1 {
            for j in 0..C {
                let v = m[(0, j)];
                m[(R - 1, j)] = v;
            }
        }
        m
    }
    /// Symmetric, positive definite unless hostile.
    pub fn spd<const N: usize, T: Sc>(&mut self) -> Matrix<N, N, T> {
        let a: Matrix<N, N, T> = Matrix::from_fn(|_, _| self.r(-1.0, 1.0));
        let mut m = a * a.transpose();
        for i in 0..N {
            m[(i, i)] = m[(i, i)] + T::t(0.3);
        }
        if self.style != Style::Smooth && self.p(0.1) && N > 0 {
            let k = self.us(0, N - 1);
            let v = self.x();
            m[(k, k)] = v;
        }
        m.symmetrized()
    }
    pub fn dim(&mut self) -> f64 {
        self.unit()
    }
    pub fn put<T: Sc>(&mut self, v: T) {
        if self.n < LOG {
            self.log2[self.n] = v.second();
        }
        self.raw(v.d())
    }
    pub fn raw(&mut self, v: f64) {
        let b = if v.is_nan() { 0x7ff8_0000_0000_0000 } else { v.to_bits() };
        self.hash = (self.hash ^ b).wrapping_mul(0x100000001b3).rotate_left(17);
        if self.n < LOG {
            self.log[self.n] = v;
        }
        self.n += 1;
    }
    pub fn b(&mut self, v: bool) {
        self.raw(v as u8 as f64)
    }
    pub fn k(&mut self, v: usize) {
        self.raw(v as f64)
    }
    pub fn opt<T: Sc>(&mut self, v: Option<T>) {
        match v {
            Some(v) => self.put(v),
            None => self.raw(-777.0),
        }
    }
    pub fn pv<const N: usize, T: Sc>(&mut self, v: Vector<N, T>) {
        for i in 0..N {
            self.put(v[i])
        }
    }
    pub fn pa<T: Sc>(&mut self, v: &[T]) {
        for i in v {
            self.put(*i)
        }
    }
    pub fn pm<const R: usize, const C: usize, T: Sc>(&mut self, m: Matrix<R, C, T>) {
        for i in 0..R {
            for j in 0..C {
                self.put(m[(i, j)])
            }
        }
    }
    /// Logs an error: both its texts, which must come out whatever it holds.
    pub fn err<E: core::fmt::Debug + core::fmt::Display>(&mut self, e: &E) {
        use core::fmt::Write as _;
        let mut h = 7u64;
        let _ = write!(Hasher(&mut h), "{e}|{e:?}");
        if self.n < LOG {
            self.errs[self.n] = true;
        }
        self.raw((h >> 40) as f64);
    }
    pub fn res<V, E: core::fmt::Debug + core::fmt::Display>(&mut self, r: Result<V, E>) -> Option<V> {
        match r {
            Ok(v) => {
                self.b(true);
                Some(v)
            }
            Err(e) => {
                self.err(&e);
                None
            }
        }
    }
    pub fn pick<V: Copy>(&mut self, v: &[V]) -> V {
        v[self.us(0, v.len() - 1)]
    }
    pub fn pcg<T: Sc>(&mut self) -> Pcg32<T> {
        let (a, b) = (self.u(), self.u());
        Pcg32::with_stream(a, b)
    }
    pub fn values(&self) -> &[f64] {
        &self.log[..self.n.min(LOG)]
    }
}

pub type Scenario = fn(&mut Sim);
#[macro_export]
macro_rules! scenarios {
    ($list:ident: $($f:ident),* $(,)?) => {
        pub fn $list<T: $crate::api::Sc>() -> Vec<(&'static str, $crate::api::Scenario)> { vec![$((stringify!($f), $f::<T> as $crate::api::Scenario)),*] }
    };
}
pub fn all<T: Sc>() -> Vec<(&'static str, Scenario)> {
    let mut v = lin::list::<T>();
    v.extend(calc::list::<T>());
    v.extend(space::list::<T>());
    v.extend(kin::list::<T>());
    v.extend(sig::list::<T>());
    v.extend(est::list::<T>());
    v
}
