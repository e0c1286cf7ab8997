//! The two machine scalars under one trait, and shared matrix generators.
use crate::ctx::Case;
use crate::dd::dd;
use crate::rm::RM;
use multicalc::{Matrix, Numeric, Primal, Vector};

pub trait Fl: Numeric + Primal + core::fmt::Debug + Copy + Send + Sync + 'static {
    const EPS: f64;
    const F32: bool;
    fn t(x: f64) -> Self;
    fn d(self) -> f64;
}
impl Fl for f64 {
    const EPS: f64 = f64::EPSILON;
    const F32: bool = false;
    fn t(x: f64) -> f64 {
        x
    }
    fn d(self) -> f64 {
        self
    }
}
impl Fl for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    const F32: bool = true;
    fn t(x: f64) -> f32 {
        x as f32
    }
    fn d(self) -> f64 {
        self as f64
    }
}

pub fn mat<const R: usize, const C: usize, T: Fl>(a: &RM) -> Matrix<R, C, T> {
    Matrix::from_fn(|i, j| T::t(a.f(i, j)))
}
pub fn vecn<const N: usize, T: Fl>(a: &[f64]) -> Vector<N, T> {
    Vector::from_fn(|i| T::t(a[i]))
}
impl RM {
    pub fn of<const R: usize, const C: usize, T: Fl>(a: &Matrix<R, C, T>) -> RM {
        RM::from_fn(R, C, |i, j| a[(i, j)].d())
    }
    pub fn ofv<const N: usize, T: Fl>(a: &Vector<N, T>) -> RM {
        RM::from_fn(N, 1, |i, _| a[i].d())
    }
    pub fn abs(&self) -> RM {
        RM { r: self.r, c: self.c, d: self.d.iter().map(|x| x.ab()).collect() }
    }
    pub fn finite(&self) -> bool {
        self.d.iter().all(|x| x.f().is_finite())
    }
    pub fn rows(v: &[&[f64]]) -> RM {
        RM::from_fn(v.len(), v[0].len(), |i, j| v[i][j])
    }
    pub fn diag(v: &[f64]) -> RM {
        let mut m = RM::zeros(v.len(), v.len());
        for i in 0..v.len() {
            *m.at_mut(i, i) = dd(v[i]);
        }
        m
    }
    pub fn fs(&self) -> Vec<f64> {
        self.d.iter().map(|x| x.f()).collect()
    }
    /// Rounds the entries to the scalar under test, so the oracle sees the same input.
    pub fn rounded<T: Fl>(&self) -> RM {
        RM::from_fn(self.r, self.c, |i, j| T::t(self.f(i, j)).d())
    }
    /// Permanent of a nonnegative matrix (Ryser), an upper bound for determinant error terms.
    pub fn permanent(&self) -> f64 {
        let n = self.r;
        if n > 8 {
            // An upper bound: the smaller of the products of the row and of the column sums.
            let rows: f64 = (0..n).map(|i| (0..n).map(|j| self.f(i, j).abs()).sum::<f64>()).product();
            let cols: f64 = (0..n).map(|j| (0..n).map(|i| self.f(i, j).abs()).sum::<f64>()).product();
            return rows.min(cols);
        }
        fn rec(a: &RM, row: usize, used: u32, n: usize) -> f64 {
            if row == n {
                return 1.0;
            }
            let mut s = 0.0;
            for j in 0..n {
                if used >> j & 1 == 0 {
                    let x = a.f(row, j).abs();
                    if x != 0.0 {
                        s += x * rec(a, row + 1, used | 1 << j, n);
                    }
                }
            }
            s
        }
        rec(self, 0, 0, n)
    }
    pub fn minor(&self, i: usize, j: usize) -> RM {
        let n = self.r;
        RM::from_fn(n - 1, n - 1, |a, b| {
            self.f(if a < i { a } else { a + 1 }, if b < j { b } else { b + 1 })
        })
    }
}

/// A random orthogonal matrix (product of Householder reflections in double-double).
pub fn gen_orth(c: &mut Case, n: usize) -> RM {
    let mut q = RM::eye(n);
    for _ in 0..2 {
        let v: Vec<f64> = (0..n).map(|_| c.normal()).collect();
        let vv = RM::col(&v);
        let s = v.iter().map(|x| x * x).sum::<f64>();
        if s < 1e-6 {
            continue;
        }
        let mut h = RM::eye(n);
        let denom = vv.t().mul(&vv).at(0, 0);
        for i in 0..n {
            for j in 0..n {
                let t = vv.at(i, 0) * vv.at(j, 0) * dd(2.0) / denom;
                *h.at_mut(i, j) = h.at(i, j) - t;
            }
        }
        q = q.mul(&h);
    }
    q
}
/// U diag(s) V^T of shape r x c, s.len() == min(r,c).
pub fn gen_svd(c: &mut Case, r: usize, k: usize, s: &[f64]) -> RM {
    let u = gen_orth(c, r);
    let v = gen_orth(c, k);
    let mut d = RM::zeros(r, k);
    for i in 0..s.len() {
        *d.at_mut(i, i) = dd(s[i]);
    }
    u.mul(&d).mul(&v.t())
}
/// General matrices: dense, small integers (often singular), graded, sparse, permuted-triangular,
/// controlled-spectrum.
pub fn gen_mat(c: &mut Case, r: usize, k: usize) -> RM {
    match c.us(0, 9) {
        0 | 1 => {
            let mut m = RM::zeros(r, k);
            for x in m.d.iter_mut() {
                *x = dd(c.real());
            }
            m
        }
        2 => {
            let mut m = RM::zeros(r, k);
            for x in m.d.iter_mut() {
                *x = dd(c.int(-3, 3) as f64);
            }
            m
        }
        3 => {
            let mut m = RM::zeros(r, k);
            let rs = c.vecf(r, |c| c.lu(-6.0, 6.0));
            let cs = c.vecf(k, |c| c.lu(-3.0, 3.0));
            for i in 0..r {
                for j in 0..k {
                    *m.at_mut(i, j) = dd(c.normal() * rs[i] * cs[j]);
                }
            }
            m
        }
        4 => {
            let mut m = RM::zeros(r, k);
            for x in m.d.iter_mut() {
                *x = dd(if c.p(0.55) { 0.0 } else { c.f(-3.0, 3.0) });
            }
            m
        }
        5 => {
            // Permuted triangular.
            let p = c.perm(r);
            let mut m = RM::zeros(r, k);
            for i in 0..r {
                for j in 0..k {
                    if j >= i {
                        *m.at_mut(p[i], j) = dd(if i == j { c.sign() * c.f(0.5, 3.0) } else { c.f(-2.0, 2.0) });
                    }
                }
            }
            m
        }
        6 | 7 => {
            let n = r.min(k);
            let lo = c.f(-13.0, 0.0);
            let s = c.vecf(n, |c| c.lu(lo, 0.0));
            let g = c.lu(-4.0, 4.0);
            gen_svd(c, r, k, &s).scale(g)
        }
        8 => {
            // Nearly rank-deficient: one row a combination of others plus a tiny part.
            let mut m = RM::zeros(r, k);
            for x in m.d.iter_mut() {
                *x = dd(c.f(-2.0, 2.0));
            }
            if r >= 2 {
                let t = c.us(0, r - 1);
                let e = c.lu(-17.0, -1.0);
                let o = (t + 1) % r;
                let f = c.f(-2.0, 2.0);
                for j in 0..k {
                    let pert = c.normal() * e;
                    let v = m.f(o, j) * f + pert;
                    *m.at_mut(t, j) = dd(v);
                }
            }
            m
        }
        _ => {
            let g = c.lu(-8.0, 8.0);
            let mut m = RM::zeros(r, k);
            for x in m.d.iter_mut() {
                *x = dd(c.normal() * g);
            }
            m
        }
    }
}
/// A symmetric positive definite matrix with eigenvalues in [lo,hi] log-uniformly.
pub fn gen_spd(c: &mut Case, n: usize, lo: f64, hi: f64) -> RM {
    let e = c.vecf(n, |c| c.lu(lo, hi));
    gen_sym(c, &e)
}
pub fn gen_sym(c: &mut Case, e: &[f64]) -> RM {
    let q = gen_orth(c, e.len());
    let m = q.mul(&RM::diag(e)).mul(&q.t());
    RM::from_fn(e.len(), e.len(), |i, j| if i <= j { m.f(i, j) } else { m.f(j, i) })
}
pub fn gen_vec(c: &mut Case, n: usize) -> Vec<f64> {
    match c.us(0, 4) {
        0 => {
            let k = c.us(0, n - 1);
            (0..n).map(|i| if i == k { 1.0 } else { 0.0 }).collect()
        }
        1 => c.vecf(n, |c| c.ls(-6.0, 6.0)),
        _ => c.vecf(n, |c| c.real()),
    }
}
/// Calls `$f::<N, T>(c)` for a run-time size in 1..=8 with T alternating.
#[macro_export]
macro_rules! sized {
    ($c:expr, $n:expr, $f:ident, $t:ty) => {
        match $n {
            1 => $f::<1, $t>($c),
            2 => $f::<2, $t>($c),
            3 => $f::<3, $t>($c),
            4 => $f::<4, $t>($c),
            5 => $f::<5, $t>($c),
            6 => $f::<6, $t>($c),
            7 => $f::<7, $t>($c),
            _ => $f::<8, $t>($c),
        }
    };
}
/// The same above the sizes an ordinary test touches.
#[macro_export]
macro_rules! sized_big {
    ($c:expr, $n:expr, $f:ident, $t:ty) => {
        match $n {
            0 => $f::<9, $t>($c),
            1 => $f::<10, $t>($c),
            2 => $f::<12, $t>($c),
            _ => $f::<16, $t>($c),
        }
    };
}
/// The bare machine scalar hidden behind `S`, when it is one of the watched size.
pub fn peek<S: Numeric>(x: S, size: usize) -> Option<f64> {
    if core::mem::size_of::<S>() != size {
        return None;
    }
    match core::any::type_name::<S>() {
        "f64" => Some(unsafe { core::mem::transmute_copy::<S, f64>(&x) }),
        "f32" => Some(unsafe { core::mem::transmute_copy::<S, f32>(&x) } as f64),
        _ => None,
    }
}
/// Euclidean norm without overflow.
pub fn nrm(v: &[f64]) -> f64 {
    let m = v.iter().fold(0.0f64, |a, b| if b.is_nan() { f64::NAN } else { a.max(b.abs()) });
    if m == 0.0 || !m.is_finite() {
        return m;
    }
    m * v.iter().map(|x| (x / m) * (x / m)).sum::<f64>().sqrt()
}
