//! Small dynamic matrices in double-double: the linear-algebra oracle.
use crate::dd::{DD, dd};
use multicalc::{Matrix, Vector};

#[derive(Clone, Debug)]
pub struct RM {
    pub r: usize,
    pub c: usize,
    pub d: Vec<DD>,
}
impl RM {
    pub fn zeros(r: usize, c: usize) -> RM {
        RM { r, c, d: vec![dd(0.0); r * c] }
    }
    pub fn eye(n: usize) -> RM {
        let mut m = RM::zeros(n, n);
        for i in 0..n {
            *m.at_mut(i, i) = dd(1.0);
        }
        m
    }
    pub fn from_fn(r: usize, c: usize, mut f: impl FnMut(usize, usize) -> f64) -> RM {
        let mut m = RM::zeros(r, c);
        for i in 0..r {
            for j in 0..c {
                m.d[i * c + j] = dd(f(i, j));
            }
        }
        m
    }
    pub fn m<const R: usize, const C: usize>(a: &Matrix<R, C, f64>) -> RM {
        RM::from_fn(R, C, |i, j| a[(i, j)])
    }
    pub fn m32<const R: usize, const C: usize>(a: &Matrix<R, C, f32>) -> RM {
        RM::from_fn(R, C, |i, j| a[(i, j)] as f64)
    }
    pub fn v<const N: usize>(a: &Vector<N, f64>) -> RM {
        RM::from_fn(N, 1, |i, _| a[i])
    }
    pub fn col(a: &[f64]) -> RM {
        RM::from_fn(a.len(), 1, |i, _| a[i])
    }
    pub fn at(&self, i: usize, j: usize) -> DD {
        self.d[i * self.c + j]
    }
    pub fn at_mut(&mut self, i: usize, j: usize) -> &mut DD {
        &mut self.d[i * self.c + j]
    }
    pub fn f(&self, i: usize, j: usize) -> f64 {
        self.at(i, j).f()
    }
    pub fn t(&self) -> RM {
        let mut m = RM::zeros(self.c, self.r);
        for i in 0..self.r {
            for j in 0..self.c {
                m.d[j * self.r + i] = self.at(i, j);
            }
        }
        m
    }
    pub fn mul(&self, o: &RM) -> RM {
        assert_eq!(self.c, o.r);
        let mut m = RM::zeros(self.r, o.c);
        for i in 0..self.r {
            for j in 0..o.c {
                let mut s = dd(0.0);
                for k in 0..self.c {
                    s = s + self.at(i, k) * o.at(k, j);
                }
                m.d[i * o.c + j] = s;
            }
        }
        m
    }
    pub fn add(&self, o: &RM) -> RM {
        RM { r: self.r, c: self.c, d: self.d.iter().zip(&o.d).map(|(a, b)| *a + *b).collect() }
    }
    pub fn sub(&self, o: &RM) -> RM {
        RM { r: self.r, c: self.c, d: self.d.iter().zip(&o.d).map(|(a, b)| *a - *b).collect() }
    }
    pub fn scale(&self, k: f64) -> RM {
        RM { r: self.r, c: self.c, d: self.d.iter().map(|a| a.mulf(k)).collect() }
    }
    pub fn maxabs(&self) -> f64 {
        let mut m = 0.0f64;
        for x in &self.d {
            let a = x.f().abs();
            if a.is_nan() {
                return f64::NAN;
            }
            m = m.max(a);
        }
        m
    }
    pub fn norm(&self) -> f64 {
        let m = self.maxabs();
        if m == 0.0 || !m.is_finite() {
            return m;
        }
        let mut s = 0.0;
        for x in &self.d {
            let y = x.f() / m;
            s += y * y;
        }
        m * s.sqrt()
    }
    /// Solve by LU with complete row pivoting in double-double; None when singular to dd precision.
    pub fn solve(&self, b: &RM) -> Option<RM> {
        let n = self.r;
        let mut a = self.clone();
        let mut x = b.clone();
        for k in 0..n {
            let mut p = k;
            for i in k + 1..n {
                if a.at(i, k).f().abs() > a.at(p, k).f().abs() {
                    p = i;
                }
            }
            if a.at(p, k).f() == 0.0 || !a.at(p, k).f().is_finite() {
                return None;
            }
            if p != k {
                for j in 0..n {
                    let (u, v) = (a.at(k, j), a.at(p, j));
                    *a.at_mut(k, j) = v;
                    *a.at_mut(p, j) = u;
                }
                for j in 0..x.c {
                    let (u, v) = (x.at(k, j), x.at(p, j));
                    *x.at_mut(k, j) = v;
                    *x.at_mut(p, j) = u;
                }
            }
            for i in k + 1..n {
                let f = a.at(i, k) / a.at(k, k);
                for j in k..n {
                    let t = f * a.at(k, j);
                    *a.at_mut(i, j) = a.at(i, j) - t;
                }
                for j in 0..x.c {
                    let t = f * x.at(k, j);
                    *x.at_mut(i, j) = x.at(i, j) - t;
                }
            }
        }
        for j in 0..x.c {
            for i in (0..n).rev() {
                let mut s = x.at(i, j);
                for k in i + 1..n {
                    s = s - a.at(i, k) * x.at(k, j);
                }
                *x.at_mut(i, j) = s / a.at(i, i);
            }
        }
        Some(x)
    }
    pub fn inv(&self) -> Option<RM> {
        self.solve(&RM::eye(self.r))
    }
    pub fn det(&self) -> DD {
        let n = self.r;
        let mut a = self.clone();
        let mut det = dd(1.0);
        for k in 0..n {
            let mut p = k;
            for i in k + 1..n {
                if a.at(i, k).f().abs() > a.at(p, k).f().abs() {
                    p = i;
                }
            }
            if a.at(p, k).f() == 0.0 {
                return dd(0.0);
            }
            if p != k {
                det = -det;
                for j in 0..n {
                    let (u, v) = (a.at(k, j), a.at(p, j));
                    *a.at_mut(k, j) = v;
                    *a.at_mut(p, j) = u;
                }
            }
            det = det * a.at(k, k);
            for i in k + 1..n {
                let f = a.at(i, k) / a.at(k, k);
                for j in k..n {
                    let t = f * a.at(k, j);
                    *a.at_mut(i, j) = a.at(i, j) - t;
                }
            }
        }
        det
    }
    /// Eigenvalues of a symmetric matrix, descending (cyclic Jacobi in double-double).
    pub fn sym_eig(&self) -> Vec<f64> {
        let n = self.r;
        let mut a = self.clone();
        for _ in 0..60 {
            let mut off = 0.0;
            let mut tot = 0.0;
            for i in 0..n {
                for j in 0..n {
                    let q = a.f(i, j) * a.f(i, j);
                    tot += q;
                    if i != j {
                        off += q;
                    }
                }
            }
            if off == 0.0 || off < 1e-60 * tot {
                break;
            }
            for p in 0..n {
                for q in p + 1..n {
                    let apq = a.at(p, q);
                    if apq.f() == 0.0 {
                        continue;
                    }
                    let th = (a.at(q, q) - a.at(p, p)) / (apq + apq);
                    if !th.f().is_finite() {
                        continue;
                    }
                    let sg = if th.f() < 0.0 { dd(-1.0) } else { dd(1.0) };
                    let t = sg / (th.ab() + (th * th + dd(1.0)).sqr());
                    let c = dd(1.0) / (t * t + dd(1.0)).sqr();
                    let s = t * c;
                    for k in 0..n {
                        let (x, y) = (a.at(k, p), a.at(k, q));
                        *a.at_mut(k, p) = c * x - s * y;
                        *a.at_mut(k, q) = s * x + c * y;
                    }
                    for k in 0..n {
                        let (x, y) = (a.at(p, k), a.at(q, k));
                        *a.at_mut(p, k) = c * x - s * y;
                        *a.at_mut(q, k) = s * x + c * y;
                    }
                }
            }
        }
        let mut e: Vec<f64> = (0..n).map(|i| a.f(i, i)).collect();
        e.sort_by(|x, y| y.partial_cmp(x).unwrap_or(core::cmp::Ordering::Equal));
        e
    }
    /// Singular values, descending (one-sided Jacobi in double-double).
    pub fn sing(&self) -> Vec<f64> {
        let mut a = if self.r < self.c { self.t() } else { self.clone() };
        let (m, n) = (a.r, a.c);
        for _ in 0..60 {
            let mut rot = false;
            for p in 0..n {
                for q in p + 1..n {
                    let (mut al, mut be, mut ga) = (dd(0.0), dd(0.0), dd(0.0));
                    for k in 0..m {
                        al = al + a.at(k, p).sq();
                        be = be + a.at(k, q).sq();
                        ga = ga + a.at(k, p) * a.at(k, q);
                    }
                    if ga.f().abs() <= 1e-28 * (al.f() * be.f()).sqrt() || ga.f() == 0.0 {
                        continue;
                    }
                    rot = true;
                    let z = (be - al) / (ga + ga);
                    let sg = if z.f() < 0.0 { dd(-1.0) } else { dd(1.0) };
                    let t = sg / (z.ab() + (z * z + dd(1.0)).sqr());
                    let c = dd(1.0) / (t * t + dd(1.0)).sqr();
                    let s = c * t;
                    for k in 0..m {
                        let (x, y) = (a.at(k, p), a.at(k, q));
                        *a.at_mut(k, p) = c * x - s * y;
                        *a.at_mut(k, q) = s * x + c * y;
                    }
                }
            }
            if !rot {
                break;
            }
        }
        let mut e: Vec<f64> = (0..n)
            .map(|j| {
                let mut s = dd(0.0);
                for k in 0..m {
                    s = s + a.at(k, j).sq();
                }
                s.sqr().f()
            })
            .collect();
        e.sort_by(|x, y| y.partial_cmp(x).unwrap_or(core::cmp::Ordering::Equal));
        e
    }
}
