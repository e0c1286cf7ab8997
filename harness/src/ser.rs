//! Truncated power series in double-double with a running rounding bound: the reference the
//! autodiff scalars are judged against. Independent formulas (binomial/closed-form Taylor
//! coefficients composed by powers), not the recurrences the library uses.
use crate::dd::*;

/// `v[k]` is the k-th Taylor coefficient, `e[k]` bounds what rounding at `eps` may have done to
/// an evaluation of it in the scalar under test.
#[derive(Clone, Debug)]
pub struct Ser {
    pub v: Vec<DD>,
    pub e: Vec<f64>,
    pub eps: f64,
}
const K: f64 = 24.0;
impl Ser {
    pub fn cst(x: DD, n: usize, eps: f64) -> Ser {
        let mut v = vec![dd(0.0); n];
        v[0] = x;
        Ser { v, e: vec![0.0; n], eps }
    }
    pub fn new(c: &[f64], n: usize, eps: f64) -> Ser {
        let mut v = vec![dd(0.0); n];
        for (i, x) in c.iter().enumerate().take(n) {
            v[i] = dd(*x);
        }
        Ser { v, e: vec![0.0; n], eps }
    }
    pub fn n(&self) -> usize {
        self.v.len()
    }
    pub fn x0(&self) -> f64 {
        self.v[0].f()
    }
    fn like(&self, x: f64) -> Ser {
        Ser::cst(dd(x), self.n(), self.eps)
    }
    pub fn add(&self, o: &Ser) -> Ser {
        let v: Vec<DD> = self.v.iter().zip(&o.v).map(|(a, b)| *a + *b).collect();
        let e = (0..v.len()).map(|i| self.e[i] + o.e[i] + self.eps * v[i].f().abs()).collect();
        Ser { v, e, eps: self.eps }
    }
    pub fn neg(&self) -> Ser {
        Ser { v: self.v.iter().map(|a| -*a).collect(), e: self.e.clone(), eps: self.eps }
    }
    pub fn sub(&self, o: &Ser) -> Ser {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Ser) -> Ser {
        let n = self.n();
        let mut v = vec![dd(0.0); n];
        let mut e = vec![0.0; n];
        for k in 0..n {
            let mut m = 0.0;
            for i in 0..=k {
                v[k] = v[k] + self.v[i] * o.v[k - i];
                let (a, b) = (self.v[i].f().abs(), o.v[k - i].f().abs());
                m += a * b;
                e[k] += a * o.e[k - i] + self.e[i] * (b + o.e[k - i]);
            }
            e[k] += self.eps * K * m;
        }
        Ser { v, e, eps: self.eps }
    }
    pub fn scale(&self, k: DD) -> Ser {
        let v: Vec<DD> = self.v.iter().map(|a| *a * k).collect();
        let kk = k.f().abs();
        let e = (0..v.len()).map(|i| self.e[i] * kk + 4.0 * self.eps * v[i].f().abs()).collect();
        Ser { v, e, eps: self.eps }
    }
    /// Compose with a function whose Taylor coefficients at `x0` are `f[0..=n]`.
    pub fn compose(&self, f: &[DD]) -> Ser {
        let n = self.n();
        assert!(f.len() > n);
        let mut h = self.v.clone();
        h[0] = dd(0.0);
        let ha: Vec<f64> = (0..n).map(|i| if i == 0 { 0.0 } else { h[i].f().abs() + self.e[i] }).collect();
        let fa = |k: usize| f.get(k).map_or(0.0, |x| x.f().abs()) + f.get(k + 1).map_or(0.0, |x| x.f().abs() * (k as f64 + 1.0)) * self.e[0];
        let mut p = vec![dd(0.0); n];
        p[0] = dd(1.0);
        let mut pa = vec![0.0; n];
        pa[0] = 1.0;
        let mut v = vec![dd(0.0); n];
        let mut mag = vec![0.0; n];
        let mut lin = vec![0.0; n];
        for k in 0..=n {
            let fk = fa(k);
            if k < n {
                for i in 0..n {
                    v[i] = v[i] + f[k] * p[i];
                    mag[i] += fk * pa[i];
                }
            }
            // Derivative majorant: (k+1)|f_{k+1}| |h|^k.
            if k < n {
                let g = (k as f64 + 1.0) * fa(k + 1);
                for i in 0..n {
                    lin[i] += g * pa[i];
                }
            }
            let mut np = vec![dd(0.0); n];
            let mut npa = vec![0.0; n];
            for i in 0..n {
                for j in 0..n - i {
                    np[i + j] = np[i + j] + p[i] * h[j];
                    npa[i + j] += pa[i] * ha[j];
                }
            }
            p = np;
            pa = npa;
        }
        let mut e = vec![0.0; n];
        for i in 0..n {
            for j in 0..=i {
                e[i] += 1.5 * lin[i - j] * self.e[j];
            }
            e[i] += self.eps * K * (i as f64 + 2.0) * mag[i];
        }
        Ser { v, e, eps: self.eps }
    }
    /// `(x0 + h)^a` by the binomial series; `root` is `x0^a`.
    fn binom(&self, root: DD, a: DD) -> Ser {
        let n = self.n();
        let mut f = vec![root];
        for k in 0..n {
            let c = f[k] * (a - dd(k as f64)) / (dd(k as f64 + 1.0) * self.v[0]);
            f.push(c);
        }
        self.compose(&f)
    }
    pub fn recip(&self) -> Ser {
        self.binom(dd(1.0) / self.v[0], dd(-1.0))
    }
    pub fn div(&self, o: &Ser) -> Ser {
        self.mul(&o.recip())
    }
    pub fn sqrt(&self) -> Ser {
        self.binom(self.v[0].sqr(), dd(0.5))
    }
    pub fn cbrt(&self) -> Ser {
        let x = self.v[0];
        let mut r = dd(x.f().cbrt());
        for _ in 0..3 {
            r = r - (r * r * r - x) / (dd(3.0) * r * r);
        }
        self.binom(r, dd(1.0) / dd(3.0))
    }
    fn cycle(&self, c: [DD; 4]) -> Ser {
        let mut f = vec![];
        let mut fact = dd(1.0);
        for k in 0..=self.n() {
            if k > 0 {
                fact = fact * dd(k as f64);
            }
            f.push(c[k % 4] / fact);
        }
        let mut r = self.compose(&f);
        // sinh/cosh and friends may be built from pieces of either size.
        let big = c.iter().map(|x| x.f().abs()).fold(0.0, f64::max);
        r.e[0] += self.eps * K * big;
        r
    }
    pub fn sin(&self) -> Ser {
        let (s, c) = self.v[0].sincos();
        self.cycle([s, c, -s, -c])
    }
    pub fn cos(&self) -> Ser {
        let (s, c) = self.v[0].sincos();
        self.cycle([c, -s, -c, s])
    }
    pub fn tan(&self) -> Ser {
        self.sin().div(&self.cos())
    }
    pub fn exp(&self) -> Ser {
        let x = self.v[0].exp_();
        self.cycle([x, x, x, x])
    }
    pub fn expm1(&self) -> Ser {
        let mut r = self.exp();
        r.v[0] = self.v[0].expm1_();
        r
    }
    pub fn sinh(&self) -> Ser {
        let (a, b) = (self.v[0].exp_(), (-self.v[0]).exp_());
        let (s, c) = ((a - b).mulf(0.5), (a + b).mulf(0.5));
        let mut r = self.cycle([s, c, s, c]);
        let m = self.cycle([c, c, c, c]);
        for i in 0..self.n() {
            r.e[i] += m.e[i] + 2.0 * self.eps * K * m.v[i].f().abs();
        }
        r
    }
    pub fn cosh(&self) -> Ser {
        let (a, b) = (self.v[0].exp_(), (-self.v[0]).exp_());
        let (s, c) = ((a - b).mulf(0.5), (a + b).mulf(0.5));
        let mut r = self.cycle([c, s, c, s]);
        let m = self.cycle([c, c, c, c]);
        for i in 0..self.n() {
            r.e[i] += m.e[i];
        }
        r
    }
    pub fn tanh(&self) -> Ser {
        self.sinh().div(&self.cosh())
    }
    fn logser(&self, f0: DD, x: DD) -> Ser {
        let n = self.n();
        let mut f = vec![f0];
        let mut p = dd(1.0);
        for k in 1..=n {
            p = p / x;
            let c = p / dd(k as f64);
            f.push(if k % 2 == 1 { c } else { -c });
        }
        self.compose(&f)
    }
    pub fn ln(&self) -> Ser {
        self.logser(self.v[0].ln_(), self.v[0])
    }
    pub fn ln_1p(&self) -> Ser {
        self.logser(self.v[0].ln1p_(), self.v[0] + dd(1.0))
    }
    pub fn log2(&self) -> Ser {
        self.ln().scale(dd(1.0) / dd(2.0).ln_())
    }
    pub fn log10(&self) -> Ser {
        self.ln().scale(dd(1.0) / dd(10.0).ln_())
    }
    pub fn atan2(&self, x: &Ser) -> Ser {
        // Im log((x + iy)/(x0 + iy0)) with the angle of the base point added.
        let (y0, x0) = (self.v[0], x.v[0]);
        let (mut xs, mut ys) = (self.like(0.0), self.like(0.0));
        xs.v[0] = x0;
        xs.e[0] = x.e[0];
        ys.v[0] = y0;
        ys.e[0] = self.e[0];
        let r2 = xs.mul(&xs).add(&ys.mul(&ys)).recip();
        let (cx, cy) = (xs.mul(&r2), ys.mul(&r2));
        let mut re = x.mul(&cx).add(&self.mul(&cy));
        let mut im = self.mul(&cx).sub(&x.mul(&cy));
        re.v[0] = dd(0.0);
        im.v[0] = dd(0.0);
        let n = self.n();
        let mut out = self.like(0.0);
        out.e[0] += im.e[0];
        let (mut pr, mut pi) = (self.like(1.0), self.like(0.0));
        for k in 1..n.max(2) {
            let (a, b) = (pr.mul(&re).sub(&pi.mul(&im)), pr.mul(&im).add(&pi.mul(&re)));
            pr = a;
            pi = b;
            let s = if k % 2 == 1 { 1.0 } else { -1.0 };
            out = out.add(&pi.scale(dd(s / k as f64)));
        }
        out.v[0] = DD::atan2_(y0, x0);
        out.e[0] += self.eps * K * (1.0 + out.v[0].f().abs());
        // Rounding in |.|^2 style denominators is relative to the largest coefficient ratios.
        out
    }
    /// An antiderivative with constant `c0` of `g` times the derivative of self.
    fn integral_of(&self, c0: DD, g: &Ser) -> Ser {
        let n = self.n();
        let mut d = self.like(0.0);
        for k in 1..n {
            d.v[k - 1] = self.v[k] * dd(k as f64);
            d.e[k - 1] = self.e[k] * k as f64;
        }
        let p = d.mul(g);
        let mut out = self.like(0.0);
        out.v[0] = c0;
        out.e[0] = self.e[0] * g.v[0].f().abs() * 1.5 + self.eps * K * (1.0 + c0.f().abs());
        for k in 1..n {
            out.v[k] = p.v[k - 1] / dd(k as f64);
            out.e[k] = p.e[k - 1] / k as f64 + self.eps * K * out.v[k].f().abs();
        }
        out
    }
    pub fn asin(&self) -> Ser {
        let x = self.v[0];
        let g = self.like(1.0).sub(&self.mul(self)).sqrt().recip();
        self.integral_of(DD::atan2_(x, (dd(1.0) - x * x).sqr()), &g)
    }
    pub fn acos(&self) -> Ser {
        let mut r = self.asin().neg();
        r.v[0] = r.v[0] + dd_pi().mulf(0.5);
        r.e[0] += self.eps * K * 2.0;
        r
    }
    pub fn atan(&self) -> Ser {
        let x = self.v[0];
        let g = self.like(1.0).add(&self.mul(self)).recip();
        self.integral_of(DD::atan2_(x, dd(1.0)), &g)
    }
    pub fn step(&self, v: f64) -> Ser {
        let mut r = self.like(v);
        r.e[0] = self.eps * v.abs();
        r
    }
    pub fn powi(&self, n: i32) -> Ser {
        let mut p = self.like(1.0);
        for _ in 0..n.unsigned_abs() {
            p = p.mul(self);
        }
        if n < 0 { p.recip() } else { p }
    }
}
pub fn dd_pi() -> DD {
    DD::new(std::f64::consts::PI, 1.2246467991473532e-16)
}
