//! Double-double reference arithmetic (about 106 significant bits). It is the oracle's own
//! arithmetic: none of the code under test is used to compute with it.
use core::ops::*;
use multicalc::Numeric;

#[derive(Clone, Copy, Debug)]
pub struct DD {
    pub h: f64,
    pub l: f64,
}

#[inline]
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}
#[inline]
fn quick(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    (s, b - (s - a))
}
#[inline]
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    (p, f64::mul_add(a, b, -p))
}

pub fn dd(x: f64) -> DD {
    DD { h: x, l: 0.0 }
}
/// Exact quotient of two doubles to double-double precision.
pub fn ddq(a: f64, b: f64) -> DD {
    dd(a) / dd(b)
}

impl DD {
    pub const PI_: DD = DD { h: 3.141592653589793, l: 1.2246467991473532e-16 };
    pub const LN2: DD = DD { h: 0.6931471805599453, l: 2.3190468138462996e-17 };
    pub fn new(h: f64, l: f64) -> DD {
        let (s, e) = two_sum(h, l);
        DD { h: s, l: e }
    }
    pub fn f(self) -> f64 {
        self.h + self.l
    }
    pub fn mulf(self, b: f64) -> DD {
        self * dd(b)
    }
    pub fn ab(self) -> DD {
        if self.h < 0.0 || (self.h == 0.0 && self.l < 0.0) { -self } else { self }
    }
    pub fn sq(self) -> DD {
        self * self
    }
    pub fn sqr(self) -> DD {
        if !(self.h > 0.0) || self.h.is_infinite() {
            return dd(self.h.sqrt());
        }
        let x = 1.0 / self.h.sqrt();
        let ax = self.h * x;
        let d = (self - dd(ax).sq()).h;
        let (s, e) = two_sum(ax, d * x * 0.5);
        let r = DD { h: s, l: e };
        // one more Newton step
        let q = r + (self - r * r) / (r + r);
        if q.h.is_finite() { q } else { r }
    }
    pub fn ldexp(self, n: i32) -> DD {
        DD { h: libm::ldexp(self.h, n), l: libm::ldexp(self.l, n) }
    }
    pub fn powi_(self, n: i32) -> DD {
        let mut e = n.unsigned_abs();
        let mut b = self;
        let mut r = dd(1.0);
        while e > 0 {
            if e & 1 == 1 {
                r = r * b;
            }
            b = b * b;
            e >>= 1;
        }
        if n < 0 { dd(1.0) / r } else { r }
    }
    pub fn exp_(self) -> DD {
        if self.h.is_nan() {
            return self;
        }
        if self.h > 709.9 {
            return dd(f64::INFINITY);
        }
        if self.h < -745.5 {
            return dd(0.0);
        }
        let k = (self.h / core::f64::consts::LN_2).round();
        let r = (self - DD::LN2.mulf(k)).mulf(1.0 / 1024.0);
        // Taylor of expm1
        let mut t = r;
        let mut s = r;
        for i in 2..14 {
            t = t * r / dd(i as f64);
            s = s + t;
        }
        for _ in 0..10 {
            s = s + s + s * s;
        }
        (s + dd(1.0)).ldexp(k as i32)
    }
    pub fn expm1_(self) -> DD {
        if self.h.abs() < 0.3 {
            let mut t = self;
            let mut s = self;
            for i in 2..32 {
                t = t * self / dd(i as f64);
                s = s + t;
            }
            s
        } else {
            self.exp_() - dd(1.0)
        }
    }
    pub fn ln_(self) -> DD {
        if !(self.h > 0.0) || self.h.is_infinite() {
            return dd(self.h.ln());
        }
        let mut x = dd(self.h.ln());
        for _ in 0..2 {
            x = x + self * (-x).exp_() - dd(1.0);
        }
        x
    }
    pub fn ln1p_(self) -> DD {
        if self.h.abs() < 0.25 {
            // 2 atanh(x/(2+x))
            let z = self / (self + dd(2.0));
            let z2 = z * z;
            let mut t = z;
            let mut s = z;
            for i in 1..40 {
                t = t * z2;
                s = s + t / dd((2 * i + 1) as f64);
            }
            s + s
        } else {
            (self + dd(1.0)).ln_()
        }
    }
    fn sincos_small(r: DD) -> (DD, DD) {
        let r2 = r * r;
        let mut t = r;
        let mut s = r;
        let mut i = 1;
        while i < 30 {
            t = -t * r2 / dd(((i + 1) * (i + 2)) as f64);
            s = s + t;
            i += 2;
        }
        let mut t = dd(1.0);
        let mut c = dd(1.0);
        let mut i = 0;
        while i < 30 {
            t = -t * r2 / dd(((i + 1) * (i + 2)) as f64);
            c = c + t;
            i += 2;
        }
        (s, c)
    }
    /// (sin, cos); good for |x| up to about 1e5 (argument reduced with a 160-bit pi/2).
    pub fn sincos(self) -> (DD, DD) {
        if !self.h.is_finite() {
            return (dd(f64::NAN), dd(f64::NAN));
        }
        let k = (self.h / core::f64::consts::FRAC_PI_2).round();
        const P1: f64 = 1.5707963267948966;
        const P2: f64 = 6.123233995736766e-17;
        const P3: f64 = -1.4973849048591833e-33;
        let (a, b) = two_prod(k, P1);
        let r = self - DD { h: a, l: b } - {
            let (c, d) = two_prod(k, P2);
            DD { h: c, l: d }
        } - dd(k * P3);
        let (s, c) = DD::sincos_small(r);
        match (k.rem_euclid(4.0)) as i32 {
            0 => (s, c),
            1 => (c, -s),
            2 => (-s, -c),
            _ => (-c, s),
        }
    }
    pub fn atan2_(y: DD, x: DD) -> DD {
        let z = dd(libm::atan2(y.f(), x.f()));
        if (x.h == 0.0 && y.h == 0.0) || !x.h.is_finite() || !y.h.is_finite() {
            return z;
        }
        // Newton: z += sin(theta - z) with theta's sin/cos known
        let r = (x * x + y * y).sqr();
        if r.h == 0.0 || !r.h.is_finite() {
            return z;
        }
        let (xn, yn) = (x / r, y / r);
        let mut z = z;
        for _ in 0..2 {
            let (s, c) = z.sincos();
            z = z + (yn * c - xn * s);
        }
        z
    }
    pub fn cmp_(self, o: DD) -> Option<core::cmp::Ordering> {
        match self.h.partial_cmp(&o.h) {
            Some(core::cmp::Ordering::Equal) => self.l.partial_cmp(&o.l),
            x => x,
        }
    }
    pub fn max_(self, o: DD) -> DD {
        if self < o { o } else { self }
    }
    pub fn min_(self, o: DD) -> DD {
        if o < self { o } else { self }
    }
}
impl Add for DD {
    type Output = DD;
    #[inline]
    fn add(self, b: DD) -> DD {
        let (s, e) = two_sum(self.h, b.h);
        if !s.is_finite() {
            return dd(s);
        }
        let (t, f) = two_sum(self.l, b.l);
        let (s, e) = quick(s, e + t);
        let (s, e) = quick(s, e + f);
        DD { h: s, l: e }
    }
}
impl Neg for DD {
    type Output = DD;
    #[inline]
    fn neg(self) -> DD {
        DD { h: -self.h, l: -self.l }
    }
}
impl Sub for DD {
    type Output = DD;
    #[inline]
    fn sub(self, b: DD) -> DD {
        self + (-b)
    }
}
impl Mul for DD {
    type Output = DD;
    #[inline]
    fn mul(self, b: DD) -> DD {
        let (p, e) = two_prod(self.h, b.h);
        if !p.is_finite() {
            return dd(p);
        }
        let (s, e) = quick(p, e + (self.h * b.l + self.l * b.h));
        DD { h: s, l: e }
    }
}
impl Div for DD {
    type Output = DD;
    #[inline]
    fn div(self, b: DD) -> DD {
        let q1 = self.h / b.h;
        if !q1.is_finite() || q1 == 0.0 {
            return dd(q1);
        }
        let r = self - b * dd(q1);
        let q2 = r.h / b.h;
        let r = r - b * dd(q2);
        let q3 = r.h / b.h;
        let (s, e) = quick(q1, q2);
        DD { h: s, l: e } + dd(q3)
    }
}
macro_rules! asg {
    ($($t:ident $f:ident $op:tt),*) => {$(
        impl $t for DD { #[inline] fn $f(&mut self, o: DD) { *self = *self $op o; } }
    )*};
}
asg!(AddAssign add_assign +, SubAssign sub_assign -, MulAssign mul_assign *, DivAssign div_assign /);
impl PartialEq for DD {
    fn eq(&self, o: &DD) -> bool {
        self.h == o.h && (self.l == o.l || !self.h.is_finite())
    }
}
impl PartialOrd for DD {
    fn partial_cmp(&self, o: &DD) -> Option<core::cmp::Ordering> {
        self.cmp_(*o)
    }
}
impl From<f64> for DD {
    fn from(x: f64) -> DD {
        dd(x)
    }
}
impl Numeric for DD {
    const ZERO: Self = DD { h: 0.0, l: 0.0 };
    const ONE: Self = DD { h: 1.0, l: 0.0 };
    const TWO: Self = DD { h: 2.0, l: 0.0 };
    const THREE: Self = DD { h: 3.0, l: 0.0 };
    const HALF: Self = DD { h: 0.5, l: 0.0 };
    const TEN: Self = DD { h: 10.0, l: 0.0 };
    const HUNDRED: Self = DD { h: 100.0, l: 0.0 };
    const ONE_HUNDRED_EIGHTY: Self = DD { h: 180.0, l: 0.0 };
    const PI: Self = DD::PI_;
    const TWO_PI: Self = DD { h: 2.0 * DD::PI_.h, l: 2.0 * DD::PI_.l };
    const EPSILON: Self = DD { h: 2.465190328815662e-32, l: 0.0 };
    const EPSILON_X4: Self = DD { h: 4.0 * 2.465190328815662e-32, l: 0.0 };
    const EPSILON_X30: Self = DD { h: 30.0 * 2.465190328815662e-32, l: 0.0 };
    const NAN: Self = DD { h: f64::NAN, l: 0.0 };
    const INFINITY: Self = DD { h: f64::INFINITY, l: 0.0 };
    const NEG_INFINITY: Self = DD { h: f64::NEG_INFINITY, l: 0.0 };
    const MAX: Self = DD { h: f64::MAX, l: 0.0 };
    const MIN_POSITIVE: Self = DD { h: f64::MIN_POSITIVE, l: 0.0 };
    type Constant = DD;
    fn from_f64(v: f64) -> Self {
        dd(v)
    }
    fn from_u64(v: u64) -> Self {
        dd(v as f64)
    }
    fn from_usize(v: usize) -> Self {
        dd(v as f64)
    }
    fn abs(self) -> Self {
        self.ab()
    }
    fn sqrt(self) -> Self {
        self.sqr()
    }
    fn cbrt(self) -> Self {
        if self.h == 0.0 || !self.h.is_finite() {
            return dd(self.h.cbrt());
        }
        let mut x = dd(self.h.cbrt());
        for _ in 0..2 {
            x = x - (x * x * x - self) / (x * x * dd(3.0));
        }
        x
    }
    fn sin(self) -> Self {
        self.sincos().0
    }
    fn cos(self) -> Self {
        self.sincos().1
    }
    fn tan(self) -> Self {
        let (s, c) = self.sincos();
        s / c
    }
    fn exp(self) -> Self {
        self.exp_()
    }
    fn log(self) -> Self {
        self.ln_()
    }
    fn expm1(self) -> Self {
        self.expm1_()
    }
    fn ln_1p(self) -> Self {
        self.ln1p_()
    }
    fn log2(self) -> Self {
        self.ln_() / DD::LN2
    }
    fn log10(self) -> Self {
        self.ln_() / dd(10.0).ln_()
    }
    fn atan2(self, o: Self) -> Self {
        DD::atan2_(self, o)
    }
    fn copysign(self, s: Self) -> Self {
        if s.h.is_sign_negative() { -self.ab() } else { self.ab() }
    }
    fn floor(self) -> Self {
        let f = self.h.floor();
        if f == self.h { DD::new(f, self.l.floor()) } else { dd(f) }
    }
    fn ceil(self) -> Self {
        -((-self).floor())
    }
    fn round(self) -> Self {
        if self.h < 0.0 { -((-self + dd(0.5)).floor()) } else { (self + dd(0.5)).floor() }
    }
    fn trunc(self) -> Self {
        if self.h < 0.0 { self.ceil() } else { self.floor() }
    }
    fn clamp(self, a: Self, b: Self) -> Self {
        if self < a { a } else if self > b { b } else { self }
    }
    fn signum(self) -> Self {
        dd(self.h.signum())
    }
    fn max(self, o: Self) -> Self {
        if o.h.is_nan() { self } else if self.h.is_nan() { o } else { self.max_(o) }
    }
    fn min(self, o: Self) -> Self {
        if o.h.is_nan() { self } else if self.h.is_nan() { o } else { self.min_(o) }
    }
    fn atan(self) -> Self {
        DD::atan2_(self, dd(1.0))
    }
    fn asin(self) -> Self {
        let c = ((dd(1.0) - self) * (dd(1.0) + self)).sqr();
        DD::atan2_(self, c)
    }
    fn acos(self) -> Self {
        let c = ((dd(1.0) - self) * (dd(1.0) + self)).sqr();
        DD::atan2_(c, self)
    }
    fn sinh(self) -> Self {
        if self.h.abs() < 0.3 {
            let e = self.expm1_();
            (e + e / (e + dd(1.0))).mulf(0.5)
        } else {
            (self.exp_() - (-self).exp_()).mulf(0.5)
        }
    }
    fn cosh(self) -> Self {
        (self.exp_() + (-self).exp_()).mulf(0.5)
    }
    fn tanh(self) -> Self {
        if self.h.abs() > 40.0 {
            return dd(self.h.signum());
        }
        let e = (self + self).expm1_();
        e / (e + dd(2.0))
    }
    fn hypot(self, o: Self) -> Self {
        let m = self.ab().max_(o.ab());
        if m.h == 0.0 {
            return m;
        }
        let (a, b) = (self / m, o / m);
        m * (a * a + b * b).sqr()
    }
    fn powf(self, n: Self) -> Self {
        (n * self.ln_()).exp_()
    }
    fn mul_add(self, a: Self, b: Self) -> Self {
        self * a + b
    }
    fn recip(self) -> Self {
        dd(1.0) / self
    }
    fn powi(self, n: i32) -> Self {
        self.powi_(n)
    }
    fn safe_div(self, o: Self) -> Self {
        self / o
    }
    fn is_nan(self) -> bool {
        self.h.is_nan()
    }
    fn is_finite(self) -> bool {
        self.h.is_finite()
    }
    fn is_infinite(self) -> bool {
        self.h.is_infinite()
    }
}
