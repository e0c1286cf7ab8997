//! The scalars the scenarios run on: the two machine ones, the counting one, the double-double one,
//! and the library's own dual numbers (wrapped, so that they can carry the harness's traits).
use crate::dd::{DD, dd};
use crate::fl::Fl;
use crate::probe::Probe;
use core::ops::*;
use multicalc::random::{RandomScalar, RandomSource};
use multicalc::scalar::Dual;
use multicalc::{Numeric, Primal};

/// A scalar a scenario can run on.
pub trait Sc: Fl + RandomScalar {
    /// Whether draws of this scalar can be varied.
    const VARIES: bool = false;
    /// `v` moved by `by`, in whatever sense the scalar has of moving.
    fn vary(v: f64, _by: f64) -> Self {
        Self::t(v)
    }
    /// What the scalar holds besides its value.
    fn second(self) -> f64 {
        0.0
    }
}
impl Sc for f64 {}
impl Sc for f32 {}
impl Sc for Probe {}
impl Sc for DD {
    const VARIES: bool = true;
    fn vary(v: f64, by: f64) -> Self {
        dd(v) + dd(by)
    }
    fn second(self) -> f64 {
        self.l
    }
}
impl Sc for Du<f64> {
    const VARIES: bool = true;
    fn vary(v: f64, by: f64) -> Self {
        Du(Dual::new(v, by))
    }
    fn second(self) -> f64 {
        self.0.deriv
    }
}
impl Sc for Du<DD> {
    const VARIES: bool = true;
    fn vary(v: f64, by: f64) -> Self {
        Du(Dual::new(dd(v), dd(by)))
    }
    fn second(self) -> f64 {
        self.0.deriv.f()
    }
}
impl Fl for Probe {
    const EPS: f64 = f64::EPSILON;
    const F32: bool = false;
    fn t(x: f64) -> Self {
        Probe(x)
    }
    fn d(self) -> f64 {
        self.0
    }
}
impl Fl for DD {
    const EPS: f64 = 1e-31;
    const F32: bool = false;
    fn t(x: f64) -> Self {
        dd(x)
    }
    fn d(self) -> f64 {
        self.f()
    }
}
/// A source of random words that hands out `f64` uniforms whatever the scalar.
struct Words<'a, T: RandomScalar, R: RandomSource<T> + ?Sized>(&'a mut R, core::marker::PhantomData<T>);
impl<T: RandomScalar, R: RandomSource<T> + ?Sized> RandomSource<f64> for Words<'_, T, R> {
    fn next_u32(&mut self) -> u32 {
        self.0.next_u32()
    }
    fn get_cache(&mut self) -> Option<f64> {
        None
    }
    fn set_cache(&mut self, _: f64) {}
}
macro_rules! random {
    ($t:ty, $f:expr) => {
        impl RandomScalar for $t {
            fn next_unit<R: RandomSource<Self> + ?Sized>(source: &mut R) -> Self {
                ($f)(<f64 as RandomScalar>::next_unit(&mut Words(source, core::marker::PhantomData)))
            }
        }
    };
}
random!(Probe, Probe);
random!(DD, dd);
random!(Du<f64>, |v| Du(Dual::constant(v)));
random!(Du<DD>, |v| Du(Dual::constant(dd(v))));

thread_local! {
    static SINGULAR: core::cell::Cell<u64> = const { core::cell::Cell::new(0) };
}
fn sing(hit: bool) {
    if hit {
        SINGULAR.with(|c| c.set(c.get() + 1));
    }
}
/// How often a function was asked for its slope where it has none, since the last call.
pub fn take_singular() -> u64 {
    SINGULAR.with(|c| c.replace(0))
}
/// The library's dual number, over `B`.
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
pub struct Du<B: Numeric>(pub Dual<B>);
impl<B: Fl> Fl for Du<B> {
    const EPS: f64 = B::EPS;
    const F32: bool = B::F32;
    fn t(x: f64) -> Self {
        Du(Dual::constant(B::t(x)))
    }
    fn d(self) -> f64 {
        self.0.value.d()
    }
}
impl<B: Fl> Primal for Du<B> {
    fn to_f64(&self) -> f64 {
        self.0.to_f64()
    }
    fn to_f32(&self) -> f32 {
        self.0.to_f32()
    }
}
macro_rules! bin {
    ($($t:ident $f:ident $ta:ident $fa:ident),*) => {$(
        impl<B: Numeric> $t for Du<B> { type Output = Self; #[inline] fn $f(self, o: Self) -> Self { Du($t::$f(self.0, o.0)) } }
        impl<B: Numeric> $ta for Du<B> { #[inline] fn $fa(&mut self, o: Self) { $ta::$fa(&mut self.0, o.0) } }
    )*};
}
bin!(Add add AddAssign add_assign, Sub sub SubAssign sub_assign, Mul mul MulAssign mul_assign, Div div DivAssign div_assign);
impl<B: Numeric> Neg for Du<B> {
    type Output = Self;
    fn neg(self) -> Self {
        Du(-self.0)
    }
}
macro_rules! cs {
    ($($c:ident),*) => {$( const $c: Self = Du(<Dual<B> as Numeric>::$c); )*};
}
macro_rules! un {
    ($($f:ident),*) => {$( #[inline] fn $f(self) -> Self { Du(Numeric::$f(self.0)) } )*};
}
macro_rules! bi {
    ($($f:ident),*) => {$( #[inline] fn $f(self, o: Self) -> Self { Du(Numeric::$f(self.0, o.0)) } )*};
}
macro_rules! is {
    ($($f:ident),*) => {$( #[inline] fn $f(self) -> bool { Numeric::$f(self.0) } )*};
}
impl<B: Numeric> Numeric for Du<B> {
    cs!(ZERO, ONE, TWO, THREE, HALF, TEN, HUNDRED, ONE_HUNDRED_EIGHTY, PI, TWO_PI, EPSILON, EPSILON_X4, EPSILON_X30, NAN, INFINITY, NEG_INFINITY, MAX, MIN_POSITIVE);
    type Constant = B;
    fn from_f64(v: f64) -> Self {
        Du(Dual::from_f64(v))
    }
    fn from_u64(v: u64) -> Self {
        Du(Dual::from_u64(v))
    }
    fn from_usize(v: usize) -> Self {
        Du(Dual::from_usize(v))
    }
    un!(abs, sin, cos, tan, exp, log, expm1, ln_1p, log2, log10, floor, ceil, round, trunc, signum, atan, sinh, cosh, tanh, recip, wrap_to_pi, to_radians, to_degrees);
    bi!(copysign, max, min, powf, safe_div);
    is!(is_nan, is_finite, is_infinite);
    fn sqrt(self) -> Self {
        sing(self.0.value == B::ZERO);
        Du(self.0.sqrt())
    }
    fn cbrt(self) -> Self {
        sing(self.0.value == B::ZERO);
        Du(self.0.cbrt())
    }
    fn hypot(self, o: Self) -> Self {
        sing(self.0.value == B::ZERO && o.0.value == B::ZERO);
        Du(self.0.hypot(o.0))
    }
    fn atan2(self, o: Self) -> Self {
        sing(self.0.value == B::ZERO && o.0.value == B::ZERO);
        Du(self.0.atan2(o.0))
    }
    fn asin(self) -> Self {
        sing(self.0.value.abs() == B::ONE);
        Du(self.0.asin())
    }
    fn acos(self) -> Self {
        sing(self.0.value.abs() == B::ONE);
        Du(self.0.acos())
    }
    fn clamp(self, a: B, b: B) -> Self {
        Du(self.0.clamp(a, b))
    }
    fn mul_add(self, a: Self, b: Self) -> Self {
        Du(self.0.mul_add(a.0, b.0))
    }
    fn powi(self, n: i32) -> Self {
        Du(self.0.powi(n))
    }
}
impl Primal for DD {
    fn to_f64(&self) -> f64 {
        self.f()
    }
    fn to_f32(&self) -> f32 {
        self.f() as f32
    }
}
