//! `Probe`: an instrumented scalar. It computes exactly as `f64` does and counts every arithmetic
//! operation; when a case's budget is spent it aborts the call, so "bounded work per call" is judged
//! on logical steps and never on wall-clock time.
use core::cell::Cell;
use core::ops::*;
use multicalc::{Numeric, Primal};

thread_local! {
    static OPS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
    static TRANS: Cell<u64> = const { Cell::new(0) };
}
pub struct BudgetExceeded(pub u64);

pub fn reset_ops(limit: u64) {
    OPS.with(|c| c.set(0));
    TRANS.with(|c| c.set(0));
    LIMIT.with(|c| c.set(limit));
}
pub fn ops() -> u64 {
    OPS.with(|c| c.get())
}
/// Also usable from instrumented callbacks: spends `n` units of the budget.
pub fn spend(n: u64) {
    OPS.with(|c| {
        let v = c.get() + n;
        c.set(v);
        if v > LIMIT.with(|l| l.get()) {
            LIMIT.with(|l| l.set(u64::MAX));
            std::panic::resume_unwind(Box::new(BudgetExceeded(v)));
        }
    })
}

#[derive(Clone, Copy, PartialEq, PartialOrd)]
pub struct Probe(pub f64);
impl core::fmt::Debug for Probe {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        self.0.fmt(f)
    }
}
impl Primal for Probe {
    fn to_f64(&self) -> f64 {
        self.0
    }
    fn to_f32(&self) -> f32 {
        self.0 as f32
    }
}
macro_rules! bin {
    ($($t:ident $f:ident $ta:ident $fa:ident $op:tt),*) => {$(
        impl $t for Probe { type Output = Probe; #[inline] fn $f(self, o: Probe) -> Probe { spend(1); Probe(self.0 $op o.0) } }
        impl $ta for Probe { #[inline] fn $fa(&mut self, o: Probe) { spend(1); self.0 = self.0 $op o.0; } }
    )*};
}
bin!(Add add AddAssign add_assign +, Sub sub SubAssign sub_assign -, Mul mul MulAssign mul_assign *, Div div DivAssign div_assign /);
impl Neg for Probe {
    type Output = Probe;
    #[inline]
    fn neg(self) -> Probe {
        Probe(-self.0)
    }
}
macro_rules! un {
    ($($f:ident),*) => {$( #[inline] fn $f(self) -> Self { spend(1); Probe(<f64 as Numeric>::$f(self.0)) } )*};
}
macro_rules! bi {
    ($($f:ident),*) => {$( #[inline] fn $f(self, o: Self) -> Self { spend(1); Probe(<f64 as Numeric>::$f(self.0, o.0)) } )*};
}
impl Numeric for Probe {
    const ZERO: Self = Probe(0.0);
    const ONE: Self = Probe(1.0);
    const TWO: Self = Probe(2.0);
    const THREE: Self = Probe(3.0);
    const HALF: Self = Probe(0.5);
    const TEN: Self = Probe(10.0);
    const HUNDRED: Self = Probe(100.0);
    const ONE_HUNDRED_EIGHTY: Self = Probe(180.0);
    const PI: Self = Probe(core::f64::consts::PI);
    const TWO_PI: Self = Probe(core::f64::consts::PI * 2.0);
    const EPSILON: Self = Probe(f64::EPSILON);
    const EPSILON_X4: Self = Probe(f64::EPSILON * 4.0);
    const EPSILON_X30: Self = Probe(f64::EPSILON * 30.0);
    const NAN: Self = Probe(f64::NAN);
    const INFINITY: Self = Probe(f64::INFINITY);
    const NEG_INFINITY: Self = Probe(f64::NEG_INFINITY);
    const MAX: Self = Probe(f64::MAX);
    const MIN_POSITIVE: Self = Probe(f64::MIN_POSITIVE);
    type Constant = Probe;
    fn from_f64(v: f64) -> Self {
        spend(1);
        Probe(v)
    }
    fn from_u64(v: u64) -> Self {
        spend(1);
        Probe(v as f64)
    }
    fn from_usize(v: usize) -> Self {
        spend(1);
        Probe(v as f64)
    }
    un!(abs, sqrt, cbrt, sin, cos, tan, exp, log, expm1, ln_1p, log2, log10, floor, ceil, round, trunc, signum, atan, asin, acos, sinh, cosh, tanh, recip, wrap_to_pi, to_radians, to_degrees);
    bi!(atan2, copysign, max, min, hypot, powf, safe_div);
    fn clamp(self, a: Self, b: Self) -> Self {
        spend(1);
        Probe(<f64 as Numeric>::clamp(self.0, a.0, b.0))
    }
    fn mul_add(self, a: Self, b: Self) -> Self {
        spend(1);
        Probe(<f64 as Numeric>::mul_add(self.0, a.0, b.0))
    }
    fn powi(self, n: i32) -> Self {
        spend(1);
        Probe(<f64 as Numeric>::powi(self.0, n))
    }
    fn is_nan(self) -> bool {
        spend(1);
        self.0.is_nan()
    }
    fn is_finite(self) -> bool {
        spend(1);
        self.0.is_finite()
    }
    fn is_infinite(self) -> bool {
        spend(1);
        self.0.is_infinite()
    }
}
