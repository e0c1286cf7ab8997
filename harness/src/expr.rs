//! Random straight-line programs over the `Numeric` operations, generated to stay inside every
//! operation's smooth domain at a given point; evaluable with any scalar and as a reference
//! power series.
use crate::ctx::*;
use crate::dd::*;
use crate::ser::*;
use multicalc::Numeric;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Cst(f64),
    Add, Sub, Mul, Div, Neg,
    AddA, SubA, MulA, DivA,
    Abs, Sqrt, Cbrt, Sin, Cos, Tan, Exp, Log, Expm1, Ln1p, Log2, Log10, Atan2, Copysign,
    Floor, Ceil, Round, Trunc, Clamp(f64, f64), Signum, Max, Min, Wrap, Rad, Deg,
    Atan, Asin, Acos, Sinh, Cosh, Tanh, Hypot, Powf, MulAdd, Recip, Powi(i32), SafeDiv,
}
#[derive(Clone, Debug)]
pub struct Step {
    pub op: Op,
    pub a: usize,
    pub b: usize,
    pub c: usize,
}
/// Registers 0..nv are the inputs; each step appends one register; the result is the last.
#[derive(Clone, Debug)]
pub struct Prog {
    pub nv: usize,
    pub steps: Vec<Step>,
    
}
pub fn apply<S: Numeric>(op: Op, a: S, b: S, c: S) -> S
{
    match op {
        Op::Cst(x) => S::from_f64(x),
        Op::Add => a + b,
        Op::Sub => a - b,
        Op::Mul => a * b,
        Op::Div => a / b,
        Op::Neg => -a,
        Op::AddA => { let mut t = a; t += b; t }
        Op::SubA => { let mut t = a; t -= b; t }
        Op::MulA => { let mut t = a; t *= b; t }
        Op::DivA => { let mut t = a; t /= b; t }
        Op::Abs => a.abs(),
        Op::Sqrt => a.sqrt(),
        Op::Cbrt => a.cbrt(),
        Op::Sin => a.sin(),
        Op::Cos => a.cos(),
        Op::Tan => a.tan(),
        Op::Exp => a.exp(),
        Op::Log => a.log(),
        Op::Expm1 => a.expm1(),
        Op::Ln1p => a.ln_1p(),
        Op::Log2 => a.log2(),
        Op::Log10 => a.log10(),
        Op::Atan2 => a.atan2(b),
        Op::Copysign => a.copysign(b),
        Op::Floor => a.floor(),
        Op::Ceil => a.ceil(),
        Op::Round => a.round(),
        Op::Trunc => a.trunc(),
        Op::Clamp(l, h) => a.clamp(<S::Constant as Numeric>::from_f64(l), <S::Constant as Numeric>::from_f64(h)),
        Op::Signum => a.signum(),
        Op::Max => Numeric::max(a, b),
        Op::Min => Numeric::min(a, b),
        Op::Wrap => a.wrap_to_pi(),
        Op::Rad => a.to_radians(),
        Op::Deg => a.to_degrees(),
        Op::Atan => a.atan(),
        Op::Asin => a.asin(),
        Op::Acos => a.acos(),
        Op::Sinh => a.sinh(),
        Op::Cosh => a.cosh(),
        Op::Tanh => a.tanh(),
        Op::Hypot => a.hypot(b),
        Op::Powf => a.powf(b),
        Op::MulAdd => a.mul_add(b, c),
        Op::Recip => a.recip(),
        Op::Powi(n) => a.powi(n),
        Op::SafeDiv => a.safe_div(b),
    }
}
impl Prog {
    pub fn eval<S: Numeric>(&self, x: &[S]) -> S
    {
        let mut r: Vec<S> = x.to_vec();
        for s in &self.steps {
            let y = apply(s.op, r[s.a], r[s.b], r[s.c]);
            r.push(y);
        }
        *r.last().unwrap()
    }
    pub fn ser(&self, x: &[Ser]) -> Ser {
        let mut r: Vec<Ser> = x.to_vec();
        for s in &self.steps {
            let y = ser_apply(s.op, &r[s.a], &r[s.b], &r[s.c]);
            r.push(y);
        }
        r.pop().unwrap()
    }
}
pub fn ser_apply(op: Op, a: &Ser, b: &Ser, c: &Ser) -> Ser {
    let x = a.x0();
    match op {
        Op::Cst(v) => a.step(v),
        Op::Add | Op::AddA => a.add(b),
        Op::Sub | Op::SubA => a.sub(b),
        Op::Mul | Op::MulA => a.mul(b),
        Op::Div | Op::DivA | Op::SafeDiv => a.div(b),
        Op::Neg => a.neg(),
        Op::Abs => if x < 0.0 { a.neg() } else { a.clone() },
        Op::Sqrt => a.sqrt(),
        Op::Cbrt => a.cbrt(),
        Op::Sin => a.sin(),
        Op::Cos => a.cos(),
        Op::Tan => a.tan(),
        Op::Exp => a.exp(),
        Op::Log => a.ln(),
        Op::Expm1 => a.expm1(),
        Op::Ln1p => a.ln_1p(),
        Op::Log2 => a.log2(),
        Op::Log10 => a.log10(),
        Op::Atan2 => a.atan2(b),
        Op::Copysign => if (x < 0.0) == (b.x0() < 0.0) { a.clone() } else { a.neg() },
        Op::Floor => a.step(x.floor()),
        Op::Ceil => a.step(x.ceil()),
        Op::Round => a.step(x.round()),
        Op::Trunc => a.step(x.trunc()),
        Op::Clamp(l, h) => if x < l { a.step(l) } else if x > h { a.step(h) } else { a.clone() },
        Op::Signum => a.step(x.signum()),
        Op::Max => if x > b.x0() { a.clone() } else { b.clone() },
        Op::Min => if x < b.x0() { a.clone() } else { b.clone() },
        Op::Wrap => {
            let tp = dd_pi().mulf(2.0);
            let k = (x / tp.f()).round();
            let mut r = a.sub(&Ser::cst(tp.mulf(k), a.n(), a.eps));
            r.e[0] += 8.0 * a.eps * (x.abs() + 6.3);
            r
        }
        Op::Rad => a.scale(dd_pi() / dd(180.0)),
        Op::Deg => a.scale(dd(180.0) / dd_pi()),
        Op::Atan => a.atan(),
        Op::Asin => a.asin(),
        Op::Acos => a.acos(),
        Op::Sinh => a.sinh(),
        Op::Cosh => a.cosh(),
        Op::Tanh => a.tanh(),
        Op::Hypot => a.mul(a).add(&b.mul(b)).sqrt(),
        Op::Powf => b.mul(&a.ln()).exp(),
        Op::MulAdd => a.mul(b).add(c),
        Op::Recip => a.recip(),
        Op::Powi(n) => a.powi(n),
    }
}
/// Is `op` smooth and well conditioned here, by a margin?
pub fn domain(op: Op, a: f64, b: f64, c: f64) -> bool {
    let frac_ok = |k: f64| (k - k.round()).abs() > 1e-3;
    let m = a.abs() < 50.0 && b.abs() < 50.0 && c.abs() < 50.0;
    m && match op {
        Op::Div | Op::DivA | Op::SafeDiv => b.abs() > 0.1,
        Op::Abs | Op::Signum => a.abs() > 1e-3,
        Op::Sqrt | Op::Log | Op::Log2 | Op::Log10 => a > 0.1,
        Op::Cbrt | Op::Recip => a.abs() > 0.1,
        Op::Tan => a.cos().abs() > 0.2,
        Op::Exp | Op::Expm1 | Op::Sinh | Op::Cosh | Op::Tanh => a.abs() < 3.0,
        Op::Ln1p => a > -0.9,
        Op::Atan2 | Op::Hypot => a.abs().max(b.abs()) > 0.1 && !(op == Op::Atan2 && b < 0.0 && a.abs() < 1e-2) && (op != Op::Hypot || (a.abs() > 1e-2 && b.abs() > 1e-2)),
        Op::Copysign => a.abs() > 1e-3 && b.abs() > 1e-3,
        Op::Floor | Op::Ceil | Op::Trunc => frac_ok(a),
        Op::Round => frac_ok(a + 0.5),
        Op::Clamp(l, h) => (a - l).abs() > 1e-3 && (a - h).abs() > 1e-3,
        Op::Max | Op::Min => (a - b).abs() > 1e-3,
        Op::Wrap => frac_ok(a / std::f64::consts::TAU + 0.5),
        Op::Asin | Op::Acos => a.abs() < 0.9,
        Op::Powf => a > 0.1 && (b * a.ln()).abs() < 3.0,
        Op::Powi(n) => (a.abs().max(0.3).powi(n.abs()) < 200.0) && (n >= 0 || a.abs() > 0.3),
        _ => true,
    }
}
pub const SMOOTH: &[fn(&mut Case) -> Op] = &[
    |_| Op::Add, |_| Op::Sub, |_| Op::Mul, |_| Op::Div, |_| Op::Neg, |_| Op::Sqrt, |_| Op::Cbrt,
    |_| Op::Sin, |_| Op::Cos, |_| Op::Tan, |_| Op::Exp, |_| Op::Log, |_| Op::Expm1, |_| Op::Ln1p,
    |_| Op::Log2, |_| Op::Log10, |_| Op::Atan2, |_| Op::Atan, |_| Op::Asin, |_| Op::Acos,
    |_| Op::Sinh, |_| Op::Cosh, |_| Op::Tanh, |_| Op::Hypot, |_| Op::Powf, |_| Op::MulAdd,
    |_| Op::Recip, |c| Op::Powi(c.int(-5, 7) as i32), |_| Op::SafeDiv, |_| Op::Rad, |_| Op::Deg,
    |c| Op::Cst(c.f(-3.0, 3.0)), |_| Op::AddA, |_| Op::SubA, |_| Op::MulA, |_| Op::DivA,
];
pub const KINKED: &[fn(&mut Case) -> Op] = &[
    |_| Op::Abs, |_| Op::Copysign, |_| Op::Floor, |_| Op::Ceil, |_| Op::Round, |_| Op::Trunc,
    |c| { let l = c.f(-2.0, 1.0); Op::Clamp(l, l + c.f(0.1, 3.0)) },
    |_| Op::Signum, |_| Op::Max, |_| Op::Min, |_| Op::Wrap,
];
/// A program of `len` steps over `x.len()` inputs valid at `x`. The last step always uses the
/// previous register so nothing is dead weight.
pub fn gen_prog(c: &mut Case, x: &[f64], len: usize, kinks: bool) -> Prog {
    let mut vals: Vec<f64> = x.to_vec();
    let mut steps = vec![];
    let mut attempts = 0;
    while steps.len() < len && attempts < 60 * len {
        attempts += 1;
        let f = if kinks && c.p(0.2) { KINKED[c.us(0, KINKED.len() - 1)] } else { SMOOTH[c.us(0, SMOOTH.len() - 1)] };
        let op = f(c);
        let last = vals.len() - 1;
        let a = if c.p(0.6) { last } else { c.us(0, last) };
        let b = if c.p(0.3) { last } else { c.us(0, last) };
        let cc = c.us(0, last);
        if !domain(op, vals[a], vals[b], vals[cc]) {
            continue;
        }
        let y: f64 = apply(op, vals[a], vals[b], vals[cc]);
        if !y.is_finite() || y.abs() > 50.0 {
            continue;
        }
        vals.push(y);
        steps.push(Step { op, a, b, c: cc });
    }
    Prog { nv: x.len(), steps }
}
