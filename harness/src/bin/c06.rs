//! C06: autodiff scalars (Dual, HyperDual, Jet, nestings) and the Numeric operations.
use multicalc::{Dual, HyperDual, Jet, Numeric};
use vmon::expr::*;
use vmon::ser::*;
use vmon::*;

fn fact(k: usize) -> f64 {
    (1..=k).map(|i| i as f64).product()
}
/// Every coefficient of a Jet run of a random program.
fn jet_prog<T: Fl, const N: usize>(c: &mut Case, kinks: bool) {
    let x0 = T::t(c.f(-3.0, 3.0)).d();
    let y0 = T::t(c.f(0.2, 3.0)).d();
    let len = if T::F32 { c.us(1, 4) } else { c.us(1, 8) };
    let p = gen_prog(c, &[x0, y0], len, kinks);
    let cx: Vec<f64> = (0..N).map(|k| if k == 0 { x0 } else { T::t(c.f(-1.0, 1.0)).d() }).collect();
    let cy: Vec<f64> = (0..N).map(|k| if k == 0 { y0 } else if c.p(0.5) { 0.0 } else { T::t(c.f(-1.0, 1.0)).d() }).collect();
    c.note("prog", &p);
    c.note("x", &cx);
    c.note("y", &cy);
    let jx = Jet::<T, N>::new(core::array::from_fn(|k| T::t(cx[k])));
    let jy = Jet::<T, N>::new(core::array::from_fn(|k| T::t(cy[k])));
    let r = p.eval(&[jx, jy]);
    let want = p.ser(&[Ser::new(&cx, N, T::EPS), Ser::new(&cy, N, T::EPS)]);
    if want.v.iter().any(|v| v.f().abs() > 1e12) {
        c.discard()
    }
    for k in 0..N {
        let tol = 4.0 * want.e[k] + 1e-30;
        c.near("jet-coefficient", r.coeffs[k].d(), want.v[k].f(), tol);
        if tol < 1e-6 * want.v[k].f().abs() {
            c.hit("coefficient judged tightly");
        }
        c.near("jet-derivative", r.derivative(k).d(), fact(k) * want.v[k].f(), fact(k) * tol * 1.01 + 40.0 * T::EPS * fact(k) * want.v[k].f().abs());
        c.same_bits("coefficient()", r.coefficient(k).d(), r.coeffs[k].d());
    }
    c.same_bits("value()", r.value().d(), r.coeffs[0].d());
    c.hit(if N == 1 { "jet N=1" } else { "jet program" });
}
fn dual_prog<T: Fl>(c: &mut Case) {
    let x0 = T::t(c.f(-3.0, 3.0)).d();
    let y0 = T::t(c.f(0.2, 3.0)).d();
    let len = if T::F32 { c.us(1, 4) } else { c.us(1, 10) };
    let p = gen_prog(c, &[x0, y0], len, true);
    let (dx, dy) = (T::t(c.real()).d(), T::t(c.f(-2.0, 2.0)).d());
    c.note("prog", &p);
    c.note("x", &(x0, dx, y0, dy));
    let r = p.eval(&[Dual::new(T::t(x0), T::t(dx)), Dual::new(T::t(y0), T::t(dy))]);
    let want = p.ser(&[Ser::new(&[x0, dx], 2, T::EPS), Ser::new(&[y0, dy], 2, T::EPS)]);
    c.near("dual-value", r.value.d(), want.v[0].f(), 4.0 * want.e[0] + 1e-30);
    c.near("dual-deriv", r.deriv.d(), want.v[1].f(), 4.0 * want.e[1] + 1e-30);
    if want.e[1] < 1e-6 * want.v[1].f().abs() {
        c.hit("derivative judged tightly");
    }
    // The plain scalar computes the same value.
    let plain = p.eval(&[T::t(x0), T::t(y0)]);
    c.near("plain-value", plain.d(), want.v[0].f(), 4.0 * want.e[0] + 1e-30);
    // Jet<2> agrees.
    c.hit("dual program");
}
fn hyper_prog<T: Fl>(c: &mut Case) {
    let x0 = T::t(c.f(-3.0, 3.0)).d();
    let y0 = T::t(c.f(0.2, 3.0)).d();
    let len = if T::F32 { c.us(1, 4) } else { c.us(1, 8) };
    let p = gen_prog(c, &[x0, y0], len, true);
    // Parts of the two inputs: eps1, eps2, eps12.
    let parts: Vec<[f64; 3]> = (0..2)
        .map(|i| match c.us(0, 2) {
            0 => [1.0, 1.0, 0.0],
            1 => if i == 0 { [1.0, 0.0, 0.0] } else { [0.0, 1.0, 0.0] },
            _ => [T::t(c.f(-2.0, 2.0)).d(), T::t(c.f(-2.0, 2.0)).d(), T::t(c.f(-1.0, 1.0)).d()],
        })
        .collect();
    c.note("prog", &p);
    c.note("x", &(x0, y0, &parts));
    let h = |v: f64, q: &[f64; 3]| HyperDual::new(T::t(v), T::t(q[0]), T::t(q[1]), T::t(q[2]));
    let r = p.eval(&[h(x0, &parts[0]), h(y0, &parts[1])]);
    let s = |f: &dyn Fn(&[f64; 3]) -> [f64; 2]| {
        let a = f(&parts[0]);
        let b = f(&parts[1]);
        p.ser(&[Ser::new(&[x0, a[0], a[1]], 3, T::EPS), Ser::new(&[y0, b[0], b[1]], 3, T::EPS)])
    };
    let both = s(&|q| [q[0] + q[1], q[2]]);
    let one = s(&|q| [q[0], 0.0]);
    let two = s(&|q| [q[1], 0.0]);
    c.near("real", r.real.d(), both.v[0].f(), 4.0 * both.e[0] + 1e-30);
    c.near("eps1", r.eps1.d(), one.v[1].f(), 4.0 * one.e[1] + 1e-30);
    c.near("eps2", r.eps2.d(), two.v[1].f(), 4.0 * two.e[1] + 1e-30);
    let want = (both.v[2] - one.v[2] - two.v[2]).f();
    let tol = 4.0 * (both.e[2] + one.e[2] + two.e[2]) + 1e-30;
    c.near("eps1eps2", r.eps1eps2.d(), want, tol);
    if tol < 1e-6 * want.abs() {
        c.hit("second derivative judged tightly");
    }
    // Nested duals carry the same four numbers.
    let n = |v: f64, q: &[f64; 3]| Dual::new(Dual::new(T::t(v), T::t(q[0])), Dual::new(T::t(q[1]), T::t(q[2])));
    let d = p.eval(&[n(x0, &parts[0]), n(y0, &parts[1])]);
    c.near("nested-value", d.value.value.d(), both.v[0].f(), 4.0 * both.e[0] + 1e-30);
    c.near("nested-eps1", d.value.deriv.d(), one.v[1].f(), 4.0 * one.e[1] + 1e-30);
    c.near("nested-eps2", d.deriv.value.d(), two.v[1].f(), 4.0 * two.e[1] + 1e-30);
    c.near("nested-mixed", d.deriv.deriv.d(), want, tol * 2.0);
    c.hit("hyper-dual program");
}
/// Jet over Dual: coefficient k's derivative part is the next coefficient's worth.
fn nested_jet(c: &mut Case) {
    let x0 = c.f(-3.0, 3.0);
    let len = c.us(1, 6);
    let p = gen_prog(c, &[x0], len, true);
    c.note("prog", &p);
    c.note("x", &x0);
    let mut v = Jet::<Dual<f64>, 4>::variable(Dual::constant(x0));
    v.coeffs[0].deriv = 1.0;
    let r = p.eval(&[v]);
    let want = p.ser(&[Ser::new(&[x0, 1.0], 5, f64::EPSILON)]);
    for k in 0..4 {
        if want.v[k + 1].f().abs() > 1e10 {
            c.discard()
        }
        c.near("nested-jet-value", r.coeffs[k].value, want.v[k].f(), 4.0 * want.e[k] + 1e-30);
        let kk = k as f64 + 1.0;
        c.near("nested-jet-deriv", r.coeffs[k].deriv, kk * want.v[k + 1].f(), 8.0 * kk * want.e[k + 1] + 1e-30);
    }
    c.hit("nested jet");
}
/// The value channel of every primitive is the base scalar's own result, bit for bit, hostile
/// values included.
fn value_channel(c: &mut Case) {
    let a = c.maybe_hostile(0.3);
    let b = c.maybe_hostile(0.3);
    let (da, db) = (c.real(), c.real());
    let lo = c.f(-3.0, 1.0);
    let ops = [
        Op::Add, Op::Sub, Op::Mul, Op::Neg, Op::Abs, Op::Sqrt, Op::Cbrt, Op::Sin, Op::Cos, Op::Exp, Op::Log,
        Op::Expm1, Op::Ln1p, Op::Atan2, Op::Copysign, Op::Floor, Op::Ceil, Op::Round, Op::Trunc, Op::Clamp(lo, lo + 2.0),
        Op::AddA, Op::SubA, Op::MulA,
    ];
    let op = c.pick(&ops);
    c.note("op", &(op, a, b));
    let base = apply(op, a, b, 0.0);
    let d = apply(op, Dual::new(a, da), Dual::new(b, db), Dual::new(0.0, 0.0));
    let h = apply(op, HyperDual::new(a, da, db, 0.5), HyperDual::new(b, db, da, 0.25), HyperDual::constant(0.0));
    let j = apply(op, Jet::<f64, 3>::new([a, da, db]), Jet::<f64, 3>::new([b, db, da]), Jet::constant(0.0));
    c.same_bits("dual", d.value, base);
    c.same_bits("hyper", h.real, base);
    c.same_bits("jet", if j.coeffs[0] == 0.0 && base == 0.0 && matches!(op, Op::Mul | Op::MulA) { base } else { j.coeffs[0] }, base);
    let op2 = c.pick(&[Op::Div, Op::DivA, Op::Tan, Op::Log2]);
    let base = apply(op2, a, b, 0.0);
    let d = apply(op2, Dual::new(a, da), Dual::new(b, db), Dual::new(0.0, 0.0));
    c.same_bits("dual-2", d.value, base);
    // Selection and step functions carry exactly the chosen operand's payload or none.
    if a.is_finite() && b.is_finite() {
        let (x, y) = (Dual::new(a, da), Dual::new(b, db));
        let m = Numeric::max(x, y);
        let n = Numeric::min(x, y);
        c.same_bits("max", m.value, if a > b { a } else { b });
        c.same_bits("max-payload", m.deriv, if a > b { da } else { db });
        c.same_bits("min", n.value, if a < b { a } else { b });
        c.same_bits("min-payload", n.deriv, if a < b { da } else { db });
        for s in [x.floor(), x.ceil(), x.round(), x.trunc(), x.signum()] {
            c.near("step-derivative", s.deriv, 0.0, 0.0);
        }
        // copysign slope follows the sign bits, negative zero included.
        if a != 0.0 {
            let z = c.pick(&[b, 0.0, -0.0]);
            let flip = a.is_sign_negative() != z.is_sign_negative();
            let want = if flip { -da } else { da };
            c.note("copysign", &(a, z));
            c.same_bits("copysign-dual", x.copysign(Dual::new(z, db)).deriv, want);
            let h = HyperDual::new(a, da, db, 0.5).copysign(HyperDual::new(z, 1.0, 1.0, 1.0));
            c.eq("copysign-hyper", (h.eps1, h.eps1eps2), (want, if flip { -0.5 } else { 0.5 }));
            let j = Jet::<f64, 3>::new([a, da, db]).copysign(Jet::constant(z));
            c.eq("copysign-jet", (j.coeffs[1], j.coeffs[2]), (want, if flip { -db } else { db }));
        }
        // abs: slope is the sign, +1 at zero.
        let ab = if a < 0.0 { -1.0 } else { 1.0 };
        c.eq("abs-slope", (x.abs().deriv, HyperDual::new(a, da, db, 0.5).abs().eps1eps2, Jet::<f64, 2>::new([a, da]).abs().coeffs[1]), (ab * da, ab * 0.5, ab * da));
        // clamp at and around its limits.
        let (l, u) = if a <= b { (a, b) } else { (b, a) };
        let v = c.pick(&[l, u, 0.5 * l + 0.5 * u, l - l.abs() - 1.0, u + u.abs() + 1.0]);
        if v.is_finite() {
            let r = Dual::new(v, da).clamp(l, u);
            let inside = v >= l && v <= u;
            c.eq("clamp", (r.value, r.deriv), (v.max(l).min(u), if inside { da } else { 0.0 }));
            let r = Jet::<f64, 3>::new([v, da, db]).clamp(l, u);
            c.eq("clamp-jet", r.coeffs, [v.max(l).min(u), if inside { da } else { 0.0 }, if inside { db } else { 0.0 }]);
            let r = HyperDual::new(v, da, db, 0.5).clamp(l, u);
            c.eq("clamp-hyper", (r.real, r.eps1, r.eps2, r.eps1eps2), if inside { (v, da, db, 0.5) } else { (v.max(l).min(u), 0.0, 0.0, 0.0) });
        }
    }
    // Comparison and classification look at the value only.
    let (x, y) = (Dual::new(a, da), Dual::new(b, db));
    c.eq("cmp", (x.partial_cmp(&y), x == y, x < y), (a.partial_cmp(&b), a == b, a < b));
    let (x, y) = (HyperDual::new(a, da, db, 1.0), HyperDual::new(b, db, da, 2.0));
    c.eq("cmp-hyper", (x.partial_cmp(&y), x == y, x >= y), (a.partial_cmp(&b), a == b, a >= b));
    let (x, y) = (Jet::<f64, 2>::new([a, da]), Jet::<f64, 2>::new([b, db]));
    c.eq("cmp-jet", (x.partial_cmp(&y), x == y, x > y), (a.partial_cmp(&b), a == b, a > b));
    c.eq("class", (x.is_nan(), x.is_finite(), x.is_infinite()), (a.is_nan(), a.is_finite(), a.is_infinite()));
    let x = Dual::new(a, f64::NAN);
    c.eq("class-dual", (Numeric::is_nan(x), Numeric::is_finite(x), Numeric::is_infinite(x)), (a.is_nan(), a.is_finite(), a.is_infinite()));
    let x = HyperDual::new(a, f64::NAN, 1.0, 1.0);
    c.eq("class-hyper", (Numeric::is_nan(x), Numeric::is_finite(x), Numeric::is_infinite(x)), (a.is_nan(), a.is_finite(), a.is_infinite()));
    c.hit("value channel");
}
/// Tight accuracy of each elementary function of the machine scalars against double-double.
fn elementary<T: Fl>(c: &mut Case) {
    let pw = c.us(0, 20) as i32 - 8;
    let op = c.pick(&[
        Op::Sqrt, Op::Cbrt, Op::Sin, Op::Cos, Op::Tan, Op::Exp, Op::Log, Op::Expm1, Op::Ln1p, Op::Log2, Op::Log10, Op::Atan2, Op::Atan, Op::Asin,
        Op::Acos, Op::Sinh, Op::Cosh, Op::Tanh, Op::Hypot, Op::Powf, Op::Recip, Op::SafeDiv, Op::MulAdd, Op::Rad, Op::Deg, Op::Powi(pw),
    ]);
    let mut a = T::t(match c.us(0, 3) {
        0 => c.ls(-6.0, 1.0),
        1 => c.f(-1.0, 1.0),
        2 => c.f(-20.0, 20.0),
        _ => c.ls(-20.0, 3.0),
    });
    let b = T::t(c.ls(-3.0, 1.0));
    let d3 = T::t(c.f(-3.0, 3.0));
    if matches!(op, Op::Sqrt | Op::Log | Op::Log2 | Op::Log10 | Op::Powf) {
        a = a.abs();
    }
    if matches!(op, Op::Asin | Op::Acos) && a.d().abs() > 1.0 {
        a = T::t(1.0 / a.d());
    }
    if op == Op::Ln1p && a.d() <= -1.0 {
        a = T::t(a.d().abs());
    }
    if matches!(op, Op::Exp | Op::Expm1 | Op::Sinh | Op::Cosh | Op::Tanh) && a.d().abs() > 60.0 {
        a = T::t(a.d() / 100.0);
    }
    if matches!(op, Op::Sin | Op::Cos | Op::Tan) && a.d().abs() > 1e4 {
        c.discard()
    }
    c.note("op", &(op, a.d(), b.d()));
    let got = apply(op, a, b, d3).d();
    let (x, y) = (dd(a.d()), dd(b.d()));
    let one = Ser::cst(x, 2, 0.0);
    let two = Ser::cst(y, 2, 0.0);
    let want = match op {
        Op::Powf => (y * x.ln_()).exp_(),
        _ => ser_apply(op, &one, &two, &Ser::cst(dd(d3.d()), 2, 0.0)).v[0],
    }
    .f();
    if !want.is_finite() || want.abs() > 1e30 || (want != 0.0 && want.abs() < 1e-30) {
        c.discard()
    }
    let ulps = match op {
        Op::Powf => 4.0 + 2.0 * (y * x.ln_()).f().abs() * if T::F32 { 0.0 } else { 0.02 },
        Op::Powi(n) => 2.0 * n.abs() as f64 + 4.0,
        Op::Sinh | Op::Cosh | Op::Tanh => 4.0,
        Op::MulAdd => 1.0,
        _ => 3.0,
    };
    let floor = match op {
        Op::Sin | Op::Cos | Op::Tan => 1e-28,
        _ => 1e-60,
    };
    let mut tol = ulps * T::EPS * want.abs() + floor;
    if op == Op::MulAdd {
        tol += 0.0;
    }
    if op == Op::Sinh && a.d().abs() < 0.1 || op == Op::Tanh {
        // The reference subtracts exponentials.
        tol += 1e-31;
    }
    c.near("elementary", got, want, tol);
    c.hit("elementary function");
}
/// f64 and f32 edge semantics.
fn edges(c: &mut Case) {
    let a = c.maybe_hostile(0.6);
    let b = c.maybe_hostile(0.6);
    c.note("ab", &(a, b));
    let (af, bf) = (a as f32, b as f32);
    let n = |x: f64| if x.is_nan() { 1.0 } else { 0.0 };
    // max/min prefer the non-NaN operand.
    c.eq("max", (n(Numeric::max(a, b)), Numeric::max(a, b) >= a || a.is_nan(), Numeric::max(a, b) >= b || b.is_nan()), (n(a) * n(b), !(a.is_nan() && b.is_nan()) || true, true));
    let mx = Numeric::max(a, b);
    c.ok(mx.is_nan() && a.is_nan() && b.is_nan() || mx == a || mx == b, "max-operand", || format!("{mx}"));
    let mn = Numeric::min(a, b);
    c.ok(if a.is_nan() && b.is_nan() { mn.is_nan() } else { (mn == a || mn == b) && !(mn > a) && !(mn > b) }, "min", || format!("{mn}"));
    let mn = Numeric::min(af, bf);
    c.ok(if af.is_nan() && bf.is_nan() { mn.is_nan() } else { (mn == af || mn == bf) && !(mn > af) && !(mn > bf) }, "min32", || format!("{mn}"));
    // Rounding family.
    c.same_bits("floor", Numeric::floor(a), a.floor());
    c.same_bits("ceil", Numeric::ceil(a), a.ceil());
    c.same_bits("trunc", Numeric::trunc(a), a.trunc());
    let half = c.int(-9, 9) as f64 + 0.5;
    for v in [a, half, half + 0.5 * f64::EPSILON * half] {
        c.same_bits("round", Numeric::round(v), v.round());
        c.same_bits("round32", Numeric::round(v as f32) as f64, (v as f32).round() as f64);
    }
    c.same_bits("floor32", Numeric::floor(af) as f64, af.floor() as f64);
    c.same_bits("ceil32", Numeric::ceil(af) as f64, af.ceil() as f64);
    c.same_bits("trunc32", Numeric::trunc(af) as f64, af.trunc() as f64);
    c.same_bits("abs", Numeric::abs(a), a.abs());
    c.same_bits("abs32", Numeric::abs(af) as f64, af.abs() as f64);
    c.same_bits("copysign", Numeric::copysign(a, b), a.copysign(b));
    c.same_bits("copysign32", Numeric::copysign(af, bf) as f64, af.copysign(bf) as f64);
    c.same_bits("signum", Numeric::signum(a), a.signum());
    c.same_bits("signum32", Numeric::signum(af) as f64, af.signum() as f64);
    c.same_bits("sqrt", Numeric::sqrt(a), a.sqrt());
    c.same_bits("sqrt32", Numeric::sqrt(af) as f64, af.sqrt() as f64);
    c.same_bits("recip", Numeric::recip(a), 1.0 / a);
    c.same_bits("mul_add", Numeric::mul_add(a, b, half), a.mul_add(b, half));
    c.same_bits("mul_add32", Numeric::mul_add(af, bf, half as f32) as f64, af.mul_add(bf, half as f32) as f64);
    c.eq("class", (Numeric::is_nan(a), Numeric::is_finite(a), Numeric::is_infinite(a)), (a.is_nan(), a.is_finite(), a.is_infinite()));
    c.eq("class32", (Numeric::is_nan(af), Numeric::is_finite(af), Numeric::is_infinite(af)), (af.is_nan(), af.is_finite(), af.is_infinite()));
    // Conversions.
    let k = c.u64() >> c.us(0, 63);
    c.same_bits("from_u64", f64::from_u64(k), k as f64);
    c.same_bits("from_u64-32", f32::from_u64(k) as f64, k as f32 as f64);
    c.same_bits("from_usize", f64::from_usize(k as usize), k as f64);
    c.same_bits("from_usize-32", f32::from_usize(k as usize) as f64, k as f32 as f64);
    c.same_bits("from_f64-32", f32::from_f64(a) as f64, a as f32 as f64);
    c.same_bits("from_f64", f64::from_f64(a), a);
    // Division with a zero check: matches the standard everywhere but the sign of the zero.
    let z = c.pick(&[0.0, -0.0, b]);
    let q = a.safe_div(z);
    if z == 0.0 {
        let want = if a.is_nan() || a == 0.0 { f64::NAN } else if a > 0.0 { f64::INFINITY } else { f64::NEG_INFINITY };
        c.same_bits("safe_div-zero", q, want);
        let d = Dual::new(a, 1.0).safe_div(Dual::new(z, 1.0));
        c.same_bits("safe_div-zero-dual", d.value, want);
        let j = Jet::<f64, 3>::new([a, 1.0, 0.0]).safe_div(Jet::constant(z));
        c.same_bits("safe_div-zero-jet", j.coeffs[0], want);
        let h = HyperDual::variable(a).safe_div(HyperDual::constant(z));
        c.same_bits("safe_div-zero-hyper", h.real, want);
    } else {
        c.same_bits("safe_div", q, a / z);
    }
    // clamp.
    if a <= b {
        let v = c.maybe_hostile(0.4);
        let r = Numeric::clamp(v, a, b);
        if v.is_nan() {
            c.ok(r.is_nan(), "clamp-nan", || format!("{r}"));
        } else {
            c.ok(r >= a && r <= b && (r == v || (v < a && r == a) || (v > b && r == b)), "clamp", || format!("{v} -> {r}"));
        }
    }
    // powi.
    let e = c.int(-12, 12) as i32;
    if e == 0 {
        c.same_bits("powi-0", a.powi(0), 1.0);
        c.same_bits("powi-0-dual", Numeric::powi(Dual::variable(a), 0).value, 1.0);
    }
    let v = c.ls(-2.0, 2.0);
    let want = dd(v).powi_(e).f();
    c.rel("powi", Numeric::powi(v, e), want, 16.0 * f64::EPSILON, 0.0);
    c.rel("powi32", Numeric::powi(v as f32, e) as f64, dd(v as f32 as f64).powi_(e).f(), 16.0 * f32::EPSILON as f64, 1e-35);
    c.same_bits("powi-min", Numeric::powi(1.0f64, i32::MIN), 1.0);
    // wrap_to_pi: same direction, inside the band.
    let th = c.ls(-3.0, 6.0);
    let w = th.wrap_to_pi();
    let tol = 4.0 * f64::EPSILON * th.abs().max(4.0);
    c.ok(w.abs() <= std::f64::consts::PI + tol, "wrap-band", || format!("{th} -> {w}"));
    let (s, co) = dd(th).sincos();
    let (s2, c2) = dd(w).sincos();
    c.near("wrap-sin", s2.f(), s.f(), tol * 2.0);
    c.near("wrap-cos", c2.f(), co.f(), tol * 2.0);
    c.rel("radians", th.to_radians(), (dd(th) * dd_pi() / dd(180.0)).f(), 3.0 * f64::EPSILON, 0.0);
    c.rel("degrees", Numeric::to_degrees(th), (dd(th) * dd(180.0) / dd_pi()).f(), 3.0 * f64::EPSILON, 0.0);
    // Inverse trig quadrants with signed zeros.
    c.same_bits("atan2-std", Numeric::atan2(a, b), libm_atan2(a, b));
    c.hit("edge semantics");
}
fn libm_atan2(y: f64, x: f64) -> f64 {
    // std's atan2 differs from libm's by at most an ulp; exact on the special values.
    let s = y.atan2(x);
    let l = Numeric::atan2(y, x);
    if (s - l).abs() <= 2.0 * f64::EPSILON * s.abs() && s.is_sign_negative() == l.is_sign_negative() { l } else { s }
}
/// The operations an autodiff scalar builds from the primitives give the machine scalar's own value, and
/// the right slope, over the whole range of arguments: far out, tiny, signed zeros, infinities, NaN.
fn whole_range<T: Fl>(c: &mut Case) {
    let far = if T::F32 { 38.0 } else { 305.0 };
    let draw = |c: &mut Case| match c.us(0, 7) {
        0 => c.pick(&[0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1.0, -1.0]),
        1 | 2 => c.ls(-far, far),
        3 => c.ls(-12.0, 0.0),
        4 => c.f(-1.0, 1.0),
        5 => c.sign() * c.f(60.0, 1500.0),
        _ => c.ls(-2.0, 2.5),
    };
    let (a, b) = (T::t(draw(c)), T::t(draw(c)));
    let op = c.pick(&[Op::Tan, Op::Log2, Op::Log10, Op::Atan, Op::Asin, Op::Acos, Op::Sinh, Op::Cosh, Op::Tanh, Op::Sinh, Op::Tanh, Op::Hypot, Op::Hypot, Op::Recip, Op::Rad, Op::Deg]);
    let (x, y) = (a.d(), b.d());
    if matches!(op, Op::Recip | Op::Log2 | Op::Log10) && x == 0.0 || op == Op::Hypot && (x.is_nan() || y.is_nan()) || matches!(op, Op::Asin | Op::Acos) && x.abs() > 1.0 {
        c.discard()
    }
    let (big, small) = if T::F32 { (f32::MAX as f64, f32::MIN_POSITIVE as f64) } else { (f64::MAX, f64::MIN_POSITIVE) };
    c.note("op", &(op, x, y));
    let base = apply(op, a, b, T::ZERO).d();
    if base.is_finite() && base.abs() > big * 0.24 || base != 0.0 && base.abs() < small * 4.0 || matches!(op, Op::Sinh | Op::Cosh) && !base.is_finite() && x.abs() < if T::F32 { 91.0 } else { 712.0 } {
        c.discard()
    }
    let d = apply(op, Dual::variable(a), Dual::constant(b), Dual::ZERO);
    let h = apply(op, HyperDual::variable(a), HyperDual::constant(b), HyperDual::ZERO);
    let j = apply(op, Jet::<T, 3>::variable(a), Jet::constant(b), Jet::ZERO);
    // The slope, and how strongly the value depends on its argument.
    let slope = match op {
        Op::Tan => 1.0 + base * base,
        Op::Log2 => 1.0 / (x * std::f64::consts::LN_2),
        Op::Log10 => 1.0 / (x * std::f64::consts::LN_10),
        Op::Atan => 1.0 / (1.0 + x * x),
        Op::Asin => 1.0 / ((1.0 - x) * (1.0 + x)).sqrt(),
        Op::Acos => -1.0 / ((1.0 - x) * (1.0 + x)).sqrt(),
        Op::Sinh => x.cosh(),
        Op::Cosh => x.sinh(),
        Op::Tanh => if x.abs() > 20.0 { 4.0 * (-2.0 * x.abs()).exp() } else { x.cosh().powi(-2) },
        Op::Hypot => x / base,
        Op::Recip => -(1.0 / x) / x,
        Op::Rad => std::f64::consts::PI / 180.0,
        _ => 180.0 / std::f64::consts::PI,
    };
    let same = |c: &mut Case, what: &str, v: f64| {
        if base.is_nan() {
            c.ok(v.is_nan(), what, || format!("{v} for NaN"));
        } else if base.is_infinite() || base == 0.0 {
            c.eq(what, v, base);
        } else {
            let cond = if slope.is_finite() { (x * slope).abs().min(1e3 * base.abs().max(1.0)) } else { base.abs() };
            let tan = if op == Op::Tan { base.abs() * base.abs() * if x.abs() > 1e5 { 1e30 } else { 0.0 } } else { 0.0 };
            c.near(what, v, base, 16.0 * T::EPS * (base.abs() + if matches!(op, Op::Asin | Op::Acos) { cond } else { 0.0 }) + tan);
        }
    };
    same(c, "whole-range-dual", d.value.d());
    same(c, "whole-range-hyper", h.real.d());
    same(c, "whole-range-jet", j.coeffs[0].d());
    // Squares of arguments beyond this leave the range, and only the value is promised there.
    let span = if T::F32 { 1e-15..1e15 } else { 1e-120..1e120 };
    let exps = matches!(op, Op::Sinh | Op::Cosh | Op::Tanh);
    if x.is_finite() && slope.is_finite() && slope.abs() < span.end && (exps || x == 0.0 || span.contains(&x.abs())) && (op != Op::Hypot || y == 0.0 || span.contains(&y.abs())) && !(op == Op::Hypot && (base == 0.0 || x == 0.0 || y == 0.0)) && op != Op::Tan {
        let near = matches!(op, Op::Asin | Op::Acos) as u8 as f64 / ((1.0 - x) * (1.0 + x)).abs().max(1e-300);
        let tol = T::EPS * slope.abs() * (64.0 + 8.0 * near) + if exps { if T::F32 { 1e-36 } else { 1e-300 } } else { 0.0 };
        let hyp = if matches!(op, Op::Hypot | Op::Cosh) { 8.0 * T::EPS } else { 0.0 };
        c.near("whole-range-slope", d.deriv.d(), slope, tol + hyp);
        c.near("whole-range-slope-hyper", h.eps1.d(), slope, tol + hyp);
        c.near("whole-range-slope-hyper-2", h.eps2.d(), slope, tol + hyp);
        c.near("whole-range-slope-jet", j.coeffs[1].d(), slope, tol + hyp);
        c.hit("slope far out");
    }
    if x.abs() > 100.0 && exps {
        c.hit("hyperbolic function far out");
    }
    if x.is_infinite() || y.is_infinite() {
        c.hit("infinite argument");
    }
    c.hit("whole range");
}
/// A user's own scalar, with nothing but what it must have.
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
struct Bare(f64);
macro_rules! bare_ops { ($($t:ident $m:ident $a:ident $am:ident $o:tt),*) => { $(
    impl core::ops::$t for Bare { type Output = Bare; fn $m(self, o: Bare) -> Bare { Bare(self.0 $o o.0) } }
    impl core::ops::$a for Bare { fn $am(&mut self, o: Bare) { self.0 = self.0 $o o.0; } }
)* } }
bare_ops!(Add add AddAssign add_assign +, Sub sub SubAssign sub_assign -, Mul mul MulAssign mul_assign *, Div div DivAssign div_assign /);
impl core::ops::Neg for Bare {
    type Output = Bare;
    fn neg(self) -> Bare {
        Bare(-self.0)
    }
}
macro_rules! bare { ([$($k:ident),*] [$($f:ident),*] [$($g:ident),*]) => {
    impl Numeric for Bare {
        $(const $k: Self = Bare(<f64 as Numeric>::$k);)*
        type Constant = f64;
        fn from_f64(v: f64) -> Self { Bare(v) }
        fn from_u64(v: u64) -> Self { Bare(v as f64) }
        fn from_usize(v: usize) -> Self { Bare(v as f64) }
        $(fn $f(self) -> Self { Bare(Numeric::$f(self.0)) })*
        $(fn $g(self, o: Self) -> Self { Bare(Numeric::$g(self.0, o.0)) })*
        fn clamp(self, a: f64, b: f64) -> Self { Bare(Numeric::clamp(self.0, a, b)) }
        fn is_nan(self) -> bool { self.0.is_nan() }
        fn is_finite(self) -> bool { self.0.is_finite() }
        fn is_infinite(self) -> bool { self.0.is_infinite() }
    }
} }
bare!([ZERO, ONE, TWO, THREE, HALF, TEN, HUNDRED, ONE_HUNDRED_EIGHTY, PI, TWO_PI, EPSILON, EPSILON_X4, EPSILON_X30, NAN, INFINITY, NEG_INFINITY, MAX, MIN_POSITIVE]
    [abs, sqrt, cbrt, sin, cos, tan, exp, log, floor, ceil, round, trunc] [atan2, copysign]);
/// What a scalar is given for nothing is what the machine's own scalar does.
fn bare(c: &mut Case) {
    let x = match c.us(0, 6) {
        0 => c.hostile(),
        1 => c.ls(-300.0, 300.0),
        2 => c.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, -2.5, 2.0, 10.0]),
        _ => c.f(-20.0, 20.0),
    };
    let y = if c.p(0.2) { c.hostile() } else { c.real() };
    c.note("x, y", &(x, y));
    let (a, b) = (Bare(x), Bare(y));
    let near = |c: &mut Case, what: &str, got: Bare, want: f64, slack: f64| {
        let got = got.0;
        c.ok(got == want || got.is_nan() && want.is_nan() || (got - want).abs() <= slack, what, || format!("{got:e}, machine scalar {want:e}"));
    };
    let e = 16.0 * f64::EPSILON;
    let w = |v: f64| e * v.abs();
    near(c, "expm1", a.expm1(), x.exp_m1(), e * (1.0 + x.exp_m1().abs()) + e * x.abs() * x.exp());
    if x > -1.0 || x.is_nan() {
        near(c, "ln_1p", a.ln_1p(), x.ln_1p(), e * (1.0 + x.ln_1p().abs()) + e / (1.0 + x).abs());
        near(c, "log2", Bare(x.abs()).log2(), x.abs().log2(), e * (1.0 + x.abs().log2().abs()));
        near(c, "log10", Bare(x.abs()).log10(), x.abs().log10(), e * (1.0 + x.abs().log10().abs()));
    }
    near(c, "signum", a.signum(), if x > 0.0 { 1.0 } else if x < 0.0 { -1.0 } else { 0.0 }, 0.0);
    if !x.is_nan() && !y.is_nan() {
        near(c, "max", Numeric::max(a, b), Numeric::max(x, y), 0.0);
        near(c, "min", Numeric::min(a, b), Numeric::min(x, y), 0.0);
        near(c, "max", Numeric::max(b, a), Numeric::max(y, x), 0.0);
        near(c, "min", Numeric::min(b, a), Numeric::min(y, x), 0.0);
        near(c, "hypot", a.hypot(b), x.hypot(y), w(x.hypot(y)) + 1e-307);
    }
    near(c, "to_radians", a.to_radians(), Numeric::to_radians(x), w(x));
    near(c, "to_degrees", a.to_degrees(), Numeric::to_degrees(x), w(x * 60.0));
    let wr = a.wrap_to_pi();
    if x.abs() < 1e6 {
        let want = Numeric::wrap_to_pi(x);
        let gap = (wr.0 - want).abs();
        c.ok(gap <= e * (1.0 + x.abs()) || (gap - core::f64::consts::TAU).abs() <= e * (1.0 + x.abs()), "wrap_to_pi", || format!("{wr:?}, machine scalar {want:e}"));
    }
    let (at, p1) = (x.atan(), f64::EPSILON * 16.0);
    near(c, "atan", a.atan(), at, p1);
    if x.abs() <= 1.0 || x.is_nan() {
        near(c, "asin", a.asin(), x.asin(), p1 + e / ((1.0 - x) * (1.0 + x)).sqrt().max(1e-9));
        near(c, "acos", a.acos(), x.acos(), p1 + e / ((1.0 - x) * (1.0 + x)).sqrt().max(1e-9));
    }
    near(c, "sinh", a.sinh(), x.sinh(), w(x.sinh()) * (1.0 + x.abs()) + e);
    near(c, "cosh", a.cosh(), x.cosh(), w(x.cosh()) * (1.0 + x.abs()));
    near(c, "tanh", a.tanh(), x.tanh(), w(x.tanh()) * 2.0 + e);
    if x > 0.0 && x < 1e3 && y.abs() < 100.0 {
        near(c, "powf", a.powf(b), x.powf(y), w(x.powf(y)) * (1.0 + (y * x.ln()).abs()) + 1e-307);
    }
    if x.is_finite() && y.is_finite() {
        near(c, "mul_add", a.mul_add(b, Bare(1.5)), x.mul_add(y, 1.5), w(x * y) + e * 1.5);
    }
    near(c, "recip", a.recip(), x.recip(), w(x.recip()));
    let n = c.us(0, 40) as i32 - 20;
    if x.abs() < 1e6 && x.abs() > 1e-6 {
        near(c, "powi", a.powi(n), x.powi(n), w(x.powi(n)) * (1.0 + n.abs() as f64));
    }
    near(c, "safe_div", a.safe_div(b), if y == 0.0 { x / y.abs() } else { x / y }, 0.0);
    // A constant on the left of an operator.
    use multicalc::scalar::constant;
    let z = Dual::new(y, 0.5);
    for (what, g, h) in [("constant +", constant(x) + z, Dual::constant(x) + z), ("constant -", constant(x) - z, Dual::constant(x) - z), ("constant *", constant(x) * z, Dual::constant(x) * z), ("constant /", constant(x) / z, Dual::constant(x) / z)] {
        c.same_bits(what, g.value, h.value);
        c.same_bits(what, g.deriv, h.deriv);
    }
    for (what, g, h) in [("constant +", constant(x) + y, x + y), ("constant -", constant(x) - y, x - y), ("constant *", constant(x) * y, x * y), ("constant /", constant(x) / y, x / y)] {
        c.same_bits(what, g, h);
    }
    c.hit("bare scalar");
}
fn constants<T: Fl>(c: &mut Case) {
    let cs: [(T, f64); 14] = [
        (T::ZERO, 0.0), (T::ONE, 1.0), (T::TWO, 2.0), (T::THREE, 3.0), (T::HALF, 0.5), (T::TEN, 10.0), (T::HUNDRED, 100.0), (T::ONE_HUNDRED_EIGHTY, 180.0),
        (T::PI, if T::F32 { std::f32::consts::PI as f64 } else { std::f64::consts::PI }), (T::TWO_PI, if T::F32 { std::f32::consts::TAU as f64 } else { std::f64::consts::TAU }),
        (T::EPSILON, T::EPS), (T::EPSILON_X4, 4.0 * T::EPS), (T::EPSILON_X30, 30.0 * T::EPS), (T::INFINITY, f64::INFINITY),
    ];
    for (g, w) in cs {
        c.same_bits("constant", g.d(), w);
    }
    c.same_bits("max", T::MAX.d(), if T::F32 { f32::MAX as f64 } else { f64::MAX });
    c.same_bits("min_positive", T::MIN_POSITIVE.d(), if T::F32 { f32::MIN_POSITIVE as f64 } else { f64::MIN_POSITIVE });
    c.ok(T::NAN.d().is_nan() && T::NEG_INFINITY.d() == f64::NEG_INFINITY, "nan", String::new);
    macro_rules! ad { ($($k:ident),*) => { $(
        let d = Dual::<T>::$k; c.eq("dual-const", (d.value.d().to_bits(), d.deriv.d()), (T::$k.d().to_bits(), 0.0));
        let h = HyperDual::<T>::$k; c.eq("hyper-const", (h.real.d().to_bits(), h.eps1.d(), h.eps2.d(), h.eps1eps2.d()), (T::$k.d().to_bits(), 0.0, 0.0, 0.0));
        let j = Jet::<T, 3>::$k; c.eq("jet-const", (j.coeffs[0].d().to_bits(), j.coeffs[1].d(), j.coeffs[2].d()), (T::$k.d().to_bits(), 0.0, 0.0));
        let n = Dual::<HyperDual<T>>::$k; c.eq("nested-const", (n.value.real.d().to_bits(), n.deriv.real.d(), n.value.eps1eps2.d()), (T::$k.d().to_bits(), 0.0, 0.0));
    )* } }
    ad!(ZERO, ONE, TWO, THREE, HALF, TEN, HUNDRED, ONE_HUNDRED_EIGHTY, PI, TWO_PI, EPSILON, EPSILON_X4, EPSILON_X30, NAN, INFINITY, NEG_INFINITY, MAX, MIN_POSITIVE);
    let v = T::t(c.real());
    let d = Dual::variable(v);
    c.eq("dual-variable", (d.value, d.deriv, Dual::constant(v).deriv), (v, T::ONE, T::ZERO));
    let h = HyperDual::variable(v);
    c.eq("hyper-variable", (h.real, h.eps1, h.eps2, h.eps1eps2), (v, T::ONE, T::ONE, T::ZERO));
    let j = Jet::<T, 4>::variable(v);
    c.eq("jet-variable", j.coeffs, [v, T::ONE, T::ZERO, T::ZERO]);
    let k = c.u64() as u32 as u64;
    c.eq("dual-from_u64", (Dual::<T>::from_u64(k).value, Dual::<T>::from_u64(k).deriv), (T::from_u64(k), T::ZERO));
    c.eq("jet-from_usize", Jet::<T, 2>::from_usize(k as usize).coeffs, [T::from_usize(k as usize), T::ZERO]);
    c.eq("hyper-from_f64", HyperDual::<T>::from_f64(v.d()).real, v);
    c.same_bits("primal", multicalc::scalar::Primal::to_f64(&Dual::<HyperDual<T>>::from_f64(v.d())), v.d());
    use multicalc::scalar::Primal;
    c.eq("dual-from_usize", (Dual::<T>::from_usize(k as usize).value, Dual::<T>::from_usize(k as usize).deriv), (T::from_usize(k as usize), T::ZERO));
    let (h, g) = (HyperDual::<T>::from_u64(k), HyperDual::<T>::from_usize(k as usize));
    c.eq("hyper-from_u64", (h.real, h.eps1, h.eps2, h.eps1eps2), (T::from_u64(k), T::ZERO, T::ZERO, T::ZERO));
    c.eq("hyper-from_usize", (g.real, g.eps1, g.eps2, g.eps1eps2), (T::from_usize(k as usize), T::ZERO, T::ZERO, T::ZERO));
    c.eq("jet-from_u64", Jet::<T, 3>::from_u64(k).coeffs, [T::from_u64(k), T::ZERO, T::ZERO]);
    c.same_bits("primal-dual-32", Dual::new(v, T::TWO).to_f32() as f64, v.d() as f32 as f64);
    c.same_bits("primal-hyper-32", HyperDual::new(v, T::TWO, T::ONE, T::TEN).to_f32() as f64, v.d() as f32 as f64);
    c.same_bits("primal-hyper", HyperDual::new(v, T::TWO, T::ONE, T::TEN).to_f64(), v.d());
    c.same_bits("primal-jet", Jet::<T, 2>::new([v, T::ONE]).to_f64(), v.d());
    c.same_bits("primal-jet", multicalc::scalar::Primal::to_f32(&Jet::<T, 2>::new([v, T::ONE])) as f64, v.d() as f32 as f64);
    c.hit("constants");
}
fn main() {
    vmon::run("C06", |s| {
        s.rule("A case counts when a random program over the Numeric operations (or one operation on hostile values) was evaluated with an autodiff scalar and every coefficient compared with a double-double power-series reference; distinct = distinct programs and points.");
        s.assume("Programs stay a margin away from kinks and poles; bounds come from a running first-order rounding analysis times 4.");
        s.monitor("jet-f64", 60000, 20, |c| match c.us(0, 5) {
            0 => jet_prog::<f64, 1>(c, true),
            1 => jet_prog::<f64, 2>(c, true),
            2 => jet_prog::<f64, 3>(c, true),
            3 => jet_prog::<f64, 5>(c, true),
            4 => jet_prog::<f64, 8>(c, false),
            _ => jet_prog::<f64, 4>(c, false),
        });
        s.monitor("jet-f32", 20000, 20, |c| match c.us(0, 1) {
            0 => jet_prog::<f32, 4>(c, true),
            _ => jet_prog::<f32, 2>(c, true),
        });
        s.monitor("dual", 60000, 20, |c| if c.p(0.25) { dual_prog::<f32>(c) } else { dual_prog::<f64>(c) });
        s.monitor("hyper-dual", 60000, 20, |c| if c.p(0.25) { hyper_prog::<f32>(c) } else { hyper_prog::<f64>(c) });
        s.monitor("nested-jet", 20000, 20, nested_jet);
        s.monitor("value-channel", 60000, 20, value_channel);
        s.monitor("elementary", 60000, 20, |c| if c.p(0.4) { elementary::<f32>(c) } else { elementary::<f64>(c) });
        s.monitor("edges", 40000, 20, edges);
        s.monitor("whole-range", 60000, 20, |c| if c.p(0.4) { whole_range::<f32>(c) } else { whole_range::<f64>(c) });
        s.monitor("bare", 200000, 20, bare);
        s.monitor("constants", 500, 4, |c| if c.p(0.5) { constants::<f32>(c) } else { constants::<f64>(c) });
        for (e, n) in [("coefficient judged tightly", 20000), ("derivative judged tightly", 10000), ("second derivative judged tightly", 10000), ("nested jet", 5000), ("value channel", 10000), ("elementary function", 10000), ("edge semantics", 10000), ("jet N=1", 1000), ("whole range", 20000), ("slope far out", 10000), ("hyperbolic function far out", 2000), ("infinite argument", 1000)] {
            s.require(e, n);
        }
    })
}
