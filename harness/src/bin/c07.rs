//! C07: derivatives, Jacobians, Hessians, finite differences, curl/divergence, Taylor
//! approximations and their fit metrics.
use multicalc::approximation::{LinearApproximator, QuadraticApproximator};
use multicalc::error::DiffError;
use multicalc::numerical_derivative::*;
use multicalc::scalar::{Numeric, ScalarFn, ScalarFnN, VectorFn};
use multicalc::vector_field::{curl_2d, curl_3d, divergence_2d, divergence_3d};
use vmon::expr::*;
use vmon::ser::*;
use vmon::*;

struct PF<'a>(&'a Prog);
impl ScalarFn for PF<'_> {
    fn eval<S: Numeric>(&self, x: S) -> S {
        self.0.eval(&[x])
    }
}
impl<const N: usize> ScalarFnN<N> for PF<'_> {
    fn eval<S: Numeric>(&self, p: &[S; N]) -> S {
        self.0.eval(p)
    }
}
/// Several programs as one vector function.
struct VF<'a>(&'a [Prog]);
impl<const N: usize, const M: usize> VectorFn<N, M> for VF<'_> {
    fn eval<S: Numeric>(&self, p: &[S; N]) -> [S; M] {
        core::array::from_fn(|i| self.0[i].eval(p))
    }
}
fn along(p: &Prog, x: &[f64], dir: &[f64], n: usize, eps: f64) -> Ser {
    let s: Vec<Ser> = x.iter().zip(dir).map(|(a, d)| Ser::new(&[*a, *d], n, eps)).collect();
    p.ser(&s)
}
fn unit(n: usize, i: usize) -> Vec<f64> {
    (0..n).map(|k| if k == i { 1.0 } else { 0.0 }).collect()
}
fn plus(a: &[f64], b: &[f64]) -> Vec<f64> {
    a.iter().zip(b).map(|(x, y)| x + y).collect()
}
/// The reference partial along up to three unit directions, with its rounding bound.
fn partial_ref(p: &Prog, x: &[f64], idx: &[usize], eps: f64) -> (f64, f64) {
    let n = x.len();
    let u: Vec<Vec<f64>> = idx.iter().map(|i| unit(n, *i)).collect();
    match idx.len() {
        1 => {
            let s = along(p, x, &u[0], 2, eps);
            (s.v[1].f(), 4.0 * s.e[1] + 1e-30)
        }
        2 => {
            let c = |d: &[f64]| { let s = along(p, x, d, 3, eps); (s.v[2], s.e[2]) };
            let (a, b, d) = (c(&plus(&u[0], &u[1])), c(&u[0]), c(&u[1]));
            ((a.0 - b.0 - d.0).f(), 6.0 * (a.1 + b.1 + d.1) + 1e-30)
        }
        _ => {
            let c = |d: &[f64]| { let s = along(p, x, d, 4, eps); (s.v[3], s.e[3]) };
            let (uv, uw, vw) = (plus(&u[0], &u[1]), plus(&u[0], &u[2]), plus(&u[1], &u[2]));
            let t = [c(&plus(&uv, &u[2])), c(&uv), c(&uw), c(&vw), c(&u[0]), c(&u[1]), c(&u[2])];
            let v = t[0].0 - t[1].0 - t[2].0 - t[3].0 + t[4].0 + t[5].0 + t[6].0;
            (v.f(), 8.0 * t.iter().map(|q| q.1).sum::<f64>() + 1e-30)
        }
    }
}
fn pt<T: Fl, const N: usize>(c: &mut Case) -> [f64; N] {
    core::array::from_fn(|i| T::t(if i % 2 == 0 { c.f(-2.0, 2.0) } else { c.f(0.2, 2.5) }).d())
}
fn tv<T: Fl, const N: usize>(x: &[f64; N]) -> [T; N] {
    core::array::from_fn(|i| T::t(x[i]))
}
fn plen<T: Fl>(c: &mut Case) -> usize {
    if T::F32 { c.us(1, 4) } else { c.us(1, 8) }
}
fn single<T: Fl>(c: &mut Case) {
    let [x] = pt::<T, 1>(c);
    let l = plen::<T>(c);
    let p = gen_prog(c, &[x], l, true);
    c.note("prog", &p);
    c.note("x", &x);
    let f = PF(&p);
    let s = along(&p, &[x], &[1.0], 8, T::EPS);
    if s.v.iter().any(|v| v.f().abs() > 1e9) {
        c.discard()
    }
    let d = AutoDiffSingle::<T>::new();
    let mut fact = 1.0;
    for k in 1..=6usize {
        fact *= k as f64;
        let g = d.differentiate(k, &f, T::t(x));
        let g = c.get("differentiate", g).d();
        c.near("derivative", g, fact * s.v[k].f(), fact * (5.0 * s.e[k] + 40.0 * T::EPS * s.v[k].f().abs()) + 1e-30);
    }
    let t1 = 4.0 * s.e[1] + 1e-30;
    c.near("derivative()", derivative(&f, T::t(x)).d(), s.v[1].f(), t1);
    c.near("second_derivative()", second_derivative(&f, T::t(x)).d(), 2.0 * s.v[2].f(), 10.0 * s.e[2] + 1e-30);
    let v = d.first_derivative(&f, T::t(x));
    c.near("first_derivative", c_val(v), s.v[1].f(), t1);
    let v = d.second_derivative(&f, T::t(x));
    c.near("second_derivative", c_val(v), 2.0 * s.v[2].f(), 10.0 * s.e[2] + 1e-30);
    c.eq("order-0", d.differentiate(0, &f, T::t(x)), Err(DiffError::OrderZero));
    let hi = 7 + c.us(0, 5);
    c.eq("order-high", d.differentiate(hi, &f, T::t(x)), Err(DiffError::OrderUnsupported));
    c.hit("single-variable derivatives");
}
fn c_val<T: Fl>(r: Result<T, DiffError>) -> f64 {
    r.map(|v| v.d()).unwrap_or(f64::NAN)
}
fn multi<const N: usize, T: Fl>(c: &mut Case) {
    let x = pt::<T, N>(c);
    let l = plen::<T>(c);
    let p = gen_prog(c, &x, l + N, true);
    c.note("prog", &p);
    c.note("x", &x);
    let f = PF(&p);
    let xt = tv::<T, N>(&x);
    let d = AutoDiffMulti::<T>::new();
    let (i, j, k) = (c.us(0, N - 1), c.us(0, N - 1), c.us(0, N - 1));
    let (w, t) = partial_ref(&p, &x, &[i], T::EPS);
    let g = d.first_partial_derivative(&f, i, &xt);
    c.near("first-partial", c_val(g), w, t);
    c.near("partial()", c_val(partial(&f, i, &xt)), w, t);
    if w == 0.0 {
        c.hit("zero partial");
    }
    let (w, t) = partial_ref(&p, &x, &[i, j], T::EPS);
    if w.abs() > 1e9 {
        c.discard()
    }
    let g = d.second_partial_derivative(&f, &[i, j], &xt);
    c.near("second-partial", c_val(g), w, t);
    if w != 0.0 && i != j {
        c.hit("mixed partial non-zero");
    }
    let (w, t) = partial_ref(&p, &x, &[i, j, k], T::EPS);
    let g = d.differentiate(&f, &[i, j, k], &xt);
    c.near("third-partial", c_val(g), w, t);
    let h: Hessian<AutoDiffMulti<T>> = Hessian::from_derivator(d);
    let m = h.evaluate(&f, &xt);
    let m = c.get("hessian", m);
    for a in 0..N {
        for b in 0..N {
            c.same_bits("hessian-symmetric", m[(a, b)].d(), m[(b, a)].d());
            let (w, t) = partial_ref(&p, &x, &[a, b], T::EPS);
            c.near("hessian", m[(a, b)].d(), w, t);
        }
    }
    let bad = N + c.us(0, 3);
    c.eq("index", d.first_partial_derivative(&f, bad, &xt), Err(DiffError::IndexOutOfRange));
    c.eq("index-2", d.second_partial_derivative(&f, &[i, bad], &xt), Err(DiffError::IndexOutOfRange));
    c.eq("index-p", partial(&f, bad, &xt), Err(DiffError::IndexOutOfRange));
    c.eq("order-0", d.differentiate(&f, &[0usize; 0], &xt), Err(DiffError::OrderZero));
    c.eq("order-4", d.differentiate(&f, &[i, j, k, i], &xt), Err(DiffError::OrderUnsupported));
    c.hit("multi-variable derivatives");
}
fn jac<const N: usize, const M: usize, T: Fl>(c: &mut Case) {
    let x = pt::<T, N>(c);
    let ps: Vec<Prog> = (0..M).map(|_| { let l = plen::<T>(c); gen_prog(c, &x, l, true) }).collect();
    c.note("progs", &ps);
    c.note("x", &x);
    let xt = tv::<T, N>(&x);
    let f = VF(&ps);
    let j: Jacobian<AutoDiffMulti<T>> = Jacobian::from_derivator(AutoDiffMulti::new());
    let m = j.evaluate::<_, M, N>(&f, &xt);
    let m = c.get("jacobian", m);
    let h = j.evaluate_on_heap::<_, M, N>(&f, &xt);
    let h = c.get("jacobian-heap", h);
    c.eq("heap-shape", (h.len(), h.iter().all(|r| r.len() == N)), (M, true));
    for r in 0..M {
        for k in 0..N {
            let (w, t) = partial_ref(&ps[r], &x, &[k], T::EPS);
            c.near("jacobian", m[(r, k)].d(), w, t);
            c.same_bits("jacobian-heap", h[r][k].d(), m[(r, k)].d());
        }
    }
    let d = AutoDiffMulti::<T>::new();
    let col = c.us(0, N - 1);
    let g = DerivatorMultiVariable::jacobian_column::<_, N, M>(&d, &f, col, &xt);
    let g = c.get("column", g);
    for r in 0..M {
        c.same_bits("column", g[r].d(), m[(r, col)].d());
    }
    c.eq("column-range", DerivatorMultiVariable::jacobian_column::<_, N, M>(&d, &f, N + col, &xt).err(), Some(DiffError::IndexOutOfRange));
    c.hit("jacobian");
}
/// Nodes and weights of the documented recursive difference, as offsets per variable.
fn stencil(mode: FiniteDifferenceMode, idx: &[usize], nv: usize, h: f64, mult: f64) -> Vec<(Vec<f64>, f64)> {
    let (lo, hi, den) = match mode {
        FiniteDifferenceMode::Forward => (0.0, 1.0, 1.0),
        FiniteDifferenceMode::Backward => (-1.0, 0.0, 1.0),
        FiniteDifferenceMode::Central => (-1.0, 1.0, 2.0),
    };
    let mut nodes = vec![(vec![0.0; nv], 1.0)];
    let mut s = h;
    for level in (0..idx.len()).rev() {
        let v = idx[level];
        let mut next = vec![];
        for (o, w) in nodes {
            let mut a = o.clone();
            a[v] += hi * s;
            next.push((a, w / (den * s)));
            let mut b = o.clone();
            b[v] += lo * s;
            next.push((b, -w / (den * s)));
        }
        nodes = next;
        s *= mult;
    }
    nodes
}
fn gen_mode(c: &mut Case) -> FiniteDifferenceMode {
    c.pick(&[FiniteDifferenceMode::Forward, FiniteDifferenceMode::Backward, FiniteDifferenceMode::Central])
}
fn fd<const N: usize, T: Fl>(c: &mut Case) {
    let x = pt::<T, N>(c);
    let l = plen::<T>(c);
    let p = gen_prog(c, &x, l, false);
    let mode = gen_mode(c);
    let order = c.us(1, 3);
    let default = c.p(0.4) && mode == FiniteDifferenceMode::Central;
    let mult = if default { 10.0 } else { c.pick(&[1.0, 2.0, 10.0]) };
    let h = if default { FiniteDifferenceMode::Central.default_step_size::<T>().d() } else if T::F32 { T::t(c.lu(-2.5, -1.5)).d() } else { c.lu(-5.0, -2.5) };
    let idx: Vec<usize> = (0..order).map(|_| c.us(0, N - 1)).collect();
    c.note("prog", &p);
    c.note("x", &x);
    c.note("fd", &(mode, h, mult, &idx));
    let xt = tv::<T, N>(&x);
    let f = PF(&p);
    let d = if default { FiniteDifferenceMulti::<T>::default() } else { FiniteDifferenceMulti::<T>::from_parameters(T::t(h), mode, T::t(mult)) };
    let got = match order {
        1 => d.differentiate(&f, &[idx[0]], &xt),
        2 => d.differentiate(&f, &[idx[0], idx[1]], &xt),
        _ => d.differentiate(&f, &[idx[0], idx[1], idx[2]], &xt),
    };
    let got = c.get("fd", got).d();
    // Rounding of the function values and of the nodes, over the steps.
    let st = stencil(mode, &idx, N, h, mult);
    let mut val = dd(0.0);
    let mut round = 0.0;
    let mut sens = 0.0f64;
    for i in 0..N {
        let s = along(&p, &x, &unit(N, i), 2, T::EPS);
        sens += s.v[1].f().abs() * (x[i].abs() + 1.0);
    }
    for (o, w) in &st {
        let at: Vec<DD> = (0..N).map(|i| dd(x[i]) + dd(o[i])).collect();
        let xs: Vec<Ser> = at.iter().map(|v| Ser::cst(*v, 2, T::EPS)).collect();
        let s = p.ser(&xs);
        if !(s.v[0].f().abs() < 1e6) {
            c.discard()
        }
        val = val + s.v[0].mulf(*w);
        round += w.abs() * (6.0 * s.e[0] + T::EPS * (4.0 * s.v[0].f().abs() + 8.0 * sens));
    }
    let (want, t) = partial_ref(&p, &x, &idx, T::EPS);
    let trunc = (val.f() - want).abs();
    if !val.f().is_finite() || !want.is_finite() || !round.is_finite() {
        c.discard()
    }
    c.near("finite-difference", got, want, 1.2 * trunc + round + t);
    if 1.2 * trunc + round < 1e-2 * want.abs() {
        c.hit("finite difference judged tightly");
    }
    // The single-variable engine is the same stencil.
    if N == 1 {
        let ds = if default { FiniteDifferenceSingle::<T>::default() } else { FiniteDifferenceSingle::<T>::from_parameters(T::t(h), mode, T::t(mult)) };
        let g = ds.differentiate(order, &f, xt[0]);
        let g = c.get("fd-single", g).d();
        c.near("finite-difference-single", g, want, 1.2 * trunc + round + t);
        c.eq("order-0", ds.differentiate(0, &f, xt[0]), Err(DiffError::OrderZero));
    }
    if order == 1 {
        let ps = [p.clone(), p.clone()];
        let g = d.jacobian_column::<_, N, 2>(&VF(&ps), idx[0], &xt);
        let g = c.get("fd-column", g);
        c.near("fd-column", g[1].d(), want, 1.2 * trunc + round + t);
        let j = Jacobian::from_derivator(d).evaluate::<_, 2, N>(&VF(&ps), &xt);
        let j = c.get("fd-jacobian", j);
        c.near("fd-jacobian", j[(0, idx[0])].d(), want, 1.2 * trunc + round + t);
    }
    if order == 2 {
        let hm = Hessian::from_derivator(d).evaluate(&f, &xt);
        let hm = c.get("fd-hessian", hm);
        c.same_bits("fd-hessian-symmetric", hm[(idx[0], idx[1])].d(), hm[(idx[1], idx[0])].d());
        if idx[0] <= idx[1] {
            c.near("fd-hessian", hm[(idx[0], idx[1])].d(), want, 1.2 * trunc + round + t);
        }
    }
    // Refusals.
    let bad = N + c.us(0, 2);
    c.eq("fd-index", d.first_partial_derivative(&f, bad, &xt), Err(DiffError::IndexOutOfRange));
    c.eq("fd-order-0", d.differentiate(&f, &[0usize; 0], &xt), Err(DiffError::OrderZero));
    let neg = -c.lu(-6.0, 1.0);
    let hs = c.pick(&[0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, neg]);
    let e = if hs == 0.0 { DiffError::StepSizeZero } else { DiffError::InvalidStepSize };
    let db = FiniteDifferenceMulti::<T>::from_parameters(T::t(hs), mode, T::t(mult));
    c.eq("fd-step", db.first_partial_derivative(&f, 0, &xt), Err(e));
    c.eq("fd-step-column", db.jacobian_column::<_, N, 1>(&VF(&[p.clone()]), 0, &xt).err(), Some(e));
    let q1 = gen_prog(c, &[x[0]], 1, false);
    c.eq("fd-step-single", FiniteDifferenceSingle::<T>::from_parameters(T::t(hs), mode, T::t(mult)).differentiate(order, &PF(&q1), xt[0]), Err(e));
    c.hit("finite difference");
}
fn fields<T: Fl>(c: &mut Case) {
    let x = pt::<T, 3>(c);
    let ps: Vec<Prog> = (0..3).map(|_| { let l = plen::<T>(c); gen_prog(c, &x, l + 1, true) }).collect();
    c.note("progs", &ps);
    c.note("x", &x);
    let xt = tv::<T, 3>(&x);
    let f = VF(&ps);
    let d = |r: usize, k: usize| partial_ref(&ps[r], &x, &[k], T::EPS);
    let g = curl_3d(AutoDiffMulti::<T>::new(), &f, &xt);
    let g = c.get("curl", g);
    for (i, (a, b)) in [((2, 1), (1, 2)), ((0, 2), (2, 0)), ((1, 0), (0, 1))].into_iter().enumerate() {
        let (p, q) = (d(a.0, a.1), d(b.0, b.1));
        c.near("curl_3d", g[i].d(), p.0 - q.0, p.1 + q.1 + 4.0 * T::EPS * (p.0.abs() + q.0.abs()));
    }
    let g = divergence_3d(AutoDiffMulti::<T>::new(), &f, &xt);
    let t: Vec<(f64, f64)> = (0..3).map(|i| d(i, i)).collect();
    c.near("divergence_3d", c_val(g), t.iter().map(|q| q.0).sum(), t.iter().map(|q| q.1 + 6.0 * T::EPS * q.0.abs()).sum());
    let x2 = [x[0], x[1]];
    let p2: Vec<Prog> = (0..2).map(|_| { let l = plen::<T>(c); gen_prog(c, &x2, l + 1, true) }).collect();
    c.note("progs2", &p2);
    let d = |r: usize, k: usize| partial_ref(&p2[r], &x2, &[k], T::EPS);
    let x2t = tv::<T, 2>(&x2);
    let f = VF(&p2);
    let (p, q) = (d(1, 0), d(0, 1));
    c.near("curl_2d", c_val(curl_2d(AutoDiffMulti::<T>::new(), &f, &x2t)), p.0 - q.0, p.1 + q.1 + 4.0 * T::EPS * (p.0.abs() + q.0.abs()));
    let (p, q) = (d(0, 0), d(1, 1));
    c.near("divergence_2d", c_val(divergence_2d(AutoDiffMulti::<T>::new(), &f, &x2t)), p.0 + q.0, p.1 + q.1 + 4.0 * T::EPS * (p.0.abs() + q.0.abs()));
    if !T::F32 {
        // The derivator passed in is the one used, and its refusals come through.
        let fdm = FiniteDifferenceMulti::<f64>::default();
        let xf: [f64; 2] = x2;
        let g = divergence_2d(fdm, &f, &xf).unwrap();
        let m = 1.0 + p.0.abs() + q.0.abs();
        c.ok((g - p.0 - q.0).abs() < 1e-2 * m || m > 1e3 || p2.iter().any(|p| p.steps.iter().any(|s| KINKISH(s.op))), "divergence-fd", || format!("{g} vs {}", p.0 + q.0));
        let bad = FiniteDifferenceMulti::<f64>::from_parameters(0.0, FiniteDifferenceMode::Central, 1.0);
        c.eq("fd-error", (curl_2d(bad, &f, &xf).err(), divergence_3d(bad, &VF(&ps), &x).err()), (Some(DiffError::StepSizeZero), Some(DiffError::StepSizeZero)));
    }
    c.hit("curl and divergence");
}
#[allow(non_snake_case)]
fn KINKISH(o: Op) -> bool {
    matches!(o, Op::Abs | Op::Copysign | Op::Floor | Op::Ceil | Op::Round | Op::Trunc | Op::Clamp(..) | Op::Signum | Op::Max | Op::Min | Op::Wrap)
}
fn taylor<const N: usize, const P: usize, T: Fl>(c: &mut Case) {
    let x = pt::<T, N>(c);
    let l = plen::<T>(c);
    let p = gen_prog(c, &x, l + 1, true);
    c.note("prog", &p);
    c.note("x", &x);
    let xt = tv::<T, N>(&x);
    let f = PF(&p);
    let la = LinearApproximator::from_derivator(AutoDiffMulti::<T>::new());
    let qa = QuadraticApproximator::from_derivator(AutoDiffMulti::<T>::new());
    let kahan = c.p(0.5);
    let (la, qa) = if kahan { (la.with_kahan_summation(), qa.with_kahan_summation()) } else { (la, qa) };
    let l = la.approximate(&f, &xt);
    let l = c.get("linear", l);
    let q = qa.approximate(&f, &xt);
    let q = c.get("quadratic", q);
    let s = along(&p, &x, &unit(N, 0), 2, T::EPS);
    let (v0, e0) = (s.v[0].f(), 4.0 * s.e[0]);
    c.eq("point", (*l.point(), *q.point()), (xt, xt));
    let g: Vec<(f64, f64)> = (0..N).map(|i| partial_ref(&p, &x, &[i], T::EPS)).collect();
    let h: Vec<Vec<(f64, f64)>> = (0..N).map(|i| (0..N).map(|j| partial_ref(&p, &x, &[i, j], T::EPS)).collect()).collect();
    let (mut int, mut it) = (v0, e0);
    for i in 0..N {
        c.near("linear-coefficient", l.coefficients()[i].d(), g[i].0, g[i].1);
        c.near("quadratic-gradient", q.gradient()[i].d(), g[i].0, g[i].1);
        int -= g[i].0 * x[i];
        it += g[i].1 * x[i].abs() + 6.0 * T::EPS * (g[i].0 * x[i]).abs();
        for j in 0..N {
            c.near("quadratic-hessian", q.hessian()[i][j].d(), h[i][j].0, h[i][j].1);
            c.same_bits("quadratic-hessian-symmetric", q.hessian()[i][j].d(), q.hessian()[j][i].d());
        }
    }
    c.near("intercept", l.intercept().d(), int, it + 8.0 * T::EPS * v0.abs());
    // Predictions near and far.
    let r = c.lu(-3.0, 0.5);
    let y: [f64; N] = core::array::from_fn(|i| T::t(x[i] + r * c.normal()).d());
    let yt = tv::<T, N>(&y);
    let (mut lin, mut lt) = (v0, e0 + 8.0 * T::EPS * v0.abs());
    let (mut quad, mut qt) = (0.0, 0.0);
    for i in 0..N {
        let di = y[i] - x[i];
        let de = T::EPS * 2.0 * di.abs();
        lin += g[i].0 * di;
        lt += g[i].1 * di.abs() + g[i].0.abs() * (de + 8.0 * T::EPS * di.abs());
        for j in 0..N {
            let dj = y[j] - x[j];
            quad += 0.5 * h[i][j].0 * di * dj;
            qt += h[i][j].1 * (di * dj).abs() + 20.0 * T::EPS * (h[i][j].0 * di * dj).abs();
        }
    }
    c.near("linear-predict", l.predict(&yt).d(), lin, lt);
    c.near("quadratic-predict", q.predict(&yt).d(), lin + quad, lt + qt);
    c.near("exact-at-base", q.predict(&xt).d(), v0, e0 + 1e-30);
    // Metrics against an independent computation on the library's own predictions.
    let pts: [[f64; N]; P] = core::array::from_fn(|_| core::array::from_fn(|i| T::t(x[i] + 0.02 * r * c.f(-1.0, 1.0)).d()));
    let ptt: [[T; N]; P] = core::array::from_fn(|i| tv::<T, N>(&pts[i]));
    let truth: Vec<f64> = ptt.iter().map(|a| ScalarFnN::eval(&f, a)).map(|v: T| v.d()).collect();
    if truth.iter().any(|v| !v.is_finite()) {
        c.discard()
    }
    let lm = l.prediction_metrics(&ptt, &f);
    let qm = q.prediction_metrics(&ptt, &f);
    let lp: Vec<f64> = ptt.iter().map(|a| l.predict(a).d()).collect();
    let qp: Vec<f64> = ptt.iter().map(|a| q.predict(a).d()).collect();
    metrics::<T>(c, "linear", &truth, &lp, N, [lm.mean_absolute_error.d(), lm.mean_squared_error.d(), lm.root_mean_squared_error.d(), lm.r_squared.d(), lm.adjusted_r_squared.d()]);
    metrics::<T>(c, "quadratic", &truth, &qp, N + N * (N + 1) / 2, [qm.mean_absolute_error.d(), qm.mean_squared_error.d(), qm.root_mean_squared_error.d(), qm.r_squared.d(), qm.adjusted_r_squared.d()]);
    let level = Level(T::t(c.ls(-3.0, 3.0)).d());
    c.note("constant truth", &level.0);
    let (lm, qm) = (l.prediction_metrics(&ptt, &level), q.prediction_metrics(&ptt, &level));
    let truth = vec![level.0; P];
    metrics::<T>(c, "linear", &truth, &lp, N, [lm.mean_absolute_error.d(), lm.mean_squared_error.d(), lm.root_mean_squared_error.d(), lm.r_squared.d(), lm.adjusted_r_squared.d()]);
    metrics::<T>(c, "quadratic", &truth, &qp, N + N * (N + 1) / 2, [qm.mean_absolute_error.d(), qm.mean_squared_error.d(), qm.root_mean_squared_error.d(), qm.r_squared.d(), qm.adjusted_r_squared.d()]);
    c.hit("taylor approximation");
}
/// The same value everywhere.
struct Level(f64);
impl<const N: usize> ScalarFnN<N> for Level {
    fn eval<S: Numeric>(&self, _: &[S; N]) -> S {
        S::from_f64(self.0)
    }
}
fn metrics<T: Fl>(c: &mut Case, what: &str, y: &[f64], p: &[f64], k: usize, got: [f64; 5]) {
    let n = y.len() as f64;
    let mut mean = dd(0.0);
    for v in y {
        mean = mean + dd(*v);
    }
    mean = mean / dd(n);
    let (mut a, mut r, mut t) = (dd(0.0), dd(0.0), dd(0.0));
    let top = y.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    for i in 0..y.len() {
        let e = dd(p[i]) - dd(y[i]);
        a = a + e.ab();
        r = r + e.sq();
        t = t + (dd(y[i]) - mean).sq();
    }
    let eps = T::EPS;
    let mae = a.f() / n;
    let mse = r.f() / n;
    let tiny = if T::F32 { 1e-36 } else { 1e-290 };
    c.near(&format!("{what}-mae"), got[0], mae, 20.0 * eps * mae + tiny);
    c.near(&format!("{what}-mse"), got[1], mse, 30.0 * eps * mse + tiny);
    c.near(&format!("{what}-rmse"), got[2], mse.sqrt(), 30.0 * eps * mse.sqrt() + tiny.sqrt() * 2.0);
    // Total variance is formed about a rounded mean.
    let ss = t.f();
    let te = 40.0 * eps * ss + 8.0 * eps * top * (n * ss).sqrt() + n * (4.0 * eps * top).powi(2);
    if ss > 20.0 * te && ss > tiny * 1e6 {
        let r2 = 1.0 - r.f() / ss;
        let tol = (r.f() / ss) * (60.0 * eps + 1.2 * te / ss) + 4.0 * eps;
        c.near(&format!("{what}-r2"), got[3], r2, tol);
        let den = n - k as f64 - 1.0;
        if den > 0.0 {
            c.near(&format!("{what}-adj"), got[4], 1.0 - (1.0 - r2) * (n - 1.0) / den, tol * (n - 1.0) / den * 1.1 + 8.0 * eps);
            c.hit("adjusted r2");
        } else {
            c.ok(got[4].is_nan(), &format!("{what}-adj-nan"), || format!("{}", got[4]));
            c.hit("adjusted r2 refused");
        }
        c.hit("metrics");
    } else if y.iter().all(|v| *v == y[0]) {
        c.ok(got[3].is_nan() && got[4].is_nan(), &format!("{what}-r2-constant"), || format!("{} {}", got[3], got[4]));
        c.hit("constant truth");
    }
}
fn main() {
    vmon::run("C07", |s| {
        s.rule("A case counts when a random differentiable program was differentiated by the library (autodiff or finite differences, matrix or field form) and every entry compared with a double-double power-series derivative; distinct = distinct programs and points.");
        s.assume("Finite differences are held to 1.2 times the truncation error of the documented stencil plus a rounding bound.");
        s.monitor("single", 40000, 20, |c| if c.p(0.25) { single::<f32>(c) } else { single::<f64>(c) });
        s.monitor("multi", 30000, 20, |c| match c.us(0, 4) {
            0 => multi::<1, f64>(c),
            1 => multi::<2, f64>(c),
            2 => multi::<3, f64>(c),
            3 => multi::<5, f64>(c),
            _ => multi::<3, f32>(c),
        });
        s.monitor("jacobian", 30000, 20, |c| match c.us(0, 4) {
            0 => jac::<1, 1, f64>(c),
            1 => jac::<2, 3, f64>(c),
            2 => jac::<4, 2, f64>(c),
            3 => jac::<3, 3, f64>(c),
            _ => jac::<3, 2, f32>(c),
        });
        s.monitor("finite-difference", 30000, 20, |c| match c.us(0, 3) {
            0 => fd::<1, f64>(c),
            1 => fd::<2, f64>(c),
            2 => fd::<3, f64>(c),
            _ => fd::<2, f32>(c),
        });
        s.monitor("fields", 20000, 20, |c| if c.p(0.25) { fields::<f32>(c) } else { fields::<f64>(c) });
        s.monitor("taylor", 20000, 20, |c| match c.us(0, 4) {
            0 => taylor::<1, 6, f64>(c),
            1 => taylor::<2, 7, f64>(c),
            2 => taylor::<3, 40, f64>(c),
            3 => taylor::<2, 3, f64>(c),
            _ => taylor::<2, 20, f32>(c),
        });
        for (e, n) in [("single-variable derivatives", 10000), ("mixed partial non-zero", 300), ("zero partial", 200), ("jacobian", 10000), ("finite difference judged tightly", 5000), ("curl and divergence", 5000), ("taylor approximation", 5000), ("metrics", 3000), ("adjusted r2", 1000), ("adjusted r2 refused", 300)] {
            s.require(e, n);
        }
    })
}
