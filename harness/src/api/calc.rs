//! Calculus: scalars, derivatives, integrals, vector fields, roots, least squares, odes, polynomials.
use super::*;
use multicalc::vector_field::*;
use multicalc::scalar::{HyperDual, Jet};

crate::scenarios!(list: numeric, duals, hypers, jets, diff_auto, diff_fd, jac_hess, fields, approx, approx_quad, integ_iter, integ_gauss, integ_multi, line, flux, bisect, brent, newton, newton_system, lm, gn, rk4, rk45, rk45_stiff, rk45_grid, poly, poly_build, poly_roots, poly_roots_in, poly_ops, piecewise, multivariate);

/// A family of formulas with drawn coefficients, usable as any of the library's function traits.
#[derive(Clone, Copy, Debug)]
pub struct G {
    pub k: [f64; 6],
    pub form: usize,
}
pub fn g(s: &mut Sim) -> G {
    let k = core::array::from_fn(|_| s.x::<f64>());
    let form = if s.style == Style::Smooth { 64 + s.us(0, 4) } else { s.us(0, 11) };
    G { k, form }
}
impl G {
    fn c<S: Numeric>(&self, i: usize) -> S {
        S::from_f64(self.k[i % 6])
    }
    pub fn at<S: Numeric>(&self, x: S, o: usize) -> S {
        let c = |i: usize| self.c::<S>(i + o);
        match if self.form & 64 != 0 { [1, 2, 4, 5, 9][(self.form + o) % 5] } else { (self.form + o) % 12 } {
            0 => c(0) + x * (c(1) + x * (c(2) + x * c(3))),
            1 => (c(0) * x).sin() + c(1),
            2 => (c(0) * x + c(1)).cos() * x,
            3 => (c(0) * x).exp() - c(1),
            4 => c(0) / (x * x + S::ONE) + c(1) * x,
            5 => (x * x + S::ONE).sqrt() - c(1),
            6 => (x.abs() + S::ONE).log() + c(0) * x,
            7 => c(0) / (x - c(1)),
            8 => (x - c(0)).powi(3),
            9 => (c(0) * x).tanh() + (c(1) * x).atan(),
            10 => x.max(c(0)) - x.min(c(1)),
            _ => (x - c(0)) * (x - c(1)),
        }
    }
    pub fn mix<S: Numeric>(&self, p: &[S], o: usize) -> S {
        let mut v = S::ZERO;
        for (i, x) in p.iter().enumerate() {
            v = v + self.at(*x, i + o) * self.c::<S>(o + i + 1);
        }
        if p.len() > 1 { v + p[0] * p[1] } else { v }
    }
}
impl ScalarFn for G {
    fn eval<S: Numeric>(&self, x: S) -> S {
        self.at(x, 0)
    }
}
impl<const N: usize> ScalarFnN<N> for G {
    fn eval<S: Numeric>(&self, p: &[S; N]) -> S {
        self.mix(p, 0)
    }
}
impl<const N: usize, const M: usize> VectorFn<N, M> for G {
    fn eval<S: Numeric>(&self, p: &[S; N]) -> [S; M] {
        core::array::from_fn(|i| self.mix(p, i))
    }
}
fn ops<S: Numeric>(x: S, y: S, n: i32) -> [S; 34] {
    [
        x + y, x - y, x * y, x / y, -x, x.abs(), x.sqrt(), x.cbrt(), x.sin(), x.cos(), x.tan(), x.exp(), x.log(), x.atan2(y), x.floor() + x.ceil(), x.round() - x.trunc(),
        x.signum() + x.copysign(y), x.max(y), x.min(y), x.wrap_to_pi(), x.to_radians() + x.to_degrees(), x.atan(), x.asin(), x.acos(), x.sinh(), x.cosh(), x.tanh(), x.hypot(y), x.powf(y),
        x.mul_add(y, x), x.recip(), x.powi(n), x.safe_div(y), x.expm1() + x.ln_1p() + x.log2() + x.log10(),
    ]
}
fn two<T: Sc>(s: &mut Sim) -> (T, T, i32) {
    let (x, y) = (s.x(), s.x());
    let n = s.us(0, 12) as i32 - 6;
    let n = if matches!(s.style, Style::Hostile(_)) && s.p(0.2) { s.pick(&[i32::MAX, i32::MIN, -1, 0, i32::MIN + 1]) } else { n };
    (x, y, n)
}
fn numeric<T: Sc>(s: &mut Sim) {
    let (x, y, n) = two::<T>(s);
    s.pa(&ops(x, y, n));
    s.b(x.is_nan());
    s.b(x.is_finite());
    s.b(x.is_infinite());
}
fn duals<T: Sc>(s: &mut Sim) {
    let (x, y, n) = two::<T>(s);
    let r = ops(Dual::new(x, T::ONE), Dual::new(y, s.x()), n);
    for v in r {
        s.put(v.value);
        s.put(v.deriv);
    }
    let r = ops(Dual::variable(Dual::constant(x)), Dual::constant(Dual::variable(y)), n);
    for v in r {
        s.put(v.value.value);
        s.put(v.deriv.deriv);
    }
}
fn hypers<T: Sc>(s: &mut Sim) {
    let (x, y, n) = two::<T>(s);
    let r = ops(HyperDual::variable(x), HyperDual::constant(y), n);
    for v in r {
        s.put(v.real);
        s.put(v.eps1);
        s.put(v.eps2);
        s.put(v.eps1eps2);
    }
}
fn jets<T: Sc>(s: &mut Sim) {
    let (x, y, n) = two::<T>(s);
    let r = ops(Jet::<T, 5>::variable(x), Jet::<T, 5>::constant(y), n);
    for v in r {
        s.pa(&v.coeffs);
    }
}
fn diff_auto<T: Sc>(s: &mut Sim) {
    let f = g(s);
    let x: T = s.x();
    let p: [T; 3] = s.a();
    let d = AutoDiffSingle::<T>::new();
    if let Some(v) = { let r = d.first_derivative(&f, x); s.res(r) } {
        s.put(v);
    }
    if let Some(v) = { let r = d.second_derivative(&f, x); s.res(r) } {
        s.put(v);
    }
    let o = s.us(0, 6);
    if let Some(v) = { let r = d.differentiate(o, &f, x); s.res(r) } {
        s.put(v);
    }
    let d = AutoDiffMulti::<T>::new();
    let (i, j) = (s.ix(3), s.ix(3));
    if let Some(v) = { let r = d.first_partial_derivative(&f, i, &p); s.res(r) } {
        s.put(v);
    }
    if let Some(v) = { let r = d.second_partial_derivative(&f, &[i, j], &p); s.res(r) } {
        s.put(v);
    }
    if let Some(v) = { let r = d.differentiate(&f, &[i, j, 0], &p); s.res(r) } {
        s.put(v);
    }
    s.put(derivative(&f, x));
    s.put(second_derivative(&f, x));
    if let Some(v) = { let r = partial(&f, i, &p); s.res(r) } {
        s.put(v);
    }
}
fn mode(s: &mut Sim) -> FiniteDifferenceMode {
    s.pick(&[FiniteDifferenceMode::Forward, FiniteDifferenceMode::Backward, FiniteDifferenceMode::Central])
}
fn diff_fd<T: Sc>(s: &mut Sim) {
    let f = g(s);
    let x: T = s.x();
    let p: [T; 3] = s.a();
    let (m, h, k): (_, T, T) = (mode(s), s.r(1e-6, 1e-2), s.r(1.0, 20.0));
    let d = if s.p(0.3) { FiniteDifferenceSingle::<T>::default() } else { FiniteDifferenceSingle::from_parameters(h, m, k) };
    let o = s.us(0, 5);
    if let Some(v) = { let r = d.differentiate(o, &f, x); s.res(r) } {
        s.put(v);
    }
    let d = if s.p(0.3) { FiniteDifferenceMulti::<T>::default() } else { FiniteDifferenceMulti::from_parameters(h, m, k) };
    let (i, j) = (s.ix(3), s.ix(3));
    if let Some(v) = { let r = d.first_partial_derivative(&f, i, &p); s.res(r) } {
        s.put(v);
    }
    if let Some(v) = { let r = d.differentiate(&f, &[i, j, 0], &p); s.res(r) } {
        s.put(v);
    }
    if let Some(v) = { let r = Jacobian::from_derivator(d).evaluate::<_, 2, 3>(&f, &p); s.res(r) } {
        s.pm(v);
    }
    if let Some(v) = { let r = Hessian::from_derivator(d).evaluate(&f, &p); s.res(r) } {
        s.pm(v);
    }
    s.put(m.default_step_size::<T>());
}
fn jac_hess<T: Sc>(s: &mut Sim) {
    let f = g(s);
    let p: [T; 3] = s.a();
    if let Some(v) = { let r = Jacobian::from_derivator(AutoDiffMulti::<T>::new()).evaluate::<_, 4, 3>(&f, &p); s.res(r) } {
        s.pm(v);
    }
    if let Some(v) = { let r = Hessian::from_derivator(AutoDiffMulti::<T>::new()).evaluate(&f, &p); s.res(r) } {
        s.pm(v);
    }
}
fn fields<T: Sc>(s: &mut Sim) {
    let f = g(s);
    let p: [T; 3] = s.a();
    if let Some(v) = { let r = curl_3d(AutoDiffMulti::<T>::new(), &f, &p); s.res(r) } {
        s.pa(&v);
    }
    if let Some(v) = { let r = divergence_3d(AutoDiffMulti::<T>::new(), &f, &p); s.res(r) } {
        s.put(v);
    }
    let p: [T; 2] = s.a();
    if let Some(v) = { let r = curl_2d(AutoDiffMulti::<T>::new(), &f, &p); s.res(r) } {
        s.put(v);
    }
    if let Some(v) = { let r = divergence_2d(AutoDiffMulti::<T>::new(), &f, &p); s.res(r) } {
        s.put(v);
    }
    let p: [T; 1] = s.a();
    let r = curl_2d(AutoDiffMulti::<T>::new(), &f, &p);
    s.b(r.is_ok());
}
fn approx<T: Sc>(s: &mut Sim) {
    let f = g(s);
    let p: [T; 2] = s.a();
    let mut a = LinearApproximator::from_derivator(AutoDiffMulti::<T>::new());
    if s.p(0.5) {
        a = a.with_kahan_summation();
    }
    let x: [T; 2] = s.a();
    let pts: [[T; 2]; 6] = core::array::from_fn(|_| s.a());
    if let Some(v) = { let r = a.approximate(&f, &p); s.res(r) } {
        s.put(v.predict(&x));
        s.put(v.intercept());
        s.pa(v.coefficients());
        let m = v.prediction_metrics(&pts, &f);
        s.pa(&[m.mean_absolute_error, m.mean_squared_error, m.root_mean_squared_error, m.r_squared, m.adjusted_r_squared]);
        let m = v.prediction_metrics::<_, 0>(&[], &f);
        s.pa(&[m.mean_absolute_error, m.r_squared, m.adjusted_r_squared]);
        let m = v.prediction_metrics(&[x], &f);
        s.pa(&[m.mean_absolute_error, m.r_squared, m.adjusted_r_squared]);
    }
}
fn approx_quad<T: Sc>(s: &mut Sim) {
    let f = g(s);
    let p: [T; 2] = s.a();
    let mut a = QuadraticApproximator::from_derivator(AutoDiffMulti::<T>::new());
    if s.p(0.5) {
        a = a.with_kahan_summation();
    }
    let x: [T; 2] = s.a();
    let pts: [[T; 2]; 8] = core::array::from_fn(|_| s.a());
    if let Some(v) = { let r = a.approximate(&f, &p); s.res(r) } {
        s.put(v.predict(&x));
        s.pa(v.gradient());
        s.pa(&v.hessian()[0]);
        let m = v.prediction_metrics(&pts, &f);
        s.pa(&[m.mean_absolute_error, m.mean_squared_error, m.root_mean_squared_error, m.r_squared, m.adjusted_r_squared]);
        let m = v.prediction_metrics::<_, 0>(&[], &f);
        s.pa(&[m.mean_absolute_error, m.r_squared, m.adjusted_r_squared]);
    }
}
fn lim<T: Sc>(s: &mut Sim) -> [T; 2] {
    let (a, w): (T, T) = (s.x(), s.r(0.0, 4.0));
    match s.us(0, 7) {
        0 => [a, T::INFINITY],
        1 => [T::NEG_INFINITY, a],
        2 => [T::NEG_INFINITY, T::INFINITY],
        _ => [a, a + w],
    }
}
fn imethod(s: &mut Sim) -> IterativeMethod {
    s.pick(&[IterativeMethod::Booles, IterativeMethod::Simpsons, IterativeMethod::Trapezoidal])
}
fn integ_iter<T: Sc>(s: &mut Sim) {
    let f = g(s);
    let (n, m) = (s.us(0, 40) as u64, imethod(s));
    let mut i = IterativeSingle::<T>::from_parameters(n, m);
    if s.p(0.4) {
        i = i.with_kahan_summation();
    }
    let l = lim(s);
    let fun = |x: T| f.at(x, 0);
    if let Some(v) = { let r = i.single_integral(&fun, &l); s.res(r) } {
        s.put(v);
    }
    let l = [lim(s), lim(s)];
    let i = IterativeSingle::<T>::from_parameters(n.min(9), m);
    if let Some(v) = { let r = i.double_integral(&fun, &l); s.res(r) } {
        s.put(v);
    }
}
fn gmethod(s: &mut Sim) -> GaussianQuadratureMethod {
    s.pick(&[GaussianQuadratureMethod::GaussLegendre, GaussianQuadratureMethod::GaussHermite, GaussianQuadratureMethod::GaussLaguerre])
}
fn integ_gauss<T: Sc>(s: &mut Sim) {
    let f = g(s);
    let (n, m) = (s.us(0, 33), gmethod(s));
    let n = if s.p(0.05) { usize::MAX } else { n };
    let i = GaussianSingle::<T>::from_parameters(n, m);
    let l = lim(s);
    let fun = |x: T| f.at(x, 0);
    if let Some(v) = { let r = i.single_integral(&fun, &l); s.res(r) } {
        s.put(v);
    }
    let l = [lim(s), lim(s)];
    let i = GaussianSingle::<T>::from_parameters(n % 12, m);
    if let Some(v) = { let r = i.double_integral(&fun, &l); s.res(r) } {
        s.put(v);
    }
    if let Ok(t) = multicalc::gaussian_tables::nodes(m, n) {
        s.raw(t[0].0);
        s.raw(t[t.len() - 1].1);
    }
    if let Some(v) = { let r = integral(&fun, l[0]); s.res(r) } {
        s.put(v);
    }
}
fn integ_multi<T: Sc>(s: &mut Sim) {
    let f = g(s);
    let p: [T; 3] = s.a();
    let (i, j) = (s.ix(3), s.ix(3));
    let fun = |x: &[T; 3]| f.mix(x, 0);
    let (a, b) = (lim(s), lim(s));
    let (n, im, gm) = (s.us(0, 9), imethod(s), gmethod(s));
    let mut m = IterativeMulti::<T>::from_parameters(n as u64, im);
    if s.p(0.4) {
        m = m.with_kahan_summation();
    }
    if let Some(v) = { let r = m.single_partial_integral(&fun, i, &a, &p); s.res(r) } {
        s.put(v);
    }
    if let Some(v) = { let r = m.double_partial_integral(&fun, [i, j], &[a, b], &p); s.res(r) } {
        s.put(v);
    }
    let m = GaussianMulti::<T>::from_parameters(n, gm);
    if let Some(v) = { let r = m.single_partial_integral(&fun, i, &a, &p); s.res(r) } {
        s.put(v);
    }
    if let Some(v) = { let r = m.double_partial_integral(&fun, [i, j], &[a, b], &p); s.res(r) } {
        s.put(v);
    }
}
fn line<T: Sc>(s: &mut Sim) {
    let f = g(s);
    let h = g(s);
    let n = s.us(0, 30) as u64;
    let l = lim(s);
    let i = s.ix(2);
    let (f0, f1) = (|p: &[T; 2]| f.mix(p, 0), |p: &[T; 2]| f.mix(p, 1));
    let (t0, t1) = (|t: T| h.at(t, 0), |t: T| h.at(t, 1));
    let (ff, tt): ([&dyn Fn(&[T; 2]) -> T; 2], [&dyn Fn(T) -> T; 2]) = ([&f0, &f1], [&t0, &t1]);
    for r in [line_integral_2d_custom(&ff, &tt, &l, n), line_integral_partial_2d(&ff, &tt, &l, n, i), line_integral_2d(&ff, &tt, &l)] {
        if let Some(v) = s.res(r) {
            s.put(v);
        }
    }
    let i = s.ix(3);
    let (f0, f1, f2) = (|p: &[T; 3]| f.mix(p, 0), |p: &[T; 3]| f.mix(p, 1), |p: &[T; 3]| f.mix(p, 2));
    let t2 = |t: T| h.at(t, 2);
    let (ff, tt): ([&dyn Fn(&[T; 3]) -> T; 3], [&dyn Fn(T) -> T; 3]) = ([&f0, &f1, &f2], [&t0, &t1, &t2]);
    for r in [line_integral_3d_custom(&ff, &tt, &l, n), line_integral_partial_3d(&ff, &tt, &l, n, i), line_integral_3d(&ff, &tt, &l)] {
        if let Some(v) = s.res(r) {
            s.put(v);
        }
    }
}
fn flux<T: Sc>(s: &mut Sim) {
    let f = g(s);
    let h = g(s);
    let n = s.us(0, 30) as u64;
    let l = lim(s);
    let (f0, f1, f2) = (|p: &[T; 3]| f.mix(p, 0), |p: &[T; 3]| f.mix(p, 1), |p: &[T; 3]| f.mix(p, 2));
    let (t0, t1, t2) = (|t: T| h.at(t, 0), |t: T| h.at(t, 1), |t: T| h.at(t, 2));
    let (ff, tt): ([&dyn Fn(&[T; 3]) -> T; 3], [&dyn Fn(T) -> T; 3]) = ([&f0, &f1, &f2], [&t0, &t1, &t2]);
    for r in [flux_integral_3d_custom(&ff, &tt, &l, n), flux_integral_3d(&ff, &tt, &l)] {
        if let Some(v) = s.res(r) {
            s.put(v);
        }
    }
    let (f0, f1) = (|p: &[T; 2]| f.mix(p, 0), |p: &[T; 2]| f.mix(p, 1));
    let (ff, tt): ([&dyn Fn(&[T; 2]) -> T; 2], [&dyn Fn(T) -> T; 2]) = ([&f0, &f1], [&t0, &t1]);
    for r in [flux_integral_2d_custom(&ff, &tt, &l, n), flux_integral_2d(&ff, &tt, &l)] {
        if let Some(v) = s.res(r) {
            s.put(v);
        }
    }
}
fn prep<T: Sc>(s: &mut Sim, r: RootReport<T>) {
    s.put(r.root);
    s.put(r.residual);
    s.k(r.iterations);
    s.k(r.termination as usize);
}
fn tol<T: Sc>(s: &mut Sim) -> T {
    let e = s.r::<f64>(-14.0, -2.0);
    T::t(10f64.powf(e))
}
fn bisect<T: Sc>(s: &mut Sim) {
    let f = g(s);
    let (a, b): (T, T) = (s.x(), s.x());
    let (x, y, n) = (tol(s), tol(s), s.us(0, 200));
    let r = Bisection::new().with_xtol(x).with_ftol(y).with_max_iterations(n).solve(&f, a, b);
    if let Some(r) = s.res(r) {
        prep(s, r);
    }
    let r = Bisection::<T>::default().solve(&f, a, b);
    if let Some(r) = s.res(r) {
        prep(s, r);
    }
}
fn brent<T: Sc>(s: &mut Sim) {
    let f = g(s);
    let (a, b): (T, T) = (s.x(), s.x());
    let (x, y, n) = (tol(s), tol(s), s.us(0, 200));
    let r = Brent::new().with_xtol(x).with_ftol(y).with_max_iterations(n).solve(&f, a, b);
    if let Some(r) = s.res(r) {
        prep(s, r);
    }
    let r = Brent::<T>::default().solve(&f, a, b);
    if let Some(r) = s.res(r) {
        prep(s, r);
    }
}
fn newton<T: Sc>(s: &mut Sim) {
    let f = g(s);
    let a: T = s.x();
    let (x, y, n, b) = (tol(s), tol(s), s.us(0, 60), s.p(0.5));
    let r = Newton::from_derivator(AutoDiffSingle::<T>::new()).with_xtol(x).with_ftol(y).with_max_iterations(n).with_backtracking(b).solve(&f, a);
    if let Some(r) = s.res(r) {
        prep(s, r);
    }
    let r = Newton::from_derivator(FiniteDifferenceSingle::<T>::default()).with_max_iterations(n).with_backtracking(b).solve(&f, a);
    if let Some(r) = s.res(r) {
        prep(s, r);
    }
}
fn newton_system<T: Sc>(s: &mut Sim) {
    let f = g(s);
    let a: [T; 3] = s.a();
    let (x, y, n, b) = (tol(s), tol(s), s.us(0, 40), s.p(0.5));
    let r = NewtonSystem::from_derivator(AutoDiffMulti::<T>::new()).with_xtol(x).with_ftol(y).with_max_iterations(n).with_backtracking(b).solve(&f, &a);
    if let Some(r) = s.res(r) {
        s.pa(&r.root);
        s.put(r.residual_norm);
        s.k(r.iterations);
    }
}
fn lm<T: Sc>(s: &mut Sim) {
    let f = g(s);
    let a: [T; 2] = s.a();
    let (x, y, z, p) = (tol(s), tol(s), tol(s), s.us(0, 12));
    let (st, sd) = (s.r(0.1, 100.0), s.p(0.5));
    let r = LevenbergMarquardt::from_derivator(AutoDiffMulti::<T>::new()).with_xtol(x).with_ftol(y).with_gtol(z).with_patience(p).with_stepbound(st).with_scale_diag(sd).minimize::<_, 2, 4>(&f, &a);
    if let Some(r) = s.res(r) {
        s.pa(&r.solution);
        s.put(r.objective_function);
        s.k(r.evaluations);
        s.k(r.termination as usize);
    }
}
fn gn<T: Sc>(s: &mut Sim) {
    let f = g(s);
    let a: [T; 2] = s.a();
    let (x, y, z, p, b) = (tol(s), tol(s), tol(s), s.us(0, 12), s.p(0.5));
    let r = GaussNewton::from_derivator(AutoDiffMulti::<T>::new()).with_xtol(x).with_ftol(y).with_gtol(z).with_patience(p).with_backtracking(b).minimize::<_, 2, 4>(&f, &a);
    if let Some(r) = s.res(r) {
        s.pa(&r.solution);
        s.put(r.objective_function);
        s.k(r.evaluations);
        s.k(r.termination as usize);
    }
}
fn rk4<T: Sc>(s: &mut Sim) {
    let f = g(s);
    let fun = |t: T, v: &Vector<3, T>| Vector::new([f.mix(v.as_array(), 0) - v[0] * T::TWO, f.at(t, 1) - v[1], f.mix(v.as_array(), 2) - v[2]]);
    let (t, h, n): (T, T, usize) = (s.x(), s.small(), s.us(0, 20));
    let v: Vector<3, T> = s.v();
    s.pv(Rk4::step(&fun, t, &v, h));
    let mut last = T::ZERO;
    s.pv(Rk4::integrate(&fun, t, &v, h, n, |t, _| last = t));
    s.put(last);
}
fn rk45_with<T: Sc>(s: &mut Sim) -> Rk45<T> {
    let mut k = Rk45::<T>::default();
    if s.p(0.5) {
        k = k.with_rtol(tol(s)).with_atol(tol(s));
    }
    if s.p(0.3) {
        k = k.with_first_step(s.small());
    }
    if s.p(0.3) {
        k = k.with_min_step(tol(s));
    }
    if s.p(0.3) {
        k = k.with_max_step(s.pos());
    }
    let n = s.us(0, 200);
    k.with_max_steps(n)
}
fn rk45<T: Sc>(s: &mut Sim) {
    let f = g(s);
    let fun = |t: T, v: &Vector<2, T>| Vector::new([f.mix(v.as_array(), 0) - v[0] * T::TWO, f.at(t, 1) - v[1]]);
    let k = rk45_with::<T>(s);
    let (t0, t1): (T, T) = (s.x(), s.x());
    let v: Vector<2, T> = s.v();
    let mut n = 0;
    let mut mid = [T::ZERO; 2];
    let r = k.for_each_step(&fun, t0, &v, t1, |st| {
        n += 1;
        let m = st.interpolate((st.time_start + st.time_end) * T::HALF);
        mid = [m[0], m[1]];
    });
    if let Some(r) = s.res(r) {
        s.pv(r);
    }
    s.k(n);
    s.pa(&mid);
}
fn rk45_stiff<T: Sc>(s: &mut Sim) {
    let l: T = s.r(1.0, 1e5);
    let fun = |t: T, v: &Vector<1, T>| Vector::new([-(v[0] - t.cos()) * l]);
    let k = rk45_with::<T>(s);
    let (t0, t1): (T, T) = (s.r(0.0, 1.0), s.r(1.0, 30.0));
    let v: Vector<1, T> = s.v();
    let r = k.solve(&fun, t0, &v, t1);
    if let Some(r) = s.res(r) {
        s.pv(r);
    }
}
fn rk45_grid<T: Sc>(s: &mut Sim) {
    let fun = |t: T, v: &Vector<2, T>| Vector::new([v[1], -v[0] + t * T::t(0.1)]);
    let k = rk45_with::<T>(s);
    let mut t: [T; 5] = s.a();
    if s.p(0.8) {
        for i in 1..5 {
            if !(t[i] >= t[i - 1]) {
                t[i] = t[i - 1] + T::HALF;
            }
        }
    }
    let t0 = if s.p(0.7) { t[0] } else { s.x() };
    let v: Vector<2, T> = s.v();
    let mut out = [Vector::zeros(); 6];
    let n = s.us(0, 6);
    let r = k.solve_on_grid(&fun, t0, &v, &t, &mut out[..n]);
    s.res(r);
    for o in out {
        s.pv(o);
    }
}
fn pp<const N: usize, T: Sc>(s: &mut Sim, p: &Polynomial<N, T>) {
    s.pa(p.coefficients());
}
fn pol<const N: usize, T: Sc>(s: &mut Sim) -> Polynomial<N, T> {
    let mut c: [T; N] = s.a();
    let z = if s.p(0.3) { s.us(0, N) } else { 0 };
    for i in 0..z {
        c[N - 1 - i] = T::ZERO;
    }
    Polynomial::new(c)
}
fn poly<T: Sc>(s: &mut Sim) {
    let (a, b): (Polynomial<5, T>, Polynomial<5, T>) = (pol(s), pol(s));
    let (x, y): (T, T) = (s.x(), s.x());
    pp(s, &(a + b));
    pp(s, &(a - b));
    pp(s, &-a);
    s.put(a.evaluate(x));
    s.pa(&a.evaluate_with_derivatives::<7>(x));
    s.pa(&a.evaluate_with_derivatives::<0>(x));
    pp(s, &a.derivative());
    let o = s.ix(7);
    pp(s, &a.nth_derivative(o));
    s.put(a.definite_integral(x, y));
    pp(s, &a.scale(x));
    pp(s, &a.shift_argument(x));
    pp(s, &a.scale_argument(x));
    pp(s, &a.reverse());
    let i = s.ix(5);
    s.opt(a.coefficient(i));
    s.k(a.degree().unwrap_or(99));
    s.opt(a.leading_coefficient());
    s.b(a.is_zero());
    s.b(a.is_finite());
    s.b(a.try_resize::<3>().is_some());
    s.b(a.try_resize::<8>().is_some());
    let e: Polynomial<0, T> = Polynomial::zeros();
    s.put(e.evaluate(x));
    pp(s, &e.derivative());
}
fn poly_ops<T: Sc>(s: &mut Sim) {
    let (a, b): (Polynomial<4, T>, Polynomial<3, T>) = (pol(s), pol(s));
    if let Some(p) = { let r = a.multiply_into::<3, 6>(&b); s.res(r) } {
        pp(s, &p);
    }
    let r = a.multiply_into::<3, 4>(&b);
    s.res(r);
    if let Some(p) = { let r = a.compose_into::<3, 7>(&b); s.res(r) } {
        pp(s, &p);
    }
    let r = a.compose_into::<3, 5>(&b);
    s.res(r);
    if let Some((q, m)) = { let r = a.divide::<3, 4, 3>(&b); s.res(r) } {
        pp(s, &q);
        pp(s, &m);
    }
    let r = a.divide::<3, 1, 1>(&b);
    s.res(r.map(|_| ()));
}
fn poly_build<T: Sc>(s: &mut Sim) {
    let c: [T; 6] = s.a();
    let v: [T; 6] = s.a();
    let n = s.us(0, 6);
    if let Some(p) = { let r = Polynomial::<5, T>::from_roots(&c[..n]); s.res(r) } {
        pp(s, &p);
    }
    if let Some(p) = { let r = Polynomial::<6, T>::from_points(&c, &v); s.res(r) } {
        pp(s, &p);
    }
    if let Some(p) = { let r = Polynomial::<3, T>::fit_least_squares(&c, &v); s.res(r) } {
        pp(s, &p);
    }
    let w: T = s.pos();
    if let Some(p) = { let r = Polynomial::<4, T>::from_endpoint_derivatives(c[0], c[1], c[2], c[3], w); s.res(r) } {
        pp(s, &p);
    }
    if let Some(p) = { let r = Polynomial::<8, T>::from_endpoint_derivatives(&[c[0], c[1], c[2], c[3]], &[v[0], v[1], v[2], v[3]], w); s.res(r) } {
        pp(s, &p);
    }
    s.pa(&Polynomial::<5, T>::chebyshev_nodes(c[0], c[1]));
    s.pa(&Polynomial::<0, T>::chebyshev_nodes(c[0], c[1]));
    let j: Jet<T, 4> = Jet::variable(c[0]).sin();
    if let Some(p) = { let r = Polynomial::<4, T>::from_jet(&j); s.res(r) } {
        pp(s, &p);
    }
}
fn rr<const N: usize, T: Sc>(s: &mut Sim, r: Result<RealRoots<N, T>, multicalc::error::PolynomialError>) {
    if let Some(r) = s.res(r) {
        s.pa(r.as_slice());
        s.k(r.len());
    }
}
fn poly_roots<T: Sc>(s: &mut Sim) {
    let p: Polynomial<2, T> = pol(s);
    let r = p.real_roots();
    rr(s, r);
    let p: Polynomial<3, T> = pol(s);
    let r = p.real_roots();
    rr(s, r);
    let p: Polynomial<4, T> = pol(s);
    let r = p.real_roots();
    rr(s, r);
    let p: Polynomial<5, T> = pol(s);
    let r = p.real_roots();
    rr(s, r);
    let v: [T; 4] = s.a();
    if let Ok(p) = Polynomial::<5, T>::from_roots(&[v[0], v[0], v[1], v[1]]) {
        let r = p.real_roots();
        rr(s, r);
    }
}
fn poly_roots_in<T: Sc>(s: &mut Sim) {
    let p: Polynomial<7, T> = pol(s);
    let (a, w, t): (T, T, T) = (s.x(), s.r(0.0, 8.0), tol(s));
    let n = s.us(0, 80);
    if let Some(b) = { let r = p.cauchy_root_bound(); s.res(r) } {
        s.put(b);
    }
    let r = p.count_real_roots(a, a + w);
    if let Some(k) = s.res(r) {
        s.k(k);
    }
    let r = p.real_roots_in(a, a + w, t, n);
    rr(s, r);
}
fn piecewise<T: Sc>(s: &mut Sim) {
    let pieces: [[Polynomial<4, T>; 2]; 5] = core::array::from_fn(|_| [pol(s), pol(s)]);
    let spans: [T; 5] = core::array::from_fn(|_| s.pos());
    let (n, m) = (s.us(0, 5), s.us(0, 5));
    let m = if s.p(0.8) { n } else { m };
    let r = PiecewisePolynomial::<4, 4, 2, T>::try_from_pieces(&pieces[..n], &spans[..m]);
    let Some(p) = s.res(r) else { return };
    s.k(p.piece_count());
    s.put(p.total_span());
    let i = s.ix(4);
    s.opt(p.span(i));
    let j = s.ix(2);
    s.b(p.piece_polynomial(i, j).is_some());
    for _ in 0..4 {
        let (t, u): (T, T) = (s.r(-1.0, 10.0), s.r(-1.0, 10.0));
        if let Some(v) = { let r = p.evaluate(t); s.res(r) } {
            s.pv(v);
        }
        if let Some(v) = { let r = p.evaluate_with_derivatives::<5>(t); s.res(r) } {
            for v in v {
                s.pv(v);
            }
        }
        if let Some(v) = { let r = p.definite_integral(t, u); s.res(r) } {
            s.pv(v);
        }
    }
    let o = s.ix(6);
    let t = p.total_span() * T::HALF;
    for q in [p.derivative(), p.nth_derivative(o)] {
        if let Some(v) = { let r = q.evaluate(t); s.res(r) } {
            s.pv(v);
        }
    }
}
fn pmv<const N: usize, const M: usize, T: Sc>(s: &mut Sim, p: &MultivariatePolynomial<N, M, T>) {
    for t in p.terms() {
        s.put(t.coefficient());
        for e in t.exponents() {
            s.raw(*e as f64);
        }
    }
}
fn term<T: Sc>(s: &mut Sim) -> MultivariateTerm<2, T> {
    let c = s.x();
    let e = core::array::from_fn(|_| if matches!(s.style, Style::Hostile(_)) && s.p(0.08) { s.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, i32::MAX as u32, 400]) } else { s.us(0, 4) as u32 });
    MultivariateTerm::new(c, e)
}
fn multivariate<T: Sc>(s: &mut Sim) {
    let t: [MultivariateTerm<2, T>; 6] = core::array::from_fn(|_| term(s));
    let u: [MultivariateTerm<2, T>; 3] = core::array::from_fn(|_| term(s));
    let n = s.us(0, 6);
    let r = MultivariatePolynomial::<2, 5, T>::try_from_terms(&t[..n]);
    let Some(mut p) = s.res(r) else { return };
    let r = MultivariatePolynomial::<2, 3, T>::try_from_array(u);
    let Some(q) = s.res(r) else { return };
    let r = p.push(t[5]);
    s.res(r);
    let x: [T; 2] = s.a();
    s.put(p.evaluate(&x));
    s.pv(p.gradient_at(&x));
    let i = s.ix(2);
    if let Some(d) = { let r = p.partial_derivative(i); s.res(r) } {
        pmv(s, &d);
    }
    if let Some(d) = { let r = p.partial_antiderivative(i); s.res(r) } {
        pmv(s, &d);
    }
    if let Some(d) = { let r = p.substitute(i, x[0]); s.res(r) } {
        pmv(s, &d);
    }
    if let Some(d) = { let r = p.add_into::<3, 8>(&q); s.res(r) } {
        pmv(s, &d);
    }
    if let Some(mut d) = { let r = p.multiply_into::<3, 15>(&q); s.res(r) } {
        pmv(s, &d);
        d.collect_like_terms();
        pmv(s, &d);
    }
    let r = p.multiply_into::<3, 4>(&q);
    s.res(r.map(|_| ()));
    s.raw(p.total_degree().map_or(-1.0, |d| d as f64));
    s.raw(p.degree_in(i).map_or(-1.0, |d| d as f64));
    s.b(p.is_finite());
    let z = p.collect_like_terms();
    let _ = z;
    pmv(s, &p);
    let f: Polynomial<4, T> = pol(s);
    if let Some(m) = { let r = MultivariatePolynomial::<1, 4, T>::from_univariate(&f); s.res(r) } {
        let r = m.to_univariate::<4>();
        if let Some(f) = s.res(r) {
            pp(s, &f);
        }
        let r = m.to_univariate::<2>();
        s.res(r.map(|_| ()));
    }
}
