//! C10: root finding: trace monitors for bisection, Brent, Newton and Newton systems.
use core::cell::RefCell;
use multicalc::error::{LinalgError, SolveError};
use multicalc::numerical_derivative::{AutoDiffMulti, AutoDiffSingle, FiniteDifferenceSingle};
use multicalc::root_finding::*;
use multicalc::scalar::{Dual, Numeric, ScalarFn, VectorFn};
use vmon::probe::{reset_ops, spend};
use vmon::*;

#[derive(Clone, Debug)]
enum Rf {
    Roots(Vec<f64>),
    Cubic(f64, f64, f64),
    Cbrt(f64),
    Quint(f64),
    Atan(f64, f64),
    Exp(f64, f64),
    Pole(f64),
    Sign(f64),
    Wiggle(f64, f64, f64),
    Prog(Prog, f64),
}
use vmon::expr::*;
impl Rf {
    fn raw<S: Numeric>(&self, x: S) -> S {
        let k = |v: f64| S::from_f64(v);
        match self {
            Rf::Roots(r) => r.iter().fold(S::ONE, |a, r| a * (x - k(*r))),
            Rf::Cubic(r, a, b) => k(*a) * (x - k(*r)) + k(*b) * (x - k(*r)).powi(3),
            Rf::Cbrt(r) => (x - k(*r)).cbrt(),
            Rf::Quint(r) => (x - k(*r)).powi(5),
            Rf::Atan(r, w) => (k(*w) * (x - k(*r))).atan(),
            Rf::Exp(r, w) => (k(*w) * (x - k(*r))).exp() - S::ONE,
            Rf::Pole(r) => S::ONE / (x - k(*r)),
            Rf::Sign(r) => if x - k(*r) < S::ZERO { -S::ONE } else { S::ONE },
            Rf::Wiggle(r, a, w) => (x - k(*r)) + k(*a) * (k(*w) * (x - k(*r))).sin(),
            Rf::Prog(p, o) => p.eval(&[x]) - k(*o),
        }
    }
}
struct Tr<'a> {
    f: &'a Rf,
    scale: f64,
    size: usize,
    log: RefCell<Vec<(f64, f64)>>,
}
impl<'a> Tr<'a> {
    fn new<T: Fl>(f: &'a Rf, scale: f64) -> Self {
        Tr { f, scale, size: core::mem::size_of::<T>(), log: RefCell::new(vec![]) }
    }
    fn pure<S: Numeric>(&self, x: S) -> S {
        S::from_f64(self.scale) * self.f.raw(x)
    }
}
/// The bare machine scalar hidden behind `S`, when it is one of the watched size.
fn peek<S: Numeric>(x: S, size: usize) -> Option<f64> {
    if core::mem::size_of::<S>() != size {
        return None;
    }
    // Machine scalars of the watched width only: Dual<f32> is 8 bytes, so its name is checked too.
    match core::any::type_name::<S>() {
        "f64" => Some(unsafe { core::mem::transmute_copy::<S, f64>(&x) }),
        "f32" => Some(unsafe { core::mem::transmute_copy::<S, f32>(&x) } as f64),
        _ => None,
    }
}
impl ScalarFn for Tr<'_> {
    fn eval<S: Numeric>(&self, x: S) -> S {
        let y = self.pure(x);
        spend(1);
        if let (Some(a), Some(b)) = (peek(x, self.size), peek(y, self.size)) {
            self.log.borrow_mut().push((a, b));
        }
        y
    }
}
fn gen_rf<T: Fl>(c: &mut Case, r: f64) -> Rf {
    match c.us(0, 11) {
        0 | 1 => {
            let n = c.us(0, 4);
            let mut v = vec![r];
            for _ in 0..n {
                let q = T::t(r + c.sign() * c.lu(-1.0, 1.0)).d();
                v.push(q);
            }
            Rf::Roots(v)
        }
        2 => Rf::Cubic(r, c.lu(-2.0, 1.0), c.lu(-2.0, 1.0)),
        3 => Rf::Cbrt(r),
        4 => Rf::Quint(r),
        5 => Rf::Atan(r, c.lu(-2.0, 3.0)),
        6 => Rf::Exp(r, c.sign() * c.lu(-2.0, 0.5)),
        7 => Rf::Pole(r),
        8 => Rf::Sign(r),
        9 | 10 => Rf::Wiggle(r, c.f(-0.9, 2.0), c.f(0.5, 6.0)),
        _ => {
            let p = gen_prog(c, &[r], 3, false);
            let o = p.eval(&[r]);
            Rf::Prog(p, o)
        }
    }
}
fn oppose(a: f64, b: f64) -> bool {
    (a > 0.0 && b < 0.0) || (a < 0.0 && b > 0.0)
}
/// Bisection and Brent under one trace specification.
fn bracketed<T: Fl>(c: &mut Case, brent: bool) {
    let r = T::t(match c.us(0, 4) {
        0 => 0.0,
        1 => c.ls(-6.0, 6.0),
        _ => c.f(-3.0, 3.0),
    }).d();
    let f = gen_rf::<T>(c, r);
    let scale = T::t(if c.p(0.5) { c.sign() } else if T::F32 { c.ls(-6.0, 6.0) } else { c.ls(-30.0, 30.0) }).d();
    let wide = if c.p(0.2) { c.lu(1.0, if T::F32 { 4.0 } else { 8.0 }) } else { c.lu(-3.0, 1.0) };
    let (mut a, mut b) = (T::t(r - wide * c.f(0.01, 1.0)).d(), T::t(r + wide * c.f(0.01, 1.0)).d());
    if c.p(0.15) {
        b = T::t(a + c.f(0.0, 1.0) * wide).d();
    }
    if c.p(0.05) {
        a = T::t(c.hostile()).d();
    }
    if c.p(0.03) {
        b = r;
    }
    if c.p(0.4) {
        core::mem::swap(&mut a, &mut b);
    }
    let (xt, ft, budget) = if c.p(0.4) { (4.0 * T::EPS, 4.0 * T::EPS, 100) } else {
        (
            if c.p(0.1) { 0.0 } else { T::t(c.lu(if T::F32 { -6.0 } else { -14.0 }, -1.0)).d() },
            if c.p(0.4) { 0.0 } else { T::t(c.lu(if T::F32 { -7.0 } else { -15.0 }, -2.0)).d() },
            if c.p(0.3) { c.us(0, 12) } else { c.us(13, 300) },
        )
    };
    let default = xt == 4.0 * T::EPS && ft == 4.0 * T::EPS && budget == 100;
    let tr = Tr::new::<T>(&f, scale);
    c.note("problem", &(brent, &f, scale, a, b, xt, ft, budget));
    let (ta, tb) = (T::t(a), T::t(b));
    reset_ops(20000);
    let got = match (brent, default) {
        (true, true) => Brent::<T>::default().solve(&tr, ta, tb),
        (true, false) => Brent::<T>::new().with_xtol(T::t(xt)).with_ftol(T::t(ft)).with_max_iterations(budget).solve(&tr, ta, tb),
        (false, true) => Bisection::<T>::default().solve(&tr, ta, tb),
        _ => Bisection::<T>::new().with_xtol(T::t(xt)).with_ftol(T::t(ft)).with_max_iterations(budget).solve(&tr, ta, tb),
    };
    reset_ops(u64::MAX);
    let log = tr.log.borrow().clone();
    let (fa, fb) = (tr.pure(ta).d(), tr.pure(tb).d());
    let tol = |x: f64| xt * (1.0 + x.abs());
    // What the end points alone decide.
    if !fa.is_finite() || !fb.is_finite() {
        c.eq("non-finite-end", got.err(), Some(SolveError::NonFinite));
        c.hit("non-finite bracket end refused");
        return;
    }
    if fa != 0.0 && fb != 0.0 && (fa > 0.0) == (fb > 0.0) {
        c.eq("no-sign-change", got.err(), Some(SolveError::InvalidBracket));
        c.eq("no-work", log.len(), 2);
        c.hit("bracket without sign change refused");
        return;
    }
    // Every sample stays inside the bracket the previous samples left, and the bracket never loses
    // its sign change.
    let (mut lo, mut hi) = if a <= b { ((a, fa), (b, fb)) } else { ((b, fb), (a, fa)) };
    let mut non_finite = false;
    let start_width = hi.0 - lo.0;
    let bisect_slack = 4.0 * T::EPS;
    let tiny = if T::F32 { 1e-44 } else { 1e-322 };
    if !a.is_finite() || !b.is_finite() || !start_width.is_finite() || T::t(start_width).d().is_infinite() {
        c.hit("non-finite bracket survived");
        return;
    }
    if fa != 0.0 && fb != 0.0 {
        for (i, (x, y)) in log.iter().enumerate().skip(2) {
            c.ok(*x >= lo.0 && *x <= hi.0, "bracket-kept", || format!("sample {i} at {x:e} outside [{:e}, {:e}]", lo.0, hi.0));
            if !y.is_finite() {
                non_finite = true;
                break;
            }
            if *y == 0.0 {
                break;
            }
            let w = hi.0 - lo.0;
            if oppose(*y, lo.1) { hi = (*x, *y) } else { lo = (*x, *y) }
            if !brent {
                let s = bisect_slack * (lo.0.abs().max(hi.0.abs())) + tiny;
                c.ok(hi.0 - lo.0 <= 0.5 * w + s, "halving", || format!("width {w:e} became {:e}", hi.0 - lo.0));
            }
        }
    }
    match got {
        Ok(rep) => {
            let (x, res) = (rep.root.d(), rep.residual.d());
            c.same_bits("residual", res, tr.pure(rep.root).d());
            c.ok(x >= a.min(b) && x <= a.max(b), "root-in-bracket", || format!("{x:e} outside the bracket"));
            c.ok(rep.iterations <= budget, "iterations", || format!("{} of {budget}", rep.iterations));
            c.ok(log.iter().any(|(p, _)| *p == x), "root-sampled", || format!("{x:e} was never evaluated"));
            c.ok(log.len() <= rep.iterations + 3, "evaluations", || format!("{} evaluations for {} iterations", log.len(), rep.iterations));
            if fa == 0.0 || fb == 0.0 {
                c.ok(res == 0.0, "root-at-end", || format!("residual {res:e} though an end is a root"));
                c.hit("root at an end");
                return;
            }
            match rep.termination {
                RootTermination::ResidualTolerance => {
                    c.ok(res.abs() <= ft, "residual-tolerance", || format!("|{res:e}| > {ft:e}"));
                    c.hit("stopped on residual");
                }
                RootTermination::BracketWidth => {
                    // A sampled point of the opposite sign lies within the tolerance the stop promises.
                    let t = 2.0 * tol(x) * (1.0 + 4.0 * T::EPS) + 4.0 * T::EPS * x.abs() + 4.0 * tiny;
                    c.ok(log.iter().any(|(p, y)| oppose(*y, res) && (p - x).abs() <= t), "sign-change-near-root", || format!("no sign change within {t:e} of {x:e}"));
                    c.hit("stopped on bracket width");
                }
                RootTermination::StepTolerance => c.fail("termination", "a bracketed solver reported a step tolerance"),
                _ => {}
            }
        }
        Err(SolveError::DidNotConverge { iters }) => {
            c.eq("iters", iters, budget);
            c.ok(log.len() >= budget + 1 && log.len() <= budget + 3, "budget-spent", || format!("{} evaluations of a budget of {budget}", log.len()));
            if !brent {
                // ceil(log2(w / xtol)) halvings meet the tolerance.
                let need = (start_width / xt).log2().ceil();
                c.ok(!(need.max(0.0) < budget as f64 - 1.0), "bisection-guarantee", || format!("gave up after {budget} iterations though {need} suffice"));
            } else if default && start_width < 1e3 && scale.abs() > 1e-3 && scale.abs() < 1e3 {
                // Smooth families of ordinary scale; Brent's worst case is quadratic in the bits, the
                // budget covers every family here by a wide margin.
                c.fail("brent-converges", "default Brent ran out of budget on an ordinary bracket");
            }
            c.hit("budget exhausted");
        }
        Err(SolveError::NonFinite) => {
            c.ok(non_finite, "non-finite", || "NonFinite without a non-finite sample".into());
            c.hit("non-finite sample refused");
        }
        Err(e) => c.fail("error", format!("{e:?} with a sign change bracketed")),
    }
}
/// Newton: the sequence of samples must be the (damped) Newton sequence of the true derivative.
fn newton<T: Fl>(c: &mut Case) {
    let r = T::t(c.f(-2.0, 2.0)).d();
    let f = gen_rf::<T>(c, r);
    let scale = T::t(if c.p(0.7) { c.sign() } else { c.ls(-6.0, 6.0) }).d();
    let x0 = T::t(if c.p(0.7) { r + c.sign() * c.lu(-3.0, 0.5) } else { c.maybe_hostile(0.1) }).d();
    let bt = c.p(0.5);
    let (xt, ft, budget) = if c.p(0.4) { (30.0 * T::EPS, 30.0 * T::EPS, 100) } else {
        (T::t(c.lu(if T::F32 { -6.0 } else { -14.0 }, -2.0)).d(), if c.p(0.4) { 0.0 } else { T::t(c.lu(if T::F32 { -6.0 } else { -14.0 }, -2.0)).d() }, c.us(0, 60))
    };
    let tr = Tr::new::<T>(&f, scale);
    c.note("problem", &(&f, scale, x0, bt, xt, ft, budget));
    let default = xt == 30.0 * T::EPS && budget == 100 && !bt;
    reset_ops(100000);
    let got = if default { Newton::<AutoDiffSingle<T>>::default().solve(&tr, T::t(x0)) } else {
        Newton::from_derivator(AutoDiffSingle::<T>::new()).with_xtol(T::t(xt)).with_ftol(T::t(ft)).with_max_iterations(budget).with_backtracking(bt).solve(&tr, T::t(x0))
    };
    reset_ops(u64::MAX);
    let log = tr.log.borrow().clone();
    if log.is_empty() || !(log[0].0 == x0 || x0.is_nan() && log[0].0.is_nan()) {
        c.fail("first-sample", format!("{:?}", log.first()));
    }
    if !log[0].1.is_finite() {
        c.eq("non-finite-start", got.err(), Some(SolveError::NonFinite));
        c.hit("non-finite start refused");
        return;
    }
    // Replay the specification over the recorded samples.
    let (mut x, mut res) = log[0];
    let mut i = 1;
    let mut steps = 0;
    let mut last_step = f64::INFINITY;
    let mut bad = None;
    let mut stop = None;
    'outer: while i < log.len() {
        if res.abs() <= ft {
            stop = Some("more samples after the residual tolerance was met");
            break;
        }
        let slope = tr.pure(Dual { value: DD::from(x), deriv: dd(1.0) }).deriv.f();
        let step = res / slope;
        let mut alpha = 1.0;
        let mut tries = 0;
        loop {
            if i >= log.len() {
                stop = Some("stopped in mid step");
                break 'outer;
            }
            let (p, y) = log[i];
            i += 1;
            let want = x - alpha * step;
            // The slope in the scalar under test may differ by rounding; kinks and overflow excepted.
            if slope.is_finite() && slope != 0.0 && step.is_finite() && want.is_finite() {
                let cancel = match &f {
                    Rf::Roots(r) => (0..r.len()).map(|i| (0..r.len()).filter(|j| *j != i).map(|j| (x - r[j]).abs()).product::<f64>()).sum::<f64>() * scale.abs() / slope.abs(),
                    _ => 1.0,
                };
                let t = 1e4 * T::EPS * cancel * (alpha * step).abs() + 8.0 * T::EPS * x.abs() + f64::MIN_POSITIVE;
                let grad_ok = matches!(f, Rf::Roots(_) | Rf::Cubic(..) | Rf::Cbrt(_) | Rf::Quint(_) | Rf::Atan(..) | Rf::Exp(..) | Rf::Pole(_));
                if grad_ok && step.abs() < 1e8 && x.abs() < 1e6 && !(T::F32 && !(step.abs() > 1e-30 && step.abs() < 1e30)) {
                    c.near("newton-step", p, want, t.max(if T::F32 { 1e-37 } else { 0.0 }));
                    c.hit("newton step judged");
                }
            }
            // A sample past the end of the number line is none.
            let fin = p.is_finite() && y.is_finite();
            let accept = if bt { (fin && y.abs() < res.abs()) || tries >= 20 } else { true };
            if accept {
                if !fin {
                    bad = Some(SolveError::NonFinite);
                    break 'outer;
                }
                if bt && !(y.abs() < res.abs()) {
                    c.hit("backtracking exhausted");
                }
                last_step = (p - x).abs();
                x = p;
                res = y;
                steps += 1;
                break;
            }
            c.hit("backtracked");
            alpha *= 0.5;
            tries += 1;
        }
        if last_step <= xt * (1.0 + x.abs()) && i < log.len() && last_step < 0.5 * xt * (1.0 + x.abs()) {
            stop = Some("more samples after the step tolerance was met");
            break;
        }
    }
    if let Some(s) = stop {
        c.fail("trace", s);
    }
    match got {
        Ok(rep) => {
            c.same_bits("residual", rep.residual.d(), tr.pure(rep.root).d());
            c.same_bits("root-is-last", rep.root.d(), x);
            c.ok(rep.iterations <= budget, "iterations", || format!("{}", rep.iterations));
            match rep.termination {
                RootTermination::ResidualTolerance => c.ok(rep.residual.d().abs() <= ft, "residual-tolerance", || format!("{:e} > {ft:e}", rep.residual.d())),
                RootTermination::StepTolerance => c.ok(steps > 0 && last_step <= xt * (1.0 + x.abs()) * (1.0 + 8.0 * T::EPS), "step-tolerance", || format!("{last_step:e} > {xt:e}")),
                t => c.fail("termination", format!("{t:?}")),
            }
            c.hit("newton converged");
        }
        Err(SolveError::DidNotConverge { iters }) => {
            c.eq("iters", iters, budget);
            c.eq("steps", steps, budget);
            c.hit("newton budget exhausted");
        }
        Err(SolveError::Linalg(LinalgError::Singular)) => {
            let slope = tr.pure(Dual { value: T::t(x), deriv: T::ONE }).deriv.d();
            c.ok(slope == 0.0, "singular", || format!("Singular with slope {slope:e} at {x:e}"));
            c.hit("zero slope refused");
        }
        Err(SolveError::NonFinite) => {
            let slope = tr.pure(Dual { value: T::t(x), deriv: T::ONE }).deriv.d();
            c.ok(bad.is_some() || !slope.is_finite(), "non-finite", || format!("NonFinite though slope {slope:e} and samples are finite"));
        }
        Err(e) => c.fail("error", format!("{e:?}")),
    }
    // Convex monotone problems from the convergent side always succeed.
    let k = c.lu(-1.0, 0.7);
    let q = c.f(-2.0, 2.0);
    let g = Rf::Exp(q, k);
    let start = q + c.f(0.0, 6.0);
    let tg = Tr::new::<T>(&g, 1.0);
    c.note("convex", &(k, q, start));
    let rep = Newton::<AutoDiffSingle<T>>::from_derivator(AutoDiffSingle::new()).solve(&tg, T::t(start));
    let rep = c.get("convex", rep);
    c.near("convex-root", rep.root.d(), T::t(q).d(), 200.0 * T::EPS * (1.0 + q.abs()) * (1.0 + 1.0 / k));
    let rep = Newton::from_derivator(FiniteDifferenceSingle::<T>::default()).with_xtol(T::t(1e-3)).with_ftol(T::t(1e-3)).solve(&tg, T::t(start));
    let rep = c.get("convex-fd", rep);
    c.near("convex-root-fd", rep.root.d(), T::t(q).d(), 0.1 / k);
}
/// Square systems with a known root.
struct Sys<'a, const N: usize> {
    a: &'a [[f64; N]; N],
    r: &'a [f64; N],
    q: f64,
    kind: u8,
    size: usize,
    log: RefCell<Vec<([f64; N], [f64; N])>>,
}
impl<const N: usize> Sys<'_, N> {
    fn pure<S: Numeric>(&self, x: &[S; N]) -> [S; N] {
        let k = |v: f64| S::from_f64(v);
        let u: [S; N] = core::array::from_fn(|i| x[i] - k(self.r[i]));
        core::array::from_fn(|i| {
            let mut s = S::ZERO;
            for j in 0..N {
                s += k(self.a[i][j]) * u[j];
            }
            let v = u[(i + 1) % N];
            s + k(self.q) * match self.kind {
                0 => S::ZERO,
                1 => v * v * u[i],
                2 => v.sin() - v,
                3 => (v * k(0.5)).exp() - S::ONE - v * k(0.5),
                _ => u[i].powi(3) + v * v,
            }
        })
    }
}
impl<const N: usize> VectorFn<N, N> for Sys<'_, N> {
    fn eval<S: Numeric>(&self, x: &[S; N]) -> [S; N] {
        let y = self.pure(x);
        spend(1);
        if peek(x[0], self.size).is_some() {
            let g = |v: &[S; N]| core::array::from_fn(|i| peek(v[i], self.size).unwrap());
            self.log.borrow_mut().push((g(x), g(&y)));
        }
        y
    }
}
fn norm(v: &[f64]) -> f64 {
    let m = v.iter().fold(0.0f64, |a, b| a.max(b.abs()));
    if m == 0.0 || !m.is_finite() { return m; }
    m * v.iter().map(|x| (x / m) * (x / m)).sum::<f64>().sqrt()
}
fn system<const N: usize, T: Fl>(c: &mut Case) {
    let kind = c.us(0, 4) as u8;
    let mut am = gen_mat(c, N, N).rounded::<T>();
    let singular = c.p(0.08);
    if !singular {
        let s = [1.0, 1.5, 0.7, 2.0, 1.2, 0.8, 1.1, 1.7, 0.9, 1.4, 0.75, 1.9];
        am = gen_svd(c, N, N, &s[..N]).rounded::<T>();
    }
    let a: [[f64; N]; N] = core::array::from_fn(|i| core::array::from_fn(|j| am.f(i, j)));
    let r: [f64; N] = c.arr(|c| T::t(c.f(-2.0, 2.0)).d());
    let q = if kind == 0 { 0.0 } else { c.f(-1.0, 1.0) };
    let spread = c.lu(-3.0, 0.7);
    let x0: [f64; N] = core::array::from_fn(|i| T::t(r[i] + spread * c.f(-1.0, 1.0)).d());
    let bt = c.p(0.5);
    let (xt, ft, budget) = if c.p(0.5) { (30.0 * T::EPS, 30.0 * T::EPS, 100) } else { (T::t(c.lu(if T::F32 { -5.0 } else { -13.0 }, -2.0)).d(), if c.p(0.3) { 0.0 } else { T::t(c.lu(if T::F32 { -5.0 } else { -13.0 }, -2.0)).d() }, c.us(0, 40)) };
    let sys = Sys { a: &a, r: &r, q, kind, size: core::mem::size_of::<T>(), log: RefCell::new(vec![]) };
    c.note("system", &(kind, a, r, q, x0, bt, xt, ft, budget));
    reset_ops(100000);
    let got = NewtonSystem::from_derivator(AutoDiffMulti::<T>::new()).with_xtol(T::t(xt)).with_ftol(T::t(ft)).with_max_iterations(budget).with_backtracking(bt).solve(&sys, &x0.map(T::t));
    reset_ops(u64::MAX);
    let log = sys.log.borrow().clone();
    c.ok(!log.is_empty() && log[0].0 == x0, "first-sample", || format!("{:?}", log.first()));
    let (mut x, y) = log[0];
    let mut res = norm(&y);
    let mut fx = y;
    let mut i = 1;
    let (mut steps, mut last) = (0, f64::INFINITY);
    'outer: while i < log.len() {
        c.ok(res > ft * (1.0 - 1e-6), "trace", || "more samples after the residual tolerance was met".into());
        // Reference step from exact derivatives in double-double.
        let mut jac = RM::zeros(N, N);
        for k in 0..N {
            let p: [Dual<DD>; N] = core::array::from_fn(|i| Dual { value: dd(x[i]), deriv: dd(if i == k { 1.0 } else { 0.0 }) });
            let d = sys.pure(&p);
            for i in 0..N {
                *jac.at_mut(i, k) = d[i].deriv;
            }
        }
        let sv = jac.sing();
        // The solver's Jacobian rounds at the size of its terms, not of its entries.
        let un = norm(&core::array::from_fn::<f64, N, _>(|k| x[k] - r[k]));
        let cond = (sv[0] + 4.0 * (1.0 + un * un)) / sv[N - 1].max(1e-300);
        let step = jac.solve(&RM::col(&fx));
        let mut alpha = 1.0;
        let mut tries = 0;
        loop {
            c.ok(i < log.len(), "trace", || "stopped in mid step".into());
            let (p, fy) = log[i];
            i += 1;
            if let Some(s) = &step {
                if cond < 0.01 / T::EPS.sqrt() && un < 100.0 {
                    let sn = norm(&s.fs());
                    for k in 0..N {
                        c.near("newton-step", p[k], x[k] - alpha * s.f(k, 0), 200.0 * T::EPS * N as f64 * cond * alpha * sn + 8.0 * T::EPS * x[k].abs());
                    }
                    c.hit("system step judged");
                }
            }
            let ny = norm(&fy);
            let fin = fy.iter().chain(&p).all(|v| v.is_finite());
            let accept = !bt || tries >= 20 || (fin && ny < res * (1.0 - 4.0 * T::EPS));
            let near_tie = bt && fin && (ny - res).abs() <= 8.0 * T::EPS * res;
            if near_tie && !accept && i >= log.len() {
                c.discard()
            }
            if near_tie && tries < 20 {
                c.discard()
            }
            if accept {
                if !fin {
                    break 'outer;
                }
                last = norm(&core::array::from_fn::<f64, N, _>(|k| p[k] - x[k]));
                x = p;
                fx = fy;
                res = ny;
                steps += 1;
                break;
            }
            c.hit("backtracked");
            alpha *= 0.5;
            tries += 1;
        }
        if i < log.len() {
            c.ok(last > xt * (1.0 + norm(&x)) * 0.9, "trace", || "more samples after the step tolerance was met".into());
        }
    }
    match got {
        Ok(rep) => {
            c.eq("root-is-last", rep.root.map(|v| v.d()), x);
            c.near("residual-norm", rep.residual_norm.d(), res, 8.0 * N as f64 * T::EPS * res);
            match rep.termination {
                RootTermination::ResidualTolerance => c.ok(rep.residual_norm.d() <= ft, "residual-tolerance", || format!("{:e}", rep.residual_norm.d())),
                // The solver measures the computed step; the recorded positions round at eps*|x|.
                RootTermination::StepTolerance => c.ok(last <= xt * (1.0 + norm(&x)) * 1.01 + 4.0 * T::EPS * norm(&x) * N as f64, "step-tolerance", || format!("{last:e}")),
                t => c.fail("termination", format!("{t:?}")),
            }
            c.ok(rep.iterations <= budget, "iterations", || format!("{}", rep.iterations));
            c.hit("system converged");
            if kind == 0 && !singular && xt == 30.0 * T::EPS {
                for k in 0..N {
                    c.near("linear-root", rep.root[k].d(), r[k], 200.0 * N as f64 * T::EPS * (1.0 + norm(&r)));
                }
            }
        }
        Err(SolveError::DidNotConverge { iters }) => {
            c.eq("iters", iters, budget);
            c.eq("steps", steps, budget);
            c.ok(!(kind == 0 && !singular && budget >= 3 && xt >= 20.0 * T::EPS), "linear-converges", || "a linear system did not converge".into());
            c.hit("system budget exhausted");
        }
        Err(SolveError::Linalg(LinalgError::Singular | LinalgError::IllConditioned)) => {
            let p: Vec<[Dual<DD>; N]> = (0..N).map(|k| core::array::from_fn(|i| Dual { value: dd(x[i]), deriv: dd(if i == k { 1.0 } else { 0.0 }) })).collect();
            let mut jac = RM::zeros(N, N);
            for k in 0..N {
                let d = sys.pure(&p[k]);
                for i in 0..N {
                    *jac.at_mut(i, k) = d[i].deriv;
                }
            }
            let sv = jac.sing();
            let un = norm(&core::array::from_fn::<f64, N, _>(|k| x[k] - r[k]));
            c.ok(!(sv[N - 1] > (sv[0] + 4.0 * (1.0 + un * un)) * 1e4 * T::EPS), "singular", || format!("Singular with singular values {sv:?}"));
            c.hit("singular system refused");
        }
        Err(SolveError::NonFinite) => {
            c.hit("system non-finite");
        }
        Err(e) => c.fail("error", format!("{e:?}")),
    }
}
/// Default Newton system on well-conditioned mildly nonlinear systems started near the root.
fn system_truth<const N: usize, T: Fl>(c: &mut Case) {
    let s = [1.0, 1.5, 0.7, 2.0, 1.2, 0.8, 1.1, 1.7, 0.9, 1.4, 0.75, 1.9];
    let am = gen_svd(c, N, N, &s[..N]).rounded::<T>();
    let a: [[f64; N]; N] = core::array::from_fn(|i| core::array::from_fn(|j| am.f(i, j)));
    let r: [f64; N] = c.arr(|c| T::t(c.f(-2.0, 2.0)).d());
    let kind = c.us(0, 4) as u8;
    let x0: [f64; N] = core::array::from_fn(|i| T::t(r[i] + c.f(-0.05, 0.05)).d());
    let sys = Sys { a: &a, r: &r, q: c.f(-0.5, 0.5), kind, size: 0, log: RefCell::new(vec![]) };
    c.note("system", &(kind, a, r, x0));
    let rep = if c.p(0.5) { NewtonSystem::<AutoDiffMulti<T>>::default().solve(&sys, &x0.map(T::t)) } else { NewtonSystem::from_derivator(AutoDiffMulti::<T>::new()).with_backtracking(true).solve(&sys, &x0.map(T::t)) };
    let rep = c.get("near-root", rep);
    for k in 0..N {
        c.near("root", rep.root[k].d(), r[k], 400.0 * N as f64 * T::EPS * (1.0 + norm(&r)));
    }
    c.hit("system root confirmed");
}
/// Systems that leave their domain: poles, roots at zero, logarithms, overflow.
struct Wild<'a, const N: usize> {
    g: [u8; N],
    a: [[f64; N]; N],
    y: [f64; N],
    size: usize,
    log: &'a RefCell<Vec<([f64; N], bool)>>,
}
impl<const N: usize> Wild<'_, N> {
    fn pure<S: Numeric>(&self, x: &[S; N]) -> [S; N] {
        let k = |v: f64| S::from_f64(v);
        core::array::from_fn(|i| {
            let v = x[i];
            let g = match self.g[i] {
                0 => v.sqrt(),
                1 => v.log(),
                2 => S::ONE / v,
                3 => (v * k(40.0)).exp(),
                4 => v.cbrt(),
                5 => v.asin(),
                6 => v.abs().sqrt() * v,
                _ => v * v,
            };
            (0..N).filter(|j| *j != i && self.a[i][*j] != 0.0).fold(g - k(self.y[i]), |s, j| s + k(self.a[i][j]) * x[j])
        })
    }
}
impl<const N: usize> VectorFn<N, N> for Wild<'_, N> {
    fn eval<S: Numeric>(&self, x: &[S; N]) -> [S; N] {
        spend(1);
        let y = self.pure(x);
        if peek(x[0], self.size).is_some() {
            self.log.borrow_mut().push((x.map(|v| peek(v, self.size).unwrap()), y.iter().all(|v| peek(*v, self.size).unwrap().is_finite())));
        }
        y
    }
}
/// A value or a slope that is not a number stops the search there and then, and nothing else is called so.
fn wild<const N: usize, T: Fl>(c: &mut Case) {
    let log = RefCell::new(vec![]);
    let w = Wild::<N> {
        g: core::array::from_fn(|_| c.us(0, 8) as u8),
        a: core::array::from_fn(|_| c.arr(|c| if c.p(0.5) { 0.0 } else { T::t(c.f(-0.5, 0.5)).d() })),
        y: c.arr(|c| match c.us(0, 5) {
            0 | 1 => 0.0,
            2 => T::t(c.ls(0.0, 30.0)).d(),
            _ => T::t(c.f(-2.0, 2.0)).d(),
        }),
        size: core::mem::size_of::<T>(),
        log: &log,
    };
    let x0: [f64; N] = c.arr(|c| match c.us(0, 8) {
        0..=2 => 0.0,
        3 => T::t(c.ls(-300.0, -20.0)).d(),
        4 => c.pick(&[1.0, -1.0]),
        5 => T::t(c.ls(1.0, 37.0)).d(),
        6 => c.hostile(),
        _ => T::t(c.f(-2.0, 2.0)).d(),
    });
    let x0 = x0.map(|v| T::t(v).d());
    let slopes = |x: &[f64; N]| {
        (0..N).all(|k| w.pure(&core::array::from_fn::<Dual<T>, N, _>(|i| Dual { value: T::t(x[i]), deriv: T::t(if i == k { 1.0 } else { 0.0 }) })).iter().all(|v| v.deriv.d().is_finite()))
    };
    let y0 = w.pure(&x0.map(T::t)).map(|v| v.d());
    let (bt, budget) = (c.p(0.5), c.us(0, 12));
    c.note("system", &(w.g, w.a, w.y, x0, bt, budget));
    reset_ops(100000);
    let t = T::t(1e-3);
    let got = if N == 1 && c.p(0.5) {
        struct One<'a, 'b, const N: usize>(&'a Wild<'b, N>);
        impl<const N: usize> ScalarFn for One<'_, '_, N> {
            fn eval<S: Numeric>(&self, x: S) -> S {
                self.0.eval(&[x; N])[0]
            }
        }
        c.hit("single unknown");
        let n = Newton::from_derivator(AutoDiffSingle::<T>::new()).with_xtol(t).with_ftol(t).with_max_iterations(budget).with_backtracking(bt);
        n.solve(&One(&w), T::t(x0[0])).map(|r| ([r.root.d(); N], r.residual.d().abs()))
    } else {
        let n = NewtonSystem::from_derivator(AutoDiffMulti::<T>::new()).with_xtol(t).with_ftol(t).with_max_iterations(budget).with_backtracking(bt);
        n.solve(&w, &x0.map(T::t)).map(|r| (r.root.map(|v| v.d()), r.residual_norm.d()))
    };
    reset_ops(u64::MAX);
    let log = log.borrow().clone();
    let last = *log.last().unwrap();
    if !y0.iter().all(|v| v.is_finite()) {
        c.eq("a start with no value", got.err(), Some(SolveError::NonFinite));
        c.eq("a start with no value", log.len(), 1);
        c.hit("start without a value");
        return;
    }
    if budget > 0 && norm(&y0) > 2e-3 && !slopes(&x0) {
        c.eq("a start with no slope", got.err(), Some(SolveError::NonFinite));
        c.eq("a start with no slope", log.len(), 1);
        c.hit("start without a slope");
        return;
    }
    if !bt {
        c.ok(log[..log.len() - 1].iter().all(|l| l.1), "stopped at the first", || format!("{log:?}"));
    }
    if !last.1 {
        // A trial is given up at the last of the halvings, and not before.
        c.eq("ended without a value", got.err(), Some(SolveError::NonFinite));
        if bt {
            let run = log.iter().rev().take(21).filter(|l| !l.1).count();
            c.ok(run >= 1 && log.len() > 21, "given up after all the halvings", || format!("{} samples", log.len()));
            c.hit("all halvings spent");
        }
        c.hit("trial without a value");
        return;
    }
    match got {
        Err(SolveError::NonFinite) => {
            c.ok(!slopes(&last.0) || !last.0.iter().all(|v| v.is_finite()), "non-finite", || format!("at {:?} everything is finite", last.0));
            c.hit("slope lost on the way");
        }
        Ok(r) if x0.iter().all(|v| v.is_finite()) => c.ok(r.0.iter().all(|v| v.is_finite()) && r.1 >= 0.0, "a root is a number", || format!("{r:?}")),
        _ => {}
    }
}
fn main() {
    vmon::run("C10", |s| {
        s.rule("A case counts when a solver ran on an instrumented function and the recorded sample sequence was checked against the solver's specification (bracket kept and halved, Newton steps of the true derivative, stop test truly met, budget respected); distinct = distinct problems.");
        s.assume("Newton steps are judged against derivatives in double-double with 1e4 ulps of slack.");
        s.monitor("bisection", 400000, 40, |c| if c.p(0.3) { bracketed::<f32>(c, false) } else { bracketed::<f64>(c, false) });
        s.monitor("brent", 400000, 40, |c| if c.p(0.3) { bracketed::<f32>(c, true) } else { bracketed::<f64>(c, true) });
        s.monitor("newton", 400000, 30, |c| if c.p(0.3) { newton::<f32>(c) } else { newton::<f64>(c) });
        s.monitor("system", 200000, 20, |c| match c.us(0, 4) {
            0 => system::<1, f64>(c),
            1 => system::<2, f64>(c),
            2 => system::<3, f64>(c),
            3 => system::<5, f64>(c),
            _ => system::<3, f32>(c),
        });
        s.monitor("wild", 300000, 20, |c| match c.us(0, 3) {
            0 => wild::<1, f64>(c),
            1 => wild::<2, f64>(c),
            2 => wild::<3, f64>(c),
            _ => wild::<2, f32>(c),
        });
        s.monitor("system-truth", 200000, 20, |c| match c.us(0, 3) {
            0 => system_truth::<2, f64>(c),
            1 => system_truth::<3, f64>(c),
            2 => system_truth::<5, f64>(c),
            _ => system_truth::<3, f32>(c),
        });
        s.monitor("system-large", 4000, 20, |c| match c.us(0, 2) {
            0 => system::<9, f64>(c),
            1 => system_truth::<8, f64>(c),
            _ => system_truth::<12, f64>(c),
        });
        for (e, n) in [("stopped on residual", 5000), ("stopped on bracket width", 5000), ("budget exhausted", 1000), ("bracket without sign change refused", 1000), ("non-finite sample refused", 50), ("root at an end", 500), ("newton step judged", 50000), ("backtracked", 5000), ("zero slope refused", 20), ("newton converged", 10000), ("newton budget exhausted", 500), ("system step judged", 20000), ("system converged", 5000), ("singular system refused", 20), ("system root confirmed", 10000)] {
            s.require(e, n);
        }
    })
}
