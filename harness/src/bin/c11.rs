//! C11: nonlinear least squares: trace monitors for Levenberg-Marquardt and Gauss-Newton.
use core::cell::RefCell;
use multicalc::error::{LinalgError, SolveError};
use multicalc::numerical_derivative::{AutoDiffMulti, FiniteDifferenceMulti};
use multicalc::optimization::*;
use multicalc::scalar::{Dual, Numeric, VectorFn};
use vmon::probe::{reset_ops, spend};
use vmon::*;

/// Residual families over data rows `a` (m x n), `t` (m), `y` (m).
struct Pb<const N: usize, const M: usize> {
    kind: u8,
    a: RM,
    t: Vec<f64>,
    y: Vec<f64>,
    size: usize,
    log: RefCell<Vec<(Vec<f64>, Vec<f64>)>>,
}
impl<const N: usize, const M: usize> Pb<N, M> {
    fn model<S: Numeric>(&self, p: &[S; N], i: usize) -> S {
        let k = |v: f64| S::from_f64(v);
        let lin = |s: S| (0..N).fold(s, |s, j| s + k(self.a.f(i, j)) * p[j]);
        let t = k(self.t[i]);
        match self.kind {
            0 => lin(S::ZERO),
            1 => lin(S::ZERO) + k(0.3) * p[i % N] * p[(i + 1) % N],
            2 => (lin(S::ZERO) * k(0.5)).sin() + k(1.5) * lin(S::ZERO),
            3 => (p[0] * t).exp() * p[N - 1] + (1..N).fold(S::ZERO, |s, j| s + p[j] * t.powi(j as i32)),
            4 => (0..N).fold(S::ZERO, |s, j| s + p[j] * (k(1.0 + j as f64) * t + p[(j + 1) % N]).sin()),
            5 => {
                let d = (1..N).fold(S::ONE, |s, j| s + k(0.2) * p[j] * p[j] * t * t);
                (p[0] + p[N - 1] * t) / d
            }
            6 => k(10.0) * (p[(i + 1) % N] - p[i % N] * p[i % N]) + p[i % N],
            _ => lin(S::ZERO).exp(),
        }
    }
    fn pure<S: Numeric>(&self, p: &[S; N]) -> [S; M] {
        core::array::from_fn(|i| self.model(p, i) - S::from_f64(self.y[i]))
    }
    fn jac(&self, x: &[f64; N]) -> RM {
        let mut j = RM::zeros(M, N);
        for k in 0..N {
            let p: [Dual<DD>; N] = core::array::from_fn(|i| Dual { value: dd(x[i]), deriv: dd(if i == k { 1.0 } else { 0.0 }) });
            let d = self.pure(&p);
            for i in 0..M {
                *j.at_mut(i, k) = d[i].deriv;
            }
        }
        j
    }
    fn f64s(&self, x: &[f64; N]) -> Vec<DD> {
        self.pure(&x.map(dd)).to_vec()
    }
}
impl<const N: usize, const M: usize> VectorFn<N, M> for Pb<N, M> {
    fn eval<S: Numeric>(&self, x: &[S; N]) -> [S; M] {
        spend(1);
        let y = self.pure(x);
        if peek(x[0], self.size).is_some() {
            let g = |v: &[S]| v.iter().map(|q| peek(*q, self.size).unwrap()).collect::<Vec<f64>>();
            self.log.borrow_mut().push((g(x), g(&y)));
        }
        y
    }
}
fn mkpb<const N: usize, const M: usize, T: Fl>(c: &mut Case, kind: u8, truth: &[f64; N], noise: f64) -> Pb<N, M> {
    let s: Vec<f64> = (0..N.min(M)).map(|_| c.lu(-0.5, 0.5)).collect();
    let a = gen_svd(c, M, N, &s).rounded::<T>();
    let t: Vec<f64> = (0..M).map(|i| T::t((i as f64 + c.f(0.1, 0.9)) / M as f64 * 2.0).d()).collect();
    let mut p = Pb { kind, a, t, y: vec![0.0; M], size: core::mem::size_of::<T>(), log: RefCell::new(vec![]) };
    let y = p.pure(&truth.map(dd));
    p.y = y.iter().map(|v| T::t(v.f() + noise * c.normal()).d()).collect();
    p
}
fn hsq(v: &[f64]) -> f64 {
    let n = nrm(v);
    0.5 * n * n
}
struct Cfg {
    ftol: f64,
    xtol: f64,
    gtol: f64,
    patience: usize,
    stepbound: f64,
    scale: bool,
    bt: bool,
    default: bool,
}
fn cfg<T: Fl>(c: &mut Case) -> Cfg {
    let default = c.p(0.4);
    let e = 30.0 * T::EPS;
    let mut g = |c: &mut Case| if default { e } else if c.p(0.15) { 0.0 } else { T::t(c.lu(if T::F32 { -6.0 } else { -14.0 }, -1.5)).d() };
    let (ftol, xtol, gtol) = (g(c), g(c), g(c));
    Cfg { ftol, xtol, gtol, patience: if default { 100 } else if c.p(0.3) { c.us(0, 6) } else { c.us(7, 200) }, stepbound: if default { 100.0 } else { T::t(c.lu(-2.0, 3.0)).d() }, scale: default || c.p(0.5), bt: !default && c.p(0.6), default }
}
/// What one recorded run must satisfy.
fn run<const N: usize, const M: usize, T: Fl>(c: &mut Case, lm: bool) {
    let kind = c.us(0, 7) as u8;
    let truth: [f64; N] = c.arr(|c| T::t(c.f(-1.5, 1.5)).d());
    let noise = if c.p(0.4) { 0.0 } else { c.lu(-4.0, 0.5) };
    let mut pb = mkpb::<N, M, T>(c, kind, &truth, noise);
    if c.p(0.05) {
        let z = T::t(c.hostile()).d();
        pb.y[M - 1] = z;
    }
    let spread = c.lu(-3.0, 1.0);
    let mut x0: [f64; N] = core::array::from_fn(|i| T::t(truth[i] + spread * c.f(-1.0, 1.0)).d());
    if c.p(0.05) {
        x0 = [0.0; N];
    }
    if c.p(0.03) {
        x0[N - 1] = T::t(c.hostile()).d();
    }
    if c.p(0.03) {
        x0 = truth;
    }
    let g = cfg::<T>(c);
    c.note("problem", &(lm, kind, N, M, truth, x0, noise));
    c.note("settings", &(g.ftol, g.xtol, g.gtol, g.patience, g.stepbound, g.scale, g.bt));
    c.note("data", &(&pb.a.fs(), &pb.t, &pb.y));
    let tx0 = x0.map(T::t);
    reset_ops(200000);
    let d = AutoDiffMulti::<T>::new();
    let t = T::t;
    let got = match (lm, g.default) {
        (true, true) => LevenbergMarquardt::<AutoDiffMulti<T>>::default().minimize(&pb, &tx0),
        (true, false) => LevenbergMarquardt::from_derivator(d).with_ftol(t(g.ftol)).with_xtol(t(g.xtol)).with_gtol(t(g.gtol)).with_stepbound(t(g.stepbound)).with_patience(g.patience).with_scale_diag(g.scale).minimize(&pb, &tx0),
        (false, true) => GaussNewton::<AutoDiffMulti<T>>::default().minimize(&pb, &tx0),
        (false, false) => GaussNewton::from_derivator(d).with_ftol(t(g.ftol)).with_xtol(t(g.xtol)).with_gtol(t(g.gtol)).with_patience(g.patience).with_backtracking(g.bt).minimize(&pb, &tx0),
    };
    reset_ops(u64::MAX);
    let log = pb.log.borrow().clone();
    let arr = |v: &[f64]| -> [f64; N] { core::array::from_fn(|i| v[i]) };
    let fin = |v: &[f64]| v.iter().all(|x| x.is_finite());
    c.ok(!log.is_empty() && log[0].0.iter().zip(&x0).all(|(a, b)| a == b || a.is_nan() && b.is_nan()), "first-sample", || "the first sample is not the initial guess".into());
    if !fin(&log[0].1) {
        c.eq("non-finite-start", got.err(), Some(SolveError::NonFinite));
        c.eq("no-work", log.len(), 1);
        c.hit("non-finite start refused");
        return;
    }
    if g.patience == 0 {
        c.eq("patience-0", got.err(), Some(SolveError::DidNotConverge { iters: 1 }));
        return;
    }
    if M < N {
        let j = pb.pure(&core::array::from_fn::<Dual<T>, N, _>(|k| Dual { value: T::t(x0[k]), deriv: T::ONE }));
        if j.iter().any(|v| !v.deriv.is_finite()) {
            c.ok(got.is_err(), "underdetermined", || "solved an underdetermined problem".into());
            return;
        }
        c.eq("underdetermined", got.err(), Some(SolveError::Linalg(LinalgError::Underdetermined)));
        c.hit("underdetermined refused");
        return;
    }
    // Overflowing scales say nothing about the algorithm.
    let big = if T::F32 { 1e8 } else { 1e20 };
    let tame = log.iter().all(|(p, r)| p.iter().chain(r).all(|v| v.abs() < big));
    if let (Some(k), true) = (log.iter().position(|(p, r)| !fin(r) || !lm && !fin(p)), lm || !g.bt) {
        c.eq("non-finite", got.err(), Some(SolveError::NonFinite));
        c.eq("stopped-at-non-finite", k + 1, log.len());
        c.hit("non-finite trial refused");
        return;
    }
    // The iterates, as the specification accepts them.
    let mut cur = 0usize;
    let mut iters = 0usize;
    let mut bounded = true;
    let eps = T::EPS * (M + N) as f64;
    let mut jac = pb.jac(&x0);
    let mut dscale: Vec<f64> = (0..N).map(|j| if g.scale { let v = nrm(&(0..M).map(|i| jac.f(i, j)).collect::<Vec<_>>()); if v == 0.0 { 1.0 } else { v } } else { 1.0 }).collect();
    let mut i = 1;
    let mut last: Option<(f64, f64, f64)> = None; // step norm, previous norm, x norm
    while i < log.len() && tame {
        let (x, r) = (arr(&log[cur].0), log[cur].1.clone());
        let rn = nrm(&r);
        let sv = jac.sing();
        // Rounding of residuals and Jacobian entries relative to their terms.
        let ymax = pb.y.iter().fold(1.0f64, |a, b| a.max(b.abs()));
        let noise_j = eps * (sv[0] + 20.0 * (1.0 + nrm(&x)) * (1.0 + nrm(&x)));
        let well = sv[N - 1] > 1e4 * noise_j && sv[N - 1] > 1e-5 * sv[0] && rn < 1e4 * ymax.max(1.0) && kind != 7 && nrm(&x) < 30.0;
        let rel = if well { 40.0 * (noise_j / sv[N - 1]) * (1.0 + sv[0] / sv[N - 1]) } else { f64::INFINITY };
        let rv = RM::col(&r);
        let gn = if well { jac.t().mul(&jac).solve(&jac.t().mul(&rv)) } else { None };
        if lm {
            let p: Vec<f64> = (0..N).map(|k| x[k] - log[i].0[k]).collect();
            let dp: Vec<f64> = (0..N).map(|k| dscale[k] * p[k]).collect();
            if i == 1 {
                let xn = nrm(&(0..N).map(|k| dscale[k] * x0[k]).collect::<Vec<_>>());
                let delta = if rel > 1e-2 { f64::INFINITY } else if xn < if T::F32 { 1e-30 } else { 1e-290 } { g.stepbound.max(xn) } else { g.stepbound * xn };
                c.ok(nrm(&dp) <= 1.2 * delta + 1e3 * T::EPS * xn, "first-radius", || format!("first scaled step {:e} exceeds the radius {delta:e}", nrm(&dp)));
            }
            if let Some(gn) = &gn {
                // g - JᵀJ p must be a non-negative multiple of D² p.
                let pm = RM::col(&p);
                let q = jac.t().mul(&rv.sub(&jac.mul(&pm)));
                let d2p: Vec<f64> = (0..N).map(|k| dscale[k] * dscale[k] * p[k]).collect();
                let dd2: f64 = d2p.iter().map(|v| v * v).sum();
                let lam = (0..N).map(|k| d2p[k] * q.f(k, 0)).sum::<f64>() / dd2;
                let pn = nrm(&p);
                let slack = rel * sv[0] * sv[0] * pn + 8.0 * T::EPS * sv[0] * sv[0] * nrm(&x) + 8.0 * eps * sv[0] * rn;
                let dmax = dscale.iter().cloned().fold(0.0, f64::max);
                if rel < 1e-2 && dmax < 1e4 * (1.0 + sv[0]) && dd2 > 0.0 && pn > 1e3 * T::EPS * nrm(&x) {
                    let lslack = slack * (1.0 + lam.abs() * dmax * dmax / (sv[N - 1] * sv[N - 1]));
                    let err = nrm(&(0..N).map(|k| q.f(k, 0) - lam * d2p[k]).collect::<Vec<_>>());
                    c.ok(err <= lslack, "lm-step", || format!("trial {i} is not a damped step: off by {err:e} > {lslack:e} with lambda {lam:e}"));
                    c.ok(lam * nrm(&d2p) >= -lslack, "lm-lambda", || format!("trial {i} has damping {lam:e}"));
                    c.ok(nrm(&dp) <= nrm(&(0..N).map(|k| dscale[k] * gn.f(k, 0)).collect::<Vec<_>>()) * (1.0 + 1e-6 + rel * 10.0) + 1e3 * T::EPS * dmax * nrm(&x), "lm-length", || "a trial is longer than the Gauss-Newton step".into());
                    c.hit("damped step judged");
                    if lam * nrm(&d2p) > 10.0 * lslack {
                        c.hit("damping active");
                    }
                }
            }
            let new = &log[i].1;
            if !fin(new) {
                c.eq("non-finite", got.err(), Some(SolveError::NonFinite));
                c.eq("stopped-at-non-finite", i + 1, log.len());
                c.hit("non-finite trial refused");
                return;
            }
            // Accepted trials lower the norm; a trial was accepted when the next one departs from it.
            let nn = nrm(new);
            let is_final = got.as_ref().is_ok_and(|r| r.solution.iter().zip(&log[i].0).all(|(a, b)| a.d() == *b));
            let accepted = if i + 1 < log.len() {
                // Which base does the following trial belong to? Either is consistent with the
                // specification only when the decrease is marginal.
                nn < rn
            } else {
                is_final || got.is_err() && nn < rn
            };
            let clear = nn < rn * (1.0 - 2e-3) || nn > rn * (1.0 + 64.0 * eps);
            if !clear {
                bounded = false;
                break;
            }
            if accepted {
                c.ok(nn < rn, "monotone", || format!("accepted {nn:e} over {rn:e}"));
                cur = i;
                iters += 1;
                jac = pb.jac(&arr(&log[cur].0));
                if g.scale {
                    for j in 0..N {
                        dscale[j] = dscale[j].max(nrm(&(0..M).map(|k| jac.f(k, j)).collect::<Vec<_>>()));
                    }
                }
            } else {
                c.hit("trial rejected");
                if nn < rn * (1.0 - 2e-3) {
                    // Only a poor gain ratio can reject a real decrease; it is bounded by the threshold.
                    c.fail("lm-reject", format!("the last trial lowered the norm from {rn:e} to {nn:e} and was not kept"));
                }
            }
            i += 1;
        } else {
            let mut alpha = 1.0;
            let mut tries = 0;
            loop {
                c.ok(i < log.len(), "gn-trace", || "stopped in mid step".into());
                let (p, new) = log[i].clone();
                i += 1;
                if let Some(gn) = &gn {
                    if rel < 1e-2 {
                        for k in 0..N {
                            c.near("gn-step", p[k], x[k] - alpha * gn.f(k, 0), alpha * (rel * nrm(&gn.fs()) + rel * rn / sv[0]) + 8.0 * T::EPS * nrm(&x));
                        }
                        c.hit("gauss-newton step judged");
                    }
                }
                // A sample past the end of the number line is none.
                let f = fin(&new) && fin(&p);
                let nn = nrm(&new);
                if g.bt && f && (nn - rn).abs() <= 16.0 * eps * rn && tries < 20 {
                    bounded = false;
                    break;
                }
                if !g.bt || tries >= 20 || (f && nn < rn) {
                    if !f {
                        c.eq("non-finite", got.err(), Some(SolveError::NonFinite));
                        c.eq("stopped-at-non-finite", i, log.len());
                        c.hit("non-finite trial refused");
                        return;
                    }
                    last = Some((nrm(&(0..N).map(|k| p[k] - x[k]).collect::<Vec<_>>()), rn, nrm(&p)));
                    cur = i - 1;
                    iters += 1;
                    if i < log.len() {
                        jac = pb.jac(&arr(&p));
                        let (s, pn, xn) = last.unwrap();
                        c.ok(s > 0.5 * g.xtol * xn - 8.0 * T::EPS * xn, "gn-ran-on-x", || "kept going though the step met the tolerance".into());
                        c.ok((pn - nn).abs() > g.ftol * pn - 32.0 * eps * pn, "gn-ran-on-f", || "kept going though the cost met the tolerance".into());
                    }
                    break;
                }
                c.hit("backtracked");
                alpha *= 0.5;
                tries += 1;
            }
            if !bounded {
                break;
            }
        }
    }
    match got {
        Ok(rep) => {
            let sol = rep.solution.map(|v| v.d());
            let at = log.iter().position(|(p, _)| p.iter().zip(&sol).all(|(a, b)| a == b));
            c.ok(at.is_some(), "solution-sampled", || "the residuals were never evaluated at the reported solution".into());
            let r = log[at.unwrap()].1.clone();
            let want = hsq(&r);
            if tame {
                c.near("objective", rep.objective_function.d(), want, 20.0 * eps * want + if T::F32 { 1e-37 } else { 1e-300 });
            }
            c.eq("evaluations", rep.evaluations, log.len());
            if lm {
                c.ok(want <= hsq(&log[0].1) * (1.0 + 4.0 * eps), "never-worse", || format!("{want:e} above the start {:e}", hsq(&log[0].1)));
                for (k, (_, s)) in log.iter().enumerate() {
                    if tame && fin(s) {
                        c.ok(want <= hsq(s) * (1.0 + 2e-3) + 1e-280 + if T::F32 { 1e-36 } else { 0.0 }, "best-kept", || format!("sample {k} had objective {:e} below the reported {want:e}", hsq(s)));
                    }
                }
                c.ok(iters <= g.patience, "patience", || format!("{iters} accepted steps of {}", g.patience));
            } else if tame && bounded {
                c.eq("last-iterate", log[cur].0.clone(), sol.to_vec());
                c.ok(iters <= g.patience, "patience", || format!("{iters} steps of {}", g.patience));
            }
            if tame && nrm(&sol) < 1e3 {
                let rn = nrm(&r);
                let j = pb.jac(&sol);
                let mut worst = 0.0f64;
                let mut noise = 0.0f64;
                let xn = 1.0 + nrm(&sol);
                for k in 0..N {
                    let col: Vec<f64> = (0..M).map(|i| j.f(i, k)).collect();
                    let cn = nrm(&col);
                    if cn > 1e3 * eps * xn * xn && rn > 0.0 {
                        worst = worst.max((0..M).map(|i| col[i] * (r[i] / rn)).sum::<f64>().abs() / cn);
                        noise = noise.max(40.0 * eps * (1.0 + xn * xn / cn));
                    }
                }
                match rep.termination {
                    TerminationReason::Gtol => {
                        if kind != 7 && rn > if T::F32 { 1e-15 } else { 1e-140 } {
                            c.ok(worst <= g.gtol * 1.01 + noise, "gtol", || format!("scaled gradient {worst:e} above {:e}", g.gtol));
                        }
                        c.hit("stopped on gradient");
                    }
                    TerminationReason::Xtol => {
                        if let (false, true, Some((s, _, xn))) = (lm, bounded, last) {
                            c.ok(s <= g.xtol * xn * 1.01 + 8.0 * T::EPS * xn, "xtol", || format!("step {s:e} above {:e}", g.xtol * xn));
                        }
                        c.hit("stopped on step");
                    }
                    TerminationReason::Ftol => {
                        if let (false, true, Some((_, pn, _))) = (lm, bounded, last) {
                            c.ok((pn - rn).abs() <= g.ftol * pn * 1.01 + 32.0 * eps * pn, "ftol", || format!("cost moved from {pn:e} to {rn:e}"));
                        }
                        if lm {
                            // prered <= ftol bounds the gain a full Gauss-Newton step promises.
                            c.hit("stopped on cost");
                        }
                    }
                    _ => {}
                }
            }
            c.hit("report judged");
        }
        Err(SolveError::DidNotConverge { iters: e }) => {
            c.eq("iters", e, log.len());
            if !lm && tame && bounded {
                c.eq("all-patience-used", iters, g.patience);
            }
            if lm {
                c.ok(log.len() > g.patience, "all-patience-used", || format!("{} evaluations for a patience of {}", log.len(), g.patience));
                c.ok(log.len() <= 1 + 100 * g.patience, "trial-cap", || format!("{} evaluations", log.len()));
            }
            c.hit("patience exhausted");
        }
        Err(SolveError::NonFinite) => {
            let j = pb.pure(&core::array::from_fn::<Dual<T>, N, _>(|k| Dual { value: T::t(log[cur].0[k]), deriv: T::ONE }));
            let bad = log.iter().any(|(_, r)| !fin(r)) || j.iter().any(|v| !v.deriv.is_finite());
            c.ok(bad || !tame, "non-finite", || "NonFinite on a finite problem".into());
            c.hit("non-finite problem refused");
        }
        Err(SolveError::Linalg(LinalgError::Singular)) => {
            c.ok(!lm, "lm-singular", || "Levenberg-Marquardt refused a rank-deficient step".into());
            if tame && bounded {
                c.note("at", &log[cur]);
                let j = pb.jac(&arr(&log[cur].0));

                let sv = j.sing();
                let xn = 1.0 + nrm(&log[cur].0);
                c.ok(sv[0] > big || !(sv[N - 1] > 1e3 * eps * (sv[0] + 20.0 * xn * xn)) || kind == 7, "singular", || format!("Singular with singular values {sv:?}"));
            }
            c.hit("rank-deficient step refused");
        }
        Err(e) => c.fail("error", format!("{e:?}")),
    }
}
/// Linear problems have a known optimum; nonlinear ones started near a regular zero-residual truth
/// must reach it; noisy ones must reach a stationary point.
fn truth<const N: usize, const M: usize, T: Fl>(c: &mut Case) {
    let kind = c.us(0, 5) as u8;
    let truth: [f64; N] = c.arr(|c| T::t(c.f(0.3, 1.5)).d());
    let noise = if c.p(0.5) { 0.0 } else { c.lu(-4.0, -0.5) };
    let pb = mkpb::<N, M, T>(c, kind, &truth, noise);
    let spread = if kind == 0 { c.lu(-2.0, 2.0) } else { 0.05 };
    let x0: [f64; N] = core::array::from_fn(|i| T::t(truth[i] + spread * c.f(-1.0, 1.0)).d());
    let method = c.us(0, 4);
    c.note("problem", &(method, kind, N, M, truth, x0, noise));
    c.note("data", &(&pb.a.fs(), &pb.t, &pb.y));
    let sv = pb.jac(&truth).sing();
    let cond = sv[0] / sv[N - 1];
    let lim = if T::F32 { 30.0 } else { 300.0 };
    if !(cond < lim) || sv[N - 1] < 0.05 && kind != 0 {
        c.discard();
    }
    let tx0 = x0.map(T::t);
    let fd = FiniteDifferenceMulti::<T>::default();
    let got = match method {
        0 => LevenbergMarquardt::<AutoDiffMulti<T>>::default().minimize(&pb, &tx0),
        1 => LevenbergMarquardt::from_derivator(AutoDiffMulti::<T>::new()).with_scale_diag(false).minimize(&pb, &tx0),
        2 => GaussNewton::<AutoDiffMulti<T>>::default().minimize(&pb, &tx0),
        3 => GaussNewton::from_derivator(AutoDiffMulti::<T>::new()).with_backtracking(true).minimize(&pb, &tx0),
        _ => LevenbergMarquardt::from_derivator(fd).with_ftol(T::t(1e-4)).with_xtol(T::t(1e-4)).with_gtol(T::t(1e-4)).minimize(&pb, &tx0),
    };
    let fdm = method == 4;
    // Without damping, noise far from linear may legitimately cycle.
    if !matches!(method, 0 | 1) && noise > 0.01 && kind != 0 {
        c.discard();
    }
    if noise > 0.0 && kind != 0 && matches!(got, Err(SolveError::DidNotConverge { .. })) {
        c.hit("noisy problem ran out of patience");
        c.discard();
    }
    let rep = c.get("converges", got);
    c.note("report", &rep);
    let x = rep.solution.map(|v| v.d());
    let r: Vec<f64> = pb.f64s(&x).iter().map(|v| v.f()).collect();
    let rn = nrm(&r);
    let j = pb.jac(&x);
    let eps = T::EPS * (M + N) as f64;
    if kind == 0 {
        let a = &pb.a;
        let sol = a.t().mul(a).solve(&a.t().mul(&RM::col(&pb.y))).unwrap();
        let opt = nrm(&a.mul(&sol).sub(&RM::col(&pb.y)).fs());
        // The cost test stops within sqrt(ftol) of the optimum, relative to the residual.
        let ftol: f64 = if fdm { 1e-3 } else { 30.0 * T::EPS };
        let scale = nrm(&pb.y) + nrm(&sol.fs()) * sv[0] + if T::F32 { 3e-7 } else { 0.0 } * nrm(&x0);
        for k in 0..N {
            let tol = (3.0 * ftol.sqrt() * opt + 60.0 * eps * cond * scale) / sv[N - 1] + 30.0 * ftol * nrm(&x);
            c.near("linear-optimum", x[k], sol.f(k, 0), tol);
        }
        c.hit("linear optimum confirmed");
    } else if noise == 0.0 {
        let e = nrm(&(0..N).map(|k| x[k] - truth[k]).collect::<Vec<_>>());
        // Residual data is rounded to the scalar.
        let tol = if fdm { 5e-3 } else { 2e3 * eps * (cond + 1.0 / sv[N - 1]) };
        if e > tol && !(rn > 1e-3 * nrm(&pb.y)) && kind != 1 && kind != 2 {
            // Another exact fit of the same data.
            c.hit("another exact fit");
            c.discard();
        }
        let g = (0..N).map(|k| (0..M).map(|i| j.f(i, k) * r[i]).sum::<f64>().abs() / (sv[0] * rn)).fold(0.0, f64::max);
        if e > tol && rn > 1e-3 * nrm(&pb.y) && g < 1e-6 {
            c.hit("another stationary point");
            c.discard();
        }
        c.ok(e <= tol, "zero-residual-truth", || format!("{e:e} away from the truth (tolerance {tol:e})"));
        c.hit("zero-residual truth confirmed");
    } else {
        let g = (0..N).map(|k| {
            let col: Vec<f64> = (0..M).map(|i| j.f(i, k)).collect();
            ((0..M).map(|i| col[i] * r[i]).sum::<f64>() / (sv[0] * rn)).abs()
        }).fold(0.0, f64::max);
        let tol: f64 = if fdm { 0.05 } else { 1000.0 * T::EPS.sqrt() };
        if rn > 1e4 * eps && rn > 100.0 * T::EPS.sqrt() * (1.0 + nrm(&pb.y)) {
            c.ok(g <= tol, "stationary", || format!("scaled gradient {g:e} at the reported solution"));
            c.hit("stationary point confirmed");
        }
    }
}
/// Rank-deficient linear problems: LM still reaches the optimal cost, GN refuses.
fn deficient<const N: usize, const M: usize>(c: &mut Case) {
    let truth: [f64; N] = c.arr(|c| c.f(-1.5, 1.5));
    let mut pb = mkpb::<N, M, f64>(c, 0, &truth, 0.1);
    let (p, q) = (c.us(0, N - 1), c.us(0, N - 1));
    let k = if c.p(0.3) || p == q { 0.0 } else { c.pick(&[1.0, -2.0, 0.5]) };
    for i in 0..M {
        let v = pb.a.f(i, q) * k;
        *pb.a.at_mut(i, p) = dd(v);
    }
    let x0: [f64; N] = c.arr(|c| c.f(-3.0, 3.0));
    c.note("problem", &(N, M, p, q, k, x0));
    c.note("data", &(&pb.a.fs(), &pb.y));
    let e = GaussNewton::<AutoDiffMulti>::default().minimize(&pb, &x0).err();
    c.eq("gn-singular", e, Some(SolveError::Linalg(LinalgError::Singular)));
    let rep = LevenbergMarquardt::<AutoDiffMulti>::default().minimize(&pb, &x0);
    let rep = c.get("lm-deficient", rep);
    let keep: Vec<usize> = (0..N).filter(|j| *j != p).collect();
    let b = RM::from_fn(M, N - 1, |i, j| pb.a.f(i, keep[j]));
    let sol = b.t().mul(&b).solve(&b.t().mul(&RM::col(&pb.y))).unwrap();
    let opt = nrm(&b.mul(&sol).sub(&RM::col(&pb.y)).fs());
    c.near("deficient-cost", rep.objective_function, 0.5 * opt * opt, 1e-9 * (1.0 + opt * opt));
    c.hit("rank-deficient problem judged");
}
/// Residuals that leave their domain: poles, roots at zero, logarithms, overflow, plateaus.
struct Wild<'a, const N: usize, const M: usize> {
    g: [u8; M],
    a: [[f64; N]; M],
    y: [f64; M],
    size: usize,
    log: &'a RefCell<Vec<([f64; N], bool)>>,
}
impl<const N: usize, const M: usize> Wild<'_, N, M> {
    fn pure<S: Numeric>(&self, x: &[S; N]) -> [S; M] {
        let k = |v: f64| S::from_f64(v);
        core::array::from_fn(|i| {
            let v = x[i % N];
            let g = match self.g[i] {
                0 => v.sqrt(),
                1 => v.log(),
                2 => S::ONE / v,
                3 => (v * k(40.0)).exp(),
                4 => v.cbrt(),
                5 => v.asin(),
                6 => (v * k(20.0)).tanh(),
                7 => v.atan(),
                _ => v * v,
            };
            (0..N).filter(|j| self.a[i][*j] != 0.0).fold(g - k(self.y[i]), |s, j| s + k(self.a[i][j]) * x[j])
        })
    }
}
impl<const N: usize, const M: usize> VectorFn<N, M> for Wild<'_, N, M> {
    fn eval<S: Numeric>(&self, x: &[S; N]) -> [S; M] {
        spend(1);
        let y = self.pure(x);
        if peek(x[0], self.size).is_some() {
            self.log.borrow_mut().push((x.map(|v| peek(v, self.size).unwrap()), y.iter().all(|v| peek(*v, self.size).unwrap().is_finite())));
        }
        y
    }
}
/// A residual or a slope that is not a number stops the fit there and then, nothing else is called so,
/// and a fit is never off the end of the number line.
fn wild<const N: usize, const M: usize, T: Fl>(c: &mut Case) {
    let log = RefCell::new(vec![]);
    let thin = c.p(0.5);
    let w = Wild::<N, M> {
        g: core::array::from_fn(|_| c.us(0, 8) as u8),
        a: core::array::from_fn(|_| c.arr(|c| if thin || c.p(0.5) { 0.0 } else { T::t(c.f(-0.5, 0.5)).d() })),
        y: c.arr(|c| match c.us(0, 5) {
            0 | 1 => 0.0,
            2 => T::t(c.ls(0.0, 30.0)).d(),
            _ => T::t(c.f(-2.0, 2.0)).d(),
        }),
        size: core::mem::size_of::<T>(),
        log: &log,
    };
    let x0: [f64; N] = c.arr(|c| match c.us(0, 8) {
        0..=2 => 0.0,
        3 => T::t(c.ls(-300.0, -20.0)).d(),
        4 => c.pick(&[1.0, -1.0]),
        5 => T::t(c.ls(1.0, 37.0)).d(),
        6 => -c.f(if T::F32 { 1.0 } else { 14.0 }, if T::F32 { 2.5 } else { 18.6 }),
        _ => T::t(c.f(-2.0, 2.0)).d(),
    });
    let x0 = x0.map(|v| T::t(v).d());
    let slopes = |x: &[f64; N]| {
        (0..N).all(|k| w.pure(&core::array::from_fn::<Dual<T>, N, _>(|i| Dual { value: T::t(x[i]), deriv: T::t(if i == k { 1.0 } else { 0.0 }) })).iter().all(|v| v.deriv.d().is_finite()))
    };
    let y0 = w.pure(&x0.map(T::t)).map(|v| v.d());
    let (kind, patience) = (c.us(0, 2), c.us(1, 30));
    c.note("problem", &(w.g, w.a, w.y, x0, kind, patience));
    reset_ops(100000);
    let d = AutoDiffMulti::<T>::new();
    let got = match kind {
        0 => LevenbergMarquardt::from_derivator(d).with_patience(patience).minimize(&w, &x0.map(T::t)),
        _ => GaussNewton::from_derivator(d).with_patience(patience).with_backtracking(kind == 1).minimize(&w, &x0.map(T::t)),
    };
    reset_ops(u64::MAX);
    let log = log.borrow().clone();
    let last = *log.last().unwrap();
    if !y0.iter().all(|v| v.is_finite()) {
        c.eq("a start with no value", got.err(), Some(SolveError::NonFinite));
        c.eq("a start with no value", log.len(), 1);
        c.hit("start without a value");
        return;
    }
    if !slopes(&x0) {
        c.eq("a start with no slope", got.err(), Some(SolveError::NonFinite));
        c.eq("a start with no slope", log.len(), 1);
        c.hit("start without a slope");
        return;
    }
    if kind != 1 {
        c.ok(log[..log.len() - 1].iter().all(|l| l.1), "stopped at the first", || format!("{log:?}"));
        if !last.1 {
            c.eq("ended without a value", got.err(), Some(SolveError::NonFinite));
            c.hit("trial without a value");
            return;
        }
    }
    match got {
        Err(SolveError::NonFinite) => {
            let ended = !last.1 || !last.0.iter().all(|v| v.is_finite());
            let at = log.iter().rev().find(|l| l.1).unwrap();
            c.ok(ended || !slopes(&at.0) || log.iter().any(|l| l.1 && !slopes(&l.0)), "non-finite", || format!("at {:?} everything is finite", last.0));
            c.hit("slope lost on the way");
        }
        Ok(r) => {
            c.ok(r.solution.iter().all(|v| v.d().is_finite()) && r.objective_function.d() >= 0.0, "a fit is a number", || format!("{r:?}"));
            c.hit("fit is a number");
        }
        _ => {}
    }
}
fn main() {
    vmon::run("C11", |s| {
        s.rule("A case counts when a minimizer ran on an instrumented residual and its recorded samples and report were judged; distinct = distinct problems.");
        s.assume("Steps are judged where the Jacobian's condition leaves them defined to 1%; runs with values beyond 1e20 (1e8 in f32) are judged on their reports only.");
        let pick = |c: &mut Case, lm: bool| match c.us(0, 8) {
            0 => run::<1, 3, f64>(c, lm),
            1 => run::<2, 2, f64>(c, lm),
            2 => run::<2, 5, f64>(c, lm),
            3 => run::<3, 3, f64>(c, lm),
            4 => run::<3, 8, f64>(c, lm),
            5 => run::<4, 6, f64>(c, lm),
            6 => run::<3, 2, f64>(c, lm),
            7 => run::<2, 4, f32>(c, lm),
            _ => run::<3, 5, f32>(c, lm),
        };
        s.monitor("lm", 100000, 20, |c| pick(c, true));
        s.monitor("gn", 100000, 20, |c| pick(c, false));
        s.monitor("wild", 300000, 20, |c| match c.us(0, 4) {
            0 => wild::<1, 1, f64>(c),
            1 => wild::<1, 3, f64>(c),
            2 => wild::<2, 2, f64>(c),
            3 => wild::<2, 4, f64>(c),
            _ => wild::<2, 3, f32>(c),
        });
        s.monitor("truth", 100000, 20, |c| match c.us(0, 5) {
            0 => truth::<1, 3, f64>(c),
            1 => truth::<2, 2, f64>(c),
            2 => truth::<2, 6, f64>(c),
            3 => truth::<3, 8, f64>(c),
            4 => truth::<4, 9, f64>(c),
            _ => truth::<2, 6, f32>(c),
        });
        s.monitor("truth-large", 3000, 20, |c| match c.us(0, 2) {
            0 => truth::<6, 14, f64>(c),
            1 => truth::<9, 12, f64>(c),
            _ => truth::<10, 10, f64>(c),
        });
        s.monitor("deficient", 10000, 20, |c| if c.p(0.5) { deficient::<2, 4>(c) } else { deficient::<3, 6>(c) });
        for (e, n) in [("damped step judged", 20000), ("damping active", 2000), ("trial rejected", 500), ("gauss-newton step judged", 20000), ("backtracked", 2000), ("non-finite start refused", 200), ("non-finite trial refused", 20), ("underdetermined refused", 500), ("stopped on gradient", 2000), ("stopped on step", 1000), ("stopped on cost", 1000), ("patience exhausted", 500), ("linear optimum confirmed", 2000), ("zero-residual truth confirmed", 2000), ("stationary point confirmed", 500), ("rank-deficient problem judged", 5000)] {
            s.require(e, n);
        }
    })
}
