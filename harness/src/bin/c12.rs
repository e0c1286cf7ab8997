//! C12: ordinary differential equations: RK4, adaptive RK45 with dense output, attitude stepping.
use core::cell::{Cell, RefCell};
use multicalc::error::IntegrateError;
use multicalc::ode::*;
use multicalc::scalar::{Dual, Numeric};
use multicalc::spatial::{Quaternion, SO3};
use multicalc::{Primal, Vector};
use vmon::rot::*;
use vmon::*;

#[derive(Clone, Debug)]
struct Fld<const N: usize> {
    kind: u8,
    a: [[f64; N]; N],
    b: [f64; N],
    w: f64,
}
impl<const N: usize> Fld<N> {
    fn rhs<S: Numeric>(&self, t: S, y: &[S; N]) -> [S; N] {
        let k = |v: f64| S::from_f64(v);
        core::array::from_fn(|i| {
            let lin = |s: S| (0..N).fold(s, |s, j| s + k(self.a[i][j]) * y[j]);
            match self.kind {
                0 => lin(k(self.b[i])),
                1 => lin(k(self.b[i]) * (k(self.w) * t).cos()),
                2 => k(self.b[i]) + t * (k(self.a[i][0]) + t * k(self.w)),
                3 => k(0.8) * y[i] * (S::ONE - y[(i + 1) % N] * y[(i + 1) % N] * k(0.3)) + k(self.b[i]) * t,
                4 => lin(S::ZERO).sin() - y[i] * k(0.5),
                5 => -k(self.b[i].abs() * 20.0) * (y[i] - (k(self.w) * t).cos()),
                _ => k(self.b[i]) * y[i] / (S::ONE + t * t),
            }
        })
    }
    fn v<T: Fl>(&self, t: T, y: &Vector<N, T>) -> Vector<N, T> {
        Vector::new(self.rhs(t, y.as_array()))
    }
    fn gen_(c: &mut Case) -> Self {
        let mut r = |c: &mut Case| c.f(-1.0, 1.0) as f32 as f64;
        Fld { kind: c.us(0, 6) as u8, a: core::array::from_fn(|_| core::array::from_fn(|_| r(c))), b: core::array::from_fn(|_| r(c)), w: r(c) * 3.0 }
    }
}
fn ds<const N: usize, T: Fl>(v: &Vector<N, T>) -> [f64; N] {
    v.as_array().map(|x| x.d())
}
fn rk4<const N: usize, T: Fl>(c: &mut Case) {
    let f = Fld::<N>::gen_(c);
    let t0 = T::t(if c.p(0.2) { 0.0 } else { c.f(-3.0, 3.0) });
    let h = T::t(c.sign() * c.lu(-5.0, 0.0));
    let n = if c.p(0.2) { 0 } else { c.us(1, 8) };
    let y0: [f64; N] = c.arr(|c| T::t(c.f(-2.0, 2.0)).d());
    c.note("problem", &(&f, t0, h, n, y0));
    let log = RefCell::new(vec![]);
    let fun = |t: T, y: &Vector<N, T>| {
        let r = f.v(t, y);
        log.borrow_mut().push((t.d(), ds(y), ds(&r)));
        r
    };
    let nodes = RefCell::new(vec![]);
    let s0 = Vector::new(y0.map(T::t));
    let end = Rk4::integrate(&fun, t0, &s0, h, n, |t, y| nodes.borrow_mut().push((t.d(), ds(y))));
    let (log, nodes) = (log.into_inner(), nodes.into_inner());
    c.eq("nodes", nodes.len(), n + 1);
    c.eq("start-node", nodes[0], (t0.d(), y0));
    if nodes.iter().any(|(_, y)| y.iter().any(|v| !(v.abs() < 1e3))) {
        return c.discard();
    }
    c.eq("end-node", nodes[n].1, ds(&end));
    let hd = h.d();
    for s in 0..n {
        let (t, y) = nodes[s];
        let (t1, y1) = nodes[s + 1];
        c.near("node-time", t1, t + hd, 2.0 * T::EPS * (t.abs() + hd.abs()));
        // Classic RK4 in double-double from the node.
        let (td, hh) = (dd(t), dd(hd));
        let yd = y.map(dd);
        let st = |k: &[DD; N], w: f64| -> [DD; N] { core::array::from_fn(|i| yd[i] + k[i] * hh * dd(w)) };
        let k1 = f.rhs(td, &yd);
        let k2 = f.rhs(td + hh * dd(0.5), &st(&k1, 0.5));
        let k3 = f.rhs(td + hh * dd(0.5), &st(&k2, 0.5));
        let k4 = f.rhs(td + hh, &st(&k3, 1.0));
        let big = [&k1, &k2, &k3, &k4].iter().flat_map(|k| k.iter()).fold(0.0f64, |a, b| a.max(b.f().abs())) * hd.abs();
        if !(big < 30.0) {
            continue;
        }
        for i in 0..N {
            let want = yd[i] + (k1[i] + k2[i] * dd(2.0) + k3[i] * dd(2.0) + k4[i]) * hh / dd(6.0);
            let sz = y.iter().map(|v| v.abs()).fold(1.0, f64::max) + hd.abs() * 30.0 * (1.0 + t.abs());
            c.near("rk4", y1[i], want.f(), 16.0 * T::EPS * (sz + 4.0 * big) * (1.0 + 30.0 * hd.abs()) * (1.0 + (nrm(&y) + big).powi(2)));
        }
        c.hit("rk4 step judged");
    }
    if n > 0 {
        c.eq("rk4-evaluations", log.len(), 4 * n);
        let one = Rk4::step(&|t, y: &Vector<N, T>| f.v(t, y), t0, &s0, h);
        c.eq("step-is-integrate", ds(&one), nodes[1].1);
    } else {
        c.hit("zero rk4 steps");
    }
}
const C: [f64; 7] = [0.0, 1.0 / 5.0, 3.0 / 10.0, 4.0 / 5.0, 8.0 / 9.0, 1.0, 1.0];
const A: [&[(f64, f64)]; 7] = [
    &[],
    &[(1.0, 5.0)],
    &[(3.0, 40.0), (9.0, 40.0)],
    &[(44.0, 45.0), (-56.0, 15.0), (32.0, 9.0)],
    &[(19372.0, 6561.0), (-25360.0, 2187.0), (64448.0, 6561.0), (-212.0, 729.0)],
    &[(9017.0, 3168.0), (-355.0, 33.0), (46732.0, 5247.0), (49.0, 176.0), (-5103.0, 18656.0)],
    &[(35.0, 384.0), (0.0, 1.0), (500.0, 1113.0), (125.0, 192.0), (-2187.0, 6784.0), (11.0, 84.0)],
];
const B4: [(f64, f64); 7] = [(5179.0, 57600.0), (0.0, 1.0), (7571.0, 16695.0), (393.0, 640.0), (-92097.0, 339200.0), (187.0, 2100.0), (1.0, 40.0)];
struct Cfg {
    rtol: f64,
    atol: f64,
    first: f64,
    min: f64,
    max: f64,
    steps: usize,
    default: bool,
}
fn solver<T: Fl>(g: &Cfg) -> Rk45<T> {
    if g.default {
        return Rk45::default();
    }
    let mut s = Rk45::<T>::default().with_rtol(T::t(g.rtol)).with_atol(T::t(g.atol)).with_max_steps(g.steps);
    if g.first > 0.0 {
        s = s.with_first_step(T::t(g.first));
    }
    if g.min > 0.0 {
        s = s.with_min_step(T::t(g.min));
    }
    if g.max < f64::INFINITY {
        s = s.with_max_step(T::t(g.max));
    }
    s
}
type St = (f64, f64, Vec<f64>, Vec<f64>, Vec<f64>, Vec<f64>);
fn rk45<const N: usize, T: Fl>(c: &mut Case) {
    let mut f = Fld::<N>::gen_(c);
    if c.p(0.03) {
        f.b[0] = T::t(c.hostile()).d();
    }
    let t0 = T::t(if c.p(0.2) { 0.0 } else if c.p(0.1) { c.ls(0.0, 4.0) } else { c.f(-3.0, 3.0) }).d();
    let span = c.sign() * c.lu(-4.0, 0.9);
    let mut tf = T::t(t0 + span).d();
    if c.p(0.02) {
        tf = if c.p(0.5) { t0 } else { T::t(c.hostile()).d() };
    }
    let y0: [f64; N] = c.arr(|c| T::t(if c.p(0.1) { 0.0 } else { c.f(-2.0, 2.0) }).d());
    let default = c.p(0.3);
    let lo = if T::F32 { -5.0 } else { -11.0 };
    let q = |x: f64| T::t(x).d();
    let g = Cfg {
        rtol: q(if default { 1e-6 } else { c.lu(lo, -1.5) }),
        atol: q(if default { 1e-9 } else { c.lu(lo, -1.5) }),
        first: q(if default || c.p(0.5) { 0.0 } else { c.lu(-6.0, 1.0) }),
        min: q(if default || c.p(0.7) { 0.0 } else { c.lu(-7.0, -1.0) }),
        max: if default || c.p(0.5) { f64::INFINITY } else { q(c.lu(-2.0, 1.0)) },
        steps: if default { 100_000 } else if c.p(0.2) { c.us(0, 10) } else { 20_000 },
        default,
    };
    c.note("problem", &(&f, N, t0, tf, y0));
    c.note("settings", &(g.rtol, g.atol, g.first, g.min, g.max, g.steps));
    let s = solver::<T>(&g);
    let evals = Cell::new(0u64);
    let fun = |t: T, y: &Vector<N, T>| {
        evals.set(evals.get() + 1);
        f.v(t, y)
    };
    let steps: RefCell<Vec<Step<N, T>>> = RefCell::new(vec![]);
    let s0 = Vector::new(y0.map(T::t));
    let got = s.for_each_step(&fun, T::t(t0), &s0, T::t(tf), |st| steps.borrow_mut().push(*st));
    let ev = evals.get();
    let raw = steps.into_inner();
    let again = s.solve(&fun, T::t(t0), &s0, T::t(tf));
    match (&got, &again) {
        (Ok(a), Ok(b)) => c.eq("solve-is-for-each-step", ds(a), ds(b)),
        (a, b) => c.eq("solve-is-for-each-step", a.is_ok(), b.is_ok()),
    }
    if !t0.is_finite() || !tf.is_finite() || t0 == tf {
        c.eq("ill-defined-span", got.err(), Some(IntegrateError::LimitsIllDefined));
        c.hit("ill-defined span refused");
        return;
    }
    let k0 = ds(&f.v(T::t(t0), &s0));
    if !k0.iter().all(|v| v.is_finite()) {
        c.eq("non-finite-start", got.err(), Some(IntegrateError::NonFinite));
        c.hit("non-finite start refused");
        return;
    }
    c.ok(ev <= 3 + 7 * g.steps as u64, "evaluations", || format!("{ev} evaluations for {} attempts", g.steps));
    c.ok(raw.len() <= g.steps, "step-budget", || format!("{} steps of {}", raw.len(), g.steps));
    let st: Vec<St> = raw.iter().map(|s| (s.time_start.d(), s.time_end.d(), ds(&s.state_start).to_vec(), ds(&s.state_end).to_vec(), ds(&s.derivative_start).to_vec(), ds(&s.derivative_end).to_vec())).collect();
    let dir = (tf - t0).signum();
    let tlim = 4.0 * T::EPS * (1.0 + tf.abs().max(t0.abs()));
    for (i, (ta, tb, ya, yb, ka, kb)) in st.iter().enumerate() {
        // Steps chain exactly.
        let (pt, py, pk) = if i == 0 { (t0, y0.to_vec(), k0.to_vec()) } else { (st[i - 1].1, st[i - 1].3.clone(), st[i - 1].5.clone()) };
        c.same_bits("chained-time", *ta, pt);
        c.eq("chained-state", ya, &py);
        c.eq("chained-derivative", ka, &pk);
        c.ok((tb - ta) * dir >= -tlim && (tf - tb) * dir >= -tlim, "direction", || format!("step {i} from {ta:e} to {tb:e} on the way to {tf:e}"));
        let h = tb - ta;
        c.ok(h.abs() <= g.max * (1.0 + 4.0 * T::EPS) + tlim, "max-step", || format!("step of {h:e}"));
        if g.first > 0.0 && i == 0 {
            c.ok(h.abs() <= g.first + tlim, "first-step", || format!("first step {h:e} over {:e}", g.first));
        }
        if i > 0 {
            let hp = (st[i - 1].1 - st[i - 1].0).abs();
            c.ok(h.abs() <= 10.0 * hp * (1.0 + 1e-5) + 12.0 * tlim, "growth", || format!("step grew from {hp:e} to {h:e}"));
        }
        if g.min > 0.0 && i > 0 && i + 1 < st.len() {
            c.ok(h.abs() >= g.min * (1.0 - 1e-6) - tlim, "min-step", || format!("step of {h:e} under {:e}", g.min));
        }
        // The Dormand-Prince step in double-double.
        let (td, hd) = (dd(*ta), dd(*tb) - dd(*ta));
        let yd: [DD; N] = core::array::from_fn(|j| dd(ya[j]));
        let mut ks: Vec<[DD; N]> = vec![];
        let mut big = ya.iter().fold(1.0f64, |a, b| a.max(b.abs()));
        let mut y5 = yd;
        for m in 0..7 {
            let y: [DD; N] = core::array::from_fn(|j| A[m].iter().zip(&ks).fold(yd[j], |s, ((p, q), k)| s + k[j] * hd * dd(*p) / dd(*q)));
            if m == 6 {
                y5 = y;
            }
            let t = if m == 4 { td + hd * dd(8.0) / dd(9.0) } else { td + hd * dd(C[m]) };
            let k = f.rhs(t, &y);
            big = k.iter().fold(big, |a, b| a.max(b.f().abs() * 15.0 * hd.f().abs())).max(y.iter().fold(0.0, |a, b| a.max(b.f().abs())));
            ks.push(k);
        }
        if !big.is_finite() || big > if T::F32 { 1e4 } else { 1e18 } {
            continue;
        }
        let lip = 1.0 + 30.0 * h.abs() * (1.0 + big * big) * (1.0 + ta.abs());
        // The recorded step length carries the rounding of its end points.
        let kmax = ks.iter().flatten().fold(0.0f64, |a, b| a.max(b.f().abs()));
        let noise = 32.0 * T::EPS * big * lip + 4.0 * T::EPS * (ta.abs() + tb.abs() + 1.0) * (kmax + 1.0) * (1.0 + big * big);
        for j in 0..N {
            c.near("dopri-state", yb[j], y5[j].f(), noise);
            c.near("end-derivative", kb[j], f.rhs(dd(*tb), &core::array::from_fn(|q| dd(yb[q])))[j].f(), T::EPS * (256.0 * kb.iter().fold(f.b[0].abs(), |a, b| a.max(b.abs())) * (1.0 + tb.abs()) + 10000.0 * (1.0 + big * big * big) * (1.0 + tb.abs() * tb.abs())));
        }
        let mut sum = 0.0;
        let mut worst = 0.0f64;
        for j in 0..N {
            let e = (0..7).fold(dd(0.0), |s, m| {
                let b5 = if m < 6 { dd(A[6][m].0) / dd(A[6][m].1) } else { dd(0.0) };
                s + ks[m][j] * hd * (b5 - dd(B4[m].0) / dd(B4[m].1))
            });
            let sc = g.atol + g.rtol * ya[j].abs().max(yb[j].abs());
            sum += (e.f() / sc).powi(2);
            worst = worst.max(noise / sc);
        }
        let err = (sum / N as f64).sqrt();
        if worst < 0.5 {
            c.ok(err <= 1.0 + 1e-6 + worst, "accepted-error", || format!("accepted a step with scaled error {err:e}"));
            c.hit("accepted step error judged");
        }
        // Dense output.
        let h00 = |s: DD| (s * s * s * dd(2.0) - s * s * dd(3.0) + dd(1.0), s * s * s - s * s * dd(2.0) + s, s * s * s * dd(-2.0) + s * s * dd(3.0), s * s * s - s * s);
        let tq = T::t(ta + h * c.unit()).d();
        let got = ds(&raw[i].interpolate(T::t(tq)));
        let sq = (dd(tq) - td) / hd;
        let (a, b, e, g2) = h00(sq);
        if h.abs() > 1e4 * T::EPS * (ta.abs() + tb.abs()) {
            for j in 0..N {
                let want = yd[j] * a + dd(ka[j]) * hd * b + dd(yb[j]) * e + dd(kb[j]) * hd * g2;
                let tol = 16.0 * T::EPS * (ya[j].abs() + yb[j].abs() + h.abs() * (ka[j].abs() + kb[j].abs())) + if T::F32 { 1e-40 } else { 1e-300 };
                c.near("dense", got[j], want.f(), tol);
            }
            c.eq("dense-start", ds(&raw[i].interpolate(T::t(*ta))).to_vec(), ya.clone());
            c.eq("dense-end", ds(&raw[i].interpolate(T::t(*tb))).to_vec(), yb.clone());
            c.hit("dense output judged");
        }
    }
    match &got {
        Ok(y) => {
            let last = st.last();
            c.ok(last.is_some(), "no-steps", || "finished without a step".into());
            let last = last.unwrap();
            c.ok((last.1 - tf).abs() <= tlim, "reached-end", || format!("ended at {:e}, asked for {tf:e}", last.1));
            c.eq("final-state", ds(y).to_vec(), last.3.clone());
            c.hit("integration finished");
        }
        Err(IntegrateError::DidNotConverge { steps }) => {
            c.eq("steps", *steps, g.steps);
            c.hit("step budget exhausted");
        }
        Err(IntegrateError::StepSizeTooSmall) => {
            c.ok(g.min > 0.0, "no-floor", || "StepSizeTooSmall without a floor".into());
            c.hit("step floor hit");
        }
        Err(IntegrateError::NonFinite) => {
            c.hit("non-finite run refused");
            let tame = f.b[0].abs() <= 1.0 && matches!(f.kind, 0 | 1 | 2 | 4 | 6) && (tf - t0).abs() < 15.0;
            c.ok(!tame, "non-finite", || "NonFinite on a bounded linear problem".into());
        }
        Err(e) => c.fail("error", format!("{e:?}")),
    }
    // Sampling a grid.
    if got.is_ok() {
        let n = c.us(1, 8);
        let mut times: Vec<f64> = (0..n).map(|_| match c.us(0, 5) {
            0 => t0,
            1 => tf,
            2 => {
                let i = c.us(0, st.len() - 1);
                st[i].1
            }
            _ => T::t(t0 + (tf - t0) * c.unit()).d(),
        }).filter(|t| (t - t0) * dir >= 0.0 && (tf - t) * dir >= 0.0).collect();
        times.push(tf);
        times.sort_by(|a, b| (a * dir).partial_cmp(&(b * dir)).unwrap());
        let bad = if times.len() > 1 && c.p(0.3) { c.us(1, 4) } else { 0 };
        match bad {
            1 => {
                let i = c.us(0, times.len() - 2);
                times.swap(i, i + 1);
                if times[i] == times[i + 1] || *times.last().unwrap() == t0 {
                    return;
                }
            }
            2 => times[0] = T::t(t0 - dir * (0.1 + t0.abs() * 0.1)).d(),
            3 => {
                let i = c.us(0, times.len() - 2);
                times[i] = f64::NAN
            }
            _ => {}
        }
        let tt: Vec<T> = times.iter().map(|t| T::t(*t)).collect();
        let short = bad == 4;
        let mut out = vec![Vector::<N, T>::zeros(); tt.len() - short as usize];
        let r = s.solve_on_grid(&fun, T::t(t0), &s0, &tt, &mut out);
        c.note("grid", &times);
        if bad > 0 {
            c.eq("bad-grid", r.err(), Some(IntegrateError::LimitsIllDefined));
            c.hit("bad grid refused");
            return;
        }
        c.eq("grid", r, Ok(()));
        for (t, o) in times.iter().zip(&out) {
            let o = ds(o);
            // Any step covering the time may answer; both agree at a joint.
            let ok = raw.iter().zip(&st).any(|(s, q)| (t - q.0) * dir >= 0.0 && (q.1 - t) * dir >= 0.0 && (ds(&s.interpolate(T::t(*t))) == o || (q.0 == q.1 && q.3 == o)))
                || (*t == tf && st.last().unwrap().3 == o.to_vec())
                || {
                    // The end itself may lie a rounding beyond the last step.
                    let l = raw.last().unwrap();
                    (t - st.last().unwrap().1).abs() <= tlim && ds(&l.interpolate(T::t(*t))).iter().zip(&o).all(|(a, b)| (a - b).abs() <= 1e3 * T::EPS * (1.0 + a.abs()))
                };
            c.ok(ok, "grid-sample", || format!("the sample at {t:e} is not the dense output of the step covering it"));
        }
        c.hit("grid judged");
    }
}
/// Contracting problems with closed-form solutions: the error stays within the tolerances.
fn accuracy<T: Fl>(c: &mut Case) {
    let (a, w) = (c.f(0.0, 1.5), c.f(-4.0, 4.0));
    let t0 = T::t(c.f(-2.0, 2.0)).d();
    let tf = T::t(t0 + c.lu(-1.0, 1.0)).d();
    let y0: [f64; 2] = c.arr(|c| T::t(c.f(-2.0, 2.0)).d());
    let tol = c.lu(if T::F32 { -4.0 } else { -10.0 }, -3.0);
    let (a, w) = (T::t(a), T::t(w));
    let f = |_t: T, y: &Vector<2, T>| Vector::new([-a * y[0] - w * y[1], w * y[0] - a * y[1]]);
    let s = Rk45::<T>::default().with_rtol(T::t(tol)).with_atol(T::t(tol));
    let n = Cell::new(0usize);
    c.note("problem", &(a, w, t0, tf, y0, tol));
    let s0 = Vector::new(y0.map(T::t));
    let r = s.for_each_step(&f, T::t(t0), &s0, T::t(tf), |_| n.set(n.get() + 1));
    let y = c.get("solve", r);
    let dt = dd(tf) - dd(t0);
    let e = (-(dd(a.d()) * dt)).exp_();
    let (sn, cs) = (dd(w.d()) * dt).sincos();
    let want = [e * (cs * dd(y0[0]) - sn * dd(y0[1])), e * (sn * dd(y0[0]) + cs * dd(y0[1]))];
    let ym = y0[0].abs() + y0[1].abs();
    for i in 0..2 {
        c.near("closed-form", y[i].d(), want[i].f(), 2.0 * n.get() as f64 * tol * (1.0 + ym) + 50.0 * T::EPS * n.get() as f64 * (1.0 + ym));
    }
    // Fourth order: RK4 with n steps.
    let steps = c.us(20, 200);
    let h = T::t((tf - t0) / steps as f64);
    let y = Rk4::integrate(&f, T::t(t0), &s0, h, steps, |_, _| {});
    let z = (a.d().hypot(w.d())) * h.d();
    if z < 0.5 {
        let tn = dd(h.d()) * dd(steps as f64);
        let e = (-(dd(a.d()) * tn)).exp_();
        let (sn, cs) = (dd(w.d()) * tn).sincos();
        let want = [e * (cs * dd(y0[0]) - sn * dd(y0[1])), e * (sn * dd(y0[0]) + cs * dd(y0[1]))];
        for i in 0..2 {
            c.near("rk4-order", y[i].d(), want[i].f(), steps as f64 * (z.powi(5) / 60.0 + 20.0 * T::EPS) * (ym + 1e-3));
        }
    }
    c.hit("closed form confirmed");
}
fn sv<T: Fl>(q: SO3<T>) -> [f64; 4] {
    q.quaternion().as_array().map(|v| v.d())
}
fn attitude<T: Fl>(c: &mut Case) {
    let q0 = gen_rot(c).map(T::t);
    let start = SO3::from_quaternion(Quaternion::from_array(q0));
    let v3 = |c: &mut Case| -> [f64; 3] { let m = c.lu(-9.0, 1.0); c.unit3().map(|x| T::t(x * m).d()) };
    let (w, al) = (if c.p(0.1) { [0.0; 3] } else { v3(c) }, v3(c));
    let h = T::t(c.sign() * c.lu(-4.0, 0.0));
    c.note("step", &(q0, w, al, h));
    let vw = Vector::new(w.map(T::t));
    let near = |c: &mut Case, tag: &str, got: SO3<T>, want: Q, n: f64| {
        let g = sv(got);
        let w = qunit(want);
        for i in 0..4 {
            c.near(tag, g[i], w[i].f(), n * T::EPS);
        }
    };
    let sd = q_of(sv(start));
    let hd = dd(h.d());
    let turn = |a: [f64; 3]| 1.0 + nrm(&a) * h.d().abs();
    near(c, "attitude-step", ExponentialMap::attitude_step(start, vw, h), qmul(sd, qexp(vscale(v_of(w), hd))), 12.0 * turn(w));
    let half: V = vadd(v_of(w), vscale(v_of(al), hd * dd(0.5)));
    near(c, "attitude-acceleration", ExponentialMap::attitude_step_with_angular_acceleration(start, vw, Vector::new(al.map(T::t)), h), qmul(sd, qexp(vscale(half, hd))), 12.0 * (turn(w) + turn(al)));
    // integrate_attitude: the half-way rate is used, the observer sees every node.
    let (k1, k2) = (c.f(-2.0, 2.0), c.f(-2.0, 2.0));
    let w = w.map(|x| if x.abs() > 3.0 { x * 0.3 } else { x });
    let rate = |t: f64, q: [f64; 4]| -> [f64; 3] { [w[0] + k1 * q[3], w[1] + k2 * t.sin(), w[2] + k1 * t * q[1]] };
    let n = c.us(0, 20);
    let h = T::t(h.d().abs() * if c.p(0.05) { 0.0 } else { 1.0 });
    let mut hs = if c.p(0.05) { -h } else { h };
    if c.p(0.04) {
        hs = T::t(c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]));
    }
    let bad_at = if c.p(0.1) { c.us(0, 40) } else { usize::MAX };
    let calls = Cell::new(0usize);
    let f = |t: T, o: SO3<T>| {
        let k = calls.get();
        calls.set(k + 1);
        let mut r = rate(t.d(), sv(o)).map(T::t);
        if k == bad_at {
            r[1] = T::t(f64::NAN);
        }
        Vector::new(r)
    };
    let mut nodes = vec![];
    let t0 = T::t(c.f(-1.0, 1.0));
    c.note("integrate", &(k1, k2, n, hs, t0, bad_at));
    let got = ExponentialMap::integrate_attitude(&f, t0, start, hs, n, |t, o| nodes.push((t.d(), sv(o))));
    if !hs.is_finite() {
        c.eq("non-finite-timestep", got.err(), Some(IntegrateError::NonFinite));
        c.hit("bad timestep refused");
        return;
    }
    if hs.d() <= 0.0 {
        c.eq("non-positive-timestep", got.err(), Some(IntegrateError::NonPositiveTimestep));
        c.hit("bad timestep refused");
        return;
    }
    if bad_at < 2 * n {
        c.eq("non-finite-rate", got.err(), Some(IntegrateError::NonFinite));
        c.eq("nodes-before-failure", nodes.len(), bad_at / 2 + 1);
        c.hit("non-finite rate refused");
        return;
    }
    let end = c.get("integrate", got);
    c.eq("nodes", nodes.len(), n + 1);
    c.eq("start", nodes[0], (t0.d(), sv(start)));
    c.eq("end", nodes[n].1, sv(end));
    for i in 0..n {
        let (t, q) = nodes[i];
        let (t1, q1) = nodes[i + 1];
        c.near("time", t1, t + h.d(), 2.0 * T::EPS * (t.abs() + h.d()));
        let hh = dd(h.d());
        let r0 = rate(t, q).map(|x| T::t(x).d());
        let mid = qmul(q_of(q), qexp(vscale(v_of(r0), hh * dd(0.5))));
        let r1 = rate(t + h.d() * 0.5, mid.map(|v| v.f()));
        let want = qmul(q_of(q), qexp(vscale(v_of(r1), hh)));
        let big = 1.0 + h.d() * (nrm(&r0) + nrm(&r1)) * (1.0 + h.d() * 4.0);
        for j in 0..4 {
            c.near("midpoint", q1[j], want[j].f(), 40.0 * T::EPS * big);
        }
        let nn = nrm(&q1);
        c.near("unit", nn, 1.0, 6.0 * T::EPS * (i as f64 + 3.0));
        c.hit("attitude node judged");
    }
}
fn steady<T: Fl>(c: &mut Case) {
    // A steady rate integrates exactly, however many steps it is split into; the norm does not drift.
    let ax = c.unit3();
    let w = c.lu(-2.0, 1.0);
    let wv = ax.map(|x| T::t(x * w).d());
    let n = c.us(1, 3000);
    let h = T::t(c.lu(-3.0, -1.0));
    c.note("steady", &(wv, n, h));
    let end = ExponentialMap::integrate_attitude(&|_, _| Vector::new(wv.map(T::t)), T::ZERO, SO3::identity(), h, n, |_, _| {});
    let end = sv(c.get("steady", end));
    let want = qexp(vscale(v_of(wv), dd(h.d()) * dd(n as f64)));
    for i in 0..4 {
        c.near("steady", end[i], want[i].f(), (6.0 + 3.0 * w * h.d()) * T::EPS * (n as f64 + 4.0));
    }
    c.near("no-drift", nrm(&end), 1.0, 3.0 * T::EPS * (n as f64 + 3.0));
    c.hit("steady rotation confirmed");
}
/// Differentiating through the integrators gives the derivative of the discrete solution.
fn through_dual(c: &mut Case) {
    let a = c.f(-1.5, 0.5);
    let y0 = c.f(0.3, 2.0);
    let tf = c.f(0.2, 2.0);
    c.note("dual", &(a, y0, tf));
    let v = |d: f64| Dual { value: d, deriv: 0.0 };
    let r = Rk45::<Dual<f64>>::default().with_rtol(v(1e-9)).with_atol(v(1e-11)).solve(&|_t, y: &Vector<1, Dual<f64>>| y.scale(v(a)), v(0.0), &Vector::new([Dual { value: y0, deriv: 1.0 }]), v(tf));
    let r = c.get("dual", r)[0];
    let plain = c.get("plain", Rk45::<f64>::default().with_rtol(1e-9).with_atol(1e-11).solve(&|_t, y: &Vector<1, f64>| y.scale(a), 0.0, &Vector::new([y0]), tf));
    c.near("dual-value", r.value, plain[0], 1e-8 * (1.0 + plain[0].abs()));
    c.near("sensitivity", r.deriv, (a * tf).exp(), 1e-6 * (1.0 + (a * tf).exp()));
    c.hit("sensitivity confirmed");
}
fn main() {
    vmon::run("C12", |s| {
        s.rule("A case counts when an integrator ran on a recorded field and its nodes or accepted steps were judged; distinct = distinct problems.");
        s.assume("Steps are recomputed in double-double from the recorded nodes; the Dormand-Prince tableau is written out independently in the monitor.");
        s.monitor("rk4", 40000, 20, |c| match c.us(0, 3) {
            0 => rk4::<1, f64>(c),
            1 => rk4::<3, f64>(c),
            2 => rk4::<4, f64>(c),
            _ => rk4::<2, f32>(c),
        });
        s.monitor("rk45", 40000, 20, |c| match c.us(0, 4) {
            0 => rk45::<1, f64>(c),
            1 => rk45::<2, f64>(c),
            2 => rk45::<3, f64>(c),
            3 => rk45::<5, f64>(c),
            _ => rk45::<2, f32>(c),
        });
        s.monitor("large", 300, 20, |c| match c.us(0, 2) {
            0 => rk4::<12, f64>(c),
            1 => rk45::<9, f64>(c),
            _ => rk45::<12, f64>(c),
        });
        s.monitor("accuracy", 10000, 20, |c| if c.p(0.2) { accuracy::<f32>(c) } else { accuracy::<f64>(c) });
        s.monitor("attitude", 40000, 20, |c| if c.p(0.3) { attitude::<f32>(c) } else { attitude::<f64>(c) });
        s.monitor("steady", 2000, 20, |c| if c.p(0.3) { steady::<f32>(c) } else { steady::<f64>(c) });
        s.monitor("dual", 2000, 20, through_dual);
        for (e, n) in [("rk4 step judged", 20000), ("zero rk4 steps", 500), ("accepted step error judged", 20000), ("dense output judged", 20000), ("integration finished", 5000), ("step budget exhausted", 200), ("step floor hit", 50), ("ill-defined span refused", 100), ("non-finite start refused", 20), ("grid judged", 3000), ("bad grid refused", 500), ("closed form confirmed", 5000), ("bad timestep refused", 500), ("non-finite rate refused", 200), ("attitude node judged", 50000), ("steady rotation confirmed", 1000), ("sensitivity confirmed", 1000)] {
            s.require(e, n);
        }
    })
}
