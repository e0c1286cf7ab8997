//! C24: feedback and steering laws.
use multicalc::control::*;
use multicalc::error::{ControlError as E, LinalgError, SignalError};
use multicalc::spatial::*;
use multicalc::Matrix;
use vmon::robot::*;
use vmon::rot::*;
use vmon::*;

// ---- PID ----
/// The same law in double-double, with the size of what went in for the rounding allowance.
struct Ref {
    k: [f64; 3],
    dt: f64,
    lo: f64,
    hi: f64,
    al: f64,
    int: DD,
    fil: Option<DD>,
    pm: Option<f64>,
    pe: DD,
    scale: f64,
    steps: f64,
}
impl Ref {
    fn unsat(&mut self, sp: f64, m: f64) -> (DD, DD, DD) {
        let e = dd(sp) - dd(m);
        let raw = match self.pm {
            Some(p) => (dd(p) - dd(m)) / dd(self.dt),
            None => dd(0.0),
        };
        let y = match self.fil {
            None => raw,
            Some(y) => raw * dd(self.al) + y * (dd(1.0) - dd(self.al)),
        };
        self.fil = Some(y);
        self.pm = Some(m);
        self.pe = e;
        let p = e * dd(self.k[0]);
        let cand = self.int + e * dd(self.k[1]) * dd(self.dt);
        let d = y * dd(self.k[2]);
        let big = (sp.abs() + m.abs()) * (self.k[0].abs() + self.k[1].abs() * self.dt);
        let dbig = self.k[2].abs() * (raw.f().abs() + (sp.abs() + m.abs()) / self.dt * 4e-0);
        self.scale = self.scale.max(big + dbig + cand.f().abs() + y.f().abs() * self.k[2].abs());
        self.steps += 1.0;
        (p + cand + d, cand, e)
    }
}
fn gain<T: Fl>(c: &mut Case) -> f64 {
    T::t(match c.us(0, 9) {
        0 => 0.0,
        1 => -c.lu(-1.0, 1.0),
        _ => c.lu(-2.0, 1.5),
    })
    .d()
}
fn pid<T: Fl>(c: &mut Case) {
    let k = [gain::<T>(c), gain::<T>(c), gain::<T>(c)];
    let dt = T::t(c.lu(-3.0, 0.0)).d();
    let mut r = Ref { k, dt, lo: f64::NEG_INFINITY, hi: f64::INFINITY, al: 1.0, int: dd(0.0), fil: None, pm: None, pe: dd(0.0), scale: 0.0, steps: 0.0 };
    let mut p = c.get("build", Pid::<T>::new(T::t(k[0]), T::t(k[1]), T::t(k[2]), T::t(dt)));
    if c.p(0.7) {
        let a = c.lu(-1.0, 2.0);
        r.lo = T::t(if c.p(0.2) { f64::NEG_INFINITY } else { -a * c.f(0.1, 1.0) }).d();
        r.hi = T::t(if c.p(0.2) { f64::INFINITY } else { a * c.f(0.1, 1.0) }).d();
        if c.p(0.1) {
            r.lo = T::t(c.f(0.0, 1.0)).d();
            r.hi = T::t(r.lo + c.f(0.0, 2.0)).d();
        }
        p = c.get("limits", p.with_output_limits(T::t(r.lo), T::t(r.hi)));
    }
    if c.p(0.6) {
        r.al = T::t(if c.p(0.1) { 0.0 } else { c.unit() }).d();
        p = c.get("filter", p.with_derivative_filter(T::t(r.al)));
    }
    c.note("gains, dt, limits, smoothing", &(k, dt, r.lo, r.hi, r.al));
    let n = c.us(3, 60);
    let (mut sp, mut m) = (T::t(c.real()).d(), T::t(c.real()).d());
    let size = c.lu(-1.0, 1.0);
    if c.p(0.5) {
        sp = T::t(c.f(-size, size)).d();
        m = T::t(c.f(-size, size)).d();
    }
    let mut log = vec![];
    for _ in 0..n {
        match c.us(0, 19) {
            0 => {
                let g = [gain::<T>(c), gain::<T>(c), gain::<T>(c)];
                c.get("new gains", p.set_gains(T::t(g[0]), T::t(g[1]), T::t(g[2])));
                if r.pm.is_some() {
                    let y = r.fil.unwrap_or(dd(0.0));
                    r.int = r.int + (dd(r.k[0]) - dd(g[0])) * r.pe + (dd(r.k[2]) - dd(g[2])) * y;
                    r.scale = r.scale.max((r.k[0].abs() + g[0].abs()) * r.pe.f().abs() + (r.k[2].abs() + g[2].abs()) * y.f().abs());
                    c.hit("gains changed while running");
                }
                r.k = g;
                log.push((0, g[0], g[1]));
            }
            1 => {
                let o = T::t(c.f(-3.0, 3.0) * size).d();
                c.get("takeover", p.resume_from(T::t(o), T::t(sp), T::t(m)));
                let e = dd(sp) - dd(m);
                r.int = dd(o) - e * dd(r.k[0]) - e * dd(r.k[1]) * dd(r.dt);
                r.fil = None;
                r.pm = Some(m);
                r.pe = e;
                r.scale = r.scale.max(o.abs() + r.int.f().abs());
                log.push((1, o, 0.0));
                // The very next call with the same pair gives that command back.
                let mut q = p;
                let got = q.update(T::t(sp), T::t(m)).d();
                let tol = 8.0 * T::EPS * (o.abs() + (sp.abs() + m.abs()) * (r.k[0].abs() + r.k[1].abs() * dt));
                c.near("takeover holds the command", got, o.max(r.lo).min(r.hi), tol);
                c.hit("taken over");
            }
            2 if c.p(0.3) => {
                p.reset();
                r.int = dd(0.0);
                r.fil = None;
                r.pm = None;
                r.pe = dd(0.0);
                log.push((2, 0.0, 0.0));
                c.hit("reset");
            }
            3 | 4 => sp = T::t(c.f(-size, size)).d(),
            _ => {
                if c.p(0.8) {
                    m = T::t(m + c.f(-0.2, 0.2) * size).d();
                }
                let got = p.update(T::t(sp), T::t(m)).d();
                log.push((3, sp, m));
                let (u, cand, e) = r.unsat(sp, m);
                let tol = T::EPS * (16.0 + 4.0 * r.steps) * r.scale + 1e-300;
                let u = u.f();
                c.note("history", &log);
                c.near("output", got, u.max(r.lo).min(r.hi), tol);
                c.ok(got >= r.lo && got <= r.hi, "within limits", || format!("{got}"));
                if (u - r.hi).abs() <= tol || (u - r.lo).abs() <= tol || (e.f().abs() <= tol && e.f() != 0.0) {
                    return;
                }
                let deeper = (u > r.hi && e.f() > 0.0) || (u < r.lo && e.f() < 0.0);
                if deeper {
                    c.hit("integral held at a limit");
                } else {
                    r.int = cand;
                }
                if u > r.hi || u < r.lo {
                    c.hit("saturated");
                }
                c.near("integral", p.integral().d(), r.int.f(), tol);
                c.hit("updates");
            }
        }
    }
}
/// A change of gains is not felt by the next command, except through what those gains act on next.
fn bumpless<T: Fl>(c: &mut Case) {
    let g = [gain::<T>(c), gain::<T>(c), gain::<T>(c)];
    let h = [gain::<T>(c), g[1], gain::<T>(c)];
    let dt = T::t(c.lu(-2.0, 0.0)).d();
    let al = T::t(c.unit()).d();
    c.note("gains, dt, smoothing", &(g, h, dt, al));
    let mut p = c.get("build", Pid::<T>::new(T::t(g[0]), T::t(g[1]), T::t(g[2]), T::t(dt)).and_then(|p| p.with_derivative_filter(T::t(al))));
    let mut m = 0.0;
    let sp = T::t(c.f(-1.0, 1.0)).d();
    let slope = T::t(c.f(-1.0, 1.0) * dt).d();
    // A measurement on a steady ramp, long enough for the filter to settle when it does.
    let mut top = 0.0f64;
    let n = c.us(1, 12);
    for _ in 0..n {
        m = T::t(m + slope).d();
        top = top.max(p.update(T::t(sp), T::t(m)).d().abs());
    }
    // Hold still: the old gains with the filter at whatever it holds.
    let mut old = p;
    let mut new = p;
    c.get("new gains", new.set_gains(T::t(h[0]), T::t(h[1]), T::t(h[2])));
    let (a, b) = (old.update(T::t(sp), T::t(m)).d(), new.update(T::t(sp), T::t(m)).d());
    // Only the filter's own decay is felt: (kd' - kd) times its change this tick.
    let y: f64 = {
        let mut f = OnePoleLowPass::new(T::t(al)).unwrap();
        f.filter(T::t(0.0));
        let mut last = 0.0;
        for _ in 1..n {
            last = f.filter(T::t(-slope / dt)).d();
        }
        last
    };
    let want = a + (h[2] - g[2]) * (-y * al);
    let tol = 64.0 * T::EPS * (n as f64 + 4.0) * (top + (1.0 + m.abs()) * (g[0].abs() + h[0].abs() + g[1].abs()) + (g[2].abs() + h[2].abs()) * (1.0 + m.abs() / dt));
    c.near("no step in the command", b, want, tol);
    c.hit("gain changes");
    if (h[0] - g[0]).abs() > 0.1 {
        c.hit("felt gain changes");
    }
}
fn pid_refused<T: Fl>(c: &mut Case) {
    let bad = |c: &mut Case| T::t(c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]));
    let mut a: [T; 4] = core::array::from_fn(|_| T::t(1.5));
    let w = c.us(0, 3);
    match c.us(0, 6) {
        0 => {
            a[w] = bad(c);
            c.eq("gain or tick not finite", Pid::new(a[0], a[1], a[2], a[3]).err(), Some(E::NonFinite));
        }
        1 => {
            a[3] = T::t(c.pick(&[0.0, -0.0, -1e-3, -5.0]));
            c.eq("tick not positive", Pid::new(a[0], a[1], a[2], a[3]).err(), Some(E::NonPositiveTimestep));
        }
        2 => {
            let p = Pid::new(a[0], a[1], a[2], a[3]).unwrap();
            let x = T::t(c.f(-2.0, 2.0));
            c.eq("limit not a number", p.with_output_limits(T::t(f64::NAN), x).err(), Some(E::NonFinite));
            c.eq("limit not a number", p.with_output_limits(x, T::t(f64::NAN)).err(), Some(E::NonFinite));
            c.eq("crossed limits", p.with_output_limits(x + T::EPSILON * T::t(4.0), x).err(), Some(E::InvalidOutputLimits));
            c.ok(p.with_output_limits(x, x).is_ok(), "pinned output", String::new);
        }
        3 => {
            let p = Pid::new(a[0], a[1], a[2], a[3]).unwrap();
            let b = bad(c);
            c.eq("smoothing not finite", p.with_derivative_filter(b).err(), Some(E::Signal(SignalError::NonFinite)));
            let x = T::t(c.pick(&[-1e-3, 1.001, 5.0, -2.0]));
            c.eq("smoothing out of range", p.with_derivative_filter(x).err(), Some(E::Signal(SignalError::CoefficientOutOfRange)));
        }
        4 => {
            let mut p = Pid::new(a[0], a[1], a[2], a[3]).unwrap();
            p.update(T::t(1.0), T::t(0.25));
            let q = p;
            let mut g = [a[0], a[1], a[2]];
            g[w % 3] = bad(c);
            c.eq("new gain not finite", p.set_gains(g[0], g[1], g[2]).err(), Some(E::NonFinite));
            c.ok(p == q, "a refused change leaves it alone", String::new);
        }
        5 => {
            let mut p = Pid::new(a[0], a[1], a[2], a[3]).unwrap();
            p.update(T::t(1.0), T::t(0.25));
            let q = p;
            let mut g = [a[0], a[1], a[2]];
            g[w % 3] = bad(c);
            c.eq("takeover not finite", p.resume_from(g[0], g[1], g[2]).err(), Some(E::NonFinite));
            c.ok(p == q, "a refused takeover leaves it alone", String::new);
        }
        _ => {
            let x = c.f(0.0, 1.0);
            let mut p = Pid::new(a[0], a[1], a[2], a[3]).unwrap();
            let f = p;
            p.update(T::t(x), T::t(-x));
            p.reset();
            c.eq("reset is fresh", p.update(T::t(x), T::t(x * 0.5)).d().to_bits(), { let mut f = f; f.update(T::t(x), T::t(x * 0.5)).d().to_bits() });
        }
    }
    c.hit("judged");
}

// ---- LQR ----
fn spd(c: &mut Case, n: usize, lo: f64, hi: f64) -> RM {
    let o = gen_orth(c, n);
    let d: Vec<f64> = (0..n).map(|_| c.lu(lo, hi)).collect();
    let m = o.mul(&RM::diag(&d)).mul(&o.t());
    RM::from_fn(n, n, |i, j| m.f(i.min(j), i.max(j)))
}
fn lqr<const N: usize, const M: usize, T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let rad = c.pick(&[0.5, 0.95, 1.0, 1.05, 1.3]);
    let raw = RM::from_fn(N, N, |_, _| c.normal());
    let top = raw.sing()[0].max(0.1);
    let a = if c.p(0.3) {
        // A chain of integrators.
        let dt = c.f(0.05, 0.3);
        RM::from_fn(N, N, |i, j| if i == j { 1.0 } else if j == i + 1 { dt } else { 0.0 })
    } else {
        raw.scale(rad / top)
    }
    .rounded::<T>();
    let b = RM::from_fn(N, M, |_, _| c.normal()).rounded::<T>();
    let q = spd(c, N, -1.0, 1.0).rounded::<T>();
    let r = spd(c, M, -1.0, 1.0).rounded::<T>();
    c.note("a, b, q, r", &(a.fs(), b.fs(), q.fs(), r.fs()));
    // The answer, by value iteration in double-double.
    let (at, bt) = (a.t(), b.t());
    let mut p = q.clone();
    let mut settled = false;
    for _ in 0..4000 {
        let w = r.add(&bt.mul(&p).mul(&b));
        let k = match w.solve(&bt.mul(&p).mul(&a)) {
            Some(k) => k,
            None => c.discard(),
        };
        let np = q.add(&at.mul(&p).mul(&a.sub(&b.mul(&k))));
        let d = np.sub(&p).maxabs();
        p = np.add(&np.t()).scale(0.5);
        if d < 1e-20 * p.maxabs() {
            settled = true;
            break;
        }
    }
    let pm = p.maxabs();
    if !settled || pm > 300.0 {
        c.discard();
    }
    let w = r.add(&bt.mul(&p).mul(&b));
    let k = w.solve(&bt.mul(&p).mul(&a)).unwrap();
    let acl = a.sub(&b.mul(&k));
    // How slowly the loop settles sets how rounding adds up.
    let mut tot = 1.0;
    let mut pw = acl.clone();
    for _ in 0..300 {
        tot += pw.norm().powi(2);
        pw = pw.mul(&acl);
    }
    if tot > 60.0 {
        c.discard();
    }
    let g = c.get("build", Lqr::<N, M, T>::new(mat(&a), mat(&b), mat(&q), mat(&r)));
    let kap = { let s = w.sing(); s[0] / s[M - 1] };
    let tol = 200.0 * e * tot * kap * (pm + 1.0);
    let gp = RM::of(&g.cost_to_go());
    c.ok(gp.sub(&p).maxabs() <= tol * pm.max(1.0), "cost to go", || format!("{:?} vs {:?}", gp.fs(), p.fs()));
    let gk = RM::of(&g.gain());
    c.ok(gk.sub(&k).maxabs() <= tol * (1.0 + k.maxabs()), "gain", || format!("{:?} vs {:?} tol {}", gk.fs(), k.fs(), tol));
    let gc = RM::of(&g.closed_loop());
    let want = a.sub(&b.mul(&gk));
    c.ok(gc.sub(&want).maxabs() <= 32.0 * e * (a.maxabs() + b.maxabs() * gk.maxabs() * M as f64), "closed loop", || format!("{:?}", gc.fs()));
    // The command.
    let x: [f64; N] = rt::<N, T>(core::array::from_fn(|_| c.f(-5.0, 5.0)));
    let xr: [f64; N] = rt::<N, T>(core::array::from_fn(|_| c.f(-5.0, 5.0)));
    let ff: [f64; M] = rt::<M, T>(core::array::from_fn(|_| c.f(-5.0, 5.0)));
    let u = RM::ofv(&g.control(va(x)));
    let uw = gk.mul(&RM::col(&x)).scale(-1.0);
    let bar = 64.0 * e * (gk.maxabs() * 10.0 * N as f64 + 5.0);
    c.ok(u.sub(&uw).maxabs() <= bar, "command", || format!("{:?} vs {:?}", u.fs(), uw.fs()));
    let u = RM::ofv(&g.control_tracking(va(x), va(xr), va(ff)));
    let uw = RM::col(&ff).sub(&gk.mul(&RM::col(&x).sub(&RM::col(&xr))));
    c.ok(u.sub(&uw).maxabs() <= bar, "tracking command", || format!("{:?} vs {:?}", u.fs(), uw.fs()));
    // What following the law really costs is what it says; any other first move costs more.
    let cost = |k: &RM, x0: &RM, first: Option<&RM>| {
        let mut x = x0.clone();
        let mut j = dd(0.0);
        for i in 0..1500 {
            let mut u = k.mul(&x).scale(-1.0);
            if i == 0 {
                if let Some(d) = first {
                    u = u.add(d);
                }
            }
            let d = x.t().mul(&q).mul(&x).at(0, 0) + u.t().mul(&r).mul(&u).at(0, 0);
            j = j + d;
            x = a.mul(&x).add(&b.mul(&u));
            if x.maxabs() < 1e-18 {
                break;
            }
        }
        j.f()
    };
    let x0 = RM::col(&x);
    let j = cost(&gk, &x0, None);
    let said = x0.t().mul(&gp).mul(&x0).f(0, 0);
    let xs: f64 = x.iter().map(|v| v * v).sum();
    c.near("cost of following it", j, said, 50.0 * tol * (1.0 + pm) * xs);
    let d = RM::from_fn(M, 1, |_, _| c.normal());
    let other = cost(&gk, &x0, Some(&d));
    let more = d.t().mul(&w).mul(&d).f(0, 0);
    c.near("another first move costs this much more", other - j, more, 50.0 * tol * (1.0 + pm) * (xs + 1.0) + 1e-12 * j);
    // The proof that it settles.
    let cert = RM::of(&c.get("certificate", g.certify_stability()));
    let res = acl.t().mul(&cert).mul(&acl).sub(&cert).add(&q);
    c.ok(res.maxabs() <= 100.0 * tol * (1.0 + cert.maxabs()), "certificate", || format!("{:?}", res.fs()));
    c.ok(cert.sym_eig().iter().all(|v| *v > 0.0), "certificate positive", || format!("{:?}", cert.fs()));
    c.hit("loops designed");
    if rad > 1.0 {
        c.hit("runaway systems");
    }
}
fn lqr_refused<T: Fl>(c: &mut Case) {
    let m = |a: [[f64; 2]; 2]| Matrix::<2, 2, T>::new(a.map(|r| r.map(T::t)));
    let b0 = Matrix::<2, 1, T>::new([[T::t(0.0)], [T::t(0.1)]]);
    let a0 = m([[1.0, 0.1], [0.0, 1.0]]);
    let q0 = m([[1.0, 0.0], [0.0, 1.0]]);
    let r0 = Matrix::<1, 1, T>::new([[T::t(1.0)]]);
    let l = |e: LinalgError| Some(E::Linalg(e));
    match c.us(0, 4) {
        0 => {
            let x = T::t(c.pick(&[f64::NAN, f64::INFINITY]));
            let (i, j) = (c.us(0, 1), c.us(0, 1));
            let (mut a, mut b, mut q, mut r) = (a0, b0, q0, r0);
            match c.us(0, 3) {
                0 => a[(i, j)] = x,
                1 => b[(i, 0)] = x,
                2 => q[(i, j)] = x,
                _ => r[(0, 0)] = x,
            }
            c.eq("not finite", Lqr::new(a, b, q, r).err(), l(LinalgError::NonFinite));
        }
        1 => {
            let q = m([[1.0, c.f(0.1, 0.5)], [0.0, 1.0]]);
            c.eq("cost not symmetric", Lqr::new(a0, b0, q, r0).err(), l(LinalgError::NotSymmetric));
        }
        2 => {
            let r = Matrix::<1, 1, T>::new([[T::t(c.pick(&[0.0, -1.0]))]]);
            c.eq("input cost not positive", Lqr::new(a0, b0, q0, r).err(), l(LinalgError::NotPositiveDefinite));
        }
        3 => {
            // A runaway direction the input cannot reach has no answer.
            let a = m([[c.f(1.05, 2.0), 0.0], [0.0, 0.5]]);
            let r = Lqr::new(a, b0, q0, r0);
            c.ok(r.is_err(), "unreachable runaway", || format!("{r:?}"));
        }
        _ => {
            // A settled direction the cost cannot see has a law but no certificate.
            let a = m([[c.f(0.2, 0.8), 0.0], [0.0, c.f(0.2, 0.8)]]);
            let q = m([[0.0, 0.0], [0.0, 1.0]]);
            let g = c.get("build", Lqr::new(a, b0, q, r0));
            c.eq("unseen direction", g.certify_stability().err(), l(LinalgError::NotPositiveDefinite));
        }
    }
    c.hit("judged");
}

// ---- pure pursuit ----
fn pursuit<T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let s = c.lu(-1.0, 2.0);
    let th = T::t(c.f(-3.2, 3.2)).d();
    let o = rt::<2, T>(c.arr(|c| c.f(-s, s)));
    let pose = SE2::from_parts(SO2::exp(T::t(th)), va::<2, T>(o));
    if c.p(0.1) {
        let l = T::t(c.pick(&[0.0, -1.0, f64::NAN, f64::INFINITY]));
        c.eq("bad distance", pure_pursuit_curvature(pose, va::<2, T>([1.0, 1.0]), l).err(), Some(E::NonPositiveLookaheadDistance));
        let mut p = [1.0, 2.0];
        p[c.us(0, 1)] = c.pick(&[f64::NAN, f64::INFINITY]);
        c.eq("bad point", pure_pursuit_curvature(pose, va::<2, T>(p), T::ONE).err(), Some(E::NonFinite));
        c.hit("refused");
        return;
    }
    let p = rt::<2, T>(core::array::from_fn(|i| o[i] + c.f(-s, s)));
    let (sn, cs) = dd(th).sincos();
    let d = [dd(p[0]) - dd(o[0]), dd(p[1]) - dd(o[1])];
    let lat = cs * d[1] - sn * d[0];
    let dist = (d[0] * d[0] + d[1] * d[1]).sqr();
    if dist.f() < 0.01 * s {
        c.discard();
    }
    let exact = c.p(0.6);
    let l = T::t(if exact { dist.f() } else { dist.f() * c.f(0.3, 3.0) }).d();
    c.note("pose, point, distance", &(o, th, p, l));
    let k = c.get("curvature", pure_pursuit_curvature(pose, va::<2, T>(p), T::t(l)));
    let want = lat * dd(2.0) / (dd(l) * dd(l));
    let size = o[0].abs() + o[1].abs() + p[0].abs() + p[1].abs();
    c.near("curvature", k.value().d(), want.f(), 32.0 * e * (size * 2.0 / (l * l)));
    if exact {
        // The circle it names touches the robot along its heading and runs through the point.
        let kv = dd(k.value().d());
        let fwd = cs * d[0] + sn * d[1];
        let off = (fwd * fwd + lat * lat) * kv - lat * dd(2.0);
        c.near("the arc meets the point", off.f(), 0.0, 128.0 * e * size);
        c.hit("arcs through the point");
    }
    let v = T::t(c.f(-3.0, 3.0)).d();
    let t = k.to_body_twist(T::t(v));
    c.same_bits("speed kept", t.linear().d(), v);
    c.near("turn rate", t.angular().d(), v * k.value().d(), 2.0 * e * (v * k.value().d()).abs());
    c.ok(Curvature::new(k.value()) == k, "wrapped", String::new);
    c.hit("curvatures");
}

// ---- attitude control ----
fn so3<T: Fl>(q: [f64; 4]) -> SO3<T> {
    SO3::from_quaternion(Quaternion::from_array(q.map(T::t)))
}
fn qof<T: Fl>(r: SO3<T>) -> Q {
    qunit(q_of(r.quaternion().as_array().map(|v| v.d())))
}
fn attitude<T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let k = c.lu(-2.0, 1.0);
    let m = spd(c, 3, -0.7, 0.7).scale(k).rounded::<T>();
    let (kr, kw) = (T::t(c.lu(-1.0, 2.0)).d(), T::t(c.lu(-1.0, 2.0)).d());
    let g = c.get("build", GeometricAttitudeController::<T>::new(T::t(kr), T::t(kw), mat(&m)));
    let qr = gen_rot(c);
    let r = so3::<T>(qr);
    let near = c.p(0.4);
    let qd = if near {
        let s = c.lu(-6.0, 0.0);
        let v: [f64; 3] = c.arr(|c| c.f(-s, s));
        qmul(qof(r), qexp(v_of(v))).map(|v| v.f())
    } else {
        gen_rot(c)
    };
    let rd = so3::<T>(qd);
    let size = c.lu(-1.0, 1.0);
    let w = rt::<3, T>(c.arr(|c| c.f(-size, size)));
    let wd = rt::<3, T>(if c.p(0.2) { [0.0; 3] } else { c.arr(|c| c.f(-size, size)) });
    let al = rt::<3, T>(if c.p(0.2) { [0.0; 3] } else { c.arr(|c| c.f(-size, size)) });
    c.note("gains, inertia, attitudes, rates", &(kr, kw, m.fs(), qr, qd, w, wd, al));
    let (a, b) = (qof(r), qof(rd));
    // Turned away from the target: about its axis, by the sine of the turn.
    let rel = qmul(qconj(b), a);
    let er = vscale([rel[1], rel[2], rel[3]], rel[0] * dd(2.0));
    let got = GeometricAttitudeController::attitude_error(r, rd);
    for i in 0..3 {
        c.near("pointing error", got[i].d(), er[i].f(), 24.0 * e);
    }
    let (wv, wdv, alv) = (v_of(w), v_of(wd), v_of(al));
    let back = |v: V| qrot(qconj(rel), v);
    let carried = back(wdv);
    let ew = vsub(wv, carried);
    let jw = mv3(&m, wv);
    let follow = mv3(&m, vsub(back(alv), vcross(wv, carried)));
    let mut want = vadd(vcross(wv, jw), follow);
    want = vsub(want, vadd(vscale(er, dd(kr)), vscale(ew, dd(kw))));
    let t = g.torque(r, va(w), rd, va(wd), va(al));
    let mx = m.maxabs();
    let big = kr + kw * size * 2.0 + mx * size * size * 4.0 + mx * size * 3.0;
    for i in 0..3 {
        c.near("torque", t[i].d(), want[i].f(), 64.0 * e * big);
    }
    c.same_bits("gain", g.attitude_gain().d(), kr);
    c.same_bits("rate gain", g.rate_gain().d(), kw);
    c.ok(RM::of(&g.inertia()).sub(&m).maxabs() == 0.0, "inertia", String::new);
    c.hit("torques");
    // Under that torque the energy of the error falls at kw |rate error|^2: seen by moving body
    // and target a short way along their true motion.
    let tv = v_of([t[0].d(), t[1].d(), t[2].d()]);
    let wdot = { let s = m.solve(&RM::col(&vf(vsub(tv, vcross(wv, jw))))).unwrap(); [s.at(0, 0), s.at(1, 0), s.at(2, 0)] };
    let vel = |h: DD| {
        let step = |q: Q, w: V, a: V| qmul(q, qexp(vadd(vscale(w, h), vadd(vscale(a, h * h * dd(0.5)), vscale(vcross(w, a), h * h * h / dd(12.0))))));
        let (x, y) = (step(a, wv, wdot), step(b, wdv, alv));
        let (wh, wdh) = (vadd(wv, vscale(wdot, h)), vadd(wdv, vscale(alv, h)));
        let rel = qunit(qmul(qconj(y), x));
        let ew = vsub(wh, qrot(qconj(rel), wdh));
        // kr/2 tr(I - RdᵀR) is 2 kr times the square of the half turn's sine.
        let s2 = rel[1] * rel[1] + rel[2] * rel[2] + rel[3] * rel[3];
        vdot(ew, mv3(&m, ew)) * dd(0.5) + s2 * dd(2.0 * kr)
    };
    let rate = wdot.iter().map(|v| v.f().abs()).fold(size + 1.0, f64::max);
    let h = dd(1e-7 / rate);
    let fall = ((vel(h) - vel(-h)) / (h * dd(2.0))).f();
    let want = -kw * vdot(ew, ew).f();
    let jmax = kr + mx * (size * 3.0).powi(2);
    c.near("energy of the error falls", fall, want, 256.0 * e * (big + jmax) * (size + 1.0) + 1e-9 * (jmax * rate + kw * size * size));
    c.hit("falling energies");
}
fn attitude_refused<T: Fl>(c: &mut Case) {
    let mut m = Matrix::<3, 3, T>::new([[T::ONE, T::ZERO, T::ZERO], [T::ZERO, T::ONE, T::ZERO], [T::ZERO, T::ZERO, T::ONE]]);
    let bad = T::t(c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]));
    let low = T::t(c.pick(&[0.0, -0.0, -1.0]));
    let (i, j) = (c.us(0, 2), c.us(0, 2));
    type G<T> = GeometricAttitudeController<T>;
    match c.us(0, 4) {
        0 => {
            m[(i, j)] = bad;
            c.eq("inertia not finite", G::new(T::ONE, T::ONE, m).err(), Some(E::NonFinite));
        }
        1 => {
            c.eq("gain not finite", G::new(bad, T::ONE, m).err(), Some(E::NonFinite));
            c.eq("gain not finite", G::new(T::ONE, bad, m).err(), Some(E::NonFinite));
        }
        2 => {
            c.eq("gain not positive", G::new(low, T::ONE, m).err(), Some(E::NonPositiveGain));
            c.eq("gain not positive", G::new(T::ONE, low, m).err(), Some(E::NonPositiveGain));
        }
        3 => {
            m[(i, (i + 1) % 3)] = T::t(c.f(0.1, 0.4));
            c.eq("inertia not symmetric", G::new(T::ONE, T::ONE, m).err(), Some(E::NotSymmetricInertia));
        }
        _ => {
            m[(i, i)] = low;
            c.eq("inertia not positive", G::new(T::ONE, T::ONE, m).err(), Some(E::NonPositiveInertia));
        }
    }
    c.hit("judged");
}
fn thrust<T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let g = T::t(if c.p(0.8) { 9.81 } else { c.f(-2.0, 12.0) }).d();
    let s = c.lu(-2.0, 2.0);
    let h = T::t(if c.p(0.2) { c.f(-30.0, 30.0) } else { c.f(-3.2, 3.2) }).d();
    let mut a = rt::<3, T>(c.arr(|c| c.f(-s, s)));
    match c.us(0, 11) {
        0 => {
            let w = c.us(0, 4);
            let bad = c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
            let mut v = [a[0], a[1], a[2], h, g];
            v[w] = bad;
            c.eq("not finite", thrust_command_from_acceleration(va::<3, T>([v[0], v[1], v[2]]), T::t(v[3]), T::t(v[4])).err(), Some(E::NonFinite));
            c.hit("refused");
            return;
        }
        1 => {
            c.eq("nothing to push with", thrust_command_from_acceleration(va::<3, T>([0.0, 0.0, -g]), T::t(h), T::t(g)).err(), Some(E::UndefinedThrustDirection));
            let x = c.sign() * c.lu(-2.0, 2.0);
            c.eq("push along the heading", thrust_command_from_acceleration(va::<3, T>([x, 0.0, -g]), T::ZERO, T::t(g)).err(), Some(E::UndefinedHeadingDirection));
            // Along any heading, exactly but for the rounding of the product.
            let dir = [T::t(h).cos().d(), T::t(h).sin().d()];
            let along = va::<3, T>([T::t(x * dir[0]).d(), T::t(x * dir[1]).d(), -g]);
            c.note("heading", &h);
            c.eq("push along a general heading", thrust_command_from_acceleration(along, T::t(h), T::t(g)).err(), Some(E::UndefinedHeadingDirection));
            c.hit("refused");
            return;
        }
        2 => a = rt::<3, T>([a[0], a[1], -g + c.ls(-6.0, 0.0)]),
        3 => a[2] = T::t(-3.0 * g.abs() - s).d(),
        _ => {}
    }
    c.note("acceleration, heading, gravity", &(a, h, g));
    let push = [dd(a[0]), dd(a[1]), dd(a[2]) + dd(g)];
    let n = vnorm(push);
    let size = a.iter().fold(g.abs(), |m, v| m.max(v.abs()));
    if n.f() < 1e-7 * size.max(1e-3) && T::F32 || n.f() < 1e-14 * size {
        c.discard();
    }
    let up = vscale(push, dd(1.0) / n);
    let (sn, cs) = dd(h).sincos();
    let hd: V = [cs, sn, dd(0.0)];
    let sd = vcross(up, hd);
    let sl = vnorm(sd).f();
    let slack = e * size / n.f();
    if sl < 1e3 * (slack + e) {
        c.discard();
    }
    let side = vscale(sd, dd(1.0 / sl));
    let fwd = vcross(side, up);
    let r = c.get("command", thrust_command_from_acceleration(va::<3, T>(a), T::t(h), T::t(g)));
    c.near("push", r.thrust_acceleration().d(), n.f(), 8.0 * e * (n.f() + size));
    let mass = T::t(c.lu(-2.0, 2.0)).d();
    let f = r.thrust_acceleration().d() * mass;
    c.near("push as a force", r.thrust_force(T::t(mass)).d(), f, 2.0 * e * f);
    let q = qof(r.attitude());
    let z = dd(0.0);
    let o = dd(1.0);
    let tol = 64.0 * (e + slack);
    let (gu, gf, gs) = (qrot(q, [z, z, o]), qrot(q, [o, z, z]), qrot(q, [z, o, z]));
    for i in 0..3 {
        c.near("up axis", gu[i].f(), up[i].f(), tol);
        c.near("nose", gf[i].f(), fwd[i].f(), tol / sl);
        c.near("side", gs[i].f(), side[i].f(), tol / sl);
    }
    // The nose, seen from above, lies on the heading unless it leans past level.
    c.hit("commands");
    if up[2].f() < 0.0 {
        c.hit("pushing downwards");
    }
}

// ---- follow the gap ----
const GAPS: [E; 7] = [E::InvalidBeamCount, E::NonFinite, E::InvalidFieldOfView, E::NonPositiveRange, E::NonPositiveChassisWidth, E::NonPositiveSpeed, E::NegativeGoalBias];
fn gaps<const B: usize, T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let dy = c.p(0.3);
    let fov = T::t(if dy { c.pick(&[1.0, 2.0, 4.0]) } else if c.p(0.1) { std::f64::consts::TAU * (1.0 - 1e-6) } else { c.f(0.2, 6.0) }).d();
    let max = T::t(c.lu(0.0, 1.3)).d();
    let width = T::t(c.lu(-1.5, 0.3).min(1.5 * max)).d();
    let thr = T::t(max * c.f(0.05, 1.0)).d();
    let cruise = T::t(c.f(0.1, 3.0)).d();
    let mut g = c.get("build", FollowTheGap::<B, T>::try_new(T::t(fov), T::t(max), T::t(width), T::t(thr), T::t(cruise)));
    let (mut gain, mut bias, mut stop, mut clear, mut front) = (1.5, 0.5, width * 0.5, max, fov / 4.0);
    if c.p(0.4) {
        gain = T::t(c.lu(-1.0, 1.0)).d();
        g = c.get("gain", g.with_steering_gain(T::t(gain)));
    }
    if c.p(0.5) {
        bias = T::t(if c.p(0.5) { 0.0 } else { c.lu(-2.0, 1.0) }).d();
        g = c.get("bias", g.with_goal_bias(T::t(bias)));
    }
    if c.p(0.4) {
        stop = T::t(c.f(0.0, 0.5) * max).d();
        clear = T::t(stop + c.f(0.05, 1.0) * max).d();
        g = c.get("speeds", g.with_speed_scaling(T::t(stop), T::t(clear)));
    }
    if c.p(0.4) {
        front = T::t(fov * c.f(0.05, 0.49)).d();
        g = c.get("front", g.with_frontal_half_angle(T::t(front)));
    }
    let goal = T::t(if c.p(0.3) { 0.0 } else { c.f(-0.7, 0.7) * fov }).d();
    // A scene: walls with holes in them.
    let mut x = [0.0f64; B];
    let style = c.us(0, 3);
    let mut wall = c.f(0.1, 1.3) * thr;
    for i in 0..B {
        if c.p(0.25) {
            wall = match style {
                0 => c.f(0.05, 1.2) * max,
                1 => if c.p(0.5) { thr * c.f(0.1, 0.9) } else { max },
                _ => c.f(0.05, 1.5) * thr,
            };
        }
        x[i] = T::t(if style == 2 { wall * c.f(0.9, 1.1) } else { wall }).d();
        if c.p(0.05) {
            x[i] = c.pick(&[f64::NAN, 0.0, -0.0, -1.0, f64::INFINITY, f64::NEG_INFINITY]);
        } else if c.p(0.03) {
            x[i] = thr;
        } else if c.p(0.02) {
            x[i] = T::t(max * 2.0).d();
        }
    }
    let mirrored = dy && (B - 1).is_power_of_two() && c.p(0.4);
    if mirrored {
        for i in 0..B / 2 {
            x[B - 1 - i] = x[i];
        }
    }
    let goal = if mirrored { 0.0 } else { goal };
    c.note("fov, max, width, threshold, cruise", &(fov, max, width, thr, cruise));
    c.note("gain, bias, stop, clear, front, goal", &(gain, bias, stop, clear, front, goal));
    c.note("ranges", &x);
    let ang = |i: usize| -fov / 2.0 + fov * i as f64 / (B - 1) as f64;
    let rg: Vec<f64> = x.iter().map(|&v| if v.is_finite() && v > 0.0 { v.min(max) } else { max }).collect();
    for i in 0..B {
        let a = g.beam_angle(i);
        let a = c.some("beam angle", a).d();
        c.near("beam angle", a, ang(i), 4.0 * e * fov);
    }
    c.eq("no such beam", g.beam_angle(B), None);
    let arr: [T; B] = x.map(T::t);
    let out = c.get("compute", g.compute(&arr, T::t(goal)));
    let near = rg.iter().copied().fold(max, f64::min);
    c.near("nearest obstacle", out.minimum_clearance().d(), near, 0.0);
    // Every open stretch, whether the robot fits, and how good its aim is.
    struct Gap {
        s: usize,
        e: usize,
        sure: bool,
        aim: f64,
        overlap: f64,
        score: f64,
    }
    let at = 16.0 * e * (fov + goal.abs() + 1.0);
    let mut all: Vec<Gap> = vec![];
    let mut i = 0;
    while i < B {
        if rg[i] < thr {
            i += 1;
            continue;
        }
        let s = i;
        while i + 1 < B && rg[i + 1] >= thr {
            i += 1;
        }
        let en = i;
        i += 1;
        let mut sure = true;
        if s > 0 && en + 1 < B {
            let (p, q) = (rg[s - 1], rg[en + 1]);
            let th = fov * (en - s + 2) as f64 / (B - 1) as f64;
            let (sn, cs) = dd(th).sincos();
            let (u, v) = (dd(p) - dd(q) * cs, dd(q) * sn);
            let w = (u * u + v * v).sqr().f();
            let tol = 32.0 * e * (p + q).powi(2) / width + 1e-12 * w;
            if w < width - tol {
                c.hit("gaps too narrow");
                continue;
            }
            sure = w > width + tol;
        }
        let inset = |r: f64| (width * 0.5 / r).atan();
        let low = ang(s) + if s > 0 { inset(rg[s - 1]) } else { 0.0 };
        let high = ang(en) - if en + 1 < B { inset(rg[en + 1]) } else { 0.0 };
        let aim = if low > high { (ang(s) + ang(en)) / 2.0 } else { goal.max(low).min(high) };
        // Where the margins only just meet either aim is right to rounding only if they agree.
        if (low - high).abs() <= at {
            c.discard();
        }
        let score = (high - low).max(0.0) - bias * (aim - goal).abs();
        all.push(Gap { s, e: en, sure, aim, overlap: low - high, score });
    }
    c.hits("open stretches", all.len() as u64);
    if out.is_blocked() {
        c.ok(all.iter().all(|g| !g.sure), "a way through was missed", || format!("{}", all.len()));
        c.eq("stopped", (out.body_twist().linear().d(), out.body_twist().angular().d(), out.heading().d(), out.gap_start_index(), out.gap_end_index()), (0.0, 0.0, 0.0, 0, 0));
        c.hit("blocked");
        return;
    }
    let k = all.iter().position(|g| g.s == out.gap_start_index() && g.e == out.gap_end_index());
    let k = c.some("chosen stretch is open and wide enough", k);
    let st = (1.0 + bias) * at;
    let best = all.iter().filter(|g| g.sure).map(|g| g.score).fold(f64::NEG_INFINITY, f64::max);
    c.ok(all[k].score >= best - st, "a better gap was passed over", || format!("{} vs {best}", all[k].score));
    c.near("heading", out.heading().d(), all[k].aim, at);
    // Exact ties.
    if bias == 0.0 && all.iter().all(|g| g.sure && g.overlap > at) {
        let straight = all.iter().map(|g| g.aim.abs()).fold(f64::INFINITY, f64::min);
        c.ok(all[k].aim.abs() <= straight + at, "a tie goes to the straighter aim", || format!("{} vs {straight}", all[k].aim));
        if all.len() > 1 {
            c.hit("ties by aim");
        }
    }
    if mirrored && all.iter().all(|g| g.sure) {
        c.ok(all[k].s + all[k].e < B, "a symmetric tie goes to the earlier beam", || format!("{}..{}", all[k].s, all[k].e));
        if all[k].s + all[k].e < B - 1 {
            c.hit("symmetric ties");
        }
    }
    // Speed.
    let ft = 4.0 * e * fov;
    let (mut fmin, mut fmax) = (max, max);
    for i in 0..B {
        let a = ang(i).abs();
        if a <= front + ft {
            fmin = f64::min(fmin, rg[i]);
        }
        if a <= front - ft {
            fmax = f64::min(fmax, rg[i]);
        }
    }
    let ramp = |f: f64| cruise * ((f - stop) / (clear - stop)).clamp(0.0, 1.0);
    let v = out.body_twist().linear().d();
    let tol = 16.0 * e * cruise * (max + clear) / (clear - stop);
    c.ok((v - ramp(fmin)).abs() <= tol || (v - ramp(fmax)).abs() <= tol || (fmin != fmax && v >= ramp(fmin) - tol && v <= ramp(fmax) + tol), "speed", || format!("{v} vs {} or {}", ramp(fmin), ramp(fmax)));
    c.near("turn rate", out.body_twist().angular().d(), gain * out.heading().d(), 4.0 * e * gain * out.heading().d().abs());
    c.hit("gaps chosen");
    if all.len() > 1 {
        c.hit("choices between gaps");
    }
    // The same scene in a mirror steers the other way.
    let mut m = arr;
    m.reverse();
    let o = c.get("mirrored", g.compute(&m, T::t(-goal)));
    let second = all.iter().enumerate().filter(|(i, _)| *i != k).map(|(_, g)| g.score).fold(f64::NEG_INFINITY, f64::max);
    if all.iter().all(|g| g.sure) && second < all[k].score - 2.0 * st {
        c.near("mirrored scene", o.heading().d(), -out.heading().d(), 2.0 * at);
        c.eq("mirrored gap", (o.gap_start_index(), o.gap_end_index()), (B - 1 - all[k].e, B - 1 - all[k].s));
        c.hit("mirrored");
    }
}
fn gaps_refused<T: Fl>(c: &mut Case) {
    let mut a = [2.0, 10.0, 0.5, 3.0, 1.0];
    let w = c.us(0, 4);
    let bad = c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    let low = c.pick(&[0.0, -0.0, -1.0]);
    fn mk<const B: usize, T: Fl>(a: [f64; 5]) -> Result<FollowTheGap<B, T>, E> {
        FollowTheGap::<B, T>::try_new(T::t(a[0]), T::t(a[1]), T::t(a[2]), T::t(a[3]), T::t(a[4]))
    }
    let g = mk::<5, T>(a).unwrap();
    match c.us(0, 7) {
        0 => {
            a[w] = bad;
            c.eq("not finite", mk::<5, T>(a).err(), Some(E::NonFinite));
            c.eq("too few beams", mk::<1, T>(a).err(), Some(E::InvalidBeamCount));
            c.eq("too few beams", mk::<0, T>(a).err(), Some(E::InvalidBeamCount));
        }
        1 => {
            a[w] = low;
            let want = [GAPS[2], GAPS[3], GAPS[4], GAPS[3], GAPS[5]][w];
            c.eq("not positive", mk::<5, T>(a).err(), Some(want));
        }
        2 => {
            a[0] = c.f(6.3, 20.0);
            c.eq("more than a turn", mk::<5, T>(a).err(), Some(E::InvalidFieldOfView));
        }
        3 => {
            a[3] = c.f(10.001, 20.0);
            c.eq("threshold past the sensor", mk::<5, T>(a).err(), Some(E::NonPositiveRange));
        }
        4 => {
            a[2] = if c.p(0.5) { 20.0 } else { c.f(20.0, 50.0) };
            c.eq("wider than the sensor sees", mk::<5, T>(a).err(), Some(E::NonPositiveChassisWidth));
        }
        5 => {
            c.eq("gain", g.with_steering_gain(T::t(bad)).err(), Some(E::NonFinite));
            c.eq("gain", g.with_steering_gain(T::t(low)).err(), Some(E::NonPositiveSpeed));
            c.eq("bias", g.with_goal_bias(T::t(bad)).err(), Some(E::NonFinite));
            c.eq("bias", g.with_goal_bias(T::t(-0.1)).err(), Some(E::NegativeGoalBias));
            c.ok(g.with_goal_bias(T::ZERO).is_ok(), "no bias", String::new);
        }
        6 => {
            c.eq("speeds", g.with_speed_scaling(T::t(bad), T::ONE).err(), Some(E::NonFinite));
            c.eq("speeds", g.with_speed_scaling(T::ONE, T::t(bad)).err(), Some(E::NonFinite));
            let x = c.f(0.0, 3.0);
            c.eq("speeds", g.with_speed_scaling(T::t(x), T::t(x)).err(), Some(E::InvalidSpeedScaling));
            c.eq("speeds", g.with_speed_scaling(T::t(-0.1), T::t(x)).err(), Some(E::InvalidSpeedScaling));
            c.ok(g.with_speed_scaling(T::ZERO, T::t(x + 0.1)).is_ok(), "from a stop", String::new);
        }
        _ => {
            c.eq("front", g.with_frontal_half_angle(T::t(bad)).err(), Some(E::NonFinite));
            c.eq("front", g.with_frontal_half_angle(T::t(low)).err(), Some(E::InvalidFieldOfView));
            let x = c.f(1.001, 4.0);
            c.eq("front", g.with_frontal_half_angle(T::t(x)).err(), Some(E::InvalidFieldOfView));
            c.ok(g.with_frontal_half_angle(T::ONE).is_ok(), "all of it", String::new);
            c.eq("goal", g.compute(&[T::ONE; 5], T::t(bad)).err(), Some(E::NonFinite));
        }
    }
    c.hit("judged");
}

fn main() {
    vmon::run("C24", |s| {
        s.rule("case: one controller history, one regulator design, one steering or attitude command, one scan");
        s.assume("updates are fed finite readings; regulator designs are compared where the loop settles within about sixty steps' worth of rounding growth");
        macro_rules! both {
            ($n:literal, $q:expr, $f:expr, $g:expr) => {
                s.monitor($n, $q, 20, |c| if c.p(0.35) { $f(c) } else { $g(c) })
            };
        }
        both!("pid", 120000, pid::<f32>, pid::<f64>);
        both!("bumpless", 60000, bumpless::<f32>, bumpless::<f64>);
        both!("pid-refused", 24000, pid_refused::<f32>, pid_refused::<f64>);
        both!("lqr-2-1", 3600, lqr::<2, 1, f32>, lqr::<2, 1, f64>);
        both!("lqr-3-2", 2400, lqr::<3, 2, f32>, lqr::<3, 2, f64>);
        both!("lqr-4-2", 1800, lqr::<4, 2, f32>, lqr::<4, 2, f64>);
        both!("lqr-refused", 6000, lqr_refused::<f32>, lqr_refused::<f64>);
        both!("pursuit", 120000, pursuit::<f32>, pursuit::<f64>);
        both!("attitude", 120000, attitude::<f32>, attitude::<f64>);
        both!("attitude-refused", 12000, attitude_refused::<f32>, attitude_refused::<f64>);
        both!("thrust", 120000, thrust::<f32>, thrust::<f64>);
        both!("gaps-2", 12000, gaps::<2, f32>, gaps::<2, f64>);
        both!("gaps-9", 120000, gaps::<9, f32>, gaps::<9, f64>);
        both!("gaps-33", 120000, gaps::<33, f32>, gaps::<33, f64>);
        both!("gaps-180", 18000, gaps::<180, f32>, gaps::<180, f64>);
        both!("gaps-refused", 24000, gaps_refused::<f32>, gaps_refused::<f64>);
        for (e, n) in [
            ("gains changed while running", 5000),
            ("taken over", 5000),
            ("integral held at a limit", 5000),
            ("saturated", 10000),
            ("felt gain changes", 3000),
            ("loops designed", 300),
            ("runaway systems", 100),
            ("arcs through the point", 5000),
            ("torques", 10000),
            ("falling energies", 10000),
            ("pushing downwards", 500),
            ("gaps too narrow", 2000),
            ("blocked", 500),
            ("choices between gaps", 5000),
            ("ties by aim", 20),
            ("symmetric ties", 200),
            ("mirrored", 3000),
        ] {
            s.require(e, n);
        }
    });
}
