//! C05: matrix exponential, discretization, discrete Lyapunov and Riccati equations.
use multicalc::discretization::{q_discrete_white_noise, van_loan, zoh};
use multicalc::error::LinalgError;
use multicalc::linear_algebra::{solve_discrete_lyapunov, solve_discrete_riccati};
use multicalc::Matrix;
use vmon::*;

fn one_norm(a: &RM) -> f64 {
    (0..a.c).map(|j| (0..a.r).map(|i| a.f(i, j).abs()).sum::<f64>()).fold(0.0, f64::max)
}
/// e^A in double-double by scaled Taylor, with a running bound on what `eps` rounding in a
/// scaling-and-squaring evaluation can amount to.
fn dd_expm(a: &RM, eps: f64) -> (RM, f64) {
    let n = a.r;
    let nrm = one_norm(a);
    let mut s = 0;
    while nrm * 0.5f64.powi(s) > 0.25 {
        s += 1;
    }
    let x = RM { r: n, c: n, d: a.d.iter().map(|v| v.ldexp(-s)).collect() };
    let mut term = RM::eye(n);
    let mut sum = RM::eye(n);
    for k in 1..34 {
        term = term.mul(&x);
        for v in term.d.iter_mut() {
            *v = *v / dd(k as f64);
        }
        sum = sum.add(&term);
    }
    let nf = n as f64;
    let mut err = 40.0 * nf * eps * (1.0 + x.norm());
    for _ in 0..s {
        let m = sum.norm();
        err = 2.0 * err * m + 2.0 * nf * eps * m * m + err * err;
        sum = sum.mul(&sum);
    }
    (sum, err)
}
fn gen_sys(c: &mut Case, n: usize) -> RM {
    match c.us(0, 6) {
        0 => {
            // Stiff decaying / oscillating diagonal blocks.
            let mut m = RM::zeros(n, n);
            for i in 0..n {
                *m.at_mut(i, i) = dd(-c.lu(-2.0, 1.5));
            }
            for i in 0..n.saturating_sub(1) {
                if c.p(0.4) {
                    let w = c.f(-4.0, 4.0);
                    *m.at_mut(i, i + 1) = dd(w);
                    *m.at_mut(i + 1, i) = dd(-w);
                }
            }
            m
        }
        1 => {
            // Nilpotent / integrator chain.
            let mut m = RM::zeros(n, n);
            for i in 0..n.saturating_sub(1) {
                *m.at_mut(i, i + 1) = dd(if c.p(0.7) { 1.0 } else { c.f(-5.0, 5.0) });
            }
            m
        }
        2 => {
            let k = c.lu(-4.0, 1.0);
            RM::from_fn(n, n, |_, _| c.normal() * k)
        }
        3 => RM::from_fn(n, n, |_, _| c.int(-2, 2) as f64),
        4 => RM::from_fn(n, n, |i, j| if j > i { c.f(-3.0, 3.0) } else if i == j { c.f(-2.0, 2.0) } else { 0.0 }),
        5 => RM::zeros(n, n),
        _ => RM::from_fn(n, n, |_, _| c.f(-1.5, 1.5)),
    }
}
fn close(c: &mut Case, tag: &str, got: &RM, want: &RM, tol: f64) {
    for i in 0..want.r {
        for j in 0..want.c {
            c.near(tag, got.f(i, j), want.f(i, j), tol);
        }
    }
}
fn expm<const N: usize, T: Fl>(c: &mut Case) {
    let a = if c.p(0.85) {
        gen_sys(c, N)
    } else {
        // Entries that all pull together: the norm is as far above any one of them as it can be.
        let k = c.lu(-1.0, 0.5);
        let flip: Vec<f64> = (0..N).map(|_| c.sign()).collect();
        let all = c.sign();
        RM::from_fn(N, N, |i, j| all * flip[i] * flip[j] * k * c.f(0.8, 1.0))
    };
    let a = a.rounded::<T>();
    let am: Matrix<N, N, T> = mat(&a);
    c.note("A", &am);
    let (want, err) = dd_expm(&a, T::EPS);
    let top = want.maxabs();
    if top > if T::F32 { 1e30 } else { 1e200 } || !err.is_finite() {
        c.discard()
    }
    let got = am.expm();
    let got = RM::of(&c.get("expm", got));
    close(c, "expm", &got, &want, err);
    if err < 1e-3 * top {
        c.hit("expm judged tightly");
    }
    if one_norm(&a) > 1.0 {
        c.hit("expm with squaring");
    }
}
fn expm_bad(c: &mut Case) {
    let mut a: Matrix<3, 3> = mat(&gen_sys(c, 3));
    let (i, j) = (c.us(0, 2), c.us(0, 2));
    match c.us(0, 3) {
        0 => {
            a[(i, j)] = c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
            c.eq("non-finite", a.expm().map(|_| ()).err(), Some(LinalgError::NonFinite));
        }
        1 => {
            // Result overflows.
            a[(i, i)] = c.f(800.0, 1e6);
            for k in 0..3 {
                if k != i {
                    a[(i, k)] = 0.0;
                    a[(k, i)] = 0.0;
                }
            }
            c.eq("overflow", a.expm().map(|_| ()).err(), Some(LinalgError::NonFinite));
        }
        2 => {
            // Finite entries whose column sums overflow: must still return.
            let m = Matrix::<3, 3>::from_fn(|_, _| c.sign() * c.f(0.7, 1.0) * f64::MAX);
            let r = m.expm();
            c.ok(r.is_err() || r.as_ref().is_ok_and(|x| x.is_finite()), "huge", || "non-finite result returned as Ok".into());
            let m = Matrix::<2, 2, f32>::from_fn(|_, _| f32::MAX);
            c.ok(m.expm().is_err(), "huge-f32", || "overflowing exponential returned as Ok".into());
        }
        _ => {
            let e = c.lu(30.0, 300.0);
            let m = Matrix::<2, 2>::from_fn(|i, j| if i == j { -e } else { 0.0 });
            if let Ok(x) = m.expm() {
                c.ok(x.is_finite(), "huge-decay", || format!("{x:?}"));
            }
            c.ok(true, "returned", String::new);
        }
    }
    c.hit("expm refusal");
}
fn zoh_case<const N: usize, const M: usize, const NM: usize, T: Fl>(c: &mut Case) {
    let a = gen_sys(c, N).rounded::<T>();
    let b = RM::from_fn(N, M, |_, _| c.real()).rounded::<T>();
    let h = T::t(if c.p(0.1) { 0.0 } else { c.lu(-4.0, 0.5) });
    c.note("A", &a.fs());
    c.note("B", &b.fs());
    c.note("h", &h);
    let aug = RM::from_fn(NM, NM, |i, j| if i >= N { 0.0 } else if j < N { (a.at(i, j) * dd(h.d())).f() } else { (b.at(i, j - N) * dd(h.d())).f() });
    let (want, err) = dd_expm(&aug, T::EPS);
    if want.maxabs() > 1e25 {
        c.discard()
    }
    let r = zoh::<N, M, NM, T>(mat(&a), mat(&b), h);
    let (f, g) = c.get("zoh", r);
    let (f, g) = (RM::of(&f), RM::of(&g));
    for i in 0..N {
        for j in 0..N {
            c.near("zoh-F", f.f(i, j), want.f(i, j), err);
        }
        for j in 0..M {
            c.near("zoh-G", g.f(i, j), want.f(i, N + j), err);
        }
    }
    // Independent: F = sum (Ah)^k/k!, G = sum A^k h^(k+1)/(k+1)! B on small steps.
    if one_norm(&a) * h.d() < 2.0 {
        let mut t = b.scale(h.d());
        let mut s = t.clone();
        for k in 1..60 {
            t = a.mul(&t).scale(h.d());
            for v in t.d.iter_mut() {
                *v = *v / dd(k as f64 + 1.0);
            }
            s = s.add(&t);
        }
        close(c, "zoh-G-series", &g, &s, err * 2.0 + 20.0 * T::EPS * (s.norm() + want.norm()));
        c.hit("zoh series");
    }
    let bad = c.pick(&[-1.0, -1e-9, f64::NAN, f64::INFINITY]);
    c.eq("zoh-timestep", zoh::<N, M, NM, T>(mat(&a), mat(&b), T::t(bad)).map(|_| ()).err(), Some(LinalgError::InvalidTimestep));
}
fn van<const N: usize, const N2: usize, T: Fl>(c: &mut Case) {
    let a = gen_sys(c, N).rounded::<T>();
    let q = match c.us(0, 2) {
        0 => {
            let mut m = RM::zeros(N, N);
            let k = c.us(0, N - 1);
            *m.at_mut(k, k) = dd(c.lu(-3.0, 2.0));
            m
        }
        1 => gen_spd(c, N, -2.0, 1.0),
        _ => RM::from_fn(N, N, |_, _| c.real()),
    }
    .rounded::<T>();
    let h = T::t(if c.p(0.1) { 0.0 } else { c.lu(-3.0, 0.3) });
    c.note("A", &a.fs());
    c.note("Q", &q.fs());
    c.note("h", &h);
    let hd = h.d();
    if one_norm(&a) * hd > 12.0 {
        c.discard()
    }
    // Q_d(h) = integral of e^{A s} Q e^{A's}: Taylor on a short step, then doubling.
    let mut s = 0;
    while one_norm(&a) * hd * 0.5f64.powi(s) > 0.25 {
        s += 1;
    }
    let hs = hd * 0.5f64.powi(s);
    let mut t = q.scale(hs);
    let mut qd = t.clone();
    for k in 1..40 {
        t = a.mul(&t).add(&t.mul(&a.t())).scale(hs);
        for v in t.d.iter_mut() {
            *v = *v / dd(k as f64 + 1.0);
        }
        qd = qd.add(&t);
    }
    let (mut f, _) = dd_expm(&a.scale(hs), T::EPS);
    for _ in 0..s {
        qd = qd.add(&f.mul(&qd).mul(&f.t()));
        f = f.mul(&f);
    }
    let aug = RM::from_fn(N2, N2, |i, j| hd * if i < N && j < N { -a.f(i, j) } else if i < N { q.f(i, j - N) } else if j >= N { a.f(j - N, i - N) } else { 0.0 });
    let (e, err) = dd_expm(&aug, T::EPS);
    let tol = (err * (1.0 + f.norm() + e.norm())) * 2.0;
    if !tol.is_finite() || e.maxabs() > 1e15 {
        c.discard()
    }
    let r = van_loan::<N, N2, T>(mat(&a), mat(&q), h);
    let (gf, gq) = c.get("van_loan", r);
    close(c, "van_loan-F", &RM::of(&gf), &f, tol);
    close(c, "van_loan-Qd", &RM::of(&gq), &qd, tol);
    if tol < 1e-2 * qd.maxabs() {
        c.hit("van_loan judged tightly");
    }
    let bad = c.pick(&[-1.0, -1e-9, f64::NAN, f64::INFINITY]);
    c.eq("van_loan-timestep", van_loan::<N, N2, T>(mat(&a), mat(&q), T::t(bad)).map(|_| ()).err(), Some(LinalgError::InvalidTimestep));
}
fn qdwn<const D: usize, T: Fl>(c: &mut Case) {
    let (h, v) = (T::t(c.lu(-3.0, 1.0)), T::t(c.lu(-3.0, 3.0)));
    let m = q_discrete_white_noise::<D, T>(h, v);
    // Rank-one: g g' * variance with the acceleration (jerk) held over the step.
    let x = h.d();
    let g: Vec<f64> = match D {
        2 => vec![x * x / 2.0, x],
        3 => vec![x * x / 2.0, x, 1.0],
        _ => vec![x * x * x / 6.0, x * x / 2.0, x, 1.0],
    };
    for i in 0..D {
        for j in 0..D {
            c.rel("q_discrete_white_noise", m[(i, j)].d(), g[i] * g[j] * v.d(), 20.0 * T::EPS, 0.0);
        }
    }
    c.hit("white noise");
}
/// Spectral radius by repeated normalized squaring.
fn rho(a: &RM) -> f64 {
    let mut m = a.clone();
    let mut log = 0.0;
    let mut w = 1.0;
    for _ in 0..24 {
        let k = m.norm();
        if k == 0.0 {
            return 0.0;
        }
        m = m.scale(1.0 / k);
        log += k.ln() * w;
        w *= 0.5;
        m = m.mul(&m);
    }
    let k = m.norm();
    if k == 0.0 { 0.0 } else { (log + k.ln() * w).exp() }
}
/// A matrix with known spectral radius: S diag(blocks) S^-1.
fn gen_rho(c: &mut Case, n: usize, r: f64) -> RM {
    let mut d = RM::zeros(n, n);
    let mut i = 0;
    let mut first = true;
    while i < n {
        let m = if first { r } else { r * c.f(-1.0, 1.0) };
        if i + 1 < n && c.p(0.4) {
            let th = c.f(0.0, 6.3);
            *d.at_mut(i, i) = dd(m * th.cos());
            *d.at_mut(i, i + 1) = dd(m * th.sin());
            *d.at_mut(i + 1, i) = dd(-m * th.sin());
            *d.at_mut(i + 1, i + 1) = dd(m * th.cos());
            i += 2;
        } else {
            *d.at_mut(i, i) = dd(if first { m * c.sign() } else { m });
            i += 1;
        }
        first = false;
    }
    let s = c.vecf(n, |c| c.f(0.4, 2.0));
    let t = gen_svd(c, n, n, &s);
    let ti = t.inv().unwrap();
    let m = t.mul(&d).mul(&ti);
    RM::from_fn(n, n, |i, j| m.f(i, j))
}
fn lyap<const N: usize, T: Fl>(c: &mut Case) {
    let kind = c.us(0, 4);
    let r = match kind {
        0 => c.f(0.0, 0.5),
        1 | 2 => c.f(0.5, 0.985),
        3 => 1.0 - c.lu(-3.0, -1.5),
        _ => 1.0 + c.lu(-1.5, 0.7),
    };
    let a = gen_rho(c, N, r).rounded::<T>();
    let g = if c.p(0.4) { c.lu(if T::F32 { -13.0 } else { -24.0 }, 8.0) } else { 1.0 };
    let q = gen_spd(c, N, -2.0, 1.0).scale(g).rounded::<T>();
    let am: Matrix<N, N, T> = mat(&a);
    let qm: Matrix<N, N, T> = mat(&q);
    c.note("A", &am);
    c.note("Q", &qm);
    let got = solve_discrete_lyapunov(am, qm);
    let actual = rho(&a);
    if kind == 4 {
        if actual > 1.02 {
            let e = got.map(|_| ()).err();
            c.ok(matches!(e, Some(LinalgError::DidNotConverge { .. })), "unstable", || format!("spectral radius {actual} but {e:?}"));
            c.hit("lyapunov unstable");
        }
        return;
    }
    if actual > if T::F32 { 0.98 } else { 0.9993 } {
        c.discard()
    }
    let p = c.get("lyapunov-stable", got);
    let p = RM::of(&p);
    // Reference: the doubling series carried in double-double to full convergence.
    let mut w = q.clone();
    let mut f = a.clone();
    let mut amp = 1.0;
    for _ in 0..40 {
        let inc = f.t().mul(&w).mul(&f);
        if inc.norm() < 1e-30 * w.norm() {
            break;
        }
        w = w.add(&inc);
        amp += f.norm() * f.norm();
        f = f.mul(&f);
    }
    let n = N as f64;
    let tol = w.norm() * T::EPS * (400.0 * n * amp + 60.0 * n / (1.0 - actual));
    for i in 0..N {
        for j in 0..N {
            c.near("lyapunov", p.f(i, j), w.f(i, j), tol);
        }
    }
    c.hit("lyapunov solved");
    if g < 1e-12 {
        c.hit("lyapunov small cost");
    }
}
fn lyap_bad(c: &mut Case) {
    let a: Matrix<3, 3> = mat(&gen_rho(c, 3, 0.7));
    let mut q: Matrix<3, 3> = mat(&gen_spd(c, 3, -1.0, 1.0));
    let (i, j) = (c.us(0, 2), c.us(0, 2));
    if c.p(0.5) {
        let mut a2 = a;
        let bad = c.pick(&[f64::NAN, f64::INFINITY]);
        if c.p(0.5) { a2[(i, j)] = bad } else { q[(i, j)] = bad }
        c.eq("non-finite", solve_discrete_lyapunov(a2, q).map(|_| ()).err(), Some(LinalgError::NonFinite));
        c.eq("riccati-non-finite", solve_discrete_riccati(a2, a, q, Matrix::identity()).map(|_| ()).err(), Some(LinalgError::NonFinite));
    } else {
        let k = (i + c.us(1, 2)) % 3;
        let r = Matrix::identity();
        let neg = gen_sym(c, &[1.0, -0.5, 2.0]);
        c.eq("input-cost-indefinite", solve_discrete_riccati(a, a, q, mat::<3, 3, f64>(&neg)).map(|_| ()).err(), Some(LinalgError::NotPositiveDefinite));
        q[(i, k)] += c.ls(-8.0, 1.0) * q[(i, k)].abs().max(1.0);
        c.eq("asymmetric", solve_discrete_lyapunov(a, q).map(|_| ()).err(), Some(LinalgError::NotSymmetric));
        c.eq("riccati-asymmetric-Q", solve_discrete_riccati(a, a, q, r).map(|_| ()).err(), Some(LinalgError::NotSymmetric));
        c.eq("riccati-asymmetric-R", solve_discrete_riccati(a, a, r, q).map(|_| ()).err(), Some(LinalgError::NotSymmetric));
    }
}
fn ricc<const N: usize, const M: usize, T: Fl>(c: &mut Case) {
    let kind = c.us(0, 5);
    let r = c.f(0.2, if T::F32 { 1.5 } else { 2.0 });
    let mut a = gen_rho(c, N, r);
    let mut b = RM::from_fn(N, M, |_, _| c.normal());
    if kind == 0 {
        // An unstable mode the input cannot reach.
        for j in 0..N {
            *a.at_mut(0, j) = dd(if j == 0 { 1.1 + c.f(0.0, 1.0) } else { 0.0 });
        }
        for j in 0..M {
            *b.at_mut(0, j) = dd(0.0);
        }
    }
    if kind == 1 && N >= 2 {
        // Double integrator style.
        let h = c.lu(-2.0, 0.0);
        a = RM::from_fn(N, N, |i, j| if i == j { 1.0 } else if j == i + 1 { h } else { 0.0 });
        b = RM::from_fn(N, M, |i, j| if i + 1 + j == N { h } else { 0.0 });
    }
    let g = if c.p(0.3) { c.lu(if T::F32 { -12.0 } else { -20.0 }, 6.0) } else { 1.0 };
    let (a, b) = (a.rounded::<T>(), b.rounded::<T>());
    let q = gen_spd(c, N, -1.0, 1.0).scale(g).rounded::<T>();
    let rw = c.f(-2.5, 1.0);
    let rr = gen_spd(c, M, rw - 0.5, rw + 0.5).scale(g).rounded::<T>();
    let (am, bm, qm, rm) = (mat::<N, N, T>(&a), mat::<N, M, T>(&b), mat::<N, N, T>(&q), mat::<M, M, T>(&rr));
    c.note("A", &am);
    c.note("B", &bm);
    c.note("Q", &qm);
    c.note("R", &rm);
    let got = solve_discrete_riccati(am, bm, qm, rm);
    // Reference: the Riccati recursion itself in double-double.
    let mut p = q.clone();
    let mut converged = false;
    let mut it = 0;
    let mut rate = 0.0;
    while it < 400 {
        let bp = b.t().mul(&p);
        let k = match rr.add(&bp.mul(&b)).solve(&bp.mul(&a)) {
            Some(k) => k,
            None => break,
        };
        let next = a.t().mul(&p).mul(&a).sub(&a.t().mul(&p).mul(&b).mul(&k)).add(&q);
        let d = next.sub(&p).norm();
        let nn = next.norm();
        p = next;
        it += 1;
        if !nn.is_finite() || nn > 1e18 * g {
            break;
        }
        if d < 1e-26 * nn {
            converged = true;
            let cl = a.sub(&b.mul(&k));
            rate = rho(&cl);
            break;
        }
    }
    if kind == 0 {
        if !converged {
            let e = got.map(|_| ()).err();
            c.ok(e.is_some(), "unreachable-unstable-mode", || "a system with no steady answer was given one".into());
            c.hit("riccati refused");
        }
        return;
    }
    if !converged || p.norm() > 1e5 * g || rate > 0.97 {
        c.discard()
    }
    let pn = p.norm();
    let re = rr.sym_eig();
    let cond = 1.0 + b.norm().powi(2) * pn / re[M - 1];
    if T::EPS * 40.0 * cond * (1.0 + a.norm().powi(2)) / (1.0 - rate) > T::EPS.sqrt() {
        // The leftover in the equation is legitimately too large to vouch for the answer.
        c.discard()
    }
    let x = c.get("riccati-solvable", got);
    let x = RM::of(&x);
    let tol = pn * T::EPS * 2000.0 * (1.0 + a.norm().powi(2)) * cond.sqrt() / (1.0 - rate).powi(1);
    c.note("rel error", &(x.sub(&p).norm() / pn));
    c.note("tol", &(tol / pn));
    for i in 0..N {
        for j in 0..N {
            c.same_bits("riccati-symmetric", x.f(i, j), x.f(j, i));
            c.near("riccati", x.f(i, j), p.f(i, j), tol);
        }
    }
    c.hit("riccati solved");
    if tol < 1e-6 * pn {
        c.hit("riccati judged tightly");
    }
}
fn main() {
    vmon::run("C05", |s| {
        s.rule("A case counts when a generated system's exponential, discretization or equation solution was compared with a double-double reference (Taylor series, doubling, direct Riccati recursion) or its refusal was judged; distinct = distinct systems.");
        s.assume("Error bounds follow the squaring recurrence (n ulps per product); Riccati and Lyapunov references are carried to convergence in double-double.");
        s.monitor("expm", 30000, 20, |c| { let n = c.us(1, 7); if c.p(0.25) { sized!(c, n, expm, f32) } else { sized!(c, n, expm, f64) } });
        s.monitor("expm-large", 600, 20, |c| { let n = c.us(0, 3); if c.p(0.25) { sized_big!(c, n, expm, f32) } else { sized_big!(c, n, expm, f64) } });
        s.monitor("expm-refusals", 2000, 4, expm_bad);
        s.monitor("zoh", 20000, 20, |c| match c.us(0, 4) {
            0 => zoh_case::<1, 1, 2, f64>(c),
            1 => zoh_case::<2, 1, 3, f64>(c),
            2 => zoh_case::<3, 2, 5, f64>(c),
            3 => zoh_case::<4, 1, 5, f64>(c),
            _ => zoh_case::<2, 2, 4, f32>(c),
        });
        s.monitor("van_loan", 20000, 20, |c| match c.us(0, 4) {
            0 => van::<1, 2, f64>(c),
            1 => van::<2, 4, f64>(c),
            2 => van::<3, 6, f64>(c),
            3 => van::<4, 8, f64>(c),
            _ => van::<2, 4, f32>(c),
        });
        s.monitor("white-noise", 4000, 10, |c| match c.us(0, 3) {
            0 => qdwn::<2, f64>(c),
            1 => qdwn::<3, f64>(c),
            2 => qdwn::<4, f64>(c),
            _ => qdwn::<4, f32>(c),
        });
        s.monitor("lyapunov", 20000, 20, |c| { let n = c.us(1, 6); if c.p(0.2) { sized!(c, n, lyap, f32) } else { sized!(c, n, lyap, f64) } });
        s.monitor("lyapunov-large", 300, 20, |c| match c.us(0, 2) {
            0 => lyap::<8, f64>(c),
            1 => lyap::<10, f64>(c),
            _ => lyap::<9, f32>(c),
        });
        s.monitor("refusals", 4000, 10, lyap_bad);
        s.monitor("riccati", 12000, 20, |c| match c.us(0, 8) {
            0 => ricc::<1, 1, f64>(c),
            1 => ricc::<2, 1, f64>(c),
            2 => ricc::<3, 2, f64>(c),
            3 => ricc::<4, 2, f64>(c),
            4 => ricc::<4, 1, f64>(c),
            5 => ricc::<3, 1, f64>(c),
            6 => ricc::<5, 2, f64>(c),
            7 => ricc::<6, 3, f64>(c),
            _ => ricc::<2, 1, f32>(c),
        });
        for (e, n) in [("expm judged tightly", 5000), ("expm with squaring", 5000), ("zoh series", 3000), ("van_loan judged tightly", 3000), ("lyapunov solved", 5000), ("lyapunov unstable", 1000), ("lyapunov small cost", 500), ("riccati solved", 3000), ("riccati refused", 300), ("expm refusal", 500)] {
            s.require(e, n);
        }
    })
}
