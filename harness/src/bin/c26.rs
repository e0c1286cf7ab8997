//! C26: the linear, extended and unscented Kalman filters, and their ready-made models.
use multicalc::error::EstimationError as E;
use multicalc::estimation::*;
use multicalc::numerical_derivative::FiniteDifferenceMulti;
use multicalc::scalar::{Dual, Numeric, VectorFn};
use multicalc::{Matrix, Vector};
use vmon::kf::*;
use vmon::*;

// ---- the linear filter ----
fn linear<const N: usize, const M: usize, T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let nf = N as f64;
    let (mut f, mut h, mut q, mut r) = (rmat::<T>(c, N, N, 1.5), rmat::<T>(c, M, N, 1.5), cov::<T>(c, N), cov::<T>(c, M));
    let sx = c.lu(-1.0, 3.0);
    let x0 = rcol::<T>(c, N, sx);
    let p0 = if c.p(0.1) { RM::zeros(N, N) } else { cov::<T>(c, N) };
    if c.p(0.15) {
        q = RM::zeros(N, N);
    }
    let model = KalmanModel { state_transition: mat(&f), measurement_model: mat(&h), process_noise: mat(&q), measurement_noise: mat(&r) };
    let mut k = KalmanFilter::<N, M, T>::new(vecn(&x0.fs()), mat(&p0), model);
    let joseph = c.p(0.7);
    if !joseph {
        k = k.with_covariance_update(CovarianceUpdate::Naive);
    } else if c.p(0.3) {
        k = k.with_covariance_update(CovarianceUpdate::default());
    }
    c.note("transition, sensor, process noise, sensor noise, state, covariance", &(&f.fs(), &h.fs(), &q.fs(), &r.fs(), &x0.fs(), &p0.fs()));
    c.ok(RM::ofv(&k.state()).fs() == x0.fs() && RM::of(&k.covariance()).fs() == p0.fs(), "starts where it was told", String::new);
    c.eq("no reading yet", k.normalized_innovation_squared().err(), Some(E::NotPositiveDefinite));
    c.ok(mx(&RM::ofv(&k.innovation())) == 0.0 && mx(&RM::of(&k.innovation_covariance())) == 0.0, "no reading yet", String::new);
    for _ in 0..c.us(1, 12) {
        let (x, p) = (RM::ofv(&k.state()), RM::of(&k.covariance()));
        if !(x.finite() && p.finite()) || mx(&p) > 1e8 {
            break;
        }
        match c.us(0, 12) {
            0 => {
                f = rmat::<T>(c, N, N, 1.2);
                k.set_state_transition(mat(&f));
            }
            1 => {
                h = rmat::<T>(c, M, N, 1.5);
                k.set_measurement_model(mat(&h));
            }
            2 => {
                q = cov::<T>(c, N);
                k.set_process_noise(mat(&q));
                r = cov::<T>(c, M);
                k.set_measurement_noise(mat(&r));
            }
            3 => {
                let v = rcol::<T>(c, N, sx);
                k.set_state(vecn(&v.fs()));
                c.ok(RM::ofv(&k.state()).fs() == v.fs() && RM::of(&k.covariance()).fs() == p.fs(), "placed", String::new);
            }
            4 => {
                // A reading that cannot be used changes nothing.
                let mut z = [0.0; M];
                z[c.us(0, M - 1)] = c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
                let r = k.update(vecn(&z));
                c.eq("a reading that is no number", r.err(), Some(E::NonFinite));
                c.ok(RM::ofv(&k.state()).fs() == x.fs() && RM::of(&k.covariance()).fs() == p.fs(), "a refused reading changes nothing", String::new);
                c.hit("refused readings");
            }
            5 => {
                let bad = RM::eye(M).scale(-1.0 - 2.0 * nf * nf * mx(&h).powi(2) * mx(&p));
                k.set_measurement_noise(mat(&bad));
                let z = rcol::<T>(c, M, sx);
                let g = k.update(vecn(&z.fs()));
                c.eq("noise below nothing", g.err(), Some(E::NotPositiveDefinite));
                c.ok(RM::ofv(&k.state()).fs() == x.fs() && RM::of(&k.covariance()).fs() == p.fs(), "a refused reading changes nothing", String::new);
                k.set_measurement_noise(mat(&r));
                c.hit("refused noise");
            }
            6 | 7 | 8 => {
                let push = c.p(0.4);
                let mut want = f.mul(&x);
                let mut t = e * 8.0 * nf * mx(&f) * mx(&x) * nf;
                if push {
                    let (b, u) = (rmat::<T>(c, N, 2, 2.0), rcol::<T>(c, 2, 10.0));
                    k.predict_with_control::<2>(mat(&b), vecn(&u.fs()));
                    want = want.add(&b.mul(&u));
                    t += e * 32.0 * mx(&b) * mx(&u) + 4.0 * e * mx(&want);
                    c.hit("driven predictions");
                } else {
                    k.predict();
                }
                close(c, "predicted state", &RM::ofv(&k.state()), &want, t + 1e-300);
                let wp = f.mul(&p).mul(&f.t()).add(&q);
                let tp = e * 8.0 * nf * (nf * nf * mx(&f).powi(2) * mx(&p) + mx(&q));
                close(c, "predicted uncertainty", &RM::of(&k.covariance()), &wp, tp + 1e-300);
                c.hit("predictions");
            }
            _ => {
                let z = rcol::<T>(c, M, sx * 2.0);
                let y = z.sub(&h.mul(&x));
                let yabs = mx(&z) + mx(&h) * mx(&x) * nf;
                let Some(w) = fold::<T>(&x, &p, &h, mx(&h), &r, y, yabs, joseph) else { continue };
                let g = k.update(vecn(&z.fs()));
                c.get("update", g);
                close(c, "innovation", &RM::ofv(&k.innovation()), &w.y, e * 4.0 * (nf + 2.0) * yabs);
                close(c, "innovation spread", &RM::of(&k.innovation_covariance()), &w.s, w.ts);
                close(c, "updated state", &RM::ofv(&k.state()), &w.x, w.tx);
                let np = RM::of(&k.covariance());
                close(c, "updated uncertainty", &np, &w.p, w.tp);
                nis(c, k.normalized_innovation_squared(), &RM::ofv(&k.innovation()), &RM::of(&k.innovation_covariance()), e);
                if joseph {
                    shape(c, &np, w.tp + w.keep * lopsided(&p));
                }
                c.hit("updates");
            }
        }
    }
}
/// A whole run against the exact answer to the same history, and readings in any order.
fn history<const N: usize, const M: usize>(c: &mut Case) {
    let nf = N as f64;
    let still = c.p(0.4);
    let f = if still { RM::eye(N) } else { RM::eye(N).add(&rmat::<f64>(c, N, N, 0.3)) };
    let q = if still { RM::zeros(N, N) } else { cov::<f64>(c, N) };
    let (p0, x0) = (cov::<f64>(c, N), rcol::<f64>(c, N, 5.0));
    let n = c.us(2, 14);
    let reads: Vec<(RM, RM, RM)> = (0..n).map(|_| (rmat::<f64>(c, M, N, 1.5), cov::<f64>(c, M), rcol::<f64>(c, M, 10.0))).collect();
    let model = KalmanModel { state_transition: mat(&f), measurement_model: Matrix::zeros(), process_noise: mat(&q), measurement_noise: Matrix::identity() };
    let start = KalmanFilter::<N, M, f64>::new(vecn(&x0.fs()), mat(&p0), model);
    let run = |c: &mut Case, order: &[usize]| {
        let mut k = start;
        for &i in order {
            if !still {
                k.predict();
            }
            k.set_measurement_model(mat(&reads[i].0));
            k.set_measurement_noise(mat(&reads[i].1));
            let z = vecn(&reads[i].2.fs());
            let g = k.update(z);
            c.get("update", g);
        }
        k
    };
    let k = run(c, &(0..n).collect::<Vec<_>>());
    let (mut x, mut p) = (x0.clone(), p0.clone());
    let mut grow = 1.0f64;
    let mut size = mx(&p0).max(mx(&x0));
    for (h, r, z) in &reads {
        if !still {
            x = f.mul(&x);
            p = f.mul(&p).mul(&f.t()).add(&q);
        }
        let s = h.mul(&p).mul(&h.t()).add(r);
        let g = s.inv().unwrap().mul(&h.mul(&p)).t();
        x = x.add(&g.mul(&z.sub(&h.mul(&x))));
        let res = RM::eye(N).sub(&g.mul(h));
        p = res.mul(&p).mul(&res.t()).add(&g.mul(r).mul(&g.t()));
        size = size.max(mx(&p)).max(mx(&x));
        grow = grow.max(mx(&s) / lowest(&s)).max(mx(&g));
    }
    let tol = 1e-13 * grow * grow * size * nf * n as f64;
    if tol > 1e-4 * size {
        c.discard();
    }
    close(c, "the whole history", &RM::ofv(&k.state()), &x, tol);
    close(c, "the whole history", &RM::of(&k.covariance()), &p, tol);
    if still {
        // Nothing moves: the answer is the weighted least-squares fit, whatever the order.
        let mut info = p0.inv().unwrap();
        let mut rhs = info.mul(&x0);
        for (h, r, z) in &reads {
            let ri = r.inv().unwrap();
            info = info.add(&h.t().mul(&ri).mul(h));
            rhs = rhs.add(&h.t().mul(&ri).mul(z));
        }
        let fit = info.inv().unwrap().mul(&rhs);
        close(c, "the least-squares fit", &RM::ofv(&k.state()), &fit, tol);
        let o = c.perm(n);
        let k2 = run(c, &o);
        close(c, "readings in any order", &RM::ofv(&k2.state()), &RM::ofv(&k.state()), tol);
        close(c, "readings in any order", &RM::of(&k2.covariance()), &RM::of(&k.covariance()), tol);
        c.hit("least-squares fits");
    } else {
        c.hit("histories");
    }
}

// ---- curved models ----
#[derive(Clone, Debug)]
struct Curve<const N: usize, const M: usize> {
    a: Vec<f64>,
    b: Vec<f64>,
    w: Vec<f64>,
    d: Vec<f64>,
    k: [f64; M],
    kink: bool,
}
impl<const N: usize, const M: usize> Curve<N, M> {
    fn of<T: Fl>(c: &mut Case, bend: f64, kink: bool) -> Self {
        let r = |c: &mut Case, n: usize, s: f64| -> Vec<f64> { (0..n).map(|_| T::t(if c.p(0.25) { 0.0 } else { c.f(-s, s) }).d()).collect() };
        let a = r(c, N * M, 1.2);
        let b = r(c, M, bend);
        let w = r(c, N * M, 1.0);
        let d = r(c, M, bend * 0.3);
        let k = r(c, M, 2.0);
        Curve { a, b, w, d, k: core::array::from_fn(|i| k[i]), kink }
    }
    /// Bounds on the terms of the value and of the slopes, over a region as wide as `x`.
    fn size(&self, x: f64) -> (f64, f64) {
        let (mut v, mut s) = (0f64, 0f64);
        for i in 0..M {
            let a: f64 = (0..N).map(|j| self.a[i * N + j].abs()).sum();
            let w: f64 = (0..N).map(|j| self.w[i * N + j].abs()).sum();
            v = v.max(a * x + self.b[i].abs() * (1.0 + w * x) + self.d[i].abs() * x * x + self.k[i].abs());
            s = s.max(a + self.b[i].abs() * w * (1.0 + w * x) + 2.0 * self.d[i].abs() * x);
        }
        (v, s)
    }
}
impl<const N: usize, const M: usize> VectorFn<N, M> for Curve<N, M> {
    fn eval<S: Numeric>(&self, x: &[S; N]) -> [S; M] {
        core::array::from_fn(|i| {
            let mut v = S::from_f64(self.k[i]);
            let mut u = S::ZERO;
            for j in 0..N {
                v += S::from_f64(self.a[i * N + j]) * x[j];
                u += S::from_f64(self.w[i * N + j]) * x[j];
            }
            let bend = if self.kink { if u > S::ZERO { u } else { S::ZERO } } else { u.sin() };
            v + S::from_f64(self.b[i]) * bend + S::from_f64(self.d[i]) * x[i % N] * x[(i + 1) % N]
        })
    }
}
fn at<const N: usize, const M: usize, F: VectorFn<N, M>>(f: &F, x: &RM) -> RM {
    let v: [DD; N] = core::array::from_fn(|i| x.at(i, 0));
    let y = f.eval(&v);
    let mut m = RM::zeros(M, 1);
    for i in 0..M {
        *m.at_mut(i, 0) = y[i];
    }
    m
}
fn slope<const N: usize, const M: usize, F: VectorFn<N, M>>(f: &F, x: &RM) -> RM {
    let mut m = RM::zeros(M, N);
    for j in 0..N {
        let v: [Dual<DD>; N] = core::array::from_fn(|i| Dual::new(x.at(i, 0), dd(if i == j { 1.0 } else { 0.0 })));
        let y = f.eval(&v);
        for i in 0..M {
            *m.at_mut(i, j) = y[i].deriv;
        }
    }
    m
}
/// A model that hands back something that is no number.
/// A sensible answer at every point but one, where one component is no number.
struct BrokenOnce {
    at: usize,
    slot: usize,
    value: f64,
    asked: core::cell::Cell<usize>,
}
impl<const N: usize, const M: usize> VectorFn<N, M> for BrokenOnce {
    fn eval<S: Numeric>(&self, x: &[S; N]) -> [S; M] {
        let n = self.asked.get();
        self.asked.set(n + 1);
        let mut out: [S; M] = core::array::from_fn(|i| x[i % N] + S::from_f64(i as f64));
        if n == self.at {
            out[self.slot % M] = S::from_f64(self.value);
        }
        out
    }
}
struct Broken;
impl<const N: usize, const M: usize> VectorFn<N, M> for Broken {
    fn eval<S: Numeric>(&self, x: &[S; N]) -> [S; M] {
        [(S::ZERO - x[0] * x[0] - S::ONE).sqrt(); M]
    }
}
fn extended<const N: usize, const M: usize, T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let (nf, mf) = (N as f64, M as f64);
    let bend = if c.p(0.2) { 0.0 } else { c.f(0.1, 1.5) };
    let (q, r) = (cov::<T>(c, N), cov::<T>(c, M));
    let (x0, p0) = (rcol::<T>(c, N, 4.0), cov::<T>(c, N));
    let joseph = c.p(0.7);
    let mut k = ExtendedKalmanFilter::<N, M, T>::new(vecn(&x0.fs()), mat(&p0), mat(&q), mat(&r));
    let mut fd = ExtendedKalmanFilter::<N, M, T, FiniteDifferenceMulti<T>>::from_derivator(
        vecn(&x0.fs()),
        mat(&p0),
        mat(&q),
        mat(&r),
        FiniteDifferenceMulti::default(),
    );
    if !joseph {
        k = k.with_covariance_update(CovarianceUpdate::Naive);
        fd = fd.with_covariance_update(CovarianceUpdate::Naive);
    }
    c.eq("no reading yet", k.normalized_innovation_squared().err(), Some(E::NotPositiveDefinite));
    let (mut q, mut r) = (q, r);
    for _ in 0..c.us(1, 8) {
        let (x, p) = (RM::ofv(&k.state()), RM::of(&k.covariance()));
        if mx(&x) > 50.0 || mx(&p) > 1e6 {
            break;
        }
        fd.set_state(k.state());
        match c.us(0, 9) {
            0 => {
                let v = rcol::<T>(c, N, 4.0);
                k.set_state(vecn(&v.fs()));
                c.ok(RM::ofv(&k.state()).fs() == v.fs() && RM::of(&k.covariance()).fs() == p.fs(), "placed", String::new);
            }
            1 => {
                q = cov::<T>(c, N);
                r = cov::<T>(c, M);
                k.set_process_noise(mat(&q));
                k.set_measurement_noise(mat(&r));
                fd.set_process_noise(mat(&q));
                fd.set_measurement_noise(mat(&r));
            }
            2 => {
                // Whatever is wrong, the estimate is left alone.
                let z: Vector<M, T> = vecn(&rcol::<T>(c, M, 3.0).fs());
                let mut bad = z;
                bad[c.us(0, M - 1)] = T::t(c.pick(&[f64::NAN, f64::INFINITY]));
                let m = Curve::<N, M>::of::<T>(c, bend, false);
                let rs = [k.predict(&Broken).is_err(), k.update(&Broken, z).is_err(), k.update_with_residual(&Broken, z).is_err()];
                c.eq("a broken model is refused", rs, [true; 3]);
                c.eq("a broken reading is refused", [k.update(&m, bad).err(), k.update_with_residual(&m, bad).err()], [Some(E::NonFinite), Some(E::NonFinite)]);
                let (_, sh) = m.size(mx(&x));
                k.set_measurement_noise(mat(&RM::eye(M).scale(-1.0 - 2.0 * nf * nf * sh * sh * mx(&p))));
                c.eq("noise below nothing", k.update(&m, z).err(), Some(E::NotPositiveDefinite));
                k.set_measurement_noise(mat(&r));
                c.ok(RM::ofv(&k.state()).fs() == x.fs() && RM::of(&k.covariance()).fs() == p.fs(), "a refusal changes nothing", String::new);
                c.hit("extended refusals");
            }
            3 | 4 | 5 => {
                let m = Curve::<N, N>::of::<T>(c, bend, false);
                let (sv, ss) = m.size(mx(&x));
                let g = k.predict(&m);
                c.get("predict", g);
                let f = slope(&m, &x);
                close(c, "predicted state", &RM::ofv(&k.state()), &at(&m, &x), 8.0 * nf * e * sv);
                let want = f.mul(&p).mul(&f.t()).add(&q);
                let tp = 32.0 * nf * e * (nf * nf * ss * ss * mx(&p) + mx(&q));
                close(c, "predicted uncertainty", &RM::of(&k.covariance()), &want, tp);
                if !T::F32 {
                    // Slopes from differences get there too, less exactly.
                    let back = fd;
                    if RM::of(&fd.covariance()).fs() == p.fs() {
                        let g = fd.predict(&m);
                        c.get("predict by differences", g);
                        close(c, "predicted by differences", &RM::of(&fd.covariance()), &want, 1e-5 * nf * nf * (1.0 + ss * ss + sv * ss) * (mx(&p) + mx(&q)));
                        c.hit("predictions by differences");
                        fd = back;
                    }
                }
                c.hit("extended predictions");
            }
            _ => {
                let m = Curve::<N, M>::of::<T>(c, bend, false);
                let (sv, ss) = m.size(mx(&x));
                let given = c.p(0.3);
                let z = rcol::<T>(c, M, 6.0);
                let y = if given { z.clone() } else { z.sub(&at(&m, &x)) };
                let yabs = mx(&z) + if given { 0.0 } else { sv };
                let h = slope(&m, &x);
                let Some(w) = fold::<T>(&x, &p, &h, ss, &r, y, yabs, joseph) else { continue };
                let zt: Vector<M, T> = vecn(&z.fs());
                let g = if given { k.update_with_residual(&m, zt) } else { k.update(&m, zt) };
                c.get("update", g);
                close(c, "innovation", &RM::ofv(&k.innovation()), &w.y, 16.0 * e * nf * yabs);
                close(c, "innovation spread", &RM::of(&k.innovation_covariance()), &w.s, w.ts);
                close(c, "updated state", &RM::ofv(&k.state()), &w.x, w.tx);
                let np = RM::of(&k.covariance());
                close(c, "updated uncertainty", &np, &w.p, w.tp * 2.0);
                nis(c, k.normalized_innovation_squared(), &RM::ofv(&k.innovation()), &RM::of(&k.innovation_covariance()), e);
                if joseph {
                    shape(c, &np, w.tp * mf + w.keep * lopsided(&p));
                }
                c.hit(if given { "residuals handed in" } else { "extended updates" });
            }
        }
    }
}

// ---- the unscented filter ----
struct Cloud {
    centre: RM,
    side: Vec<RM>,
}
impl Cloud {
    fn around(x: &RM, p: &RM, spread: DD, reg: f64) -> Option<Cloud> {
        let n = p.r;
        let mut a = RM::zeros(n, n);
        for i in 0..n {
            for j in 0..n {
                *a.at_mut(i, j) = p.at(i, j) * spread + dd(if i == j { reg } else { 0.0 });
            }
        }
        let mut l = RM::zeros(n, n);
        for j in 0..n {
            for i in j..n {
                let mut s = a.at(i, j);
                for k in 0..j {
                    s = s - l.at(i, k) * l.at(j, k);
                }
                if i == j {
                    if s.f() <= 0.0 {
                        return None;
                    }
                    *l.at_mut(i, i) = s.sqr();
                } else {
                    *l.at_mut(i, j) = s / l.at(j, j);
                }
            }
        }
        let mut side = vec![];
        for j in 0..n {
            for s in [1.0, -1.0] {
                let mut v = x.clone();
                for i in 0..n {
                    *v.at_mut(i, 0) = v.at(i, 0) + l.at(i, j) * dd(s);
                }
                side.push(v);
            }
        }
        Some(Cloud { centre: x.clone(), side })
    }
    fn at_rest(x: &RM) -> Cloud {
        Cloud { centre: x.clone(), side: vec![x.clone(); 2 * x.r] }
    }
    fn map<const N: usize, const M: usize, F: VectorFn<N, M>>(&self, f: &F) -> Cloud {
        Cloud { centre: at(f, &self.centre), side: self.side.iter().map(|v| at(f, v)).collect() }
    }
    fn mean(&self, w: &Wt) -> RM {
        // Weights add to one, so averaging the offsets from the centre is the same sum.
        let mut m = RM::zeros(self.centre.r, 1);
        for v in &self.side {
            m = m.add(&v.sub(&self.centre));
        }
        let mut out = self.centre.clone();
        for i in 0..out.r {
            *out.at_mut(i, 0) = out.at(i, 0) + m.at(i, 0) * w.side;
        }
        out
    }
    fn spread(&self, mean: &RM, o: &Cloud, omean: &RM, w: &Wt) -> RM {
        let mut s = RM::zeros(mean.r, omean.r);
        let mut add = |k: DD, a: RM, b: RM| {
            let m = a.mul(&b.t());
            for i in 0..s.d.len() {
                s.d[i] = s.d[i] + m.d[i] * k;
            }
        };
        add(w.cov, self.centre.sub(mean), o.centre.sub(omean));
        for (a, b) in self.side.iter().zip(&o.side) {
            add(w.side, a.sub(mean), b.sub(omean));
        }
        s
    }
    fn reach(&self, mean: &RM) -> f64 {
        self.side.iter().map(|v| mx(&v.sub(mean))).fold(mx(&self.centre.sub(mean)), f64::max)
    }
    fn size(&self) -> f64 {
        self.side.iter().map(mx).fold(mx(&self.centre), f64::max)
    }
}
struct Wt {
    spread: DD,
    cov: DD,
    side: DD,
    total: f64,
    n: f64,
}
fn weights(n: usize, a: f64, b: f64, k: f64) -> Wt {
    let nn = dd(n as f64);
    let spread = dd(a) * dd(a) * (nn + dd(k));
    let mean = (spread - nn) / spread;
    let cov = mean + dd(1.0) - dd(a) * dd(a) + dd(b);
    let side = dd(0.5) / spread;
    Wt { total: mean.f().abs() + cov.f().abs() + 2.0 * n as f64 * side.f(), n: n as f64, spread, cov, side }
}
/// How far rounding moves a weighted spread whose points are each off by `er`.
fn slack(w: &Wt, e: f64, er: f64, reach: f64, dc: f64) -> f64 {
    let em = w.total * (er + e * 4.0 * reach) + er;
    let sides = 2.0 * w.n * w.side.f();
    32.0 * (sides * (reach * er + er * er + e * w.n * reach * reach) + em * dc * (4.0 + w.cov.f().abs()) + em * em * w.total + em * er * w.total + e * w.cov.f().abs() * dc * dc)
}
fn tuning<T: Fl>(c: &mut Case, n: usize) -> (f64, f64, f64) {
    let a = T::t(if T::F32 { c.pick(&[0.3, 0.5, 1.0]) } else { c.pick(&[1e-3, 0.01, 0.1, 0.5, 1.0]) }).d();
    (a, c.pick(&[2.0, 0.0, 1.0]), T::t(if c.p(0.6) { 0.0 } else { c.f(-0.5 * n as f64, 3.0) }).d())
}
fn unscented<const N: usize, const M: usize, T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let (nf, mf) = (N as f64, M as f64);
    let bend = if c.p(0.25) { 0.0 } else { c.f(0.1, 1.0) };
    let kink = c.p(0.2);
    let (q, r) = (cov::<T>(c, N), cov::<T>(c, M));
    let (x0, p0) = (rcol::<T>(c, N, 3.0), cov::<T>(c, N));
    let mut k = UnscentedKalmanFilter::<N, M, T>::new(vecn(&x0.fs()), mat(&p0), mat(&q), mat(&r));
    let (a, b, kp) = if !T::F32 && c.p(0.2) { (1e-3, 2.0, 0.0) } else { tuning::<T>(c, N) };
    if (a, b, kp) != (1e-3, 2.0, 0.0) || T::F32 {
        k = c.get("tuning", k.with_scaling(T::t(a), T::t(b), T::t(kp)));
    } else {
        c.hit("left as it comes");
    }
    let reg = if c.p(0.2) { T::t(c.lu(-6.0, -2.0)).d() } else { 0.0 };
    if reg > 0.0 {
        k = c.get("regularization", k.with_regularization(T::t(reg)));
    }
    c.note("alpha, beta, kappa, regularization, state, covariance", &(a, b, kp, reg, x0.fs(), p0.fs()));
    let w = weights(N, a, b, kp);
    let (mut q, mut r) = (q, r);
    // The points the filter carries, and how far rounding may have moved each.
    let mut pts = (Cloud::at_rest(&x0), 2.0 * e * mx(&x0));
    let (mut moved, mut spent) = (false, false);
    for step in 0..c.us(1, 10) {
        let (x, p) = (RM::ofv(&k.state()), RM::of(&k.covariance()));
        if mx(&x) > 30.0 || mx(&p) > 1e4 {
            break;
        }
        match c.us(0, 9) {
            0 if step > 0 => {
                let v = if c.p(0.5) { x.add(&rcol::<T>(c, N, 0.2)) } else { rcol::<T>(c, N, 3.0) };
                let v = rnd::<T>(v);
                k.set_state(vecn(&v.fs()));
                c.ok(RM::ofv(&k.state()).fs() == v.fs() && RM::of(&k.covariance()).fs() == p.fs(), "placed", String::new);
                if !spent {
                    moved = true;
                }
            }
            1 => {
                q = cov::<T>(c, N);
                r = cov::<T>(c, M);
                k.set_process_noise(mat(&q));
                k.set_measurement_noise(mat(&r));
            }
            2 => {
                let z: Vector<M, T> = vecn(&rcol::<T>(c, M, 3.0).fs());
                let mut bad = z;
                bad[c.us(0, M - 1)] = T::t(c.pick(&[f64::NAN, f64::INFINITY]));
                let m = Curve::<N, M>::of::<T>(c, bend, kink);
                let mut t = k;
                // Broken at one of the points only.
                let mut once = |c: &mut Case| BrokenOnce { at: c.us(0, 2 * N), slot: c.us(0, N - 1), value: c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]), asked: Default::default() };
                for kind in 0..3 {
                    let b = once(c);
                    let mut f = k;
                    let got = match kind {
                        0 => f.predict(&b),
                        1 => f.update(&b, z),
                        _ => f.update_with_residual(&b, z),
                    };
                    if b.asked.get() > b.at {
                        c.eq("a model broken at one point is refused", got.err(), Some(E::NonFinite));
                        c.ok(RM::ofv(&f.state()).fs() == x.fs() && RM::of(&f.covariance()).fs() == p.fs(), "a refusal changes nothing", String::new);
                        c.hit("broken at one point");
                    }
                }
                let errs = [t.predict(&Broken).err(), k.update(&Broken, z).err()];
                if lowest(&p) > 64.0 * nf * e * mx(&p) {
                    c.eq("a broken model is refused", errs, [Some(E::NonFinite), Some(E::NonFinite)]);
                } else {
                    c.ok(errs[0].is_some() && errs[1].is_some(), "a broken model is refused", || format!("{errs:?}"));
                }
                c.eq("a broken reading is refused", [k.update(&m, bad).err(), k.update_with_residual(&m, bad).err()], [Some(E::NonFinite), Some(E::NonFinite)]);
                for f in [&k, &t] {
                    c.ok(RM::ofv(&f.state()).fs() == x.fs() && RM::of(&f.covariance()).fs() == p.fs(), "a refusal changes nothing", String::new);
                }
                if spent && lowest(&p) > 64.0 * nf * e * mx(&p) {
                    // The refused update drew the points the next one will use.
                    let Some(cl) = Cloud::around(&x, &p, w.spread, reg) else { return };
                    pts = (cl, 16.0 * nf * e * (mx(&x) + (w.spread.f() * mx(&p) + reg).sqrt() * mx(&p) / lowest(&p)));
                    spent = false;
                    moved = false;
                }
                c.hit("unscented refusals");
            }
            3 | 4 | 5 => {
                let m = Curve::<N, N>::of::<T>(c, bend, kink);
                let low = lowest(&p);
                if low < 1e3 * nf * e * mx(&p) {
                    break;
                }
                let Some(cl) = Cloud::around(&x, &p, w.spread, reg) else { break };
                let reach0 = cl.reach(&x);
                let er0 = e * (4.0 * mx(&x) + 8.0 * nf * (w.spread.f() * mx(&p) + reg).sqrt() * (mx(&p) / low).sqrt().max(1.0) * nf);
                let (sv, ss) = m.size(mx(&x) + reach0);
                let er = ss * er0 * nf + 8.0 * nf * e * sv;
                let out = cl.map(&m);
                let mean = out.mean(&w);
                let want = out.spread(&mean, &out, &mean, &w).add(&q);
                let g = k.predict(&m);
                c.get("predict", g);
                let dc = mx(&out.centre.sub(&mean));
                let tm = 4.0 * w.total * (er + 4.0 * nf * e * out.size());
                close(c, "predicted state", &RM::ofv(&k.state()), &mean, tm);
                let tp = slack(&w, e, er + tm / w.total, out.reach(&mean), dc) + 16.0 * e * mx(&q);
                let np = RM::of(&k.covariance());
                close(c, "predicted uncertainty", &np, &want, tp);
                close(c, "exactly symmetric", &np, &np.t(), 0.0);
                if bend == 0.0 && reg == 0.0 && !kink {
                    // Nothing curves: the points carry a straight-line model exactly.
                    let f = slope(&m, &x);
                    let lin = f.mul(&p).mul(&f.t()).add(&q);
                    close(c, "straight models are exact", &np, &lin, tp * 2.0);
                    close(c, "straight models are exact", &RM::ofv(&k.state()), &at(&m, &x), tm * 2.0);
                    c.hit("straight predictions");
                }
                if tp < 0.05 * mx(&want) {
                    c.hit("unscented predictions");
                }
                pts = (out, er);
                moved = false;
                spent = false;
            }
            _ => {
                let m = Curve::<N, M>::of::<T>(c, bend, kink);
                let given = c.p(0.3);
                let z = rcol::<T>(c, M, 5.0);
                let zt: Vector<M, T> = vecn(&z.fs());
                if moved {
                    // An estimate moved away from its points: only the refusals are judged.
                    let _ = k.update(&m, zt);
                    break;
                }
                if spent {
                    let low = lowest(&p);
                    if low < 1e3 * nf * e * mx(&p) {
                        break;
                    }
                    let Some(cl) = Cloud::around(&x, &p, w.spread, reg) else { break };
                    pts = (cl, e * (4.0 * mx(&x) + 8.0 * nf * nf * (w.spread.f() * mx(&p) + reg).sqrt() * (mx(&p) / low).sqrt().max(1.0)));
                    c.hit("a second reading");
                }
                let reach = pts.0.reach(&x);
                let (sv, ss) = m.size(mx(&x) + reach);
                let er = ss * pts.1 * nf + 8.0 * nf * e * sv;
                let out = pts.0.map(&m);
                let zm = out.mean(&w);
                let s = out.spread(&zm, &out, &zm, &w).add(&r);
                let xz = pts.0.spread(&x, &out, &zm, &w);
                let dz = mx(&out.centre.sub(&zm));
                let dx = mx(&pts.0.centre.sub(&x));
                let tz = 4.0 * w.total * (er + 4.0 * nf * e * out.size());
                let both = reach.max(out.reach(&zm));
                let ts = slack(&w, e, er + tz / w.total, out.reach(&zm), dz) + 16.0 * e * mx(&r);
                let tc = slack(&w, e, (er + tz / w.total).max(pts.1), both, dz.max(dx));
                let low = lowest(&s);
                if low <= 0.0 || ts * mf > 0.02 * low {
                    break;
                }
                let gain = s.inv().unwrap().mul(&xz.t()).t();
                let y = if given { z.clone() } else { z.sub(&zm) };
                let nx = x.add(&gain.mul(&y));
                let np = p.sub(&gain.mul(&s).mul(&gain.t()));
                let g = if given { k.update_with_residual(&m, zt) } else { k.update(&m, zt) };
                c.get("update", g);
                let dg = 2.0 * mf * (tc + mx(&gain) * ts * mf + 16.0 * mf * e * (mx(&xz) + mx(&gain) * mx(&s) * mf)) / low;
                let ty = if given { 0.0 } else { tz + 4.0 * e * mx(&z) };
                close(c, "innovation", &RM::ofv(&k.innovation()), &y, ty);
                close(c, "innovation spread", &RM::of(&k.innovation_covariance()), &s, ts);
                close(c, "updated state", &RM::ofv(&k.state()), &nx, mf * (dg * (mx(&y) + ty) + mx(&gain) * ty) + 16.0 * e * (mx(&x) + mf * mx(&gain) * mx(&y)));
                let got = RM::of(&k.covariance());
                let tp = 4.0 * mf * mf * (dg * mx(&gain) * mx(&s) + dg * dg * mx(&s) + mx(&gain).powi(2) * ts) + 16.0 * e * (mx(&p) + mf * mf * mx(&gain).powi(2) * mx(&s));
                close(c, "updated uncertainty", &got, &np, tp);
                close(c, "exactly symmetric", &got, &got.t(), 0.0);
                if bend == 0.0 && !kink && reg == 0.0 {
                    shape(c, &got, tp);
                    c.hit("straight updates");
                }
                nis(c, k.normalized_innovation_squared(), &RM::ofv(&k.innovation()), &RM::of(&k.innovation_covariance()), e);
                if tp < 0.05 * mx(&p) {
                    c.hit("unscented updates");
                }
                spent = true;
            }
        }
    }
}
struct Stretch([f64; 3]);
impl VectorFn<3, 3> for Stretch {
    fn eval<S: Numeric>(&self, x: &[S; 3]) -> [S; 3] {
        core::array::from_fn(|i| x[i] * S::from_f64(self.0[i]))
    }
}
/// Before any prediction the points sit on the estimate: nothing moves. And tuning that cannot be used.
fn unscented_edges<T: Fl>(c: &mut Case) {
    let (x, p) = (rcol::<T>(c, 3, 3.0), cov::<T>(c, 3));
    let r = cov::<T>(c, 2);
    let new = || UnscentedKalmanFilter::<3, 2, T>::new(vecn(&x.fs()), mat(&p), mat(&p), mat(&r));
    let mut k = new();
    let m = Curve::<3, 2>::of::<T>(c, 0.5, false);
    let z = rcol::<T>(c, 2, 5.0);
    let g = c.get("tuning", k.with_scaling(T::t(0.5), T::t(2.0), T::t(0.0)));
    k = g;
    let u = k.update(&m, vecn(&z.fs()));
    c.get("update before predicting", u);
    let t = 64.0 * T::EPS * (1.0 + mx(&x)) * 16.0;
    close(c, "nothing to learn yet", &RM::ofv(&k.state()), &x, t * (1.0 + mx(&z) / lowest(&r).sqrt()));
    close(c, "nothing to learn yet", &RM::of(&k.covariance()), &p, t + 64.0 * T::EPS * mx(&p));
    let nan = c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    let bad: [(f64, f64, f64); 6] = [(nan, 2.0, 0.0), (1.0, nan, 0.0), (1.0, 2.0, nan), (0.0, 2.0, 0.0), (0.5, 2.0, -3.0), (0.5, 2.0, -3.5)];
    let b = c.pick(&bad);
    c.eq("tuning refused", new().with_scaling(T::t(b.0), T::t(b.1), T::t(b.2)).err(), Some(E::InvalidTuning));
    c.eq("regularization refused", new().with_regularization(T::t(nan)).err(), Some(E::InvalidTuning));
    c.eq("regularization refused", new().with_regularization(T::t(-1e-9)).err(), Some(E::InvalidTuning));
    // A covariance that cannot be spread out is refused, unless asked for.
    let mut flat = gen_sym(c, &[1.0, 0.5, -0.01]);
    flat = sym::<T>(&flat);
    let f = Curve::<3, 3>::of::<T>(c, 0.3, false);
    let mut k = UnscentedKalmanFilter::<3, 2, T>::new(vecn(&x.fs()), mat(&flat), mat(&p), mat(&r));
    k = c.get("tuning", k.with_scaling(T::t(0.5), T::t(2.0), T::t(0.0)));
    let mut j = c.get("regularization", k.with_regularization(T::t(0.5)));
    c.eq("no spread to place points in", k.predict(&f).err(), Some(E::NotPositiveDefinite));
    c.ok(RM::ofv(&k.state()).fs() == x.fs() && RM::of(&k.covariance()).fs() == flat.fs(), "a refusal changes nothing", String::new);
    let g = j.predict(&f);
    c.get("asked for", g);
    // A spread too wide to square: refused, and nothing moves.
    let top = if T::F32 { 1e19 } else { 1e154 };
    let wide = T::t(top * c.lu(0.5, 1.5)).d();
    let q = RM::diag(&[wide; 3]);
    let s: [f64; 3] = c.arr(|c| c.pick(&[1e10, 1e19, 1e100]).min(if T::F32 { 1e12 } else { 1e100 }));
    let stretch = Stretch(s);
    let mut k = UnscentedKalmanFilter::<3, 2, T>::new(vecn(&[0.0; 3]), mat(&q), mat(&p), mat(&r));
    k = c.get("tuning", k.with_scaling(T::t(1.0), T::t(2.0), T::t(0.0)));
    let before = (RM::ofv(&k.state()).fs(), RM::of(&k.covariance()).fs());
    let got = k.predict(&stretch);
    c.note("stretch", &(wide, s));
    if (0..3).any(|i| wide.log10() + 2.0 * s[i].log10() > (if T::F32 { 38.5 } else { 308.3 }) + 1.0) {
        c.eq("too wide", got.err(), Some(E::NonFinite));
        c.ok(before == (RM::ofv(&k.state()).fs(), RM::of(&k.covariance()).fs()), "a refusal changes nothing", String::new);
        c.hit("too wide a spread");
    } else if got.is_ok() {
        c.ok(RM::ofv(&k.state()).fs().iter().chain(&RM::of(&k.covariance()).fs()).all(|v| v.is_finite()), "finite", String::new);
    }
    c.hit("unscented edges");
}

/// Knowing next to nothing, a filter takes a sharp reading's word for it, and ends exactly as sure
/// as the two together allow.
fn unknown_start<T: Fl>(c: &mut Case) {
    const N: usize = 3;
    let e = T::EPS;
    let top = if T::F32 { 8.0 } else { 20.0 };
    let p: [f64; N] = c.arr(|c| T::t(c.lu(-3.0, 0.5 * top)).d());
    let r: [f64; 2] = c.arr(|c| T::t(c.lu(-0.5 * top, 1.0)).d());
    let x: [f64; N] = c.arr(|c| T::t(c.f(-3.0, 3.0)).d());
    let z: [f64; 2] = c.arr(|c| T::t(c.f(-3.0, 3.0)).d());
    let (a, b) = c.pick(&[(0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1)]);
    let at = [a, b];
    let h: [f64; 2] = c.arr(|c| T::t(c.sign() * c.lu(-1.0, 1.0)).d());
    c.note("spread, reading spread, state, reading, at, gain", &(p, r, x, z, at, h));
    let hm = RM::from_fn(2, N, |i, j| if j == at[i] { h[i] } else { 0.0 });
    let q = RM::diag(&[1.0; N]);
    let model = KalmanModel { state_transition: mat(&RM::eye(N)), process_noise: mat(&q), measurement_model: mat(&hm), measurement_noise: mat(&RM::diag(&r)) };
    let mut linear = KalmanFilter::<N, 2, T>::new(vecn(&x), mat(&RM::diag(&p)), model);
    let g = linear.update(vecn(&z));
    c.get("update", g);
    let mut bent = ExtendedKalmanFilter::<N, 2, T>::new(vecn(&x), mat(&RM::diag(&p)), mat(&q), mat(&RM::diag(&r)));
    let g = bent.update(&Gains { at, h }, vecn(&z));
    c.get("update", g);
    for (s, k) in [(linear.state(), linear.covariance()), (bent.state(), bent.covariance())] {
        for i in 0..N {
            let (var, mean, ratio) = match at.iter().position(|a| *a == i) {
                Some(j) => {
                    let t = dd(h[j]) * dd(h[j]) * dd(p[i]) + dd(r[j]);
                    (dd(p[i]) * dd(r[j]) / t, dd(x[i]) + dd(p[i]) * dd(h[j]) / t * (dd(z[j]) - dd(h[j]) * dd(x[i])), h[j] * h[j] * p[i] / r[j])
                }
                None => (dd(p[i]), dd(x[i]), 0.0),
            };
            c.near("as sure as the two allow", k[(i, i)].d(), var.f(), var.f() * (64.0 * e + 64.0 * e * e * ratio));
            c.near("between the two", s[i].d(), mean.f(), 64.0 * e * (x[i].abs() + mean.f().abs() + 40.0));
            for j in 0..N {
                if i != j {
                    c.ok(k[(i, j)].d() == 0.0, "unrelated stays unrelated", || format!("{:e}", k[(i, j)].d()));
                }
            }
        }
    }
    c.hit("starts from nothing");
}
struct Gains {
    at: [usize; 2],
    h: [f64; 2],
}
impl VectorFn<3, 2> for Gains {
    fn eval<S: Numeric>(&self, x: &[S; 3]) -> [S; 2] {
        core::array::from_fn(|i| x[self.at[i]] * S::from_f64(self.h[i]))
    }
}

// ---- ready-made models ----
fn turning<T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let dt = T::t(c.lu(-3.0, 0.5)).d();
    let m = ConstantTurnAndSpeed { timestep: dt };
    let pi = core::f64::consts::PI;
    let x: [f64; 5] = [
        c.f(-10.0, 10.0),
        c.f(-10.0, 10.0),
        if c.p(0.2) { c.pick(&[0.0, pi, -pi, 0.5 * pi]) } else { c.f(-4.0, 4.0) },
        if c.p(0.1) { 0.0 } else { c.f(-8.0, 8.0) },
        match c.us(0, 4) {
            0 => 0.0,
            1 => c.ls(-12.0, -3.0),
            2 => c.ls(-7.0, -5.0),
            _ => c.f(-4.0, 4.0) / dt.max(0.25),
        },
    ];
    let x = x.map(|v| T::t(v).d());
    c.note("timestep, state", &(dt, x));
    let y = m.eval(&x.map(T::t)).map(|v| v.d());
    // Rolling along an arc: the integral of the heading's direction, term by term.
    let roll = |x: [DD; 5]| -> [DD; 5] {
        let d = dd(dt);
        let half = x[4] * d * dd(0.5);
        let sc = if half.f().abs() < 1e-3 {
            let h = half * half;
            dd(1.0) - h / dd(6.0) * (dd(1.0) - h / dd(20.0) * (dd(1.0) - h / dd(42.0) * (dd(1.0) - h / dd(72.0))))
        } else {
            half.sincos().0 / half
        };
        let (s, k) = (x[2] + half).sincos();
        [x[0] + x[3] * d * sc * k, x[1] + x[3] * d * sc * s, x[2] + x[4] * d, x[3], x[4]]
    };
    let xs = x.map(dd);
    let w = roll(xs);
    let run = x[3].abs() * dt;
    for i in 0..2 {
        c.near("along the arc", y[i], w[i].f(), 16.0 * e * (x[i].abs() + run * (1.0 + x[2].abs() + (x[4] * dt).abs())));
    }
    let turn = (y[2] - w[2].f()).rem_euclid(2.0 * pi);
    let te = 16.0 * e * (4.0 + x[2].abs() + (x[4] * dt).abs());
    c.ok(turn.min(2.0 * pi - turn) <= te, "heading", || format!("{} against {}", y[2], w[2].f()));
    c.ok(y[2] > -pi - te && y[2] <= pi + te, "heading folded", || format!("{}", y[2]));
    c.eq("speed and turn rate hold", (y[3], y[4]), (x[3], x[4]));
    // The slopes the filters rely on.
    let j = c.us(0, 4);
    let h = 1e-9;
    let mut up = xs;
    let mut dn = xs;
    up[j] = up[j] + dd(h);
    dn[j] = dn[j] - dd(h);
    let (u, d) = (roll(up), roll(dn));
    let seeded: [Dual<T>; 5] = core::array::from_fn(|i| Dual::new(T::t(x[i]), T::t(if i == j { 1.0 } else { 0.0 })));
    let g = m.eval(&seeded);
    for i in 0..5 {
        let want = ((u[i] - d[i]) / dd(2.0 * h)).f();
        let sc = 1.0 + (run + x[3].abs() * dt * dt + dt) * (1.0 + x[2].abs() + (x[4] * dt).abs()) * (1.0 + dt);
        c.near("slopes along the arc", g[i].deriv.d(), want, (64.0 * e + 1e-11) * sc);
    }
    c.hit(if x[4] == 0.0 { "straight runs" } else { "turns" });
    // Driven by the unscented filter, whose points must not be folded apart.
    if !T::F32 && c.p(0.5) {
        let p = cov::<f64>(c, 5).scale(0.01);
        let p = sym::<f64>(&p);
        let a = c.pick(&[1e-3, 0.1, 0.3]);
        let mut k = c.get("tuning", UnscentedKalmanFilter::<5, 2, f64>::new(vecn(&x), mat(&p), mat(&p), Matrix::identity()).with_scaling(a, 2.0, 0.0));
        let wt = weights(5, a, 2.0, 0.0);
        let xm = RM::col(&x);
        let Some(cl) = Cloud::around(&xm, &p, wt.spread, 0.0) else { return };
        let outs: Vec<[DD; 5]> = std::iter::once(&cl.centre).chain(&cl.side).map(|v| roll(core::array::from_fn(|i| v.at(i, 0)))).collect();
        let turns: Vec<f64> = outs.iter().map(|o| ((o[2].f() + pi) / (2.0 * pi)).floor()).collect();
        let apart = turns.iter().any(|t| *t != turns[0]);
        let col = |o: &[DD; 5]| {
            let mut m = RM::zeros(5, 1);
            for i in 0..5 {
                *m.at_mut(i, 0) = o[i];
            }
            m
        };
        let cl = Cloud { centre: col(&outs[0]), side: outs[1..].iter().map(col).collect() };
        let mean = cl.mean(&wt);
        let s = cl.spread(&mean, &cl, &mean, &wt).add(&p);
        let g = k.predict(&m);
        c.get("predict", g);
        let got = k.covariance();
        let tag = if apart { "points either side of half a turn" } else { "points along the arc" };
        let tol = 1e-5 * (1.0 + mx(&s)) * (1.0 + cl.size());
        close(c, tag, &RM::of(&got), &s, tol);
        let st = k.state();
        for i in [0, 1, 3, 4] {
            c.near(tag, st[i], mean.f(i, 0), tol);
        }
        let turn = (st[2] - mean.f(2, 0)).rem_euclid(2.0 * pi);
        c.ok(turn.min(2.0 * pi - turn) <= tol, tag, || format!("heading {} against {}", st[2], mean.f(2, 0)));
        c.hit("unscented turns");
    }
}
fn direct<T: Fl>(c: &mut Case) {
    let ix: [usize; 3] = core::array::from_fn(|_| c.us(0, 5));
    let r = DirectMeasurement::<5, 3>::try_new(ix);
    if ix.iter().any(|i| *i > 4) {
        c.eq("no such component", r.err(), Some(E::StateIndexOutOfRange));
        c.hit("missing components");
    } else {
        let m = c.get("direct", r);
        c.eq("indices", m.indices(), ix);
        let x: [f64; 5] = c.arr(|c| c.ls(-3.0, 3.0)).map(|v: f64| T::t(v).d());
        let y = m.eval(&x.map(T::t));
        for i in 0..3 {
            c.eq("reads the component", y[i].d(), x[ix[i]]);
        }
        let h = slope(&m, &RM::col(&x));
        close(c, "one slope per reading", &h, &RM::from_fn(3, 5, |i, j| (j == ix[i]) as u8 as f64), 0.0);
        c.hit("direct readings");
    }
    // Residuals, with the angles folded.
    let pi = core::f64::consts::PI;
    let (a, b): ([f64; 3], [f64; 3]) = (c.arr(|c| T::t(c.f(-7.0, 7.0)).d()), c.arr(|c| T::t(c.f(-7.0, 7.0)).d()));
    let ang: Vec<usize> = (0..4).filter(|_| c.p(0.5)).collect();
    let r = residual_with_wrapped_angles::<3, T>(vecn(&a), vecn(&b), &ang);
    for i in 0..3 {
        let d = a[i] - b[i];
        let t = 16.0 * T::EPS * (1.0 + a[i].abs() + b[i].abs());
        if ang.contains(&i) {
            let k = (r[i].d() - d) / (2.0 * pi);
            c.near("whole turns apart", k, k.round(), t);
            c.ok(r[i].d() > -pi - t && r[i].d() <= pi + t, "folded", || format!("{}", r[i].d()));
            c.hit("folded residuals");
        } else {
            c.near("plain difference", r[i].d(), d, t);
        }
    }
}

fn main() {
    vmon::run("C26", |s| {
        s.rule("every prediction and update, from the filter's actual previous state, vs a double-double Kalman step (exact Jacobians, sigma points); whole histories vs the double-double run and the batch least-squares fit in any order; covariances symmetric and not below zero; refusals leave the estimate alone");
        s.assume("models up to 5 states and 3 readings, covariances with condition below 1e4, f32 unscented spread alpha of 0.3 or more");
        macro_rules! both {
            ($n:literal,$q:expr,$f:expr,$g:expr) => {
                s.monitor($n, $q, 20, |c| if c.p(0.35) { $f(c) } else { $g(c) })
            };
        }
        both!("linear-1-1", 24000, linear::<1, 1, f32>, linear::<1, 1, f64>);
        both!("linear-2-1", 24000, linear::<2, 1, f32>, linear::<2, 1, f64>);
        both!("linear-3-2", 16000, linear::<3, 2, f32>, linear::<3, 2, f64>);
        both!("linear-4-3", 8000, linear::<4, 3, f32>, linear::<4, 3, f64>);
        both!("linear-7-4", 1500, linear::<7, 4, f32>, linear::<7, 4, f64>);
        both!("linear-9-2", 800, linear::<9, 2, f32>, linear::<9, 2, f64>);
        both!("linear-2-5", 4000, linear::<2, 5, f32>, linear::<2, 5, f64>);
        s.monitor("history-2-1", 8000, 20, history::<2, 1>);
        s.monitor("history-4-2", 3000, 20, history::<4, 2>);
        both!("extended-2-1", 16000, extended::<2, 1, f32>, extended::<2, 1, f64>);
        both!("extended-3-2", 16000, extended::<3, 2, f32>, extended::<3, 2, f64>);
        both!("extended-5-3", 4000, extended::<5, 3, f32>, extended::<5, 3, f64>);
        both!("unscented-1-1", 10000, unscented::<1, 1, f32>, unscented::<1, 1, f64>);
        both!("unscented-2-1", 10000, unscented::<2, 1, f32>, unscented::<2, 1, f64>);
        both!("unscented-3-2", 10000, unscented::<3, 2, f32>, unscented::<3, 2, f64>);
        both!("unscented-5-3", 2400, unscented::<5, 3, f32>, unscented::<5, 3, f64>);
        both!("extended-2-4", 4000, extended::<2, 4, f32>, extended::<2, 4, f64>);
        both!("unscented-2-4", 2400, unscented::<2, 4, f32>, unscented::<2, 4, f64>);
        both!("unscented-8-3", 600, unscented::<8, 3, f32>, unscented::<8, 3, f64>);
        both!("unscented-edges", 4000, unscented_edges::<f32>, unscented_edges::<f64>);
        both!("unknown-start", 12000, unknown_start::<f32>, unknown_start::<f64>);
        both!("turning", 24000, turning::<f32>, turning::<f64>);
        both!("direct", 24000, direct::<f32>, direct::<f64>);
        for (e, n) in [
            ("predictions", 10000),
            ("driven predictions", 4000),
            ("updates", 10000),
            ("starts from nothing", 6000),
            ("broken at one point", 1000),
            ("refused readings", 2000),
            ("refused noise", 2000),
            ("normalized innovations", 10000),
            ("histories", 1000),
            ("least-squares fits", 1000),
            ("extended predictions", 5000),
            ("predictions by differences", 1000),
            ("extended updates", 5000),
            ("residuals handed in", 2000),
            ("extended refusals", 1000),
            ("unscented predictions", 5000),
            ("unscented updates", 5000),
            ("straight predictions", 1000),
            ("straight updates", 1000),
            ("a second reading", 2000),
            ("left as it comes", 1000),
            ("unscented refusals", 1000),
            ("unscented edges", 1000),
            ("turns", 5000),
            ("straight runs", 1000),
            ("unscented turns", 3000),
            ("direct readings", 2000),
            ("missing components", 2000),
        ] {
            s.require(e, n);
        }
    });
}
