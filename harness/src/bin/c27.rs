//! C27: the error-state Kalman filter that tracks a moving body from its inertial unit.
use multicalc::error::EstimationError as E;
use multicalc::estimation::*;
use multicalc::scalar::Numeric;
use multicalc::spatial::{Quaternion, SO3};
use multicalc::{Matrix, Vector};
use vmon::kf::*;
use vmon::rot::*;
use vmon::*;

const D: usize = 15;

/// The running guess, in double-double.
#[derive(Clone, Copy, Debug)]
struct Nom {
    p: V,
    v: V,
    q: Q,
    bg: V,
    ba: V,
}
impl Nom {
    fn of<T: Fl>(s: &NominalState<T>) -> Nom {
        let f = |x: Vector<3, T>| -> V { core::array::from_fn(|i| dd(x[i].d())) };
        Nom {
            p: f(s.position()),
            v: f(s.velocity()),
            q: qunit(s.orientation().quaternion().as_array().map(|x| dd(x.d()))),
            bg: f(s.gyroscope_bias()),
            ba: f(s.accelerometer_bias()),
        }
    }
    fn to<T: Fl>(self) -> NominalState<T> {
        let f = |x: V| -> Vector<3, T> { vecn(&vf(x)) };
        let q = self.q.map(|x| T::t(x.f()));
        NominalState::new(f(self.p), f(self.v), SO3::from_quaternion(Quaternion::from_array(q)), f(self.bg), f(self.ba))
    }
    fn plus(self, d: &[DD]) -> Nom {
        let t = |k: usize| -> V { [d[k], d[k + 1], d[k + 2]] };
        Nom { p: vadd(self.p, t(0)), v: vadd(self.v, t(3)), q: qmul(self.q, qexp(t(6))), bg: vadd(self.bg, t(9)), ba: vadd(self.ba, t(12)) }
    }
    fn less(self, o: Nom) -> [DD; D] {
        let r = qlog(qmul(qconj(o.q), self.q));
        let g = [vsub(self.p, o.p), vsub(self.v, o.v), r, vsub(self.bg, o.bg), vsub(self.ba, o.ba)];
        core::array::from_fn(|i| g[i / 3][i % 3])
    }
    /// One sample of the unit later, the push held as it points now.
    fn step(self, w: V, a: V, dt: DD, g: V) -> Nom {
        let push = vadd(qrot(self.q, vsub(a, self.ba)), g);
        Nom {
            p: vadd(self.p, vadd(vscale(self.v, dt), vscale(push, dt * dt * dd(0.5)))),
            v: vadd(self.v, vscale(push, dt)),
            q: qmul(self.q, qexp(vscale(vsub(w, self.bg), dt))),
            ..self
        }
    }
    fn size(self) -> f64 {
        [self.p, self.v, self.bg, self.ba].iter().flat_map(|v| v.iter()).fold(1.0f64, |m, x| m.max(x.f().abs()))
    }
}
fn gen_nom<T: Fl>(c: &mut Case) -> Nom {
    let (sp, sv, sb) = (c.lu(-1.0, 2.0), c.lu(-1.0, 1.0), c.lu(-3.0, 0.0));
    let mut v = |s: f64| -> V { v_of(c.arr::<3>(|c| c.f(-s, s)).map(|x| T::t(x).d())) };
    let (p, v_, bg, ba) = (v(sp), v(sv), v(sb), v(sb));
    let q = q_of(gen_rot(c));
    let n = Nom { p, v: v_, q, bg, ba };
    Nom::of::<T>(&n.to::<T>())
}
/// Same guess, to the last bit, where only rotations are compared loosely.
fn same<T: Fl>(a: &NominalState<T>, b: &NominalState<T>) -> bool {
    a == b
}
fn near_nom(c: &mut Case, tag: &str, got: Nom, want: Nom, tol: f64, ang: f64) {
    let d = got.less(want);
    for (i, x) in d.iter().enumerate() {
        c.near(tag, x.f(), 0.0, if (6..9).contains(&i) { ang } else { tol });
    }
}

// ---- sensors ----
#[derive(Clone, Copy, Debug)]
struct Sense {
    kind: usize,
    axis: usize,
    at: [f64; 3],
}
impl Sense {
    fn of<T: Fl>(c: &mut Case, n: Nom, ok: bool) -> Sense {
        loop {
            let mut s = Sense { kind: c.us(0, 9), axis: c.us(0, 2), at: c.arr::<3>(|c| c.f(-8.0, 8.0)).map(|x| T::t(x).d()) };
            if !ok {
                s = Sense { kind: 4, axis: 0, at: vf(n.p) };
                return s;
            }
            if s.kind == 4 && vnorm(vsub(v_of(s.at), n.p)).f() < 0.5 {
                continue;
            }
            if s.kind == 7 {
                let x = qrot(n.q, v_of([1.0, 0.0, 0.0]));
                if x[0].f().hypot(x[1].f()) < 0.3 {
                    continue;
                }
            }
            return s;
        }
    }
    /// What it reads, by hand.
    fn read(&self, n: Nom) -> DD {
        let k = self.axis;
        let at = v_of(self.at);
        let body = |v: V| qrot(qconj(n.q), v);
        match self.kind {
            0 => n.p[k],
            1 => n.v[k],
            2 => body(n.v)[k],
            3 => body(at)[k] + n.ba[k],
            4 => vnorm(vsub(at, n.p)),
            5 => body(vsub(at, n.p))[k],
            6 => n.bg[k] * dd(3.0) - n.ba[k],
            7 => {
                let x = qrot(n.q, v_of([1.0, 0.0, 0.0]));
                DD::atan2_(x[1], x[0])
            }
            8 => (vadd(n.p, qrot(n.q, at)))[k],
            _ => body(at)[k],
        }
    }
    fn size(&self, n: Nom) -> f64 {
        let s = n.size();
        match self.kind {
            7 => 12.0,
            4 => 6.0 * (s + 20.0),
            6 => 4.0 * s,
            _ => 3.0 * (s + 20.0),
        }
    }
    fn eval<S: Numeric>(&self, s: &NominalState<S>) -> S {
        let k = self.axis;
        let at: Vector<3, S> = Vector::new(self.at.map(S::from_f64));
        let body = |v: Vector<3, S>| s.orientation().inverse().act(v);
        match self.kind {
            0 => s.position()[k],
            1 => s.velocity()[k],
            2 => body(s.velocity())[k],
            3 => body(at)[k] + s.accelerometer_bias()[k],
            4 => {
                let d = at - s.position();
                (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt()
            }
            5 => body(at - s.position())[k],
            6 => s.gyroscope_bias()[k] * S::from_f64(3.0) - s.accelerometer_bias()[k],
            7 => {
                let x = s.orientation().act(Vector::new([S::ONE, S::ZERO, S::ZERO]));
                x[1].atan2(x[0])
            }
            8 => (s.position() + s.orientation().act(at))[k],
            _ => s.orientation().to_matrix().transpose().mul_vec(at, k),
        }
    }
}
trait Row<S> {
    fn mul_vec(&self, v: Vector<3, S>, k: usize) -> S;
}
impl<S: Numeric> Row<S> for Matrix<3, 3, S> {
    fn mul_vec(&self, v: Vector<3, S>, k: usize) -> S {
        self[(k, 0)] * v[0] + self[(k, 1)] * v[1] + self[(k, 2)] * v[2]
    }
}
struct Bank<const M: usize>([Sense; M]);
impl<const M: usize> NominalStateFn<M> for Bank<M> {
    fn eval<S: Numeric>(&self, s: &NominalState<S>) -> [S; M] {
        core::array::from_fn(|i| self.0[i].eval(s))
    }
}
impl<const M: usize> Bank<M> {
    fn of<T: Fl>(c: &mut Case, n: Nom) -> Self {
        Bank(core::array::from_fn(|_| Sense::of::<T>(c, n, true)))
    }
    fn reads(&self, n: Nom) -> RM {
        let mut m = RM::zeros(M, 1);
        for i in 0..M {
            *m.at_mut(i, 0) = self.0[i].read(n);
        }
        m
    }
    /// How each reading moves with each error, by differencing.
    fn slope(&self, n: Nom) -> RM {
        let h = dd(1e-9);
        let mut m = RM::zeros(M, D);
        for j in 0..D {
            let mut d = [dd(0.0); D];
            d[j] = h;
            let a = self.reads(n.plus(&d));
            d[j] = -h;
            let b = self.reads(n.plus(&d));
            for i in 0..M {
                let mut u = a.at(i, 0) - b.at(i, 0);
                if self.0[i].kind == 7 && u.f().abs() > 1.0 {
                    let t = dd(2.0) * DD::atan2_(dd(0.0), dd(-1.0));
                    u = if u.f() > 0.0 { u - t } else { u + t };
                }
                *m.at_mut(i, j) = u / (h + h);
            }
        }
        m
    }
    fn size(&self, n: Nom) -> f64 {
        self.0.iter().fold(1.0, |m, s| m.max(s.size(n)))
    }
}

fn big_cov<T: Fl>(c: &mut Case) -> RM {
    match c.us(0, 9) {
        0 => RM::zeros(D, D),
        1 | 2 => {
            let d: Vec<f64> = (0..D).map(|_| T::t(c.lu(-4.0, 1.0)).d()).collect();
            RM::diag(&d)
        }
        _ => cov::<T>(c, D),
    }
}
fn gen_noise<T: Fl>(c: &mut Case) -> ImuNoise<T> {
    let mut f = || T::t(if c.p(0.1) { 0.0 } else { c.lu(-4.0, 0.5) });
    ImuNoise {
        gyroscope_noise_density: f(),
        accelerometer_noise_density: f(),
        gyroscope_bias_random_walk: f(),
        accelerometer_bias_random_walk: f(),
    }
}
fn v3<T: Fl>(c: &mut Case, s: f64) -> (Vector<3, T>, V) {
    let a = c.arr::<3>(|c| c.f(-s, s));
    let v: Vector<3, T> = vecn(&a);
    (v, v_of([v[0].d(), v[1].d(), v[2].d()]))
}
/// What the step does to a small error, by differencing the motion itself.
fn carried(n: Nom, w: V, a: V, dt: DD, g: V) -> RM {
    let to = n.step(w, a, dt, g);
    let h = dd(1e-9);
    let mut m = RM::zeros(D, D);
    for j in 0..D {
        let mut d = [dd(0.0); D];
        d[j] = h;
        let x = n.plus(&d).step(w, a, dt, g).less(to);
        d[j] = -h;
        let y = n.plus(&d).step(w, a, dt, g).less(to);
        for i in 0..D {
            *m.at_mut(i, j) = (x[i] - y[i]) / (h + h);
        }
    }
    m
}
/// The stated carry: exact where it says so, straight-line elsewhere.
fn stated(exact: &RM, dt: f64) -> RM {
    let mut m = exact.clone();
    for i in 0..3 {
        for j in 3..D {
            *m.at_mut(i, j) = dd(if j == 3 + i { dt } else { 0.0 });
        }
        for j in 9..12 {
            *m.at_mut(6 + i, j) = dd(if j == 9 + i { -dt } else { 0.0 });
        }
    }
    m
}

fn run<const M: usize, const W: usize, T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let n0 = gen_nom::<T>(c);
    let p0 = big_cov::<T>(c);
    let (mut noise, mut r) = (gen_noise::<T>(c), cov::<T>(c, M));
    let joseph = c.p(0.7);
    let (g, gd) = if c.p(0.5) { (vecn(&[0.0, 0.0, -9.81]), v_of([0.0, 0.0, T::t(-9.81).d()])) } else { v3::<T>(c, 10.0) };
    let mut k = ErrorStateKalmanFilter::<M, T>::new(n0.to(), mat(&p0), noise, mat(&r));
    if g.as_array() != &[T::t(0.0), T::t(0.0), T::t(-9.81)] {
        k = k.with_gravity(g);
    }
    if !joseph {
        k = k.with_covariance_update(CovarianceUpdate::Naive);
    }
    c.ok(same(&k.nominal_state(), &n0.to::<T>()) && RM::of(&k.covariance()).fs() == p0.fs(), "starts where it was told", String::new);
    c.eq("no reading yet", k.normalized_innovation_squared().err(), Some(E::NotPositiveDefinite));
    c.ok(mx(&RM::ofv(&k.innovation())) == 0.0 && mx(&RM::of(&k.innovation_covariance())) == 0.0, "no reading yet", String::new);
    for _ in 0..c.us(1, 8) {
        let before = k.nominal_state();
        let (n, p) = (Nom::of(&before), RM::of(&k.covariance()));
        if !p.finite() || mx(&p) > 1e6 || n.size() > 1e4 {
            break;
        }
        let kept = |k: &ErrorStateKalmanFilter<M, T>| same(&k.nominal_state(), &before) && RM::of(&k.covariance()).fs() == p.fs();
        match c.us(0, 11) {
            0 => {
                let v = gen_nom::<T>(c);
                k.set_nominal_state(v.to());
                c.ok(same(&k.nominal_state(), &v.to::<T>()) && RM::of(&k.covariance()).fs() == p.fs(), "placed", String::new);
                noise = gen_noise::<T>(c);
                k.set_imu_noise(noise);
                r = cov::<T>(c, M);
                k.set_measurement_noise(mat(&r));
                continue;
            }
            1 => {
                let bad = T::t(c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]));
                let (mut w, mut a, mut dt) = (v3::<T>(c, 3.0).0, v3::<T>(c, 20.0).0, T::t(0.01));
                match c.us(0, 2) {
                    0 => w[c.us(0, 2)] = bad,
                    1 => a[c.us(0, 2)] = bad,
                    _ => dt = bad,
                }
                c.eq("a sample that is no number", k.predict(w, a, dt).err(), Some(E::NonFinite));
                let bank = Bank::<M>::of::<T>(c, n);
                let mut z = Vector::<M, T>::zeros();
                z[c.us(0, M - 1)] = bad;
                let errs = [k.update(&bank, z).err(), k.update_with_residual(&bank, z).err()];
                c.eq("a reading that is no number", errs, [Some(E::NonFinite); 2]);
                let other = Bank::<W>::of::<T>(c, n);
                let mut z = Vector::<W, T>::zeros();
                z[c.us(0, W - 1)] = bad;
                c.eq("a reading that is no number", k.update_other(&other, z, Matrix::identity()).err(), Some(E::NonFinite));
                let broken = Bank::<M>([Sense::of::<T>(c, n, false); M]);
                c.eq("a sensor with no slope", k.update_with_residual(&broken, Vector::zeros()).err(), Some(E::NonFinite));
                let hs = bank.size(n);
                let down = RM::eye(M).scale(-1.0 - 300.0 * hs * hs * mx(&p));
                k.set_measurement_noise(mat(&down));
                let z = vecn(&rcol::<T>(c, M, 3.0).fs());
                c.eq("noise below nothing", k.update(&bank, z).err(), Some(E::NotPositiveDefinite));
                k.set_measurement_noise(mat(&r));
                c.ok(kept(&k), "a refusal changes nothing", String::new);
                c.hit("refusals");
                continue;
            }
            2..=5 => {
                let dt = T::t(c.lu(-4.0, 0.0));
                let (sw, sa) = (c.lu(-2.0, 1.0), c.lu(-1.0, 1.5));
                let ((w, wd), (a, ad)) = (v3::<T>(c, sw), v3::<T>(c, sa));
                let d = dt.d();
                let f = k.error_state_transition(w, a, dt);
                let exact = carried(n, wd, ad, dd(d), gd);
                let want = stated(&exact, d);
                let (push, turn) = (vnorm(vsub(ad, n.ba)).f() + mx3(ad) + mx3(n.ba), vnorm(vsub(wd, n.bg)).f() + mx3(wd) + mx3(n.bg));
                // How big each entry can be on the way to its value.
                let mut fab = RM::eye(D);
                for i in 0..3 {
                    *fab.at_mut(i, 3 + i) = dd(d);
                    *fab.at_mut(6 + i, 9 + i) = dd(d);
                    for j in 0..3 {
                        *fab.at_mut(3 + i, 6 + j) = dd(2.0 * push * d);
                        *fab.at_mut(3 + i, 12 + j) = dd(d);
                        *fab.at_mut(6 + i, 6 + j) = dd(if i == j { 1.0 } else { turn * d + 8.0 * e });
                    }
                }
                let got = RM::of(&f);
                for i in 0..D {
                    for j in 0..D {
                        // One straight, one turn taken by differencing: the differencing is good to far more digits.
                        let room = if want.f(i, j) == 0.0 && fab.f(i, j) == 0.0 { 0.0 } else { 16.0 * e * fab.f(i, j) + 1e-15 * e.sqrt() };
                        let tilt = if (6..9).contains(&i) && (6..9).contains(&j) { e * turn * d * 16.0 } else { 0.0 };
                        let dust = 1e-16 * (1.0 + push * d + turn);
                        c.near("how an error carries", got.f(i, j), want.f(i, j), room + tilt + if want.f(i, j).abs() < dust { 2.0 * dust } else { 0.0 });
                        let tight = if i < 3 { 0.5 * d * d * (2.0 * push + 1.0) } else { d * d * turn };
                        c.near("carry against the true motion", got.f(i, j), exact.f(i, j), 1.1 * tight + room + tilt + 2.0 * dust);
                    }
                }
                let q = k.predict(w, a, dt);
                c.get("predict", q);
                let to = n.step(wd, ad, dd(d), gd);
                let got = Nom::of(&k.nominal_state());
                let s = e * 16.0;
                c.ok(vf(got.bg) == vf(n.bg) && vf(got.ba) == vf(n.ba), "offsets are left alone", String::new);
                for i in 0..3 {
                    let pu = push + mx3(gd);
                    c.near("moved", got.p[i].f(), to.p[i].f(), s * (mx3(n.p) * 0.25 + (mx3(n.v) + pu * d) * d));
                    c.near("sped up", got.v[i].f(), to.v[i].f(), s * (mx3(n.v) * 0.25 + pu * d));
                }
                c.near("turned", qangle(got.q, to.q), 0.0, s * (1.0 + turn * d));
                let lone = k.nominal_state();
                let by_hand = before.propagated(w, a, dt, g);
                c.ok(same(&lone, &by_hand), "the same step on its own", || format!("{lone:?} {by_hand:?}"));
                // The spread, entry by entry.
                let sq = |x: T| x.d() * x.d();
                let mut add = RM::zeros(D, D);
                for i in 0..3 {
                    *add.at_mut(3 + i, 3 + i) = dd(sq(noise.accelerometer_noise_density) * d * d);
                    *add.at_mut(6 + i, 6 + i) = dd(sq(noise.gyroscope_noise_density) * d * d);
                    *add.at_mut(9 + i, 9 + i) = dd(sq(noise.gyroscope_bias_random_walk) * d);
                    *add.at_mut(12 + i, 12 + i) = dd(sq(noise.accelerometer_bias_random_walk) * d);
                }
                let wp = want.mul(&p).mul(&want.t()).add(&add);
                let wp = wp.add(&wp.t()).scale(0.5);
                let room = fab.mul(&p.abs()).mul(&fab.t()).add(&add);
                let np = RM::of(&k.covariance());
                for i in 0..D {
                    for j in 0..D {
                        let t = e * 48.0 * (room.f(i, j) + room.f(j, i));
                        c.near("predicted uncertainty", np.f(i, j), wp.f(i, j), t + 1e-30);
                        c.ok(np.f(i, j) == np.f(j, i), "exactly symmetric", || format!("{} {}", np.f(i, j), np.f(j, i)));
                    }
                }
                if lowest(&wp) > -1e-12 * mx(&p) {
                    shape(c, &np, e * 48.0 * mx(&room));
                }
                c.hit("predictions");
            }
            6 => {
                // A known error folded in.
                let big = c.lu(-8.0, 0.3);
                let d = rcol::<T>(c, D, big);
                let t = core::array::from_fn::<DD, D, _>(|i| d.at(i, 0));
                k.inject_error_and_reset(vecn(&d.fs()));
                let got = Nom::of(&k.nominal_state());
                near_nom(c, "folded in", got, n.plus(&t), 2.0 * e * (n.size() + big), 16.0 * e * (1.0 + big));
                let (wp, room) = moved_over(&p, [t[6], t[7], t[8]]);
                let np = RM::of(&k.covariance());
                for i in 0..D {
                    for j in 0..D {
                        c.near("spread moved over", np.f(i, j), wp.f(i, j), 16.0 * e * room.f(i, j) + 1e-30);
                    }
                }
                c.hit("errors folded in");
            }
            7 => {
                // Evened out and lifted.
                let floor = T::t(c.pick(&[0.0, 1e-6, 1e-3, 1.0, 1e-9]));
                let mut lop = p.clone();
                if c.p(0.5) {
                    // A direction gone negative.
                    let at = c.us(0, D - 1);
                    *lop.at_mut(at, at) = dd(T::t(lop.f(at, at) - c.lu(-6.0, 1.0)).d());
                }
                let mut z = ErrorStateKalmanFilter::<M, T>::new(before, mat(&lop), noise, mat(&r));
                let q = z.condition_covariance(floor);
                c.get("condition", q);
                let np = RM::of(&z.covariance());
                let ev = lop.add(&lop.t()).scale(0.5);
                let f = RM::eye(D).scale(floor.d());
                let (up, over) = (np.sub(&ev), np.sub(&f));
                let t = e * 64.0 * D as f64 * (mx(&ev) + floor.d()).max(1e-300);
                let low = [lowest(&up), lowest(&over)];
                c.ok(low[0] >= -t && low[1] >= -t, "lifted, never lowered, and high enough", || format!("{low:?} (rounding {t})"));
                let both = up.mul(&over);
                c.ok(mx(&both) <= t * D as f64 * (mx(&up) + mx(&over)) * 2.0, "nothing lifted that was high enough", || format!("{} {t}", mx(&both)));
                c.ok(lopsided(&np) <= t, "symmetric", String::new);
                c.ok(same(&z.nominal_state(), &before), "the guess is left alone", String::new);
                let mut bad = p.clone();
                *bad.at_mut(c.us(0, D - 1), c.us(0, D - 1)) = dd(f64::NAN);
                let mut z = ErrorStateKalmanFilter::<M, T>::new(before, mat(&bad), noise, mat(&r));
                c.eq("no number", z.condition_covariance(floor).err(), Some(E::NonFinite));
                c.hit("spreads conditioned");
            }
            8 => {
                // Against a known truth.
                let d = rcol::<T>(c, D, 0.4);
                let t = core::array::from_fn::<DD, D, _>(|i| d.at(i, 0));
                let truth = n.plus(&t).to::<T>();
                let td = Nom::of(&truth).less(n);
                let mut err = RM::zeros(D, 1);
                for (i, x) in td.iter().enumerate() {
                    *err.at_mut(i, 0) = *x;
                }
                let ef = truth.error_from(before);
                close(c, "the error between two guesses", &RM::ofv(&ef), &err, 8.0 * e * (n.size() + 1.0));
                let back = before.plus_error(ef);
                near_nom(c, "there and back", Nom::of(&back), Nom::of(&truth), 16.0 * e * (n.size() + 1.0), 32.0 * e);
                let low = lowest(&p);
                let cond = mx(&p) * D as f64 / low;
                let v = k.normalized_estimation_error_squared(truth);
                if low > 0.0 && cond * e < 1e-4 {
                    let want = err.t().mul(&p.inv().unwrap().mul(&err)).f(0, 0);
                    let v = c.get("against the truth", v).d();
                    c.near("normalized estimation error", v, want, (64.0 * e * cond + 64.0 * e * (n.size() + 1.0) / 0.1) * (want + mx(&err).powi(2) * D as f64 / low) + 1e-12);
                    c.hit("errors weighed");
                } else if mx(&p) == 0.0 {
                    c.eq("certain of everything", v.err(), Some(E::NotPositiveDefinite));
                }
                continue;
            }
            9 | 10 => {
                let bank = Bank::<M>::of::<T>(c, n);
                let plain = c.p(0.5);
                let at = bank.reads(n);
                let hs = bank.size(n);
                let mut z = RM::zeros(M, 1);
                for i in 0..M {
                    let o = c.normal() * c.lu(-3.0, 0.5);
                    *z.at_mut(i, 0) = dd(T::t(if plain { at.f(i, 0) + o } else { o }).d());
                }
                let y = if plain { z.sub(&at) } else { z.clone() };
                let yabs = if plain { mx(&z) + hs } else { mx(&z) };
                let old = k;
                let go = if plain { k.update(&bank, vecn(&z.fs())) } else { k.update_with_residual(&bank, vecn(&z.fs())) };
                if !fold_check::<M, M, T>(c, &old, &k, go, &bank, n, &p, &r, y, yabs, joseph) {
                    break;
                }
                if plain {
                    let w = z.sub(&at);
                    close(c, "innovation", &RM::ofv(&k.innovation()), &w, e * 16.0 * yabs);
                } else {
                    c.ok(RM::ofv(&k.innovation()).fs() == z.fs(), "innovation", String::new);
                }
                let h = bank.slope(n);
                let s = h.mul(&p).mul(&h.t()).add(&r);
                close(c, "innovation spread", &RM::of(&k.innovation_covariance()), &s, e * 64.0 * 15.0 * (hs * hs * mx(&p) * 15.0 + mx(&r)));
                nis(c, k.normalized_innovation_squared(), &RM::ofv(&k.innovation()), &RM::of(&k.innovation_covariance()), e);
                c.hit("updates");
            }
            _ => {
                let bank = Bank::<W>::of::<T>(c, n);
                let rw = cov::<T>(c, W);
                let z = rcol::<T>(c, W, 1.0);
                let old = k;
                let go = k.update_other(&bank, vecn(&z.fs()), mat(&rw));
                let yabs = mx(&z);
                if !fold_check::<M, W, T>(c, &old, &k, go, &bank, n, &p, &rw, z, yabs, joseph) {
                    break;
                }
                c.ok(k.innovation() == old.innovation() && k.innovation_covariance() == old.innovation_covariance(), "still the last reading of its own width", String::new);
                c.hit("updates of another width");
            }
        }
    }
}
fn mx3(v: V) -> f64 {
    vf(v).iter().fold(0.0f64, |m, x| m.max(x.abs()))
}
/// The spread carried over to the turned guess, and the sizes on the way.
fn moved_over(p: &RM, turn: V) -> (RM, RM) {
    let h = hat3(turn);
    let (mut g, mut ga) = (RM::eye(D), RM::eye(D));
    for i in 0..3 {
        for j in 0..3 {
            *g.at_mut(6 + i, 6 + j) = dd(if i == j { 1.0 } else { 0.0 }) - h.at(i, j) * dd(0.5);
            *ga.at_mut(6 + i, 6 + j) = g.at(6 + i, 6 + j).ab();
        }
    }
    (g.mul(p).mul(&g.t()), ga.mul(&p.abs()).mul(&ga.t()))
}
#[allow(clippy::too_many_arguments)]
fn fold_check<const M: usize, const W: usize, T: Fl>(
    c: &mut Case,
    old: &ErrorStateKalmanFilter<M, T>,
    k: &ErrorStateKalmanFilter<M, T>,
    go: Result<(), E>,
    bank: &Bank<W>,
    n: Nom,
    p: &RM,
    r: &RM,
    y: RM,
    yabs: f64,
    joseph: bool,
) -> bool {
    let e = T::EPS;
    let h = bank.slope(n);
    let hs = bank.size(n);
    let Some(w) = fold::<T>(&RM::zeros(D, 1), p, &h, hs, r, y, yabs, joseph) else {
        return go.is_ok() || *k == *old;
    };
    c.get("update", go);
    let t = core::array::from_fn::<DD, D, _>(|i| w.x.at(i, 0));
    let turn = mx3([t[6], t[7], t[8]]);
    if turn > 3.0 || w.tx > 0.1 {
        return false;
    }
    let got = Nom::of(&k.nominal_state());
    near_nom(c, "corrected", got, n.plus(&t), w.tx + 4.0 * e * (n.size() + mx(&w.x)), 3.0 * w.tx + 16.0 * e * (1.0 + turn));
    let (wp, room) = moved_over(&w.p, [t[6], t[7], t[8]]);
    let wp = wp.add(&wp.t()).scale(0.5);
    let np = RM::of(&k.covariance());
    let grow = (1.0 + turn).powi(2);
    let tol = 3.0 * grow * w.tp + 16.0 * e * mx(&room) + 4.0 * w.tx * (1.0 + turn) * mx(&w.p);
    close(c, "corrected uncertainty", &np, &wp, tol);
    c.ok(lopsided(&np) == 0.0, "exactly symmetric", || format!("{}", lopsided(&np)));
    if joseph && lowest(p) > -1e-12 * mx(p) {
        shape(c, &np, tol);
    }
    if turn > 0.1 {
        c.hit("large corrections");
    }
    true
}

/// The guess, its parts and the lift.
fn guess<T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let n = gen_nom::<T>(c);
    let s: NominalState<T> = n.to();
    c.ok(s.is_finite(), "made of numbers", String::new);
    let o = NominalState::at_rest(s.orientation());
    let z = Nom::of(&o);
    c.ok([z.p, z.v, z.bg, z.ba].iter().all(|v| mx3(*v) == 0.0) && o.orientation() == s.orientation(), "at rest", String::new);
    // Errors up to nearly half a turn come back.
    let (ax, ang) = (c.unit3(), c.pick(&[0.0, 1e-12, 1e-7, 1e-3, 0.3, 1.0, 2.0, 3.0, 3.1, 3.14]));
    let sz = c.lu(-3.0, 2.0);
    let mut d: Vec<f64> = (0..D).map(|_| T::t(c.f(-sz, sz)).d()).collect();
    for i in 0..3 {
        d[6 + i] = T::t(ax[i] * ang).d();
    }
    let to = s.plus_error(vecn(&d));
    let dv: Vec<DD> = d.iter().map(|x| dd(*x)).collect();
    near_nom(c, "an error folded in", Nom::of(&to), n.plus(&dv), 2.0 * e * (n.size() + sz), 16.0 * e * (1.0 + ang));
    let back = to.error_from(s);
    let sharp = 16.0 * e * (1.0 + ang);
    for i in 0..D {
        let t = if (6..9).contains(&i) {
            // Near half a turn the turn's way round is decided by its last digits.
            if ang > 3.13 { continue } else { 4.0 * sharp / (core::f64::consts::PI - ang).min(1.0) }
        } else {
            4.0 * e * (n.size() + sz)
        };
        c.near("there and back", back[i].d(), d[i], t);
    }
    let lift = s.lifted_to_dual();
    let pairs = |v: Vector<3, multicalc::scalar::Dual<T>>, w: Vector<3, T>| (0..3).all(|i| v[i].value == w[i] && v[i].deriv == T::ZERO);
    let q = lift.orientation().quaternion().as_array();
    let qs = s.orientation().quaternion().as_array();
    c.ok(
        pairs(lift.position(), s.position())
            && pairs(lift.velocity(), s.velocity())
            && pairs(lift.gyroscope_bias(), s.gyroscope_bias())
            && pairs(lift.accelerometer_bias(), s.accelerometer_bias())
            && (0..4).all(|i| (q[i].value.d() - qs[i].d()).abs() <= 4.0 * e && q[i].deriv.d().abs() <= 4.0 * e),
        "lifted as it stands",
        String::new,
    );
    let bad = T::t(c.pick(&[f64::NAN, f64::INFINITY]));
    let mut parts = [s.position(), s.velocity(), s.gyroscope_bias(), s.accelerometer_bias()];
    parts[c.us(0, 3)][c.us(0, 2)] = bad;
    let b = NominalState::new(parts[0], parts[1], s.orientation(), parts[2], parts[3]);
    c.ok(!b.is_finite(), "not made of numbers", String::new);
    // Half a step twice is the whole step when nothing turns and the push holds still.
    let (dt, g) = (T::t(c.lu(-3.0, 0.0)), Vector::new([T::t(0.0), T::t(0.0), T::t(-9.81)]));
    let still = s.gyroscope_bias();
    let (a, _) = v3::<T>(c, 10.0);
    let one = s.propagated(still, a, dt, g);
    let half = dt * T::t(0.5);
    let two = s.propagated(still, a, half, g).propagated(still, a, half, g);
    near_nom(c, "two half steps", Nom::of(&two), Nom::of(&one), 32.0 * e * (n.size() + 30.0), 16.0 * e);
    c.hit("guesses");
}

/// A datasheet figure is per root hertz: what a second of it adds does not depend on the tick.
fn datasheet(c: &mut Case) {
    let (n, walk) = (c.us(2, 200), c.p(0.5));
    let f = c.lu(-3.0, 0.0);
    let noise = ImuNoise {
        gyroscope_noise_density: if walk { 0.0 } else { f },
        accelerometer_noise_density: 0.0,
        gyroscope_bias_random_walk: if walk { f } else { 0.0 },
        accelerometer_bias_random_walk: 0.0,
    };
    let mut k = ErrorStateKalmanFilter::<1, f64>::new(NominalState::at_rest(SO3::identity()), Matrix::zeros(), noise, Matrix::identity());
    for _ in 0..n {
        let r = k.predict(Vector::zeros(), Vector::zeros(), 1.0 / n as f64);
        c.get("predict", r);
    }
    let got = if walk { k.covariance()[(9, 9)] } else { k.covariance()[(6, 6)] };
    let tag = if walk { "offset wander over a second" } else { "jitter per root hertz over a second" };
    c.near(tag, got, f * f, 1e-9 * f * f);
    c.hit("datasheet seconds");
}

/// A whole flight: the filter's claimed spread against the errors it really makes.
fn honest(c: &mut Case) {
    let runs = 24;
    let mut sum = 0.0;
    let steps = c.us(20, 60);
    let dt = c.lu(-2.0, -0.7);
    let noise = ImuNoise {
        gyroscope_noise_density: c.lu(-3.0, -1.5),
        accelerometer_noise_density: c.lu(-2.0, -0.5),
        gyroscope_bias_random_walk: c.lu(-4.0, -2.0),
        accelerometer_bias_random_walk: c.lu(-3.0, -1.5),
    };
    let spread: [f64; D] = core::array::from_fn(|i| match i / 3 {
        0 => 0.5,
        1 => 0.2,
        2 => 0.03,
        3 => 0.01,
        _ => 0.05,
    });
    let start = gen_nom::<f64>(c);
    let start = Nom { v: v_of([0.5, -0.3, 0.1]), p: v_of([1.0, 2.0, 0.0]), bg: v_of([0.0; 3]), ba: v_of([0.0; 3]), ..start };
    let every = c.us(2, 6);
    let fix = c.lu(-2.0, 0.0);
    for _ in 0..runs {
        let d: Vec<f64> = (0..D).map(|i| c.normal() * spread[i]).collect();
        let est: NominalState<f64> = start.to();
        let mut truth = est.plus_error(vecn(&d));
        let p0 = RM::diag(&spread.map(|s| s * s));
        let mut k = ErrorStateKalmanFilter::<3, f64>::new(est, mat(&p0), noise, mat(&RM::eye(3).scale(fix * fix)));
        let g = Vector::new([0.0, 0.0, -9.81]);
        for i in 0..steps {
            let t = i as f64 * dt;
            let (w, a) = (Vector::new([0.3 * t.sin(), 0.2, -0.4 * (0.7 * t).cos()]), Vector::new([0.5 * t.cos(), 0.2 * t.sin(), 9.81 + 0.3 * (2.0 * t).sin()]));
            // What the unit reads: the real motion, its offsets, and its jitter.
            truth = truth.propagated(w + truth.gyroscope_bias(), a + truth.accelerometer_bias(), dt, g);
            let jit = |c: &mut Case, s: f64| Vector::<3, f64>::from_fn(|_| c.normal() * s);
            let (jw, ja) = (jit(c, noise.gyroscope_noise_density), jit(c, noise.accelerometer_noise_density));
            let (rg, ra) = (w + truth.gyroscope_bias() + jw, a + truth.accelerometer_bias() + ja);
            let r = k.predict(rg, ra, dt);
            c.get("predict", r);
            let mut wander = [0.0; D];
            for j in 0..3 {
                wander[9 + j] = c.normal() * noise.gyroscope_bias_random_walk * dt.sqrt();
                wander[12 + j] = c.normal() * noise.accelerometer_bias_random_walk * dt.sqrt();
            }
            truth = truth.plus_error(Vector::new(wander));
            if i % every == every - 1 {
                let z = truth.position() + Vector::<3, f64>::from_fn(|_| c.normal() * fix);
                let bank = Bank([0, 1, 2].map(|axis| Sense { kind: 0, axis, at: [0.0; 3] }));
                let r = k.update(&bank, z);
                c.get("update", r);
            }
        }
        let v = k.normalized_estimation_error_squared(truth);
        sum += c.get("against the truth", v);
    }
    let mean = sum / runs as f64;
    // Fifteen on average; the mean of 24 strays by 1.1 one time in three.
    c.ok((8.5..25.0).contains(&mean), "as wrong as it says it is", || format!("mean weighed error {mean}, fifteen expected"));
    c.hits("flights weighed", runs as u64);
}

struct Part([usize; 3]);
impl NominalStateFn<3> for Part {
    fn eval<S: Numeric>(&self, s: &NominalState<S>) -> [S; 3] {
        self.0.map(|i| if i < 3 { s.position()[i] } else { s.velocity()[i - 3] })
    }
}
/// Knowing next to nothing, the filter takes a sharp fix's word for it, and ends exactly as sure
/// as the two together allow.
fn unknown_start<T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let top = if T::F32 { 8.0 } else { 20.0 };
    let p: [f64; D] = core::array::from_fn(|i| T::t(if i < 6 { c.lu(-3.0, 0.5 * top) } else { c.lu(-6.0, 0.0) }).d());
    let r: [f64; 3] = c.arr(|c| T::t(c.lu(-0.5 * top, 1.0)).d());
    let at: [usize; 3] = c.pick(&[[0, 1, 2], [3, 4, 5], [2, 0, 1], [5, 1, 3], [0, 4, 2]]);
    let n = gen_nom::<T>(c);
    let start = n.to::<T>();
    let mut f = ErrorStateKalmanFilter::<3, T>::new(start, mat(&RM::diag(&p)), gen_noise::<T>(c), mat(&RM::diag(&r)));
    let was = Part(at).eval(&start);
    let z: [T; 3] = core::array::from_fn(|i| was[i] + T::t(c.f(-3.0, 3.0)));
    c.note("spread, fix spread, at, fix", &(p, r, at, z.map(|v| v.d())));
    let g = if c.p(0.5) {
        f.update(&Part(at), Vector::new(z))
    } else {
        let w = RM::diag(&r);
        f.set_measurement_noise(mat(&RM::diag(&[1.0; 3])));
        f.update_other(&Part(at), Vector::new(core::array::from_fn(|i| z[i] - was[i])), mat(&w))
    };
    c.get("update", g);
    let (k, now) = (f.covariance(), Part(at).eval(&f.nominal_state()));
    for i in 0..D {
        let (var, ratio) = match at.iter().position(|a| *a == i) {
            Some(j) => {
                let t = dd(p[i]) + dd(r[j]);
                let mean = dd(was[j].d()) + dd(p[i]) / t * (dd(z[j].d()) - dd(was[j].d()));
                c.near("between the two", now[j].d(), mean.f(), 64.0 * e * (was[j].d().abs() + mean.f().abs() + 10.0));
                (dd(p[i]) * dd(r[j]) / t, p[i] / r[j])
            }
            None => (dd(p[i]), 0.0),
        };
        c.near("as sure as the two allow", k[(i, i)].d(), var.f(), var.f() * (64.0 * e + 64.0 * e * e * ratio));
        for j in 0..D {
            if i != j {
                c.ok(k[(i, j)].d() == 0.0, "unrelated stays unrelated", || format!("{i} {j}: {:e}", k[(i, j)].d()));
            }
        }
    }
    c.hit("starts from nothing");
}
fn main() {
    vmon::run("C27", |s| {
        s.rule("every prediction and correction, from the filter's actual previous state, vs double-double: motion, error carry by differencing the true motion, sensor slopes by differencing, Kalman step, reset; conditioning by its optimality conditions; spread vs simulated errors");
        s.assume("noise figures mean one reading's spread, as the existing tests fix; the documented per-root-hertz units are a listed finding");
        macro_rules! both {
            ($n:literal, $q:expr, $f:expr, $g:expr) => {
                s.monitor($n, $q, 20, |c| if c.p(0.35) { $f(c) } else { $g(c) })
            };
        }
        both!("filter-1-2", 2400, run::<1, 2, f32>, run::<1, 2, f64>);
        both!("filter-2-1", 2400, run::<2, 1, f32>, run::<2, 1, f64>);
        both!("filter-3-1", 2400, run::<3, 1, f32>, run::<3, 1, f64>);
        both!("filter-6-3", 1200, run::<6, 3, f32>, run::<6, 3, f64>);
        both!("guess", 40000, guess::<f32>, guess::<f64>);
        both!("unknown-start", 8000, unknown_start::<f32>, unknown_start::<f64>);
        s.monitor("datasheet", 400, 20, datasheet);
        s.monitor("honest", 60, 20, honest);
        for (e, n) in [
            ("predictions", 2000),
            ("updates", 1000),
            ("starts from nothing", 4000),
            ("updates of another width", 400),
            ("large corrections", 50),
            ("errors folded in", 400),
            ("spreads conditioned", 400),
            ("errors weighed", 100),
            ("refusals", 400),
            ("guesses", 4000),
            ("datasheet seconds", 100),
            ("flights weighed", 200),
        ] {
            s.require(e, n);
        }
    });
}
