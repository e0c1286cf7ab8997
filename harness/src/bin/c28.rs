//! C28: particle filters and Monte Carlo localization.
use multicalc::error::EstimationError as E;
use multicalc::estimation::*;
use multicalc::mapping::{OccupancyMap, ScanGeometry};
use multicalc::random::RandomScalar;
use multicalc::scalar::{Numeric, Primal, VectorFn};
use multicalc::{Pcg32, RandomSource, Vector};
use std::cell::RefCell;
use std::rc::Rc;
use vmon::kf::*;
use vmon::*;

/// Draws that keep a record of themselves.
#[derive(Clone)]
struct Tape<T> {
    state: u64,
    /// How often a uniform draw is forced to an edge, of 1000.
    edge: u64,
    log: Rc<RefCell<(Vec<T>, Vec<T>)>>,
}
impl<T: Fl + RandomScalar> Tape<T> {
    fn new(c: &mut Case) -> Self {
        let edge = c.pick(&[0u64, 0, 50, 500]);
        Tape { state: c.u64(), edge, log: Rc::default() }
    }
    fn word(&mut self) -> u64 {
        splitmix(&mut self.state)
    }
    fn units(&self) -> Vec<T> {
        core::mem::take(&mut self.log.borrow_mut().0)
    }
    fn normals(&self) -> Vec<T> {
        core::mem::take(&mut self.log.borrow_mut().1)
    }
}
impl<T: Fl + RandomScalar> RandomSource<T> for Tape<T> {
    fn next_u32(&mut self) -> u32 {
        (self.word() >> 32) as u32
    }
    fn next_unit(&mut self) -> T {
        let k = self.word() % 1000;
        let u = if k < self.edge {
            match k % 3 {
                0 => T::t(0.0),
                1 => T::t(1.0 - T::EPS / 2.0),
                _ => T::t((self.word() % 16) as f64 / 16.0),
            }
        } else {
            let top = if T::F32 { 24 } else { 53 };
            T::t((self.word() >> (64 - top)) as f64 / (1u64 << top) as f64)
        };
        self.log.borrow_mut().0.push(u);
        u
    }
    fn standard_normal(&mut self) -> T {
        let u = ((self.word() >> 11) as f64 + 1.0) / (1u64 << 53) as f64;
        let v = (self.word() >> 11) as f64 / (1u64 << 53) as f64;
        let z = T::t((-2.0 * u.ln()).sqrt() * (core::f64::consts::TAU * v).cos());
        self.log.borrow_mut().1.push(z);
        z
    }
    fn get_cache(&mut self) -> Option<T> {
        None
    }
    fn set_cache(&mut self, _: T) {}
}
use vmon::ctx::splitmix;

const SCHEMES: [ResamplingScheme; 4] = [ResamplingScheme::Systematic, ResamplingScheme::Stratified, ResamplingScheme::Multinomial, ResamplingScheme::Residual];

/// Weights summing to one as nearly as the scalar can say.
fn weights<T: Fl>(c: &mut Case, n: usize) -> Vec<T> {
    let kind = c.us(0, 6);
    let z = c.f(0.0, 0.9);
    let mut w: Vec<f64> = (0..n)
        .map(|i| match kind {
            0 => 1.0,
            1 => c.unit(),
            2 => c.lu(-8.0, 0.0),
            3 => {
                if c.p(z) {
                    0.0
                } else {
                    c.unit()
                }
            }
            4 => {
                if i == n / 2 {
                    1.0
                } else {
                    0.0
                }
            }
            // Whole shares.
            5 => c.us(0, 3) as f64,
            _ => c.lu(-60.0, 0.0),
        })
        .collect();
    if c.p(0.3) {
        let k = c.us(0, n - 1);
        let front = c.p(0.5);
        for i in 0..k {
            w[if front { i } else { n - 1 - i }] = 0.0;
        }
    }
    if w.iter().all(|x| T::t(*x).d() == 0.0) {
        w[c.us(0, n - 1)] = 1.0;
    }
    let mut s = T::t(0.0);
    let w: Vec<T> = w.into_iter().map(T::t).collect();
    for x in &w {
        s += *x;
    }
    w.into_iter().map(|x| x / s).collect()
}

/// Which sources the picks may name, and what they must add up to.
fn judge<T: Fl>(c: &mut Case, scheme: ResamplingScheme, w: &[T], units: &[T], got: &[usize]) {
    let (n, e) = (w.len(), T::EPS);
    let nf = n as f64;
    let wd: Vec<f64> = w.iter().map(|x| x.d()).collect();
    c.ok(got.iter().all(|&i| i < n), "picks are of the cloud", || format!("{got:?}"));
    c.ok(got.iter().all(|&i| wd[i] > 0.0), "never a particle without weight", || format!("{scheme:?} {got:?} {wd:?} {units:?}"));
    let mut cum = vec![dd(0.0)];
    for x in &wd {
        let t = *cum.last().unwrap() + dd(*x);
        cum.push(t);
    }
    let total = cum[n].f();
    // The running totals are rounded once per source.
    let tol = 2.0 * (nf + 4.0) * e;
    let fits = |at: f64, i: usize| cum[i].f() - tol <= at && (at <= cum[i + 1].f() + tol || (at >= total - tol && wd[i + 1..].iter().all(|x| *x == 0.0)));
    let mut count = vec![0usize; n];
    for &i in got {
        count[i] += 1;
    }
    match scheme {
        ResamplingScheme::Systematic | ResamplingScheme::Stratified => {
            let one = scheme == ResamplingScheme::Systematic;
            c.eq("draws taken", units.len(), if one { 1 } else { n });
            for (k, &i) in got.iter().enumerate() {
                let at = (dd(units[if one { 0 } else { k }].d()) + dd(k as f64)) / dd(nf);
                c.ok(fits(at.f(), i), "each pick is where its throw landed", || format!("{k}: {} names {i}", at.f()));
            }
            let slack = if one { 1.0 } else { 2.0 };
            for i in 0..n {
                c.ok((count[i] as f64 - nf * wd[i]).abs() < slack + nf * tol * 2.0, "copies match the share", || format!("{} of {}", count[i], nf * wd[i]));
            }
        }
        ResamplingScheme::Multinomial => {
            c.eq("draws taken", units.len(), n);
            for (k, &i) in got.iter().enumerate() {
                c.ok(fits(units[k].d(), i), "each pick is where its throw landed", || format!("{} names {i}", units[k].d()));
            }
        }
        _ => {
            let mut sure = true;
            let mut whole = vec![0usize; n];
            let mut left = vec![dd(0.0); n];
            for i in 0..n {
                let x = dd(wd[i]) * dd(nf);
                let r = x.f().round();
                let lo = if (x.f() - r).abs() <= 2.0 * e * r && r > 0.0 {
                    sure &= x.f() == r;
                    r - 1.0
                } else {
                    x.f().floor()
                };
                whole[i] = if x.f() == r { r as usize } else { lo as usize };
                left[i] = x - dd(whole[i] as f64);
                c.ok(count[i] >= lo as usize, "at least the whole share", || format!("{} of {}", count[i], x.f()));
            }
            let laid: usize = whole.iter().sum();
            if sure && laid <= n {
                c.eq("draws taken", units.len(), n - laid);
                let mut at = 0;
                for i in 0..n {
                    for _ in 0..whole[i] {
                        c.eq("whole shares first, in order", got[at], i);
                        at += 1;
                    }
                }
                let sum = left.iter().fold(dd(0.0), |a, x| a + *x);
                // A remainder carries the rounding of the whole share it is left from.
                let slip = if sum.f() > 0.0 { 4.0 * (nf + 8.0) * e * (nf + 2.0) / sum.f() } else { 1.0 };
                let mut run = vec![dd(0.0)];
                for x in &left {
                    let t = *run.last().unwrap() + *x / sum;
                    run.push(t);
                }
                for (k, u) in units.iter().enumerate() {
                    let i = got[at + k];
                    c.ok(run[i].f() - slip <= u.d() && u.d() <= run[i + 1].f() + slip, "leftovers fall by their remainders", || format!("{} names {i}", u.d()));
                }
                c.hit("whole shares kept");
            }
        }
    }
}
fn resample<T: Fl + RandomScalar>(c: &mut Case) {
    let n = match c.us(0, 9) {
        0 => 1,
        1 => 2,
        2 => c.us(200, 1500),
        _ => c.us(3, 60),
    };
    let w = weights::<T>(c, n);
    let scheme = c.pick(&SCHEMES);
    let mut tape = Tape::<T>::new(c);
    let mut got = vec![usize::MAX; n];
    scheme.resample_indices(&w, &mut tape, &mut got);
    let units = tape.units();
    judge(c, scheme, &w, &units, &got);
    c.ok(tape.normals().is_empty(), "only uniform draws", String::new);
    // Nothing to pick from: nothing drawn, nothing touched.
    let mut none: [usize; 3] = [7, 8, 9];
    scheme.resample_indices::<T, _>(&[], &mut tape, &mut none);
    c.ok(none == [7, 8, 9] && tape.units().is_empty(), "an empty cloud", String::new);
    c.hit("clouds resampled");
}

/// A process or sensor: straight part plus a bend.
struct Bend<const I: usize, const O: usize> {
    a: [[f64; I]; O],
    b: [f64; O],
    k: f64,
}
impl<const I: usize, const O: usize> Bend<I, O> {
    fn of<T: Fl>(c: &mut Case) -> Self {
        let mut g = |s: f64| T::t(c.f(-s, s)).d();
        Bend { a: core::array::from_fn(|_| core::array::from_fn(|_| g(1.2))), b: core::array::from_fn(|_| g(2.0)), k: g(1.0) }
    }
}
impl<const I: usize, const O: usize> VectorFn<I, O> for Bend<I, O> {
    fn eval<S: Numeric>(&self, x: &[S; I]) -> [S; O] {
        core::array::from_fn(|i| {
            let mut t = S::from_f64(self.b[i]) + S::from_f64(self.k) * x[i % I].sin();
            for j in 0..I {
                t = t + S::from_f64(self.a[i][j]) * x[j];
            }
            t
        })
    }
}
fn chol(p: &RM) -> RM {
    let n = p.r;
    let mut l = RM::zeros(n, n);
    for j in 0..n {
        for i in j..n {
            let mut s = p.at(i, j);
            for k in 0..j {
                s = s - l.at(i, k) * l.at(j, k);
            }
            *l.at_mut(i, j) = if i == j { s.sqr() } else { s / l.at(j, j) };
        }
    }
    l
}
/// The kicks behind a cloud's scatter, against the draws that made them, whatever their order.
fn kicks<T: Fl>(c: &mut Case, tag: &str, l: &RM, diffs: &[RM], drawn: &[T], slip: f64, cond: f64) {
    let n = l.r;
    c.eq("draws taken", drawn.len(), n * diffs.len());
    let inv = l.inv().unwrap();
    let mut z: Vec<f64> = diffs.iter().flat_map(|d| inv.mul(d).fs()).collect();
    let mut w: Vec<f64> = drawn.iter().map(|x| x.d()).collect();
    z.sort_by(f64::total_cmp);
    w.sort_by(f64::total_cmp);
    let top = w.iter().fold(1.0f64, |m, x| m.max(x.abs()));
    let tol = (slip * mx(&inv) + cond * T::EPS * 64.0 * top) * n as f64;
    for (a, b) in z.iter().zip(&w) {
        c.near(tag, *a, *b, tol);
    }
}
fn cond_of(l: &RM) -> f64 {
    let s = l.sing();
    s[0] / s[s.len() - 1]
}
fn to_rm<const N: usize, T: Fl>(p: &[Vector<N, T>]) -> Vec<RM> {
    p.iter().map(RM::ofv).collect()
}
fn dd_of<const N: usize>(x: &RM) -> [DD; N] {
    core::array::from_fn(|i| x.at(i, 0))
}

fn cloud<const N: usize, const M: usize, T: Fl + RandomScalar>(c: &mut Case) {
    let e = T::EPS;
    let n = c.pick(&[1usize, 2, 5, 20, 64, 150]);
    let nf = n as f64;
    let (p0, q) = (cov::<T>(c, N), cov::<T>(c, N));
    let x0 = rcol::<T>(c, N, 5.0);
    let tape = Tape::<T>::new(c);
    let log = tape.clone();
    let made = ParticleFilter::<N, M, T, Tape<T>>::from_random(n, vecn(&x0.fs()), mat(&p0), mat(&q), tape);
    let mut f = c.get("build", made);
    let l0 = chol(&p0);
    let diffs: Vec<RM> = to_rm(f.particles()).iter().map(|x| x.sub(&x0)).collect();
    let slip = 8.0 * e * (mx(&x0) + 8.0 * mx(&l0) * N as f64);
    kicks(c, "scattered as asked", &l0, &diffs, &log.normals(), slip, cond_of(&l0).powi(2));
    c.ok(f.particles().len() == n && f.weights().len() == n, "as many as asked", String::new);
    c.ok(f.weights().iter().all(|w| (w.d() * nf - 1.0).abs() <= 2.0 * e), "equally likely to start", String::new);
    let mut q = q;
    let scheme = c.pick(&SCHEMES);
    let mut threshold = nf / 2.0;
    if c.p(0.7) {
        f = f.with_resampling(scheme);
    } else if scheme != ResamplingScheme::Systematic {
        f = f.with_resampling(ResamplingScheme::default()).with_resampling(scheme);
    }
    if c.p(0.6) {
        threshold = c.pick(&[0.0, 0.3, 0.9, 1.5]) * nf;
        f = f.with_resample_threshold(T::t(threshold));
    }
    let rough = if c.p(0.3) { T::t(c.pick(&[0.01, 0.2, 1.0, 3.0, -1.0])) } else { T::t(0.0) };
    f = f.with_roughening(rough);
    for _ in 0..c.us(1, 8) {
        let old = to_rm(f.particles());
        let w = f.weights().to_vec();
        let top = old.iter().fold(0.0f64, |m, x| m.max(mx(x)));
        if top > 1e4 {
            break;
        }
        log.units();
        log.normals();
        let stay = |f: &ParticleFilter<N, M, T, Tape<T>>| to_rm(f.particles()).iter().zip(&old).all(|(a, b)| a.fs() == b.fs()) && f.weights() == w.as_slice();
        match c.us(0, 8) {
            0 | 1 => {
                let m = Bend::<N, N>::of::<T>(c);
                let r = f.predict(&m);
                c.get("predict", r);
                let mut diffs = Vec::new();
                for (x, y) in old.iter().zip(to_rm(f.particles())) {
                    let to = m.eval(&dd_of::<N>(x));
                    let mut d = RM::zeros(N, 1);
                    for i in 0..N {
                        *d.at_mut(i, 0) = y.at(i, 0) - to[i];
                    }
                    diffs.push(d);
                }
                let l = chol(&q);
                let slip = 16.0 * e * (N as f64 * 1.2 * top + 4.0 + 8.0 * mx(&l) * N as f64);
                kicks(c, "moved and kicked as asked", &l, &diffs, &log.normals(), slip, cond_of(&l).powi(2));
                c.ok(f.weights() == w.as_slice() && log.units().is_empty(), "moving changes no weight", String::new);
                c.hit("clouds moved");
            }
            2 => {
                f.resample();
                check_resampled(c, scheme, &w, rough, &old, &f, &log, true);
                c.hit("resampled on demand");
            }
            3 => {
                // What cannot be used is refused and changes nothing.
                let bad = T::t(c.pick(&[f64::NAN, f64::INFINITY]));
                let m = Bend::<N, M>::of::<T>(c);
                let like = GaussianLikelihood::new(mat::<M, M, T>(&RM::eye(M)));
                let like = c.get("likelihood", like);
                let mut z = Vector::<M, T>::zeros();
                z[c.us(0, M - 1)] = bad;
                c.eq("a reading that is no number", f.update(&m, &like, z).err(), Some(E::NonFinite));
                let none = f.update_with_log_weights(|_| T::NEG_INFINITY);
                c.eq("nothing explains it", none.err(), Some(E::WeightsDegenerate));
                let at = c.us(0, n - 1);
                let mut i = 0;
                let nan = f.update_with_log_weights(|_| {
                    i += 1;
                    if i == at + 1 { T::t(f64::NAN) } else { T::t(0.0) }
                });
                c.ok(nan.is_err(), "a score that is no number", String::new);
                c.ok(stay(&f), "a refusal changes nothing", || format!("{:?} -> {:?}", w, f.weights()));
                c.eq("noise that is none", f.set_process_noise(mat(&RM::eye(N).scale(-1.0))).err(), Some(E::NotPositiveDefinite));
                c.eq("sensor noise that is none", GaussianLikelihood::new(mat::<M, M, T>(&RM::zeros(M, M))).err(), Some(E::NotPositiveDefinite));
                c.hit("refusals");
            }
            4 => {
                q = cov::<T>(c, N);
                let r = f.set_process_noise(mat(&q));
                c.get("noise", r);
            }
            _ => {
                // A reading, as a model or as scores.
                let mut scores: Vec<DD> = Vec::new();
                let mut slips: Vec<f64> = Vec::new();
                if c.p(0.5) {
                    let m = Bend::<N, M>::of::<T>(c);
                    let r = cov::<T>(c, M);
                    let like = GaussianLikelihood::new(mat::<M, M, T>(&r));
                    let like = c.get("likelihood", like);
                    let pick = c.us(0, n - 1);
                    let aim = m.eval(&dd_of::<N>(&old[pick]));
                    let far = c.pick(&[0.1, 1.0, 10.0, 300.0]);
                    let z: Vec<f64> = (0..M).map(|i| T::t(aim[i].f() + far * c.normal()).d()).collect();
                    let inv = r.inv().unwrap();
                    let cr = cond_of(&r);
                    for x in &old {
                        let to = m.eval(&dd_of::<N>(x));
                        let mut d = RM::zeros(M, 1);
                        for i in 0..M {
                            *d.at_mut(i, 0) = dd(z[i]) - to[i];
                        }
                        let s = d.t().mul(&inv.mul(&d)).at(0, 0) * dd(-0.5);
                        let at = nrm(&z) + 1.2 * N as f64 * top + 4.0;
                        slips.push(e * 16.0 * (cr * s.f().abs() * M as f64 + at * mx(&inv) * mx(&d) * M as f64 * M as f64 + at * at * e * mx(&inv)));
                        scores.push(s);
                    }
                    let go = f.update(&m, &like, vecn(&z));
                    c.get("update", go);
                    // The score itself.
                    let zs: Vector<M, T> = vecn(&z);
                    let mid = Vector::<M, T>::from_fn(|i| T::t(aim[i].f()));
                    let got = like.log_weight(mid.as_array(), zs.as_array()).d();
                    let mut d = RM::zeros(M, 1);
                    for i in 0..M {
                        *d.at_mut(i, 0) = dd(zs[i].d()) - dd(mid[i].d());
                    }
                    let want = d.t().mul(&inv.mul(&d)).f(0, 0) * -0.5;
                    c.near("how well it explains", got, want, e * 64.0 * (cr * mx(&inv) * mx(&d).powi(2) * M as f64 + nrm(&z) * mx(&inv) * mx(&d) * 4.0) + 1e-300);
                    c.hit("readings by model");
                } else {
                    let sz = c.lu(-1.0, 3.0);
                    let gone = if c.p(0.3) { 0.4 } else { 0.0 };
                    let keep = c.us(0, n - 1);
                    let sc: Vec<T> = (0..n).map(|i| if i != keep && c.p(gone) { T::NEG_INFINITY } else { T::t(c.f(-sz, sz)) }).collect();
                    for s in &sc {
                        scores.push(dd(s.d()));
                        slips.push(2.0 * e * sz);
                    }
                    let mut seen: Vec<Vec<f64>> = Vec::new();
                    let mut i = 0;
                    let go = f.update_with_log_weights(|x| {
                        i += 1;
                        seen.push(RM::ofv(x).fs());
                        sc[i - 1]
                    });
                    c.get("update", go);
                    c.ok(seen.len() == n && seen.iter().zip(&old).all(|(a, b)| *a == b.fs()), "every particle is scored once, in turn", String::new);
                    c.hit("readings by score");
                }
                // Where the weights should stand.
                let floor = dd(T::MIN_POSITIVE.d());
                let lw: Vec<DD> = (0..n).map(|i| if scores[i].f() == f64::NEG_INFINITY { scores[i] } else { dd(w[i].d()).max_(if w[i].d() == 0.0 { floor } else { dd(0.0) }).ln_() + scores[i] }).collect();
                let big = lw.iter().fold(f64::NEG_INFINITY, |m, x| m.max(x.f()));
                let slip = slips.iter().zip(&lw).fold(0.0f64, |m, (s, l)| if l.f() > big - 60.0 { m.max(*s) } else { m }) + 4.0 * e * (big.abs() + 110.0);
                if slip > 0.05 {
                    continue;
                }
                let ex: Vec<DD> = lw.iter().map(|x| if x.f() - big < -740.0 { dd(0.0) } else { (*x - dd(big)).exp_() }).collect();
                let sum = ex.iter().fold(dd(0.0), |a, x| a + *x);
                let want: Vec<f64> = ex.iter().map(|x| (*x / sum).f()).collect();
                let rel = 4.0 * slip + 4.0 * (nf + 16.0) * e;
                let ess = 1.0 / want.iter().map(|x| x * x).sum::<f64>();
                let due = ess < threshold;
                if (ess - threshold).abs() < 4.0 * rel * nf {
                    continue;
                }
                if due {
                    c.ok(f.weights().iter().all(|w| (w.d() * nf - 1.0).abs() <= 2.0 * e), "resampled when too few carry the weight", || format!("{ess} {threshold}"));
                    let ww: Vec<T> = want.iter().map(|x| T::t(*x)).collect();
                    check_resampled(c, scheme, &ww, rough, &old, &f, &log, false);
                    c.hit("resampled when due");
                } else {
                    for i in 0..n {
                        // Weights the scalar cannot hold may sit at nothing.
                        c.near("weights", f.weights()[i].d(), want[i], (rel + slips[i]) * want[i] + 2.0 * T::MIN_POSITIVE.d());
                    }
                    c.ok(log.units().is_empty() && to_rm(f.particles()).iter().zip(&old).all(|(a, b)| a.fs() == b.fs()), "reweighing moves nothing", String::new);
                    c.hit("reweighed");
                }
            }
        }
        summary(c, &f);
    }
}
/// What the cloud says of itself.
fn summary<const N: usize, const M: usize, T: Fl + RandomScalar>(c: &mut Case, f: &ParticleFilter<N, M, T, Tape<T>>) {
    let e = T::EPS;
    let (p, w) = (to_rm(f.particles()), f.weights());
    let n = w.len() as f64;
    let sum = w.iter().fold(dd(0.0), |a, x| a + dd(x.d()));
    c.near("weights add up", sum.f(), 1.0, 4.0 * (n + 4.0) * e);
    c.ok(w.iter().all(|x| x.d() >= 0.0), "weights are weights", String::new);
    let sq = w.iter().fold(dd(0.0), |a, x| a + dd(x.d()) * dd(x.d()));
    let ess = 1.0 / sq.f();
    c.near("effective sample size", f.effective_sample_size().d(), ess, 4.0 * (n + 4.0) * e * ess);
    c.ok(f.effective_sample_size().d() <= n * (1.0 + 8.0 * (n + 4.0) * e) && ess >= 1.0 - 8.0 * (n + 4.0) * e, "between one and all of them", String::new);
    let mut mean = RM::zeros(N, 1);
    let mut size = 0.0;
    for (x, w) in p.iter().zip(w) {
        mean = mean.add(&x.scale(w.d()));
        size += w.d() * mx(x);
    }
    close(c, "mean", &RM::ofv(&f.mean()), &mean, 4.0 * (n + 4.0) * e * size + 1e-300);
    let best = w.iter().fold(0.0f64, |m, x| m.max(x.d()));
    let map = RM::ofv(&f.maximum_a_posteriori_state()).fs();
    c.ok(p.iter().zip(w).any(|(x, w)| w.d() == best && x.fs() == map), "the heaviest particle", || format!("{map:?}"));
}
#[allow(clippy::too_many_arguments)]
fn check_resampled<const N: usize, const M: usize, T: Fl + RandomScalar>(
    c: &mut Case,
    scheme: ResamplingScheme,
    w: &[T],
    rough: T,
    old: &[RM],
    f: &ParticleFilter<N, M, T, Tape<T>>,
    log: &Tape<T>,
    exact: bool,
) {
    let (n, e) = (old.len(), T::EPS);
    let nf = n as f64;
    let (units, normals) = (log.units(), log.normals());
    c.ok(f.weights().iter().all(|w| (w.d() * nf - 1.0).abs() <= 2.0 * e), "equally likely again", String::new);
    let new = to_rm(f.particles());
    let distinct = {
        let mut v: Vec<Vec<u64>> = old.iter().map(|x| x.fs().iter().map(|y| y.to_bits()).collect()).collect();
        v.sort();
        v.windows(2).all(|p| p[0] != p[1])
    };
    if rough.d() <= 0.0 {
        c.ok(normals.is_empty(), "no jitter", String::new);
        let at: Vec<Option<usize>> = new.iter().map(|x| old.iter().position(|y| y.fs() == x.fs())).collect();
        c.ok(at.iter().all(|x| x.is_some()), "copies of the cloud", String::new);
        if distinct {
            let at: Vec<usize> = at.into_iter().flatten().collect();
            if exact {
                judge(c, scheme, w, &units, &at);
            } else {
                for i in 0..n {
                    let k = at.iter().filter(|x| **x == i).count() as f64;
                    let want = nf * w[i].d();
                    let room = match scheme {
                        ResamplingScheme::Systematic => 1.01,
                        ResamplingScheme::Stratified => 2.01,
                        _ => nf + 1.0,
                    };
                    c.ok((k - want).abs() < room && (want > 1e-12 || k == 0.0 || !matches!(scheme, ResamplingScheme::Systematic | ResamplingScheme::Stratified) || k <= 1.0), "copies match the share", || format!("{scheme:?} {k} of {want}"));
                }
            }
        }
    } else if n > 1 && exact {
        // Pull the jitter back out, where the picks can be read off the throws.
        let Some(src) = picks(scheme, w, &units) else { return };
        let mut z = Vec::new();
        let mut drew = 0;
        let mut tol = 0.0f64;
        for axis in 0..N {
            let v: Vec<f64> = src.iter().map(|&i| old[i].f(axis, 0)).collect();
            let (lo, hi) = v.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(a, b), x| (a.min(*x), b.max(*x)));
            let s = rough.d() * (hi - lo);
            if s <= 0.0 {
                for (k, x) in v.iter().enumerate() {
                    c.ok(new[k].f(axis, 0) == *x, "no reach, no jitter", String::new);
                }
                continue;
            }
            drew += n;
            tol = tol.max(4.0 * e * (lo.abs().max(hi.abs()) + 6.0 * s) / s + 64.0 * e);
            for (k, x) in v.iter().enumerate() {
                z.push((new[k].f(axis, 0) - x) / s);
            }
        }
        c.eq("draws taken", normals.len(), drew);
        let mut d: Vec<f64> = normals.iter().map(|x| x.d()).collect();
        z.sort_by(f64::total_cmp);
        d.sort_by(f64::total_cmp);
        for (a, b) in z.iter().zip(&d) {
            c.near("jittered by the reach", *a, *b, tol);
        }
        c.hit("jitters");
    }
}
/// The picks, when no throw lands near an edge.
fn picks<T: Fl>(scheme: ResamplingScheme, w: &[T], units: &[T]) -> Option<Vec<usize>> {
    let n = w.len();
    let tol = 4.0 * (n as f64 + 4.0) * T::EPS;
    let at: Vec<f64> = match scheme {
        ResamplingScheme::Systematic => (0..n).map(|k| (units[0].d() + k as f64) / n as f64).collect(),
        ResamplingScheme::Stratified => (0..n).map(|k| (units[k].d() + k as f64) / n as f64).collect(),
        ResamplingScheme::Multinomial => units.iter().map(|u| u.d()).collect(),
        _ => return None,
    };
    let mut out = Vec::new();
    for a in at {
        let mut cum = 0.0;
        let mut got = None;
        for (i, x) in w.iter().enumerate() {
            let lo = cum;
            cum += x.d();
            if a >= lo + tol && a <= cum - tol {
                got = Some(i);
                break;
            }
        }
        out.push(got?);
    }
    Some(out)
}

/// Same seed, same run; a copy goes on as the original does.
fn seeded<T: Fl + RandomScalar>(c: &mut Case) {
    let n = c.us(1, 60);
    let (p0, q, x0) = (cov::<T>(c, 2), cov::<T>(c, 2), rcol::<T>(c, 2, 5.0));
    let seed = c.u64();
    let a = ParticleFilter::<2, 1, T>::new(n, vecn(&x0.fs()), mat(&p0), mat(&q), seed);
    let b = ParticleFilter::<2, 1, T>::from_random(n, vecn(&x0.fs()), mat(&p0), mat(&q), Pcg32::new(seed));
    let scheme = c.pick(&SCHEMES);
    let mut a = c.get("build", a).with_resampling(scheme).with_roughening(T::t(0.1));
    let mut b = c.get("build", b).with_resampling(scheme).with_roughening(T::t(0.1));
    let other = ParticleFilter::<2, 1, T>::new(n, vecn(&x0.fs()), mat(&p0), mat(&q), seed ^ (1 << c.us(0, 63)));
    let other = c.get("build", other);
    c.ok(other.particles() != a.particles(), "another seed, another cloud", String::new);
    let same = |c: &mut Case, a: &ParticleFilter<2, 1, T>, b: &ParticleFilter<2, 1, T>| {
        c.ok(a.particles() == b.particles() && a.weights() == b.weights(), "same seed, same run", String::new)
    };
    same(c, &a, &b);
    for _ in 0..c.us(1, 6) {
        let mut twin = a.clone();
        let (m, h) = (Bend::<2, 2>::of::<T>(c), Bend::<2, 1>::of::<T>(c));
        let like = GaussianLikelihood::new(mat::<1, 1, T>(&RM::eye(1)));
        let like = c.get("likelihood", like);
        let z = vecn(&[c.f(-10.0, 10.0)]);
        for k in [&mut a, &mut b, &mut twin] {
            let r = k.predict(&m);
            if r.is_err() {
                return;
            }
            let _ = k.update(&h, &like, z);
        }
        same(c, &a, &b);
        same(c, &a, &twin);
    }
    let bad = RM::eye(2).scale(c.pick(&[-1.0, 0.0, f64::NAN]));
    let x = vecn(&x0.fs());
    c.eq("no cloud", ParticleFilter::<2, 1, T>::new(0, x, mat(&p0), mat(&q), seed).err(), Some(E::WeightsDegenerate));
    c.eq("no spread", ParticleFilter::<2, 1, T>::new(n, x, mat(&bad), mat(&q), seed).err(), Some(E::NotPositiveDefinite));
    c.eq("no noise", ParticleFilter::<2, 1, T>::new(n, x, mat(&p0), mat(&bad), seed).err(), Some(E::NotPositiveDefinite));
    c.hit("seeded runs");
}

/// On a straight model the cloud settles where the exact answer is.
fn belief(c: &mut Case) {
    let n = 3000;
    let f = RM::eye(2).scale(0.9).add(&rmat::<f64>(c, 2, 2, 0.3));
    let q = gen_spd(c, 2, -1.5, -0.5);
    let (p0, x0) = (gen_spd(c, 2, -0.5, 0.5), rcol::<f64>(c, 2, 3.0));
    let h = rmat::<f64>(c, 1, 2, 1.5).add(&RM::rows(&[&[0.8, 0.0]]));
    let r = c.lu(-0.5, 0.7);
    let (q, p0) = (sym::<f64>(&q), sym::<f64>(&p0));
    let made = ParticleFilter::<2, 1, f64>::new(n, vecn(&x0.fs()), mat(&p0), mat(&q), c.u64());
    let scheme = c.pick(&SCHEMES);
    let mut k = c.get("build", made).with_resampling(scheme);
    let m = Bend::<2, 2> { a: [[f.f(0, 0), f.f(0, 1)], [f.f(1, 0), f.f(1, 1)]], b: [0.0; 2], k: 0.0 };
    let s = Bend::<2, 1> { a: [[h.f(0, 0), h.f(0, 1)]], b: [0.0], k: 0.0 };
    let like = GaussianLikelihood::new(mat::<1, 1, f64>(&RM::eye(1).scale(r)));
    let like = c.get("likelihood", like);
    let (mut x, mut p) = (x0, p0);
    for _ in 0..5 {
        let g = k.predict(&m);
        c.get("predict", g);
        x = f.mul(&x);
        p = f.mul(&p).mul(&f.t()).add(&q);
        let sd = h.mul(&p).mul(&h.t()).f(0, 0) + r;
        let z = h.mul(&x).f(0, 0) + sd.sqrt() * c.f(-1.5, 1.5);
        let g = k.update(&s, &like, vecn(&[z]));
        c.get("update", g);
        let gain = p.mul(&h.t()).scale(1.0 / sd);
        let y = z - h.mul(&x).f(0, 0);
        x = x.add(&gain.scale(y));
        p = RM::eye(2).sub(&gain.mul(&h)).mul(&p);
    }
    let got = k.mean();
    for i in 0..2 {
        let sd = p.f(i, i).sqrt();
        c.ok((got[i] - x.f(i, 0)).abs() < 0.45 * sd, "the cloud sits where the exact answer is", || format!("{} {} spread {sd}", got[i], x.f(i, 0)));
        let v: f64 = k.particles().iter().zip(k.weights()).map(|(p, w)| w * (p[i] - got[i]).powi(2)).sum();
        c.ok((0.5..2.0).contains(&(v / (sd * sd))), "and spreads as it does", || format!("{v} {}", sd * sd));
    }
    c.hit("beliefs compared");
}

// ---- localization ----
/// A round room with a gap in its wall.
#[derive(Debug)]
struct Room {
    r: f64,
    gap: f64,
}
impl Room {
    /// How far the wall is, and how near that is to being a coin toss.
    fn look(&self, x: f64, y: f64, dir: f64, far: f64) -> (Option<f64>, bool) {
        let (s, k) = dir.sin_cos();
        let b = x * k + y * s;
        let q = x * x + y * y - self.r * self.r;
        let d = b * b - q;
        if q > 0.0 || d < 0.0 {
            return (None, q.abs() < 1e-3 || d.abs() < 1e-3);
        }
        let t = -b + d.sqrt();
        let at = (y + t * s).atan2(x + t * k);
        let edge = (at.abs() - self.gap).abs() < 1e-3 || (t - far).abs() < 1e-3 || q.abs() < 1e-3;
        ((at.abs() >= self.gap && t <= far).then_some(t), edge)
    }
}
impl<T: Fl> OccupancyMap<T> for Room {
    fn columns(&self) -> usize {
        4
    }
    fn rows(&self) -> usize {
        4
    }
    fn resolution(&self) -> T {
        T::t(self.r / 2.0)
    }
    fn origin(&self) -> [T; 2] {
        [T::t(-self.r); 2]
    }
    fn is_occupied(&self, _: usize, _: usize) -> bool {
        false
    }
    fn cast_ray(&self, at: [T; 2], bearing: T, far: T) -> Option<T> {
        self.look(at[0].d(), at[1].d(), bearing.d(), far.d()).0.map(T::t)
    }
}
fn wrap(x: f64) -> f64 {
    let t = core::f64::consts::TAU;
    x - t * (x / t).round()
}
fn localize<const B: usize, T: Fl + RandomScalar + Primal>(c: &mut Case) {
    let e = T::EPS;
    let n = c.us(1, 300);
    let nf = n as f64;
    let hint = [T::t(c.f(-2.0, 2.0)), T::t(c.f(-2.0, 2.0)), T::t(c.f(-3.0, 3.0))];
    let cl = InitialParticleCloud { particle_count: n, position_variance: T::t(c.lu(-3.0, 0.0)), heading_variance: T::t(c.lu(-3.0, 1.0)) };
    let bm = if c.p(0.3) {
        BeamModel::default()
    } else {
        BeamModel { range_deviation: T::t(c.lu(-1.0, 0.7)), agreement_reward: T::t(c.f(0.0, 1.0)), mismatch_penalty: T::t(-c.lu(-1.0, 1.0)) }
    };
    let seed = c.u64();
    let m = MonteCarloLocalizer::<B, T>::new(hint, cl, bm, seed);
    let mut m = c.get("build", m);
    let twin = MonteCarloLocalizer::<B, T>::new(hint, cl, bm, seed);
    let mut twin = c.get("build", twin);
    c.eq("as many as asked", (m.particle_count(), m.particles().len()), (n, n));
    let vs = [cl.position_variance.d(), cl.position_variance.d(), cl.heading_variance.d()];
    scatter(c, "scattered round the hint", m.particles().iter().map(|p| core::array::from_fn(|i| p[i].d() - hint[i].d())), vs);
    let none = InitialParticleCloud { particle_count: 0, ..cl };
    c.eq("no cloud", MonteCarloLocalizer::<B, T>::new(hint, none, bm, seed).err(), Some(E::WeightsDegenerate));
    let bad = T::t(c.pick(&[0.0, -1.0, f64::NAN]));
    let broken = if c.p(0.5) { InitialParticleCloud { position_variance: bad, ..cl } } else { InitialParticleCloud { heading_variance: bad, ..cl } };
    c.eq("no spread", MonteCarloLocalizer::<B, T>::new(hint, broken, bm, seed).err(), Some(E::NotPositiveDefinite));
    let fov = T::t(c.f(0.3, 6.28));
    let far = T::t(c.lu(0.0, 1.3));
    let g = ScanGeometry::<B, T>::try_new(fov, far);
    let g = c.get("scan", g);
    let g = if c.p(0.5) {
        let g = g.with_minimum_range(T::t(far.d() * 0.05));
        c.get("scan", g)
    } else {
        g
    };
    let room = Room { r: c.lu(0.3, 1.0), gap: c.f(0.0, 2.5) };
    let mut noise = [1e-4; 3];
    // What each guess should weigh, and how sure of that we are.
    let mut w: Vec<DD> = vec![dd(1.0 / nf); n];
    for _ in 0..c.us(1, 6) {
        let old: Vec<[f64; 3]> = m.particles().iter().map(|p| core::array::from_fn(|i| p[i].d())).collect();
        if c.p(0.3) {
            noise = [c.lu(-8.0, -2.0), c.lu(-8.0, -2.0), c.lu(-8.0, -2.0)].map(|x| T::t(x).d());
            let r = [m.set_motion_noise(noise.map(T::t)), twin.set_motion_noise(noise.map(T::t))];
            c.eq("noise", r, [Ok(()); 2]);
            let mut z = noise.map(T::t);
            z[c.us(0, 2)] = bad;
            c.eq("noise that is none", m.set_motion_noise(z).err(), Some(E::NotPositiveDefinite));
        }
        if c.p(0.5) {
            let (s, t) = (T::t(c.f(-1.0, 1.0)), T::t(c.f(-4.0, 4.0)));
            let r = [m.predict(s, t), twin.predict(s, t)];
            c.eq("moved", r, [Ok(()); 2]);
            let diffs: Vec<[f64; 3]> = m
                .particles()
                .iter()
                .zip(&old)
                .map(|(p, o)| {
                    let (si, co) = o[2].sin_cos();
                    [p[0].d() - o[0] - s.d() * co, p[1].d() - o[1] - s.d() * si, wrap(p[2].d() - o[2] - t.d())]
                })
                .collect();
            scatter(c, "moved as told, kicked as asked", diffs.into_iter(), noise.map(|v| v + 64.0 * e * e));
            c.hit("guesses moved");
        } else {
            let at = old[c.us(0, n - 1)];
            let scan: [T; B] = core::array::from_fn(|i| {
                let a = g.beam_angle(i).map_or(0.0, |a| a.d());
                let r = room.look(at[0], at[1], at[2] + a, far.d()).0;
                match c.us(0, 9) {
                    0 => T::t(c.pick(&[f64::NAN, f64::INFINITY, 0.0, -1.0, 1e9])),
                    1 => T::t(c.f(0.0, far.d())),
                    _ => r.map_or(T::t(f64::INFINITY), |r| T::t(r + 0.05 * c.normal())),
                }
            });
            let (r, r2) = (m.update(&scan, &room, &g), twin.update(&scan, &room, &g));
            c.eq("same seed, same run", r, r2);
            // Score every guess by the stated rules.
            let mut unsure = false;
            let mut worst = 0.0f64;
            let mut lw = Vec::new();
            for (o, w0) in old.iter().zip(&w) {
                let mut s = dd(0.0);
                for (i, z) in scan.iter().enumerate() {
                    let Some(a) = g.beam_angle(i) else { continue };
                    let (see, edge) = room.look(o[0], o[1], o[2] + a.d(), far.d());
                    unsure |= edge;
                    let ok = z.d().is_finite() && z.d() >= g.minimum_range().d() && z.d() <= far.d();
                    let add = match (see, ok) {
                        (Some(see), true) => {
                            let d = (dd(see) - dd(z.d())) / dd(bm.range_deviation.d());
                            d * d * dd(-0.5)
                        }
                        (None, false) => dd(bm.agreement_reward.d()),
                        _ => dd(bm.mismatch_penalty.d()),
                    };
                    s = s + add;
                }
                worst = worst.max(s.f().abs());
                let base = if w0.f() < T::MIN_POSITIVE.d() { dd(T::MIN_POSITIVE.d()) } else { *w0 };
                lw.push(base.ln_() + s);
            }
            if unsure && T::F32 {
                return;
            }
            c.get("update", r);
            let big = lw.iter().fold(f64::NEG_INFINITY, |m, x| m.max(x.f()));
            let ex: Vec<DD> = lw.iter().map(|x| if x.f() - big < -740.0 { dd(0.0) } else { (*x - dd(big)).exp_() }).collect();
            let sum = ex.iter().fold(dd(0.0), |a, x| a + *x);
            w = ex.iter().map(|x| *x / sum).collect();
            // Range readings feed through the scalar's own angles.
            let rel = e * 256.0 * B as f64 * (worst + 20.0) * (1.0 + room.r / bm.range_deviation.d());
            if rel > 0.02 {
                return;
            }
            let ess = 1.0 / w.iter().fold(dd(0.0), |a, x| a + *x * *x).f();
            if (ess - nf / 2.0).abs() < 8.0 * rel * nf + 1e-9 {
                return;
            }
            let new: Vec<[f64; 3]> = m.particles().iter().map(|p| core::array::from_fn(|i| p[i].d())).collect();
            if ess < nf / 2.0 {
                let mut left = 0;
                let mut at = 0;
                while at < n {
                    // Copies of one guess stand together.
                    let o = old[at];
                    let mut want = 0.0;
                    while at < n && old[at] == o {
                        want += w[at].f() * nf;
                        at += 1;
                    }
                    let k = new.iter().filter(|x| **x == o).count();
                    left += k;
                    c.ok((k as f64 - want).abs() < 1.0 + 8.0 * rel * nf, "guesses live on by their share", || format!("{k} of {want}"));
                }
                c.eq("copies of the cloud", left, n);
                c.near("equally likely again", m.effective_sample_size().d(), nf, 8.0 * e * nf * (nf + 4.0));
                w = vec![dd(1.0 / nf); n];
                c.hit("clouds resampled by scans");
            } else {
                c.ok(new == old, "weighing moves nothing", String::new);
                c.near("how many still count", m.effective_sample_size().d(), ess, 8.0 * rel * ess + 8.0 * e * nf * ess);
                c.hit("scans weighed");
            }
            let rel = rel + 8.0 * e * (nf + 8.0);
            answer(c, &m, &new_of(&m), &w, rel);
        }
        c.ok(m.particles() == twin.particles(), "same seed, same run", String::new);
    }
    if c.p(0.2) {
        let r = m.predict(T::t(f64::NAN), T::t(0.0));
        c.eq("a step that is no number", r.err(), Some(E::NonFinite));
    }
    c.hit("localizers");
}
fn new_of<const B: usize, T: Fl + RandomScalar + Primal>(m: &MonteCarloLocalizer<B, T>) -> Vec<[f64; 3]> {
    m.particles().iter().map(|p| core::array::from_fn(|i| p[i].d())).collect()
}
/// The pose and spread it answers with.
fn answer<const B: usize, T: Fl + RandomScalar + Primal>(c: &mut Case, m: &MonteCarloLocalizer<B, T>, p: &[[f64; 3]], w: &[DD], rel: f64) {
    let e = T::EPS;
    let (x, s) = m.estimate();
    let sum = |f: &dyn Fn(&[f64; 3]) -> DD| p.iter().zip(w).fold(dd(0.0), |a, (p, w)| a + *w * f(p));
    let size = p.iter().fold(1.0f64, |m, p| m.max(p[0].abs()).max(p[1].abs()));
    let mean = [sum(&|p| dd(p[0])), sum(&|p| dd(p[1]))];
    for i in 0..2 {
        c.near("place", x[i].d(), mean[i].f(), 4.0 * rel * size);
        for j in 0..2 {
            let v = sum(&|p| (dd(p[i]) - mean[i]) * (dd(p[j]) - mean[j]));
            c.near("place spread", s[(i, j)].d(), v.f(), 32.0 * rel * size * size);
        }
    }
    let (sn, cs) = (sum(&|p| dd(p[2]).sincos().0), sum(&|p| dd(p[2]).sincos().1));
    let len = (sn * sn + cs * cs).sqr().f();
    if len > 0.05 {
        c.near("heading", wrap(x[2].d() - DD::atan2_(sn, cs).f()), 0.0, 8.0 * rel / len + 8.0 * e);
    }
    c.ok(x[2].d().abs() <= core::f64::consts::PI * (1.0 + e), "heading within half a turn", String::new);
    // The stated measure of how the headings agree, for small scatter their variance.
    let spread = s[(2, 2)].d();
    c.near("heading spread", spread, (2.0 * (1.0 - len)).max(1e-6), 16.0 * rel + 8.0 * e);
    c.ok([(0, 2), (1, 2), (2, 0), (2, 1)].iter().all(|k| s[*k].d() == 0.0), "no more is claimed", String::new);
    let (tp, th) = (s[(0, 0)].d() + s[(1, 1)].d(), spread);
    let d = |a: f64, b: f64| m.is_converged(T::t(a), T::t(b));
    let near = 1.0 + 16.0 * e;
    if tp > 0.0 {
        c.eq("settled", [d(tp * near * 1.01, th * 1.01), d(tp * 0.99, th * 1.01), d(tp * 1.02, th * 0.99)], [true, false, false]);
    }
    c.hit("answers");
}
/// A cloud of normal kicks of the given variances.
fn scatter(c: &mut Case, tag: &str, d: impl Iterator<Item = [f64; 3]>, var: [f64; 3]) {
    let d: Vec<[f64; 3]> = d.collect();
    let n = d.len() as f64;
    for i in 0..3 {
        let sd = var[i].sqrt();
        let z: Vec<f64> = d.iter().map(|x| x[i] / sd).collect();
        let top = z.iter().fold(0.0f64, |m, x| m.max(x.abs()));
        c.ok(top < 8.5, tag, || format!("{top} spreads out on axis {i}"));
        let mean = z.iter().sum::<f64>() / n;
        c.ok(mean.abs() < 7.0 / n.sqrt(), tag, || format!("mean {mean} on axis {i} of {n}"));
        let v = z.iter().map(|x| x * x).sum::<f64>();
        // Wilson-Hilferty puts the sum of squares on a normal scale.
        let wh = ((v / n).cbrt() - (1.0 - 2.0 / (9.0 * n))) / (2.0 / (9.0 * n)).sqrt();
        c.ok(wh.abs() < 7.5, tag, || format!("variance {} on axis {i} of {n}", v / n));
        if n >= 50.0 {
            let zero = z.iter().filter(|x| **x == 0.0).count();
            c.ok(zero < 5, tag, || format!("{zero} unmoved on axis {i}"));
        }
    }
    // The axes are kicked apart from one another.
    if n >= 20.0 {
        for (i, j) in [(0, 1), (0, 2), (1, 2)] {
            let r = d.iter().map(|x| x[i] * x[j]).sum::<f64>() / (n * (var[i] * var[j]).sqrt());
            c.ok(r.abs() < 8.0 / n.sqrt(), tag, || format!("axes {i} {j} go together: {r}"));
        }
    }
}

fn main() {
    vmon::run("C28", |s| {
        s.rule("recorded draws replayed against double-double: every scatter, kick, weight, pick and jitter; picks by cumulative weight, copies vs share; clouds vs the exact Kalman answer; localization scores by the stated beam rules on an analytic room");
        s.assume("random draws are judged by C31; here they are recorded and taken as given, except for the localizer's own, judged by moments at 7 standard deviations");
        macro_rules! both {
            ($n:literal, $q:expr, $f:expr, $g:expr) => {
                s.monitor($n, $q, 20, |c| if c.p(0.35) { $f(c) } else { $g(c) })
            };
        }
        both!("resample", 40000, resample::<f32>, resample::<f64>);
        both!("cloud-1-1", 4000, cloud::<1, 1, f32>, cloud::<1, 1, f64>);
        both!("cloud-2-1", 4000, cloud::<2, 1, f32>, cloud::<2, 1, f64>);
        both!("cloud-3-2", 4000, cloud::<3, 2, f32>, cloud::<3, 2, f64>);
        both!("cloud-6-4", 1000, cloud::<6, 4, f32>, cloud::<6, 4, f64>);
        both!("seeded", 4000, seeded::<f32>, seeded::<f64>);
        s.monitor("belief", 200, 20, belief);
        both!("localize-1", 1500, localize::<2, f32>, localize::<2, f64>);
        both!("localize-7", 1500, localize::<7, f32>, localize::<7, f64>);
        both!("localize-31", 800, localize::<31, f32>, localize::<31, f64>);
        for (e, n) in [
            ("clouds resampled", 10000),
            ("whole shares kept", 1000),
            ("clouds moved", 1000),
            ("resampled on demand", 500),
            ("resampled when due", 300),
            ("reweighed", 300),
            ("jitters", 50),
            ("readings by model", 500),
            ("readings by score", 500),
            ("refusals", 500),
            ("seeded runs", 1000),
            ("beliefs compared", 100),
            ("guesses moved", 500),
            ("scans weighed", 100),
            ("clouds resampled by scans", 100),
            ("answers", 200),
        ] {
            s.require(e, n);
        }
    });
}
