//! Estimation and random numbers.
use super::calc::{G, g};
use super::space::*;
use super::*;

crate::scenarios!(list: random, kalman, extended, extended_fd, unscented, models, nominal, eskf, eskf_runs, mahony, madgwick, particle_weights);
crate::scenarios!(heap: particle, localizer, grid_heap, jacobian_heap);

fn random<T: Sc>(s: &mut Sim) {
    let mut r = s.pcg::<T>();
    for _ in 0..8 {
        match s.us(0, 3) {
            0 => {
                let k = r.next_u32();
                s.raw(k as f64)
            }
            1 => {
                let k = r.next_u64();
                s.raw((k >> 12) as f64)
            }
            2 => {
                let k = r.next_unit();
                s.put(k)
            }
            _ => {
                let k = r.standard_normal();
                s.put(k)
            }
        }
    }
}
fn upd(s: &mut Sim) -> CovarianceUpdate {
    if s.p(0.5) { CovarianceUpdate::Joseph } else { CovarianceUpdate::Naive }
}
fn kalman<T: Sc>(s: &mut Sim) {
    let m = KalmanModel { state_transition: s.m(), process_noise: s.spd(), measurement_model: s.m(), measurement_noise: s.spd() };
    let mut f = KalmanFilter::<3, 2, T>::new(s.v(), s.spd(), m).with_covariance_update(upd(s));
    for _ in 0..3 {
        if s.p(0.7) {
            f.predict();
        } else {
            let (b, u): (Matrix<3, 1, T>, Vector<1, T>) = (s.m(), s.v());
            f.predict_with_control(b, u);
        }
        let z = s.v();
        let r = f.update(z);
        s.res(r);
        s.pv(f.state());
        s.pm(f.covariance());
        s.pv(f.innovation());
        s.pm(f.innovation_covariance());
        if let Some(n) = { let r = f.normalized_innovation_squared(); s.res(r) } {
            s.put(n);
        }
    }
    f.set_state(s.v());
    f.set_state_transition(s.m());
    f.set_process_noise(s.spd());
    f.set_measurement_model(s.m());
    f.set_measurement_noise(s.spd());
    f.predict();
    s.pv(f.state());
}
fn ekf_run<T: Sc, D: DerivatorMultiVariable<Scalar = T> + Clone>(s: &mut Sim, mut f: ExtendedKalmanFilter<3, 2, T, D>) {
    for _ in 0..3 {
        let (p, m): (G, G) = (g(s), g(s));
        let r = f.predict(&p);
        s.res(r);
        let z = s.v();
        let r = if s.p(0.5) { f.update(&m, z) } else { f.update_with_residual(&m, z) };
        s.res(r);
        s.pv(f.state());
        s.pm(f.covariance());
        s.pv(f.innovation());
        s.pm(f.innovation_covariance());
        if let Some(n) = { let r = f.normalized_innovation_squared(); s.res(r) } {
            s.put(n);
        }
        if s.p(0.3) {
            f.set_state(s.v());
            f.set_process_noise(s.spd());
            f.set_measurement_noise(s.spd());
        }
    }
}
fn extended<T: Sc>(s: &mut Sim) {
    let f = ExtendedKalmanFilter::<3, 2, T, AutoDiffMulti<T>>::new(s.v(), s.spd(), s.spd(), s.spd()).with_covariance_update(upd(s));
    ekf_run(s, f);
}
fn extended_fd<T: Sc>(s: &mut Sim) {
    let f = ExtendedKalmanFilter::<3, 2, T, _>::from_derivator(s.v(), s.spd(), s.spd(), s.spd(), FiniteDifferenceMulti::<T>::default()).with_covariance_update(upd(s));
    ekf_run(s, f);
}
fn unscented<T: Sc>(s: &mut Sim) {
    let mut f = UnscentedKalmanFilter::<3, 2, T>::new(s.v(), s.spd(), s.spd(), s.spd());
    if s.p(0.5) {
        let (a, b, k) = (s.r(0.01, 1.0), s.r(0.0, 3.0), s.r(-1.0, 2.0));
        let r = f.with_scaling(a, b, k);
        f = match s.res(r) {
            Some(f) => f,
            None => return,
        };
    }
    if s.p(0.3) {
        let a = s.r(0.0, 0.01);
        let r = f.with_regularization(a);
        f = match s.res(r) {
            Some(f) => f,
            None => return,
        };
    }
    for _ in 0..3 {
        let (p, m): (G, G) = (g(s), g(s));
        let r = f.predict(&p);
        s.res(r);
        let z = s.v();
        let r = if s.p(0.5) { f.update(&m, z) } else { f.update_with_residual(&m, z) };
        s.res(r);
        s.pv(f.state());
        s.pm(f.covariance());
        s.pv(f.innovation());
        s.pm(f.innovation_covariance());
        if let Some(n) = { let r = f.normalized_innovation_squared(); s.res(r) } {
            s.put(n);
        }
        if s.p(0.3) {
            f.set_state(s.v());
            f.set_process_noise(s.spd());
            f.set_measurement_noise(s.spd());
        }
    }
}
fn models<T: Sc>(s: &mut Sim) {
    let h = s.r::<f64>(0.001, 0.5);
    let x: [T; 5] = s.a();
    s.pa(&ConstantTurnAndSpeed { timestep: h }.eval(&x));
    let i = [s.ix(5), s.ix(5)];
    if let Some(d) = { let r = DirectMeasurement::<5, 2>::try_new(i); s.res(r) } {
        s.pa(&d.eval(&x));
        s.k(d.indices()[0]);
    }
    let (a, b): (Vector<3, T>, Vector<3, T>) = (s.v(), s.v());
    let k = [s.ix(3), s.ix(3)];
    s.pv(residual_with_wrapped_angles(a.scale(T::TEN), b, &k));
}
pub fn nom<T: Sc>(s: &mut Sim) -> NominalState<T> {
    let o = rot(s);
    NominalState::new(s.v(), s.v(), o, s.v(), s.v())
}
fn pn<T: Sc>(s: &mut Sim, n: NominalState<T>) {
    s.pv(n.position());
    s.pv(n.velocity());
    pr(s, n.orientation());
    s.pv(n.gyroscope_bias());
    s.pv(n.accelerometer_bias());
}
fn nominal<T: Sc>(s: &mut Sim) {
    let (a, b): (NominalState<T>, NominalState<T>) = (nom(s), nom(s));
    let e = s.v();
    pn(s, a.plus_error(e));
    s.pv(a.error_from(b));
    let (w, f, h, gr) = (s.v(), s.v(), s.small(), s.v());
    pn(s, a.propagated(w, f, h, gr));
    s.b(a.is_finite());
    s.put(a.lifted_to_dual().position()[0].value);
    let o = rot(s);
    pn(s, NominalState::<T>::at_rest(o));
}
struct Sensor(G, usize);
impl<const M: usize> NominalStateFn<M> for Sensor {
    fn eval<S: Numeric>(&self, n: &NominalState<S>) -> [S; M] {
        let p = n.position();
        let v = n.velocity();
        let d = n.orientation().inverse().act(Vector::new([S::ZERO, S::ZERO, S::ONE]));
        core::array::from_fn(|i| match (self.1 + i) % 4 {
            0 => p[i % 3],
            1 => v[i % 3],
            2 => d[i % 3],
            _ => self.0.at(p[i % 3], i),
        })
    }
}
fn noise<T: Sc>(s: &mut Sim) -> ImuNoise<T> {
    ImuNoise { gyroscope_noise_density: s.small(), accelerometer_noise_density: s.small(), gyroscope_bias_random_walk: s.small(), accelerometer_bias_random_walk: s.small() }
}
fn eskf_step<T: Sc>(s: &mut Sim, f: &mut ErrorStateKalmanFilter<3, T>) {
    let (w, a, h) = (s.v(), s.v(), s.small());
    match s.us(0, 8) {
        0 | 1 => {
            let r = f.predict(w, a, h);
            s.res(r);
        }
        2 => {
            let m = f.error_state_transition(w, a, h);
            s.put(m[(0, 3)]);
            s.put(m[(6, 7)]);
        }
        3 => {
            let k = Sensor(g(s), s.us(0, 3));
            let r = f.update(&k, a);
            s.res(r);
        }
        4 => {
            let k = Sensor(g(s), s.us(0, 3));
            let r = f.update_with_residual(&k, w);
            s.res(r);
        }
        5 => {
            let k = Sensor(g(s), s.us(0, 3));
            let (z, n): (Vector<2, T>, Matrix<2, 2, T>) = (s.v(), s.spd());
            let r = f.update_other(&k, z, n);
            s.res(r);
        }
        6 => f.inject_error_and_reset(s.v()),
        7 => {
            let k = s.small();
            let r = f.condition_covariance(k);
            s.res(r);
        }
        _ => {
            f.set_imu_noise(noise(s));
            f.set_measurement_noise(s.spd());
            f.set_nominal_state(nom(s));
        }
    }
    pn(s, f.nominal_state());
    let c = f.covariance();
    for i in 0..ERROR_DIMENSION {
        s.put(c[(i, i)]);
    }
    s.pv(f.innovation());
    s.pm(f.innovation_covariance());
    if let Some(n) = { let r = f.normalized_innovation_squared(); s.res(r) } {
        s.put(n);
    }
}
const ERROR_DIMENSION: usize = 15;
fn eskf_new<T: Sc>(s: &mut Sim) -> ErrorStateKalmanFilter<3, T> {
    let c: Matrix<15, 15, T> = Matrix::from_diagonal(core::array::from_fn(|_| s.pos()));
    let f = ErrorStateKalmanFilter::<3, T>::new(nom(s), c, noise(s), s.spd()).with_covariance_update(upd(s));
    if s.p(0.3) { f.with_gravity(s.v()) } else { f }
}
fn eskf<T: Sc>(s: &mut Sim) {
    let mut f = eskf_new::<T>(s);
    eskf_step(s, &mut f);
    let t = nom(s);
    if let Some(n) = { let r = f.normalized_estimation_error_squared(t); s.res(r) } {
        s.put(n);
    }
}
fn eskf_runs<T: Sc>(s: &mut Sim) {
    let mut f = eskf_new::<T>(s);
    for _ in 0..4 {
        eskf_step(s, &mut f);
    }
}
fn mahony<T: Sc>(s: &mut Sim) {
    let mut f = MahonyFilter::<T>::new(rot(s));
    if s.p(0.5) {
        f = f.with_proportional_gain(s.pos()).with_integral_gain(s.pos());
    }
    if s.p(0.3) {
        f = f.with_reference_directions(s.v(), s.v());
    }
    for _ in 0..4 {
        let (w, a, h) = (s.v(), s.v(), s.small());
        let m = if s.p(0.6) { Some(s.v()) } else { None };
        let r = if s.p(0.8) { f.step(w, a, m, h) } else { f.step_without_magnetometer(w, a, h) };
        s.res(r);
        pr(s, f.orientation());
        s.pv(f.gyroscope_bias());
    }
    f.set_orientation(rot(s));
    f.set_gyroscope_bias(s.v());
    pr(s, f.orientation());
}
fn madgwick<T: Sc>(s: &mut Sim) {
    let mut f = MadgwickFilter::<T>::new(rot(s));
    if s.p(0.5) {
        f = f.with_correction_gain(s.pos()).with_bias_gain(s.pos());
    }
    if s.p(0.3) {
        f = f.with_reference_directions(s.v(), s.v());
    }
    for _ in 0..4 {
        let (w, a, h) = (s.v(), s.v(), s.small());
        let m = if s.p(0.6) { Some(s.v()) } else { None };
        let r = if s.p(0.8) { f.step(w, a, m, h) } else { f.step_without_magnetometer(w, a, h) };
        s.res(r);
        pr(s, f.orientation());
        s.pv(f.gyroscope_bias());
    }
    f.set_orientation(rot(s));
    f.set_gyroscope_bias(s.v());
    pr(s, f.orientation());
}
fn scheme(s: &mut Sim) -> ResamplingScheme {
    s.pick(&[ResamplingScheme::Systematic, ResamplingScheme::Stratified, ResamplingScheme::Multinomial, ResamplingScheme::Residual])
}
fn particle_weights<T: Sc>(s: &mut Sim) {
    let w: [T; 12] = core::array::from_fn(|_| s.r(0.0, 1.0));
    let (n, m) = (s.us(0, 12), s.us(0, 16));
    let mut total = T::ZERO;
    for x in &w[..n] {
        total = total + *x;
    }
    let w: [T; 12] = core::array::from_fn(|i| if s.style == Style::Tame { w[i] / total } else { w[i] });
    let mut out = [0usize; 16];
    let mut g = s.pcg::<T>();
    scheme(s).resample_indices(&w[..n], &mut g, &mut out[..m]);
    for o in out {
        s.k(o);
    }
    if let Some(l) = { let n: Matrix<2, 2, T> = s.spd(); let r = GaussianLikelihood::new(n); s.res(r) } {
        let (a, b) = (s.a(), s.a());
        s.put(l.log_weight(&a, &b));
    }
}
fn particle<T: Sc>(s: &mut Sim) {
    let n = s.us(0, 40);
    let (m, c, q, k) = (s.v(), s.spd(), s.spd(), s.u());
    let r = ParticleFilter::<2, 1, T>::new(n, m, c, q, k);
    let Some(mut f) = s.res(r) else { return };
    f = f.with_resampling(scheme(s)).with_resample_threshold(s.r(0.0, 1.0));
    if s.p(0.4) {
        f = f.with_roughening(s.small());
    }
    for _ in 0..3 {
        let (p, q): (G, G) = (g(s), g(s));
        let r = f.predict(&p);
        s.res(r);
        let noise: Matrix<1, 1, T> = s.spd();
        let z = s.v();
        if let Some(l) = { let r = GaussianLikelihood::new(noise); s.res(r) } {
            let r = f.update(&q, &l, z);
            s.res(r);
        }
        let c: T = s.x();
        let r = f.update_with_log_weights(|x| -(x[0] - c) * (x[0] - c));
        s.res(r);
        if s.p(0.3) {
            f.resample();
        }
        s.pv(f.mean());
        s.put(f.effective_sample_size());
        s.pv(f.maximum_a_posteriori_state());
        s.pa(f.weights());
    }
}
fn localizer<T: Sc>(s: &mut Sim) {
    use multicalc::mapping::*;
    let m = super::kin::fixed::<T>(s);
    let r = ScanGeometry::<7, T>::try_new(s.r(0.5, 6.0), s.r(2.0, 20.0));
    let Some(geo) = s.res(r) else { return };
    let cloud = InitialParticleCloud { particle_count: s.us(0, 25), position_variance: s.pos(), heading_variance: s.pos() };
    let beam = if s.p(0.5) { BeamModel::default() } else { BeamModel { range_deviation: s.pos(), agreement_reward: s.pos(), mismatch_penalty: s.r(-5.0, 0.0) } };
    let (h, k) = (s.a(), s.u());
    let r = MonteCarloLocalizer::<7, T>::new(h, cloud, beam, k);
    let Some(mut l) = s.res(r) else { return };
    for _ in 0..2 {
        let (d, t) = (s.x(), s.x());
        let r = l.predict(d, t);
        s.res(r);
        let scan = core::array::from_fn(|_| s.r(0.1, 20.0));
        let r = l.update(&scan, &m, &geo);
        s.res(r);
        let (p, c) = l.estimate();
        s.pv(p);
        s.pm(c);
        s.put(l.effective_sample_size());
        let (a, b) = (s.pos(), s.pos());
        s.b(l.is_converged(a, b));
        let v = core::array::from_fn(|_| s.small());
        let r = l.set_motion_noise(v);
        s.res(r);
    }
}
fn grid_heap<T: Sc>(s: &mut Sim) {
    use multicalc::mapping::*;
    let (c, r) = (s.us(0, 30), s.us(0, 30));
    let (c, r) = if matches!(s.style, Style::Hostile(_)) && s.p(0.05) { s.pick(&[(usize::MAX, 2), (1 << 33, 1 << 33), (usize::MAX, usize::MAX), (0, usize::MAX)]) } else { (c, r) };
    let (h, o) = (s.pos(), s.a());
    let g = DynamicOccupancyGrid::<T>::try_new(c, r, h, o);
    let Some(mut g) = s.res(g) else { return };
    let (i, j) = (s.ix(30), s.ix(30));
    g.set_cell(i, j, true);
    s.b(g.is_occupied(i, j));
    let l: [[T; 2]; 3] = core::array::from_fn(|_| [s.r(-10.0, 40.0), s.r(-10.0, 40.0)]);
    g.occupy_polyline(&l, true);
    g.occupy_circle(l[0], s.pos());
    let v = g.cast_ray(l[1], s.r(-7.0, 7.0), s.r(0.0, 80.0));
    s.opt(v);
    g.clear();
}
fn jacobian_heap<T: Sc>(s: &mut Sim) {
    let f = g(s);
    let p: [T; 3] = s.a();
    if let Some(v) = { let r = Jacobian::from_derivator(AutoDiffMulti::<T>::new()).evaluate_on_heap::<_, 4, 3>(&f, &p); s.res(r) } {
        for r in v {
            s.pa(&r);
        }
    }
}
