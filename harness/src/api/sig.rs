//! Signal filters, controllers, motion.
use super::space::*;
use super::*;

crate::scenarios!(list: biquad, cascade, multi, conditioning, one_pole, savgol, windows, pid, lqr, pursuit, attitude, thrust, profile, profile_sync, path, snap);

fn coef<T: Sc>(s: &mut Sim) -> Option<BiquadCoefficients<T>> {
    let (f, q, h): (T, T, T) = (s.r(0.1, 60.0), s.r(0.3, 3.0), s.r(0.001, 0.01));
    let r = match s.us(0, 4) {
        0 => BiquadCoefficients::low_pass(f, q, h),
        1 => BiquadCoefficients::high_pass(f, q, h),
        2 => BiquadCoefficients::band_pass(f, q, h),
        3 => BiquadCoefficients::notch(f, q, h),
        _ => {
            let a = s.a();
            let b = [s.r(-1.9, 1.9), s.r(-0.9, 0.9)];
            BiquadCoefficients::new(a, b, h)
        }
    };
    s.res(r)
}
fn biquad<T: Sc>(s: &mut Sim) {
    let Some(c) = coef::<T>(s) else { return };
    let f: T = s.r(0.0, 200.0);
    s.pa(&[c.magnitude_at(f), c.magnitude_in_decibels_at(f), c.phase_at(f), c.delay_at(f), c.timestep()]);
    s.pa(&c.feed_forward());
    s.pa(&c.feedback());
    s.b(c.is_stable());
    let mut b = Biquad::new(c);
    for _ in 0..10 {
        let x = s.x();
        s.put(b.filter(x));
    }
    b.settle_to(s.x());
    let w = s.x();
    s.put(b.filter(w));
    if let Some(c) = coef(s) {
        b.set_coefficients(c);
    }
    let w = s.x();
    s.put(b.filter(w));
    b.reset();
    s.put(b.value());
}
fn cascade<T: Sc>(s: &mut Sim) {
    let (Some(a), Some(b)) = (coef::<T>(s), coef::<T>(s)) else { return };
    let mut c = BiquadCascade::<2, T>::new([a, b]);
    for _ in 0..6 {
        let x = s.x();
        s.put(c.filter(x));
    }
    let i = s.ix(2);
    let r = c.set_section(i, b);
    s.res(r);
    c.settle_to(s.x());
    let f: T = s.r(0.0, 200.0);
    s.pa(&[c.magnitude_at(f), c.magnitude_in_decibels_at(f), c.phase_at(f), c.delay_at(f), c.value()]);
    s.b(c.is_stable());
    c.reset();
    let (f, q, h): (T, T, T) = (s.r(0.1, 60.0), s.r(0.3, 3.0), s.r(0.001, 0.01));
    if let Some(k) = { let r = harmonic_notch_coefficients::<3, T>(f, q, h); s.res(r) } {
        for k in k {
            s.pa(&k.feed_forward());
        }
    }
    let e = BiquadCascade::<0, T>::new([]);
    s.pa(&[e.magnitude_at(f), e.value()]);
}
fn multi<T: Sc>(s: &mut Sim) {
    let Some(c) = coef::<T>(s) else { return };
    let mut m = MultiChannelBiquad::<3, T>::new(c);
    for _ in 0..5 {
        let v = s.v();
        s.pv(m.filter(v));
    }
    m.settle_to(s.v());
    if let Some(c) = coef(s) {
        m.set_coefficients(c);
    }
    s.pv(m.value());
    m.reset();
}
fn conditioning<T: Sc>(s: &mut Sim) {
    let (t, a, b, h): (T, T, T, T) = (s.pos(), s.r(-1.0, 0.5), s.r(0.0, 1.0), s.small());
    for r in [Deadband::plain(t), Deadband::recentered(t)] {
        if let Some(d) = s.res(r) {
            let x = s.x();
            s.put(d.apply(x));
            s.put(d.threshold());
        }
    }
    if let Some(mut y) = { let r = Hysteresis::new(a, b); s.res(r) } {
        for _ in 0..6 {
            let x = s.x();
            s.b(y.update(x));
        }
        y.reset();
        s.b(y.is_high());
    }
    let (u, v): (T, T) = (s.pos(), s.pos());
    for r in [SlewRateLimiter::new(u, v, h), SlewRateLimiter::symmetric(u, h)] {
        if let Some(mut l) = s.res(r) {
            for _ in 0..6 {
                let x = s.x();
                s.put(l.filter(x));
            }
            l.reset();
            s.put(l.value());
        }
    }
}
fn one_pole<T: Sc>(s: &mut Sim) {
    let (a, f, h): (T, T, T) = (s.r(0.01, 1.0), s.r(0.1, 40.0), s.small());
    for r in [OnePoleLowPass::new(a), OnePoleLowPass::from_cutoff(f, h)] {
        if let Some(mut l) = s.res(r) {
            for _ in 0..6 {
                let x = s.x();
                s.put(l.filter(x));
            }
            l.reset();
            s.put(l.value());
        }
    }
}
fn savgol_of<const W: usize, const P: usize, T: Sc>(s: &mut Sim) {
    let h: T = s.small();
    for r in [SavitzkyGolay::<W, P, T>::centered(h), SavitzkyGolay::latest(h)] {
        if let Some(mut f) = s.res(r) {
            for _ in 0..W + 3 {
                let x = s.x();
                s.put(f.filter(x));
                s.pa(&[f.value(), f.first_derivative(), f.second_derivative()]);
            }
            s.put(f.delay());
            f.reset();
            s.put(f.value());
        }
    }
}
fn savgol<T: Sc>(s: &mut Sim) {
    savgol_of::<5, 3, T>(s);
    savgol_of::<1, 1, T>(s);
    savgol_of::<4, 2, T>(s);
    savgol_of::<3, 5, T>(s);
    savgol_of::<0, 0, T>(s);
}
fn windows_of<const W: usize, T: Sc>(s: &mut Sim) {
    if let Some(mut m) = { let r = MovingAverage::<W, T>::new(); s.res(r) } {
        for _ in 0..W + 5 {
            let x = s.x();
            s.put(m.filter(x));
        }
        m.reset();
        s.put(m.value());
    }
    if let Some(mut m) = { let r = RunningMedian::<W, T>::new(); s.res(r) } {
        for _ in 0..W + 5 {
            let x = s.x();
            s.put(m.filter(x));
        }
        m.reset();
        s.put(m.value());
    }
}
fn windows<T: Sc>(s: &mut Sim) {
    windows_of::<0, T>(s);
    windows_of::<1, T>(s);
    windows_of::<4, T>(s);
    windows_of::<7, T>(s);
}
fn pid<T: Sc>(s: &mut Sim) {
    let (k, i, d, h): (T, T, T, T) = (s.pos(), s.pos(), s.pos(), s.small());
    let Some(mut p) = ({ let r = Pid::new(k, i, d, h); s.res(r) }) else { return };
    if s.p(0.6) {
        let (a, b) = (s.r(-3.0, 0.0), s.r(0.0, 3.0));
        let r = p.with_output_limits(a, b);
        p = match s.res(r) {
            Some(p) => p,
            None => return,
        };
    }
    if s.p(0.4) {
        let a = s.r(0.0, 1.0);
        let r = p.with_derivative_filter(a);
        p = match s.res(r) {
            Some(p) => p,
            None => return,
        };
    }
    for _ in 0..6 {
        let (a, b) = (s.x(), s.x());
        s.put(p.update(a, b));
    }
    let (a, b, c) = (s.pos(), s.pos(), s.pos());
    let r = p.set_gains(a, b, c);
    s.res(r);
    let (a, b, c) = (s.x(), s.x(), s.x());
    let r = p.resume_from(a, b, c);
    s.res(r);
    s.put(p.update(a, b));
    s.put(p.integral());
    p.reset();
    s.put(p.integral());
}
fn lqr<T: Sc>(s: &mut Sim) {
    let (a, b, q, r): (Matrix<3, 3, T>, Matrix<3, 2, T>, Matrix<3, 3, T>, Matrix<2, 2, T>) = (s.m(), s.m(), s.spd(), s.spd());
    let Some(l) = ({ let r = Lqr::new(a, b, q, r); s.res(r) }) else { return };
    s.pm(l.gain());
    s.pm(l.closed_loop());
    s.pm(l.cost_to_go());
    let (x, y, u) = (s.v(), s.v(), s.v());
    s.pv(l.control(x));
    s.pv(l.control_tracking(x, y, u));
    if let Some(p) = { let r = l.certify_stability(); s.res(r) } {
        s.pm(p);
    }
}
fn pursuit<T: Sc>(s: &mut Sim) {
    let (p, t, d) = (pose2::<T>(s), s.v(), s.pos());
    if let Some(c) = { let r = pure_pursuit_curvature(p, t, d); s.res(r) } {
        let v = s.x();
        let b = c.to_body_twist(v);
        s.pa(&[c.value(), b.linear(), b.angular()]);
    }
    let w: T = s.x();
    s.put(Curvature::new(w).value());
}
fn attitude<T: Sc>(s: &mut Sim) {
    let (k, r, i) = (s.pos::<T>(), s.pos(), s.spd());
    let (a, d): (SO3<T>, SO3<T>) = (rot(s), rot(s));
    s.pv(GeometricAttitudeController::attitude_error(a, d));
    if let Some(c) = { let r = GeometricAttitudeController::new(k, r, i); s.res(r) } {
        let (w, x, y) = (s.v(), s.v(), s.v());
        s.pv(c.torque(a, w, d, x, y));
        s.pa(&[c.attitude_gain(), c.rate_gain()]);
        s.pm(c.inertia());
    }
}
fn thrust<T: Sc>(s: &mut Sim) {
    let (a, h, g): (Vector<3, T>, T, T) = (s.v(), s.r(-4.0, 4.0), s.r(1.0, 12.0));
    if let Some(t) = { let r = thrust_command_from_acceleration(a, h, g); s.res(r) } {
        pr(s, t.attitude());
        s.put(t.thrust_acceleration());
        let m = s.pos();
        s.put(t.thrust_force(m));
    }
}
fn planner<T: Sc>(s: &mut Sim) -> Option<MotionProfilePlanner<T>> {
    let (v, a) = (s.pos(), s.pos());
    let j = if s.p(0.6) { Some(s.pos()) } else { None };
    let r = ProfileLimits::try_new(v, a, j);
    let l: ProfileLimits<T> = s.res(r)?;
    let st = s.pick(&[ProfileStrategy::Automatic, ProfileStrategy::Trapezoidal, ProfileStrategy::JerkLimited]);
    Some(MotionProfilePlanner::new(l).with_strategy(st))
}
fn pprof<T: Sc>(s: &mut Sim, p: &MotionProfile<T>) {
    s.pa(&[p.duration(), p.distance(), p.peak_speed()]);
    s.pa(&p.phase_durations());
    for _ in 0..3 {
        let t = s.r(-0.5, 6.0);
        if let Some(x) = { let r = p.state_at(t); s.res(r) } {
            s.pa(&[x.position, x.velocity, x.acceleration, x.jerk]);
        }
    }
}
fn profile<T: Sc>(s: &mut Sim) {
    let Some(p) = planner::<T>(s) else { return };
    let d = s.r(-6.0, 6.0);
    if let Some(p) = { let r = p.plan(d); s.res(r) } {
        pprof(s, &p);
        let t = s.r(0.0, 9.0);
        pprof(s, &p.stretched_to(t));
    }
}
fn profile_sync<T: Sc>(s: &mut Sim) {
    let Some(p) = planner::<T>(s) else { return };
    let (a, b) = (s.x(), s.x());
    let (Some(a), Some(b)) = ({ let r = p.plan(a); s.res(r) }, { let r = p.plan(b); s.res(r) }) else { return };
    let t = s.r(0.0, 9.0);
    let y = SynchronizedProfile::from_profiles([a, b]);
    let z = SynchronizedProfile::try_from_profiles_over([a, b], t);
    for y in [Some(y), s.res(z)].into_iter().flatten() {
        s.put(y.duration());
        let i = s.ix(2);
        s.b(y.axis(i).is_some());
        let t = s.r(-0.5, 6.0);
        if let Some(x) = { let r = y.state_at(t); s.res(r) } {
            s.pv(x.position);
            s.pv(x.jerk);
        }
    }
}
fn path<T: Sc>(s: &mut Sim) {
    let pts: [Vector<2, T>; 7] = core::array::from_fn(|_| s.v());
    let n = s.us(0, 7);
    let r = PolylinePath::<6, 2, T>::try_from_points(&pts[..n]);
    let Some(mut p) = s.res(r) else { return };
    if s.p(0.4) {
        let v = if s.p(0.3) && n > 0 { pts[n - 1] } else { s.v() };
        let r = p.push(v);
        s.res(r);
    }
    p = p.with_end_of_path(if s.p(0.5) { EndOfPath::Loop } else { EndOfPath::Stop });
    s.k(p.len());
    s.put(p.total_arc_length());
    for _ in 0..4 {
        let q = s.v();
        if let Some(c) = { let r = p.closest_point(q); s.res(r) } {
            s.pv(c.point());
            s.k(c.segment_index());
            s.pa(&[c.arc_length(), c.distance()]);
        }
        let (a, l) = (s.r(-3.0, 40.0), s.r(0.0, 50.0));
        if let Some(v) = { let r = p.lookahead_point(a, l); s.res(r) } {
            s.pv(v);
        }
    }
}
fn snap<T: Sc>(s: &mut Sim) {
    let w: [Vector<2, T>; 5] = core::array::from_fn(|_| s.v());
    let mut d: [T; 4] = core::array::from_fn(|_| s.r(0.2, 2.0));
    let n = s.us(0, 5);
    let m = if s.p(0.8) { n.saturating_sub(1) } else { s.us(0, 4) };
    if s.p(0.4) {
        let v = s.pos();
        let r = durations_from_average_speed(&w[..n], v, &mut d[..m]);
        s.res(r);
        s.pa(&d);
    }
    let mut p = MinimumSnapPlanner::<3, 6, 2, T>::new();
    if s.p(0.4) {
        p = p.with_start(BoundaryDerivatives { velocity: s.v(), acceleration: s.v(), jerk: s.v() });
        p = p.with_end(BoundaryDerivatives { velocity: s.v(), acceleration: s.v(), jerk: s.v() });
    }
    let r = p.plan(&w[..n], &d[..m]);
    if let Some(q) = s.res(r) {
        let t = s.r(0.0, 6.0);
        if let Some(v) = { let r = q.evaluate_with_derivatives::<5>(t); s.res(r) } {
            for v in v {
                s.pv(v);
            }
        }
    }
}
