//! Rotations, Lie groups, spatial vectors, inertia, rigid body, mixers.
use super::*;
use multicalc::dynamics::*;


crate::scenarios!(list: quat, quat_build, so2, se2, so3, se3, spatial_vectors, inertia, free_joint, rigid, mixer, mixer_any, lag, attitude_map);

pub fn q<T: Sc>(s: &mut Sim) -> Quaternion<T> {
    let v: [T; 4] = s.a();
    let q = Quaternion::from_array(v);
    if s.p(0.8) { q.normalized() } else { q }
}
pub fn rot<T: Sc>(s: &mut Sim) -> SO3<T> {
    match s.us(0, 3) {
        0 => SO3::exp(s.v()),
        1 => SO3::from_quaternion(q(s)),
        2 => SO3::identity(),
        _ => SO3::try_from_quaternion(q(s)).unwrap_or(SO3::identity()),
    }
}
pub fn pose<T: Sc>(s: &mut Sim) -> SE3<T> {
    let r = rot(s);
    SE3::from_parts(r, s.v())
}
pub fn pose2<T: Sc>(s: &mut Sim) -> SE2<T> {
    let r = SO2::from_angle(s.x());
    SE2::from_parts(r, s.v())
}
pub fn pq<T: Sc>(s: &mut Sim, q: Quaternion<T>) {
    s.pa(&q.as_array());
}
pub fn pr<T: Sc>(s: &mut Sim, r: SO3<T>) {
    pq(s, r.quaternion());
}
pub fn pp<T: Sc>(s: &mut Sim, r: SE3<T>) {
    pr(s, r.rotation());
    s.pv(r.translation());
}
pub fn pp2<T: Sc>(s: &mut Sim, r: SE2<T>) {
    let (c, d) = r.rotation().cos_sin();
    s.put(c);
    s.put(d);
    s.pv(r.translation());
}
fn quat<T: Sc>(s: &mut Sim) {
    let (a, b): (Quaternion<T>, Quaternion<T>) = (q(s), q(s));
    let p: Vector<3, T> = s.v();
    let t: T = s.r(-0.2, 1.2);
    pq(s, a * b);
    pq(s, a.conjugate());
    pq(s, a.inverse());
    pq(s, a.normalized());
    if let Some(n) = a.try_normalized() {
        pq(s, n);
    }
    pq(s, a.exp());
    pq(s, a.log());
    s.put(a.norm());
    s.put(a.norm_squared());
    s.put(a.dot(b));
    s.pm(a.to_rotation_matrix());
    let (x, g) = a.to_axis_angle();
    s.pv(x);
    s.put(g);
    s.pv(a.to_scaled_axis());
    let (r, pch, y) = a.to_euler_zyx();
    s.pa(&[r, pch, y]);
    s.pv(a.transform_point(p));
    s.pv(a.inverse_transform_point(p));
    s.put(a.rotation_angle_to(b));
    pq(s, a.slerp(b, t));
    s.pv(a.vec());
}
fn quat_build<T: Sc>(s: &mut Sim) {
    let (u, v): (Vector<3, T>, Vector<3, T>) = (s.v(), s.v());
    let g: T = s.r(-7.0, 7.0);
    pq(s, Quaternion::from_axis_angle(u, g));
    pq(s, Quaternion::from_scaled_axis(u));
    pq(s, Quaternion::from_two_vectors(u, v));
    let w = if s.p(0.3) { -u } else { u };
    pq(s, Quaternion::from_two_vectors(u, w));
    let (r, p, y): (T, T, T) = (s.r(-4.0, 4.0), s.r(-2.0, 2.0), s.r(-4.0, 4.0));
    pq(s, Quaternion::from_euler_zyx(r, p, y));
    let m = if s.p(0.4) { s.m() } else { q(s).to_rotation_matrix() };
    if let Some(n) = Quaternion::<T>::try_from_rotation_matrix(m) {
        pq(s, n);
    }
    pq(s, Quaternion::from_scalar_vector(g, u));
    pq(s, Quaternion::<T>::default());
}
fn so2<T: Sc>(s: &mut Sim) {
    let (a, b): (T, T) = (s.r(-9.0, 9.0), s.r(-9.0, 9.0));
    let (x, y) = (SO2::from_angle(a), SO2::exp(b));
    let p: Vector<2, T> = s.v();
    let t: T = s.r(-0.2, 1.2);
    s.put(x.compose(y).log());
    s.put(x.inverse().log());
    s.pv(x.act(p));
    s.put(x.adjoint());
    s.pm(x.to_matrix());
    s.pm(SO2::hat(a));
    let m: Matrix<2, 2, T> = if s.p(0.3) { s.m() } else { x.to_matrix() };
    s.put(SO2::vee(m));
    s.opt(SO2::try_from_matrix(m).map(|r| r.log()));
    s.put(x.interpolate(y, t).log());
    s.put(x.norm());
    s.put(x.normalized().log());
    s.pa(&[SO2::left_jacobian(a), SO2::right_jacobian(a), SO2::left_jacobian_inverse(a), SO2::right_jacobian_inverse(a)]);
}
fn se2<T: Sc>(s: &mut Sim) {
    let (x, y): (SE2<T>, SE2<T>) = (pose2(s), pose2(s));
    let tw: Vector<3, T> = s.v();
    let p: Vector<2, T> = s.v();
    let t: T = s.r(-0.2, 1.2);
    pp2(s, x.compose(y));
    pp2(s, x * y);
    pp2(s, x.inverse());
    s.pv(x.act(p));
    pp2(s, SE2::exp(tw));
    s.pv(x.log());
    s.pm(x.adjoint());
    s.pm(SE2::hat(tw));
    let m: Matrix<3, 3, T> = if s.p(0.3) { s.m() } else { x.to_matrix() };
    s.pv(SE2::vee(m));
    if let Some(r) = SE2::try_from_matrix(m) {
        pp2(s, r);
    }
    pp2(s, x.interpolate(y, t));
    s.pm(SE2::left_jacobian(tw));
    s.pm(SE2::right_jacobian(tw));
    s.pm(SE2::left_jacobian_inverse(tw));
    s.pm(SE2::right_jacobian_inverse(tw));
}
fn so3<T: Sc>(s: &mut Sim) {
    let (x, y): (SO3<T>, SO3<T>) = (rot(s), rot(s));
    let tw: Vector<3, T> = if s.p(0.2) { s.v().scale(T::t(1e-9)) } else { s.v() };
    let p: Vector<3, T> = s.v();
    let t: T = s.r(-0.2, 1.2);
    pr(s, x.compose(y));
    pr(s, x.inverse());
    s.pv(x.act(p));
    pr(s, SO3::exp(tw));
    s.pv(x.log());
    s.pm(x.adjoint());
    s.pm(SO3::hat(tw));
    let m: Matrix<3, 3, T> = if s.p(0.3) { s.m() } else { x.to_matrix() };
    s.pv(SO3::vee(m));
    if let Some(r) = SO3::try_from_matrix(m) {
        pr(s, r);
    }
    let (a, b, c, d): (Vector<3, T>, Vector<3, T>, Vector<3, T>, Vector<3, T>) = (s.v(), s.v(), s.v(), s.v());
    if let Some(r) = SO3::from_two_direction_pairs(a, b, c, d) {
        pr(s, r);
    }
    pr(s, x.interpolate(y, t));
    pr(s, x.normalized());
    s.pm(SO3::left_jacobian(tw));
    s.pm(SO3::right_jacobian(tw));
    s.pm(SO3::left_jacobian_inverse(tw));
    s.pm(SO3::right_jacobian_inverse(tw));
}
fn se3<T: Sc>(s: &mut Sim) {
    let (x, y): (SE3<T>, SE3<T>) = (pose(s), pose(s));
    let tw: Vector<6, T> = if s.p(0.2) { s.v().scale(T::t(1e-9)) } else { s.v() };
    let p: Vector<3, T> = s.v();
    let t: T = s.r(-0.2, 1.2);
    pp(s, x.compose(y));
    pp(s, x * y);
    pp(s, x.inverse());
    s.pv(x.act(p));
    pp(s, SE3::exp(tw));
    s.pv(x.log());
    s.pm(x.adjoint());
    s.pm(x.force_adjoint());
    s.pm(SE3::hat(tw));
    let m: Matrix<4, 4, T> = if s.p(0.3) { s.m() } else { x.to_matrix() };
    s.pv(SE3::vee(m));
    if let Some(r) = SE3::try_from_matrix(m) {
        pp(s, r);
    }
    pp(s, x.interpolate(y, t));
    s.pm(SE3::left_jacobian(tw));
    s.pm(SE3::right_jacobian(tw));
    s.pm(SE3::left_jacobian_inverse(tw));
    s.pm(SE3::right_jacobian_inverse(tw));
}
fn tw<T: Sc>(s: &mut Sim) -> Twist<T> {
    Twist::from_array(s.a())
}
fn wr<T: Sc>(s: &mut Sim) -> Wrench<T> {
    Wrench::from_array(s.a())
}
fn spatial_vectors<T: Sc>(s: &mut Sim) {
    let (a, b): (Twist<T>, Twist<T>) = (tw(s), tw(s));
    let w: Wrench<T> = wr(s);
    let x: SE3<T> = pose(s);
    let k: T = s.x();
    s.pa(&(a + b).as_array());
    s.pa(&(a - b).as_array());
    s.pa(&a.scale(k).as_array());
    s.pa(&a.cross(b).as_array());
    s.pa(&a.cross_wrench(w).as_array());
    s.put(a.dot_wrench(w));
    s.pa(&w.scale(k).as_array());
    s.pa(&x.act_twist(a).as_array());
    s.pa(&x.act_wrench(w).as_array());
    s.pa(&x.inverse_act_twist(a).as_array());
    s.pa(&x.inverse_act_wrench(w).as_array());
    s.pv(Twist::from_vector(a.to_vector()).linear());
    s.pv(Wrench::from_vector(w.to_vector()).torque());
    s.pv(Twist::new(a.angular(), a.linear()).angular());
    s.pv(Wrench::new(w.torque(), w.force()).force());
}
pub fn inert<T: Sc>(s: &mut Sim) -> Option<SpatialInertia<T>> {
    let (m, c) = (s.pos(), s.v());
    let r = if s.p(0.5) {
        let d = Vector::new([s.pos(), s.pos(), s.pos()]);
        SpatialInertia::from_diagonal_inertia(m, c, d)
    } else {
        let i = s.spd();
        SpatialInertia::new(m, c, i)
    };
    s.res(r)
}
fn inertia<T: Sc>(s: &mut Sim) {
    let (Some(a), Some(b)) = (inert::<T>(s), inert::<T>(s)) else { return };
    let v = tw(s);
    let p: Vector<3, T> = s.v();
    let x: SE3<T> = pose(s);
    for i in [a.combined(b), x.act_inertia(a), x.inverse_act_inertia(b)] {
        s.put(i.mass());
        s.pv(i.center_of_mass());
        s.pm(i.rotational_inertia());
        s.b(i.is_finite());
    }
    s.pm(a.inertia_about(p));
    s.pa(&a.momentum(v).as_array());
    s.pa(&a.bias_wrench(v).as_array());
    s.put(a.kinetic_energy(v));
    s.pm(a.to_matrix());
}
fn free_joint<T: Sc>(s: &mut Sim) {
    let p: [T; 7] = s.a();
    let v: [T; 6] = s.a();
    if let Some(f) = FreeJointState::from_generalized_vectors(p, v) {
        s.pa(&f.generalized_position());
        s.pa(&f.generalized_velocity());
        pp(s, f.pose());
    }
    let f = FreeJointState::new(pose(s), tw::<T>(s));
    s.pa(&f.generalized_position());
    s.pa(&f.velocity().as_array());
}
fn rigid<T: Sc>(s: &mut Sim) {
    let Some(i) = inert::<T>(s) else { return };
    let g = s.v();
    let Some(b) = ({ let r = RigidBody::new(i, g); s.res(r) }) else { return };
    let (o, w, f) = (rot(s), s.v(), wr(s));
    let a = b.accelerations(o, w, f);
    s.pv(a.linear());
    s.pv(a.angular());
    let mut st = FreeJointState::new(pose(s), tw(s));
    let h: T = s.small();
    for _ in 0..5 {
        st = b.stepped(st, f, h);
    }
    s.pa(&st.generalized_position());
    s.pa(&st.generalized_velocity());
    let v = state_vector_from_free_joint(st);
    s.pv(v);
    s.pv(b.state_derivative(&v, f));
    let v: Vector<STATE_DIMENSION, T> = s.v();
    s.pv(b.state_derivative(&v, f));
    if let Some(q) = free_joint_from_state_vector(&v) {
        s.pa(&q.generalized_position());
    }
}
fn mixer_run<const N: usize, T: Sc>(s: &mut Sim, m: MultirotorMixer<N, T>) {
    s.pm(m.allocation());
    for _ in 0..4 {
        let c: T = s.r(-1.0, 12.0);
        let t: Vector<3, T> = s.v();
        let r = m.rotor_thrusts(c, t);
        s.pv(r.thrusts());
        s.b(r.saturated());
        s.pa(&m.wrench(r.thrusts()).as_array());
    }
}
fn mixer<T: Sc>(s: &mut Sim) {
    let (l, k, a, b): (T, T, T, T) = (s.pos(), s.small(), s.r(0.0, 0.5), s.r(1.0, 5.0));
    if let Some(m) = { let r = MultirotorMixer::quadrotor_x(l, k, a, b); s.res(r) } {
        mixer_run(s, m);
    }
}
fn mixer_any<T: Sc>(s: &mut Sim) {
    let p: [Vector<3, T>; 6] = core::array::from_fn(|_| s.v());
    let sp: [RotorSpin; 6] = core::array::from_fn(|_| if s.p(0.5) { RotorSpin::Clockwise } else { RotorSpin::CounterClockwise });
    let (k, a, b): (T, T, T) = (s.small(), s.r(0.0, 0.5), s.r(1.0, 5.0));
    if let Some(m) = { let r = MultirotorMixer::new(p, sp, k, a, b); s.res(r) } {
        mixer_run(s, m);
    }
}
fn lag<T: Sc>(s: &mut Sim) {
    let (t, h): (T, T) = (s.pos(), s.small());
    let Some(mut l) = ({ let r = RotorLag::<3, T>::new(t, h); s.res(r) }) else { return };
    let v = s.v();
    l = l.with_thrusts(v);
    for _ in 0..6 {
        let c = s.v();
        s.pv(l.rate(c));
        s.pv(l.stepped(c));
        let h: T = s.r(0.0, 0.3);
        s.pv(l.stepped_over(c, h));
    }
    s.pv(l.thrusts());
    l.reset();
    s.pv(l.thrusts());
}
fn attitude_map<T: Sc>(s: &mut Sim) {
    use multicalc::ode::ExponentialMap as E;
    let (o, w, a): (SO3<T>, Vector<3, T>, Vector<3, T>) = (rot(s), s.v(), s.v());
    let h: T = s.small();
    pr(s, E::attitude_step(o, w, h));
    pr(s, E::attitude_step_with_angular_acceleration(o, w, a, h));
    let n = s.us(0, 20);
    let mut last = T::ZERO;
    let t0: T = s.x();
    let r = E::integrate_attitude(&|t: T, _q| w.scale(t), t0, o, h, n, |t, _| last = t);
    if let Some(r) = s.res(r) {
        pr(s, r);
    }
    s.put(last);
}
