//! Kinematics, collision, inverse kinematics, bases, grids and scans.
use super::space::*;
use super::*;
use multicalc::kinematics::*;

crate::scenarios!(list: tree_build, tree_fk, jacobian, ik, ik_multi, ik_seeded, collide, primitives, base, unicycle, scan, grid_fixed, beams);

pub fn joint<T: Sc>(s: &mut Sim) -> Joint<T> {
    let o = pose(s);
    let a: Vector<3, T> = s.v();
    let mut j = match s.us(0, 8) {
        0 | 1 | 2 | 3 => Joint::revolute(a, o),
        4 => Joint::continuous(a, o),
        5 | 6 => Joint::prismatic(a, o),
        7 => Joint::fixed(o),
        _ => Joint::default(),
    };
    if s.p(0.4) {
        let (l, w): (T, T) = (s.r(-3.0, 0.0), s.r(0.0, 4.0));
        j = j.with_limits(l, l + w);
    }
    if s.p(0.3) {
        j = j.with_anchor(s.v());
    }
    if s.p(0.3) {
        j = j.with_zero_offset(s.x());
    }
    if s.p(0.1) {
        j = j.with_armature(s.pos()).with_damping(s.pos()).with_friction_loss(s.pos());
    }
    j
}
pub fn tree<T: Sc>(s: &mut Sim) -> KinematicTree<8, 10, T> {
    let mut t = KinematicTree::new();
    if s.p(0.15) {
        let o = pose(s);
        let r = t.push(Joint::floating(o), JointParent::World);
        s.res(r);
    }
    let n = s.us(0, 7);
    for _ in 0..n {
        let j = joint(s);
        let l = t.len();
        let p = if l == 0 || s.p(0.05) { JointParent::World } else if s.p(0.7) { JointParent::Joint(l - 1) } else { JointParent::Joint(s.ix(l)) };
        let r = t.push(j, p);
        s.res(r);
    }
    t
}
fn conf<T: Sc>(s: &mut Sim, t: &KinematicTree<8, 10, T>) -> Vector<10, T> {
    let mut c: Vector<10, T> = s.v();
    if t.has_floating_base() {
        let q = super::space::q::<T>(s).as_array();
        for i in 0..4 {
            c[3 + i] = q[i];
        }
    }
    c
}
fn tree_build<T: Sc>(s: &mut Sim) {
    let t = tree::<T>(s);
    s.k(t.len());
    s.k(t.config_len());
    s.k(t.velocity_len());
    let i = s.ix(8);
    s.k(t.config_offset(i).unwrap_or(99));
    s.k(t.velocity_offset(i).unwrap_or(99));
    if let Some(j) = t.joint(i) {
        s.pv(j.axis());
        s.pv(j.anchor());
        pp(s, j.origin());
        s.put(j.zero_offset());
        s.b(j.limits().is_some());
        s.pa(&[j.armature(), j.damping(), j.friction_loss()]);
        s.k(j.kind() as usize);
    }
    s.b(t.parent(i).is_some());
    let js: [Joint<T>; 4] = core::array::from_fn(|_| joint(s));
    let ps: [JointParent; 4] = core::array::from_fn(|k| if k == 0 || s.p(0.3) { JointParent::World } else { JointParent::Joint(s.ix(k)) });
    let n = s.us(0, 4);
    let r = KinematicTree::<4, 4, T>::try_from_joints(&js[..n], &ps);
    s.res(r.map(|_| ()));
    let r = KinematicTree::<3, 2, T>::try_from_joints(&js, &ps);
    s.res(r.map(|_| ()));
}
fn tree_fk<T: Sc>(s: &mut Sim) {
    let t = tree::<T>(s);
    for _ in 0..2 {
        let c = conf(s, &t);
        let d = conf(s, &t);
        if let Some(st) = { let r = t.forward_kinematics(&c); s.res(r) } {
            for k in 0..st.len() {
                pp(s, st.poses()[k]);
            }
            let i = s.ix(8);
            s.b(st.pose(i).is_some());
        }
        s.put(t.configuration_distance(&c, &d));
    }
}
fn jacobian<T: Sc>(s: &mut Sim) {
    let t = tree::<T>(s);
    let c = conf(s, &t);
    let f = s.pick(&[JacobianFrame::World, JacobianFrame::Body]);
    let i = if t.is_empty() { 0 } else { s.ix(t.len()) };
    let v: Vector<10, T> = s.v();
    let w: Vector<10, T> = Vector::from_fn(|_| s.pos());
    let k: T = s.small();
    if let Some(j) = { let r = t.geometric_jacobian_at(&c, i, f); s.res(r) } {
        s.pm(j.matrix());
        s.k(j.columns());
        s.pa(&j.tool_twist(&v).as_array());
        let i = s.ix(10);
        s.b(j.column(i).is_some());
        if let Some(x) = { let r = j.smallest_singular_value(); s.res(r) } {
            s.put(x);
        }
        if let Some(x) = { let r = j.classify_singularity(k); s.res(r) } {
            s.k(x as usize);
        }
        if let Some(x) = { let r = j.damped_pseudo_inverse(&w, k); s.res(r) } {
            s.pm(x);
        }
        if let Some(x) = { let r = j.null_space_projector(&w, k); s.res(r) } {
            s.pm(x);
        }
    }
}
fn solver<T: Sc>(s: &mut Sim) -> InverseKinematics<10, T> {
    let mut k = InverseKinematics::new();
    if s.p(0.3) {
        k = k.with_position_tolerance(s.small()).with_orientation_tolerance(s.small());
    }
    if s.p(0.2) {
        k = k.with_singular_value_threshold(s.small()).with_maximum_damping(s.small());
    }
    if s.p(0.2) {
        k = k.with_maximum_step_norm(s.pos()).with_minimum_step_norm(s.small());
    }
    if s.p(0.4) {
        k = k.with_respect_limits(s.p(0.5));
    }
    if s.p(0.2) {
        k = k.with_joint_weights(Vector::from_fn(|_| s.pos()));
    }
    k = match s.us(0, 4) {
        0 => k.with_secondary_objective(SecondaryObjective::JointLimitMargin),
        1 => {
            let v = s.v();
            k.with_secondary_objective(SecondaryObjective::PreferredPosture(v))
        }
        _ => k,
    };
    if s.p(0.3) {
        k = k.with_secondary_gain(s.pos());
    }
    let n = s.us(0, 12);
    k.with_maximum_iterations(n)
}
fn rep<T: Sc>(s: &mut Sim, r: &InverseKinematicsReport<10, T>) {
    s.pv(r.joint_positions);
    s.put(r.position_error);
    s.put(r.orientation_error);
    s.k(r.iterations);
    s.k(r.termination as usize);
}
fn ik<T: Sc>(s: &mut Sim) {
    let t = tree::<T>(s);
    let (k, c, target) = (solver(s), conf(s, &t), pose(s));
    let i = if t.is_empty() { 0 } else { s.ix(t.len()) };
    let r = k.solve(&t, i, target, &c);
    if let Some(r) = s.res(r) {
        rep(s, &r);
    }
}
fn ik_multi<T: Sc>(s: &mut Sim) {
    let t = tree::<T>(s);
    let k = solver(s).with_maximum_iterations(5);
    let m = MultiStartInverseKinematics::<3, 10, T>::new().with_solver(k).with_distinct_threshold(s.small());
    let seeds: [Vector<10, T>; 4] = core::array::from_fn(|_| conf(s, &t));
    let (n, target) = (s.us(0, 4), pose(s));
    let i = if t.is_empty() { 0 } else { s.ix(t.len()) };
    let r = m.solve_from_seeds(&t, i, target, &seeds[..n]);
    if let Some(r) = s.res(r) {
        for x in r.solutions() {
            rep(s, x);
        }
        s.k(r.attempts());
        s.b(r.closest_to(&t, &seeds[0]).is_some());
    }
}
fn ik_seeded<T: Sc>(s: &mut Sim) {
    let t = tree::<T>(s);
    let k = solver(s).with_maximum_iterations(4);
    let m = MultiStartInverseKinematics::<3, 10, T>::new().with_solver(k).with_jitter_span(s.pos());
    let (c, target) = (conf(s, &t), pose(s));
    let i = if t.is_empty() { 0 } else { s.ix(t.len()) };
    let mut g = s.pcg::<T>();
    let n = s.us(0, 5);
    let r = m.solve_seeded(&t, i, target, &c, &mut g, n);
    if let Some(r) = s.res(r) {
        for x in r.solutions() {
            rep(s, x);
        }
    }
}
fn prim<T: Sc>(s: &mut Sim) -> Primitive<T> {
    let radius = s.pos();
    if s.p(0.5) { Primitive::Sphere { radius } } else { Primitive::Capsule { radius, half_length: s.pos() } }
}
fn collide<T: Sc>(s: &mut Sim) {
    let t = tree::<T>(s);
    let c = conf(s, &t);
    let mut q = CollisionQuery::<4, 3, 2, T>::new();
    for _ in 0..s.us(0, 5) {
        let (p, o) = (prim(s), pose(s));
        let i = s.ix(t.len().max(1));
        let r = q.push_self_primitive(i, p, o);
        s.res(r);
    }
    for _ in 0..s.us(0, 4) {
        let (p, o) = (prim(s), pose(s));
        let r = q.push_environment_primitive(p, o);
        s.res(r);
    }
    for _ in 0..s.us(0, 3) {
        let (a, b) = (s.ix(4), s.ix(4));
        let r = q.exclude_pair(a, b);
        s.res(r);
    }
    s.k(q.self_primitive_count());
    if let Some(st) = { let r = t.forward_kinematics(&c); s.res(r) } {
        if let Some(r) = { let r = q.check(&st); s.res(r) } {
            s.put(r.minimum_clearance);
            let k = s.small();
            s.b(r.is_clear(k));
            s.b(r.closest_pair.is_some());
        }
    }
}
fn primitives<T: Sc>(s: &mut Sim) {
    let (a, b) = (pose::<T>(s), pose::<T>(s));
    let (p, q) = (prim(s), prim(s));
    s.put(p.distance_to(a, q, b));
    let k: [T; 4] = core::array::from_fn(|_| s.pos());
    s.put(sphere_sphere_distance(a, k[0], b, k[1]));
    s.put(capsule_capsule_distance(a, k[0], k[2], b, k[1], k[3]));
    s.put(sphere_capsule_distance(a, k[0], b, k[1], k[2]));
}
fn base<T: Sc>(s: &mut Sim) {
    let (r, w, a, b): (T, T, T, T) = (s.pos(), s.pos(), s.x(), s.x());
    let p = pose2(s);
    let h: T = s.small();
    if let Some(d) = { let r = DifferentialDrive::new(r, w); s.res(r) } {
        let f = d.forward(WheelVelocities::new(a, b));
        s.pa(&[f.linear(), f.angular()]);
        let i = d.inverse(BodyTwist::new(a, b));
        s.pa(&[i.left(), i.right()]);
        let f = d.forward_arc(WheelRotations::new(a, b));
        s.pa(&[f.linear(), f.angular()]);
        let i = d.inverse_arc(f);
        s.pa(&[i.left(), i.right()]);
        let i = d.wheel_rotations_from_travel(a, b);
        s.pa(&[i.left(), i.right()]);
        let (x, y) = d.wheel_travel(i);
        s.pa(&[x, y]);
        pp2(s, d.odometry_step(p, i));
    }
    let t = BodyTwist::new(a, b);
    s.pv(t.to_tangent());
    let v: Vector<3, T> = s.v();
    let q = BodyTwist::project_tangent(v);
    s.pa(&[q.linear(), q.angular(), BodyTwist::tangent_slip(v)]);
    let arc = t.integrate_over(h);
    pp2(s, integrate(p, arc));
    let v: [T; 5] = s.a();
    s.pa(&OdometryStep.eval(&v));
}
fn unicycle<T: Sc>(s: &mut Sim) {
    let u = Unicycle::new(BodyTwist::new(s.x::<T>(), s.x()));
    let v: Vector<3, T> = s.v();
    s.pv(u.derivative(v_ref(&v)));
    let t: T = s.x();
    s.pv((u.field())(t, &v));
}
fn v_ref<V>(v: &V) -> &V {
    v
}
fn scan<T: Sc>(s: &mut Sim) {
    let (f, m): (T, T) = (s.r(0.1, 6.5), s.pos());
    let r = ScanGeometry::<16, T>::try_new(f, m);
    if let Some(g) = s.res(r) {
        let k: T = s.r(0.0, 2.0);
        let r = g.with_minimum_range(k);
        let g = s.res(r).unwrap_or(g);
        s.pa(&[g.field_of_view(), g.minimum_range(), g.maximum_range(), g.angle_increment()]);
        let i = s.ix(16);
        s.opt(g.beam_angle(i));
        let (x, y): (T, T) = (s.x(), s.r(-20.0, 20.0));
        s.b(g.range_is_valid(x));
        s.k(g.nearest_beam_index(y).unwrap_or(99));
        s.k(g.num_beams());
    }
    for r in [ScanGeometry::<1, T>::try_new(f, m).map(|_| ()), ScanGeometry::<0, T>::try_new(f, m).map(|_| ())] {
        s.res(r);
    }
}
/// A map kept in a fixed array, so that the trait's own drawing and casting run without the heap.
#[derive(Clone)]
pub struct Fixed<T> {
    pub c: usize,
    pub r: usize,
    pub h: T,
    pub o: [T; 2],
    pub cells: [bool; 400],
}
impl<T: Sc> OccupancyMap<T> for Fixed<T> {
    fn columns(&self) -> usize {
        self.c
    }
    fn rows(&self) -> usize {
        self.r
    }
    fn resolution(&self) -> T {
        self.h
    }
    fn origin(&self) -> [T; 2] {
        self.o
    }
    fn is_occupied(&self, row: usize, column: usize) -> bool {
        row < self.r && column < self.c && self.cells[row * self.c + column]
    }
}
impl<T: Sc> MutableOccupancyMap<T> for Fixed<T> {
    fn set_cell(&mut self, row: usize, column: usize, occupied: bool) {
        if row < self.r && column < self.c {
            self.cells[row * self.c + column] = occupied;
        }
    }
    fn clear(&mut self) {
        self.cells = [false; 400];
    }
}
pub fn fixed<T: Sc>(s: &mut Sim) -> Fixed<T> {
    let (c, r) = (s.us(1, 20), s.us(1, 20));
    let h = s.pos();
    let o = s.a();
    let mut m = Fixed { c, r, h, o, cells: [false; 400] };
    let k = s.us(0, 60);
    for _ in 0..k {
        let (i, j) = (s.us(0, r - 1), s.us(0, c - 1));
        m.set_cell(i, j, true);
    }
    m
}
fn pt<T: Sc>(s: &mut Sim) -> [T; 2] {
    core::array::from_fn(|_| s.r(-10.0, 30.0))
}
fn grid_fixed<T: Sc>(s: &mut Sim) {
    let mut m = fixed::<T>(s);
    for _ in 0..6 {
        let p = pt(s);
        if let Some((a, b)) = m.cell_of(p) {
            s.k(a);
            s.k(b);
        }
        let (g, r): (T, T) = (s.r(-7.0, 7.0), s.r(0.1, 60.0));
        let v = m.cast_ray(p, g, r);
        s.opt(v);
    }
    let p = pt(s);
    m.occupy_point(p);
    let l: [[T; 2]; 4] = core::array::from_fn(|_| pt(s));
    let (n, c) = (s.us(0, 4), s.p(0.5));
    m.occupy_polyline(&l[..n], c);
    let (p, r) = (pt(s), s.pos());
    m.occupy_circle(p, r);
    let mut count = 0;
    for c in m.cells {
        count += c as usize;
    }
    s.k(count);
    m.clear();
    m.set_cell(s.ix(20), s.ix(20), true);
}
fn beams<T: Sc>(s: &mut Sim) {
    use multicalc::control::FollowTheGap;
    let (f, m, w, t, v): (T, T, T, T, T) = (s.r(0.5, 6.0), s.r(2.0, 8.0), s.r(0.0, 0.6), s.r(0.2, 2.0), s.pos());
    let r = FollowTheGap::<24, T>::try_new(f, m, w, t, v);
    let Some(mut g) = s.res(r) else { return };
    if s.p(0.5) {
        let r = g.clone_with(s);
        if let Some(x) = r {
            g = x;
        }
    }
    let i = s.ix(24);
    s.opt(g.beam_angle(i));
    for _ in 0..3 {
        let b: [T; 24] = core::array::from_fn(|_| s.r(0.0, 9.0));
        let goal = s.r(-3.0, 3.0);
        let r = g.compute(&b, goal);
        if let Some(o) = s.res(r) {
            s.pa(&[o.body_twist().linear(), o.body_twist().angular(), o.heading(), o.minimum_clearance()]);
            s.k(o.gap_start_index());
            s.k(o.gap_end_index());
            s.b(o.is_blocked());
        }
    }
}
trait With<T>: Sized {
    fn clone_with(&self, s: &mut Sim) -> Option<Self>;
}
impl<T: Sc> With<T> for multicalc::control::FollowTheGap<24, T> {
    fn clone_with(&self, s: &mut Sim) -> Option<Self> {
        let k: [T; 5] = core::array::from_fn(|_| s.r(0.0, 1.0));
        let g = { let r = self.clone().with_steering_gain(k[0]); s.res(r) }?;
        let g = { let r = g.with_goal_bias(k[1]); s.res(r) }?;
        let g = { let r = g.with_speed_scaling(k[2], k[3]); s.res(r) }?;
        let r = g.with_frontal_half_angle(k[4]);
        s.res(r)
    }
}
