//! C21: a free rigid body under forces.
use multicalc::dynamics::*;
use multicalc::error::DynamicsError as E;
use multicalc::spatial::*;
use multicalc::{Matrix, Rk4, Vector};
use vmon::robot::*;
use vmon::rot::*;
use vmon::*;

/// Body in double-double: mass, centre of mass, inertia about it, gravity.
struct B {
    m: DD,
    c: V,
    i: RM,
    ii: RM,
    g: V,
}
/// Origin acceleration (world) and spin rate change (body): Newton and Euler about the centre of mass.
fn accel(b: &B, q: Q, w: V, f: V, tau: V) -> (V, V) {
    let iw = mv3(&b.i, w);
    let t = vsub(vsub(tau, vcross(b.c, f)), vcross(w, iw));
    let al = mv3(&b.ii, t);
    let a_com = vadd(vscale(qrot(q, f), dd(1.0) / b.m), b.g);
    let swing = vadd(vcross(al, b.c), vcross(w, vcross(w, b.c)));
    (vsub(a_com, qrot(q, swing)), al)
}
/// position, orientation, velocity (world), rate (body)
type St = (V, Q, V, V);
fn deriv(b: &B, s: &St, f: V, tau: V) -> (V, Q, V, V) {
    let (a, al) = accel(b, qunit(s.1), s.3, f, tau);
    let z = dd(0.0);
    let qd = qmul(s.1, [z, s.3[0], s.3[1], s.3[2]]).map(|v| v * dd(0.5));
    (s.2, qd, a, al)
}
fn push(s: &St, d: &(V, Q, V, V), h: DD) -> St {
    let q: Q = core::array::from_fn(|k| s.1[k] + d.1[k] * h);
    (vadd(s.0, vscale(d.0, h)), q, vadd(s.2, vscale(d.2, h)), vadd(s.3, vscale(d.3, h)))
}
/// The true motion over one tick: fine fourth-order steps in double-double.
fn truth(b: &B, s: &St, f: V, tau: V, h: f64) -> St {
    let n = 40;
    let k = dd(h) / dd(n as f64);
    let mut s = *s;
    for _ in 0..n {
        let a = deriv(b, &s, f, tau);
        let p = push(&s, &a, k * dd(0.5));
        let e = deriv(b, &p, f, tau);
        let p = push(&s, &e, k * dd(0.5));
        let g = deriv(b, &p, f, tau);
        let p = push(&s, &g, k);
        let l = deriv(b, &p, f, tau);
        let six = k / dd(6.0);
        let mix = |x: DD, y: DD, z: DD, w: DD| (x + (y + z) * dd(2.0) + w) * six;
        s = (
            core::array::from_fn(|i| s.0[i] + mix(a.0[i], e.0[i], g.0[i], l.0[i])),
            core::array::from_fn(|i| s.1[i] + mix(a.1[i], e.1[i], g.1[i], l.1[i])),
            core::array::from_fn(|i| s.2[i] + mix(a.2[i], e.2[i], g.2[i], l.2[i])),
            core::array::from_fn(|i| s.3[i] + mix(a.3[i], e.3[i], g.3[i], l.3[i])),
        );
        s.1 = qunit(s.1);
    }
    s
}
fn body<T: Fl>(c: &mut Case, kmax: f64) -> (RigidBody<T>, B, f64) {
    let m = T::t(if c.p(0.7) { c.f(0.2, 5.0) } else { c.lu(-3.0, 3.0) }).d();
    let com = rt::<3, T>(if c.p(0.3) { [0.0; 3] } else { c.arr(|c| c.f(-0.5, 0.5)) });
    let k = c.lu(-2.0, 1.0);
    let s = kmax;
    let (a, b, d) = (c.lu(-s, 0.0), c.lu(-s, 0.0), c.lu(-s, 0.0));
    let ev = [k * (a + b), k * (b + d), k * (a + d)];
    let i = if c.p(0.3) { RM::diag(&ev) } else { let o = gen_orth(c, 3); o.mul(&RM::diag(&ev)).mul(&o.t()) };
    let i = RM::from_fn(3, 3, |r, s| T::t(i.f(r.min(s), r.max(s))).d());
    let g = rt::<3, T>(if c.p(0.5) { [0.0, 0.0, -9.81] } else { c.arr(|c| c.f(-10.0, 10.0)) });
    c.note("mass, centre, inertia, gravity", &(m, com, i.fs(), g));
    let si = c.get("inertia", SpatialInertia::new(T::t(m), va(com), mat::<3, 3, T>(&i)));
    let r = c.get("body", RigidBody::new(si, va(g)));
    c.ok(r.inertia() == si && r.gravity() == va(g), "kept", || "differs".into());
    let ii = i.inv().unwrap();
    let cond = i.maxabs() * ii.maxabs() * 3.0;
    (r, B { m: dd(m), c: v_of(com), i, ii, g: v_of(g) }, cond)
}
fn n3(v: V) -> f64 {
    vnorm(v).f()
}
/// Size of the terms summed in an acceleration.
fn sizes(b: &B, w: V, f: V, tau: V) -> (f64, f64) {
    let al = b.ii.maxabs() * 3.0 * (n3(tau) + n3(b.c) * n3(f) + 3.0 * b.i.maxabs() * n3(w).powi(2));
    let li = n3(f) / b.m.f() + n3(b.g) + n3(b.c) * (al + n3(w).powi(2));
    (li, al)
}
fn close(c: &mut Case, tag: &str, got: &[f64], want: &[DD], tol: f64) {
    for i in 0..want.len() {
        c.ok((dd(got[i]) - want[i]).f().abs() <= tol, tag, || format!("[{i}]: got {got:?}, want {:?}, tolerance {tol:e}", want.iter().map(|v| v.f()).collect::<Vec<_>>()));
    }
}
fn wrench<T: Fl>(c: &mut Case) -> ([f64; 6], Wrench<T>) {
    let k = if c.p(0.2) { c.lu(-3.0, 3.0) } else { 3.0 };
    let w = rt::<6, T>(match c.us(0, 4) {
        0 => [0.0; 6],
        1 => { let f = c.f(-k, k); let j = c.us(0, 5); core::array::from_fn(|i| if i == j { f } else { 0.0 }) }
        _ => c.arr(|c| c.f(-k, k)),
    });
    (w, Wrench::from_array(w.map(T::t)))
}
fn lo<const N: usize>(a: [f64; N]) -> V {
    v_of([a[0], a[1], a[2]])
}
fn hi(a: [f64; 6]) -> V {
    v_of([a[3], a[4], a[5]])
}
fn accelerations<T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let (r, b, cond) = body::<T>(c, 2.0);
    let (w6, wr) = wrench::<T>(c);
    let q = rt::<4, T>(gen_rot(c));
    let k = if c.p(0.2) { c.lu(-3.0, 2.0) } else { 2.0 };
    let w = rt::<3, T>(if c.p(0.15) { [0.0; 3] } else { c.arr(|c| c.f(-k, k)) });
    c.note("orientation, rate, wrench", &(q, w, w6));
    let qq = qunit(q_of(q));
    let (li, al) = accel(&b, qq, v_of(w), lo(w6), hi(w6));
    let (ls, as_) = sizes(&b, v_of(w), lo(w6), hi(w6));
    let so = SO3::from_quaternion(Quaternion::from_array(q.map(T::t)));
    let a = r.accelerations(so, va(w), wr);
    let x = a.linear().into_array().map(|v| v.d());
    let y = a.angular().into_array().map(|v| v.d());
    let (tl, ta) = (60.0 * e * (ls + cond * n3(b.c) * as_), 60.0 * e * cond * as_);
    close(c, "linear", &x, &li, tl + 1e-300);
    close(c, "angular", &y, &al, ta + 1e-300);
    c.eq("from its parts", multicalc::dynamics::RigidBodyAcceleration::new(a.linear(), a.angular()) == a, true);
    c.hit("acceleration judged");
    // The same as thirteen loose numbers; the four need not be unit length.
    let p = rt::<3, T>(c.arr(|c| c.f(-5.0, 5.0)));
    let v = rt::<3, T>(c.arr(|c| c.f(-5.0, 5.0)));
    let s = if c.p(0.5) { 1.0 } else { c.lu(-2.0, 2.0) * c.sign() };
    let qs = rt::<4, T>(q.map(|v| v * s));
    let st = [p[0], p[1], p[2], qs[0], qs[1], qs[2], qs[3], v[0], v[1], v[2], w[0], w[1], w[2]];
    c.note("state", &st);
    let d = r.state_derivative(&va::<13, T>(st), wr).into_array().map(|v| v.d());
    c.eq("velocity", [d[0], d[1], d[2]], v);
    let z = dd(0.0);
    let qd = qmul(q_of(qs), [z, dd(w[0]), dd(w[1]), dd(w[2])]).map(|v| v * dd(0.5));
    close(c, "facing-rate", &d[3..7], &qd, 8.0 * e * qnorm(q_of(qs)).f() * n3(v_of(w)) + 1e-300);
    let (li, al) = accel(&b, qunit(q_of(qs)), v_of(w), lo(w6), hi(w6));
    close(c, "linear-13", &d[7..10], &li, tl + 1e-300);
    close(c, "angular-13", &d[10..13], &al, ta + 1e-300);
    // No direction at all.
    let mut no = st;
    no[3..7].fill(0.0);
    c.eq("no-direction", r.state_derivative(&va::<13, T>(no), wr).into_array().map(|v| v.d()), [0.0; 13]);
    c.ok(free_joint_from_state_vector(&va::<13, T>(no)).is_none(), "no-direction-pose", || "accepted".into());
    // Thirteen numbers to a state and back.
    let fj = c.some("from-vector", free_joint_from_state_vector(&va::<13, T>(st)));
    let back = state_vector_from_free_joint(fj).into_array().map(|v| v.d());
    let u = qunit(q_of(qs));
    for i in 0..13 {
        if (3..7).contains(&i) {
            c.near("round-trip", back[i], u[i - 3].f(), 8.0 * e);
        } else {
            c.same_bits("round-trip", back[i], st[i]);
        }
    }
}
fn step<T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let (r, b, cond) = body::<T>(c, 1.0);
    let (w6, wr) = wrench::<T>(c);
    let q = rt::<4, T>(gen_rot(c));
    let [p, v, w] = core::array::from_fn(|_| rt::<3, T>(c.arr(|c| c.f(-3.0, 3.0))));
    // The system's own time scale: turning, and how hard it is pushed.
    let (_, als) = sizes(&b, v_of(w), lo(w6), hi(w6));
    let rate = n3(v_of(w)) + als.sqrt() + 1e-3;
    let h = T::t(c.lu(-3.0, -1.0) / rate).d();
    c.note("pose, motion, wrench, tick", &(p, q, v, w, w6, h));
    let s0 = FreeJointState::new(SE3::from_parts(SO3::from_quaternion(Quaternion::from_array(q.map(T::t))), va(p)), Twist::new(va(v), va(w)));
    let s1 = r.stepped(s0, wr, T::t(h));
    let got = state_vector_from_free_joint(s1).into_array().map(|v| v.d());
    let t = truth(&b, &(v_of(p), qunit(q_of(q)), v_of(v), v_of(w)), lo(w6), hi(w6), h);
    let x = (rate * h).powi(3);
    let accel_size = {
        let (l, _) = sizes(&b, v_of(w), lo(w6), hi(w6));
        l
    };
    let round = 60.0 * e;
    let k = 3.0;
    let tol_p = k * x * (n3(v_of(v)) + accel_size * h + accel_size / rate) * h * 2.0 + k * x * accel_size * h / rate + round * (n3(v_of(p)) + h * (n3(v_of(v)) + accel_size * h));
    let tol_q = k * x + round;
    let tol_v = k * x * accel_size * h / (rate * h) + round * (n3(v_of(v)) + cond * accel_size * h);
    let tol_w = k * x * rate + round * (n3(v_of(w)) + cond * als * h);
    let _ = tol_p;
    // Position: velocity at the half-way point; the error is a third of h cubed times the jerk.
    let tol_p = k * h.powi(3) * accel_size * rate + round * (n3(v_of(p)) + h * (n3(v_of(v)) + accel_size * h));
    close(c, "position", &got[0..3], &t.0, tol_p);
    let sgn = if (0..4).map(|i| got[3 + i] * t.1[i].f()).sum::<f64>() < 0.0 { -1.0 } else { 1.0 };
    close(c, "orientation", &got[3..7], &t.1.map(|v| v.mulf(sgn)), tol_q);
    close(c, "velocity", &got[7..10], &t.2, tol_v);
    close(c, "rate", &got[10..13], &t.3, tol_w);
    c.hit("tick judged");
    // A long run keeps a true rotation.
    let n = c.us(50, 400);
    let mut s = s0;
    for _ in 0..n {
        s = r.stepped(s, wr, T::t(h * 3.0));
    }
    let z = state_vector_from_free_joint(s).into_array().map(|v| v.d());
    if z.iter().all(|v| v.is_finite()) {
        let nq = (0..4).map(|i| dd(z[3 + i]).sq()).fold(dd(0.0), |a, x| a + x).sqr().f();
        c.near("attitude-unit", nq, 1.0, 4.0 * e * (n + 2) as f64);
        c.hit("long run kept a rotation");
    }
    // The loose form, integrated, lands on the same motion.
    let sv = state_vector_from_free_joint(s0);
    let f = |_t: T, y: &Vector<13, T>| r.state_derivative(y, wr);
    let m = 8;
    let end = Rk4::integrate(&f, T::ZERO, &sv, T::t(h / m as f64), m, |_, _| {}).into_array().map(|v| v.d());
    let y4 = (rate * h).powi(4) / 100.0;
    close(c, "rk4-position", &end[0..3], &t.0, y4 * h * h * accel_size + 8.0 * (round * (n3(v_of(p)) + h * (n3(v_of(v)) + cond * accel_size * h))));
    close(c, "rk4-rate", &end[10..13], &t.3, y4 * rate + 8.0 * round * (n3(v_of(w)) + cond * als * h));
    close(c, "rk4-velocity", &end[7..10], &t.2, y4 * accel_size * h + 8.0 * round * (n3(v_of(v)) + cond * accel_size * h));
}
/// With nothing acting on it, a body keeps its momentum and energy to the method's order.
fn free<T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let (r0, b, cond) = body::<T>(c, 1.0);
    let r = c.get("weightless", RigidBody::new(r0.inertia(), Vector::zeros()));
    let q = rt::<4, T>(gen_rot(c));
    let w = rt::<3, T>(c.arr(|c| c.f(-2.0, 2.0)));
    let v = rt::<3, T>(c.arr(|c| c.f(-2.0, 2.0)));
    c.note("q w v", &(q, w, v));
    let mut s = FreeJointState::new(SE3::from_parts(SO3::from_quaternion(Quaternion::from_array(q.map(T::t))), va([0.0; 3])), Twist::new(va(v), va(w)));
    let get = |s: &FreeJointState<T>| {
        let z = state_vector_from_free_joint(*s).into_array().map(|v| v.d());
        let (q, v, w) = (qunit(q_of([z[3], z[4], z[5], z[6]])), v_of([z[7], z[8], z[9]]), v_of([z[10], z[11], z[12]]));
        let vc = vadd(v, qrot(q, vcross(w, b.c)));
        let spin = qrot(q, mv3(&b.i, w));
        let ke = vdot(vc, vc) * b.m * dd(0.5) + vdot(w, mv3(&b.i, w)) * dd(0.5);
        (vc, spin, ke.f())
    };
    let (p0, l0, k0) = get(&s);
    let (rate0, n) = (n3(v_of(w)) + sizes(&b, v_of(w), v_of([0.0; 3]), v_of([0.0; 3])).1.sqrt() + 1e-6, c.us(10, 60));
    let x = c.lu(-3.0, -1.5);
    let h = T::t(x / rate0);
    for _ in 0..n {
        s = r.stepped(s, Wrench::zeros(), h);
    }
    let (p1, l1, k1) = get(&s);
    let x3 = n as f64 * x.powi(3) * 3.0;
    let ro = 60.0 * e * n as f64;
    let sp = n3(b.c) * rate0;
    close(c, "momentum", &vf(p1), &p0, x3 * sp + ro * (n3(p0) + cond * sp + n3(v_of(v))));
    close(c, "spin", &vf(l1), &l0, (x3 + ro * cond) * 3.0 * b.i.maxabs() * rate0);
    c.near("energy", k1, k0, x3 * (b.m.f() * sp * (n3(p0) + sp) + 9.0 * b.i.maxabs() * rate0.powi(2)) + ro * cond * (b.m.f() * (n3(p0) + n3(v_of(v)) + sp).powi(2) + 9.0 * b.i.maxabs() * rate0.powi(2)));
    c.hit("free flight judged");
}
fn refused<T: Fl>(c: &mut Case) {
    let (r, _, _) = body::<T>(c, 1.0);
    let bad = c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    let mut g = r.gravity();
    g[c.us(0, 2)] = T::t(bad);
    c.eq("gravity", RigidBody::new(r.inertia(), g).err(), Some(E::NonFinite));
    // Positive diagonal, yet not positive definite.
    let (i, j) = c.pick(&[(0, 1), (0, 2), (1, 2)]);
    let mut d = Matrix::<3, 3, T>::from_fn(|a, b| if a == b { T::t(c.f(0.1, 2.0)) } else { T::ZERO });
    let x = T::t((d[(i, i)] * d[(j, j)]).d().sqrt() * c.f(1.01, 3.0) * c.sign());
    d[(i, j)] = x;
    d[(j, i)] = x;
    c.note("indefinite", &RM::of(&d).fs());
    let s = c.get("inertia", SpatialInertia::new(T::ONE, Vector::zeros(), d));
    c.eq("indefinite", RigidBody::new(s, r.gravity()).err(), Some(E::NonPositiveInertia));
    c.hit("bad body refused");
}
fn main() {
    vmon::run("C21", |s| {
        s.rule("A case counts when an acceleration, a tick, a free flight or a refusal was judged against Newton–Euler in double-double; distinct = distinct bodies and states.");
        s.assume("Inertias are physical with condition up to about 300; ticks are at most a tenth of the body's own time scale, where a second-order error is told from a first-order one.");
        macro_rules! both {
            ($n:literal, $q:expr, $f:ident) => {
                s.monitor($n, $q, 20, |c| if c.p(0.35) { $f::<f32>(c) } else { $f::<f64>(c) })
            };
        }
        both!("accelerations", 40000, accelerations);
        both!("step", 4000, step);
        both!("free-flight", 10000, free);
        both!("refused", 8000, refused);
        for (e, n) in [("acceleration judged", 20000), ("tick judged", 2000), ("long run kept a rotation", 1000), ("free flight judged", 4000), ("bad body refused", 4000)] {
            s.require(e, n);
        }
    })
}
