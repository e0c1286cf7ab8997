//! C16: twists, wrenches, spatial inertia and the free joint.
use multicalc::error::SpatialError as E;
use multicalc::spatial::*;
use multicalc::{Matrix, Vector};
use vmon::rot::*;
use vmon::*;

fn rt<const N: usize, T: Fl>(a: [f64; N]) -> [f64; N] {
    a.map(|v| T::t(v).d())
}
fn va<const N: usize, T: Fl>(a: [f64; N]) -> Vector<N, T> {
    Vector::new(a.map(T::t))
}
fn colf(a: &[f64]) -> RM {
    RM::col(a)
}
fn judge(c: &mut Case, tag: &str, got: &[f64], want: &RM, tol: f64) {
    for (i, g) in got.iter().enumerate() {
        c.ok((dd(*g) - want.d[i]).f().abs() <= tol, tag, || format!("[{i}]: got {got:?}, want {:?}, tolerance {tol:e}", want.fs()));
    }
}
fn tw<T: Fl>(a: [f64; 6]) -> Twist<T> {
    Twist::from_array(a.map(T::t))
}
fn wr<T: Fl>(a: [f64; 6]) -> Wrench<T> {
    Wrench::from_array(a.map(T::t))
}
fn ta<T: Fl>(t: Twist<T>) -> [f64; 6] {
    t.as_array().map(|v| v.d())
}
fn wa<T: Fl>(t: Wrench<T>) -> [f64; 6] {
    t.as_array().map(|v| v.d())
}
fn six<T: Fl>(c: &mut Case) -> [f64; 6] {
    let (k, l) = (if c.p(0.3) { c.lu(-4.0, 4.0) } else { 1.0 }, if c.p(0.3) { c.lu(-4.0, 4.0) } else { 1.0 });
    let mut a = c.arr::<6>(|c| if c.p(0.1) { 0.0 } else { c.f(-2.0, 2.0) });
    for i in 0..3 {
        a[i] *= k;
        a[3 + i] *= l;
    }
    rt::<6, T>(a)
}
fn lo3(a: [f64; 6]) -> [f64; 3] {
    [a[0], a[1], a[2]]
}
fn hi3(a: [f64; 6]) -> [f64; 3] {
    [a[3], a[4], a[5]]
}
fn pose<T: Fl>(c: &mut Case) -> (SE3<T>, Pose) {
    let q = rt::<4, T>(gen_rot(c));
    let k = if c.p(0.3) { c.lu(-3.0, 3.0) } else { 2.0 };
    let t = rt::<3, T>(c.arr(|c| k * c.f(-1.0, 1.0)));
    c.note("pose", &(q, t));
    let g = SE3::from_parts(SO3::from_quaternion(Quaternion::from_array(q.map(T::t))), va(t));
    (g, Pose { q: qunit(q_of(q)), t: v_of(t) })
}
fn vectors<T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let (a, b, f) = (six::<T>(c), six::<T>(c), six::<T>(c));
    let k = T::t(c.real()).d();
    c.note("a b f k", &(a, b, f, k));
    let (x, y, w) = (tw::<T>(a), tw::<T>(b), wr::<T>(f));
    // Layout: every way in and out agrees.
    c.eq("twist-parts", (ta(Twist::new(va::<3, T>(lo3(a)), va::<3, T>(hi3(a)))), ta(Twist::from_vector(va::<6, T>(a))), ta(Twist::from(va::<6, T>(a))), rt::<6, T>(Vector::<6, T>::from(x).into_array().map(|v| v.d()))), (a, a, a, a));
    c.eq("wrench-parts", (wa(Wrench::new(va::<3, T>(lo3(f)), va::<3, T>(hi3(f)))), wa(Wrench::from_vector(va::<6, T>(f))), wa(Wrench::from(va::<6, T>(f))), Vector::<6, T>::from(w).into_array().map(|v| v.d())), (f, f, f, f));
    c.eq("parts", (x.linear().into_array().map(|v| v.d()), x.angular().into_array().map(|v| v.d()), w.force().into_array().map(|v| v.d()), w.torque().into_array().map(|v| v.d())), (lo3(a), hi3(a), lo3(f), hi3(f)));
    c.eq("zero", (ta(Twist::<T>::zeros()), wa(Wrench::<T>::zeros()), ta(Twist::<T>::default()), wa(Wrench::<T>::default())), ([0.0; 6], [0.0; 6], [0.0; 6], [0.0; 6]));
    for i in 0..6 {
        c.same_bits("twist-add", ta(x + y)[i], T::t(a[i] + b[i]).d());
        c.same_bits("twist-sub", ta(x - y)[i], T::t(a[i] - b[i]).d());
        c.same_bits("twist-neg", ta(-x)[i], -a[i]);
        c.same_bits("twist-scale", ta(x.scale(T::t(k)))[i], (T::t(a[i]) * T::t(k)).d());
        c.same_bits("wrench-add", wa(w + wr(b))[i], T::t(f[i] + b[i]).d());
        c.same_bits("wrench-sub", wa(w - wr(b))[i], T::t(f[i] - b[i]).d());
        c.same_bits("wrench-neg", wa(-w)[i], -f[i]);
        c.same_bits("wrench-scale", wa(w.scale(T::t(k)))[i], (T::t(f[i]) * T::t(k)).d());
    }
    // Cross products as 6x6 matrices.
    let ad = ad6(v_of(lo3(a)), v_of(hi3(a)));
    let mag = |m: &RM, v: [f64; 6]| m.abs().mul(&colf(&v).abs()).maxabs() + 1e-300;
    judge(c, "twist-cross", &ta(x.cross(y)), &ad.mul(&colf(&b)), 8.0 * e * mag(&ad, b));
    let adf = ad.t().scale(-1.0);
    judge(c, "cross-wrench", &wa(x.cross_wrench(w)), &adf.mul(&colf(&f)), 8.0 * e * mag(&adf, f));
    let p = (0..6).fold(dd(0.0), |s, i| s + dd(a[i]) * dd(f[i]));
    let pm: f64 = (0..6).map(|i| (a[i] * f[i]).abs()).sum();
    c.near("power", x.dot_wrench(w).d(), p.f(), 8.0 * e * pm);
    // Change of frame, and that it keeps power.
    let (g, r) = pose::<T>(c);
    let ad = r.adj();
    let adi = r.inv().adj();
    let sz = |m: &RM, v: [f64; 6]| 40.0 * e * (mag(m, v) + nrm(&v) * (1.0 + vnorm(r.t).f()));
    judge(c, "act-twist", &ta(g.act_twist(x)), &ad.mul(&colf(&a)), sz(&ad, a));
    judge(c, "inverse-act-twist", &ta(g.inverse_act_twist(x)), &adi.mul(&colf(&a)), sz(&adi, a));
    let (fa, fi) = (adi.t(), ad.t());
    judge(c, "act-wrench", &wa(g.act_wrench(w)), &fa.mul(&colf(&f)), sz(&fa, f));
    judge(c, "inverse-act-wrench", &wa(g.inverse_act_wrench(w)), &fi.mul(&colf(&f)), sz(&fi, f));
    c.hit("spatial vector algebra judged");
}
/// A physical rigid body: inertia with a positive spectrum meeting the triangle rule.
fn body<T: Fl>(c: &mut Case) -> (f64, [f64; 3], RM) {
    let m = T::t(c.lu(-3.0, 3.0)).d();
    let com = rt::<3, T>(c.arr(|c| if c.p(0.1) { 0.0 } else { c.f(-2.0, 2.0) }));
    let k = c.lu(-4.0, 2.0);
    let (a, b, d) = (c.lu(-2.0, 0.0), c.lu(-2.0, 0.0), c.lu(-2.0, 0.0));
    let ev = [k * (a + b), k * (b + d), k * (a + d)];
    let i = if c.p(0.2) {
        RM::diag(&ev)
    } else {
        let o = gen_orth(c, 3);
        o.mul(&RM::diag(&ev)).mul(&o.t())
    };
    let i = RM::from_fn(3, 3, |r, s| T::t(i.f(r.min(s), r.max(s))).d());
    (m, com, i)
}
/// Plain 6x6 inertia about the frame origin.
fn six_inertia(m: f64, com: [f64; 3], i: &RM) -> RM {
    let h = hat3(v_of(com));
    let hh = h.mul(&h);
    let mut s = RM::zeros(6, 6);
    for r in 0..3 {
        *s.at_mut(r, r) = dd(m);
        for k in 0..3 {
            *s.at_mut(r, 3 + k) = -h.at(r, k) * dd(m);
            *s.at_mut(3 + r, k) = h.at(r, k) * dd(m);
            *s.at_mut(3 + r, 3 + k) = i.at(r, k) - hh.at(r, k) * dd(m);
        }
    }
    s
}
fn inertia<T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let (m, com, i) = body::<T>(c);
    let v = six::<T>(c);
    c.note("body", &(m, com, i.fs(), v));
    let s = c.get("new", SpatialInertia::new(T::t(m), va(com), mat::<3, 3, T>(&i)));
    c.eq("kept", (s.mass().d(), s.center_of_mass().into_array().map(|v| v.d()), RM::of(&s.rotational_inertia()).fs()), (m, com, i.fs()));
    c.ok(s.is_finite(), "finite", || "not".into());
    let full = six_inertia(m, com, &i);
    let sz = full.maxabs();
    judge(c, "matrix", &RM::of(&s.to_matrix()).fs(), &full, 12.0 * e * sz);
    let p = rt::<3, T>(c.arr(|c| c.f(-3.0, 3.0)));
    let off: [f64; 3] = core::array::from_fn(|k| p[k] - com[k]);
    let shifted = {
        let h = hat3(vsub(v_of(p), v_of(com)));
        let hh = h.mul(&h);
        RM { r: 3, c: 3, d: (0..9).map(|k| i.d[k] - hh.d[k] * dd(m)).collect() }
    };
    judge(c, "about-point", &RM::of(&s.inertia_about(va(p))).fs(), &shifted, 12.0 * e * (i.maxabs() + m * (nrm(&off).powi(2) + nrm(&com).powi(2) + nrm(&p).powi(2))));
    let pm = full.abs().mul(&colf(&v).abs());
    let vsz = pm.maxabs() + sz * 1e-300;
    let cs = 1.0 + nrm(&com);
    let mom = full.mul(&colf(&v));
    judge(c, "momentum", &wa(s.momentum(tw(v))), &mom, 24.0 * e * vsz * cs);
    let adf = ad6(v_of(lo3(v)), v_of(hi3(v))).t().scale(-1.0);
    let bias = adf.mul(&mom);
    judge(c, "bias", &wa(s.bias_wrench(tw(v))), &bias, 60.0 * e * cs * adf.abs().mul(&pm).maxabs() + 60.0 * e * cs * vsz * nrm(&v));
    let ke = colf(&v).t().mul(&mom).at(0, 0).f() * 0.5;
    let kem = colf(&v).t().abs().mul(&pm).at(0, 0).f();
    c.near("kinetic-energy", s.kinetic_energy(tw(v)).d(), ke, 24.0 * e * kem * cs);
    // Another frame and a second body.
    let (g, r) = pose::<T>(c);
    let moved = |pz: &Pose, q: &RM| {
        let a = pz.inv().adj();
        a.t().mul(q).mul(&a)
    };
    let psz = (1.0 + vnorm(r.t).f()).powi(2) * sz;
    judge(c, "moved", &RM::of(&g.act_inertia(s).to_matrix()).fs(), &moved(&r, &full), 60.0 * e * psz * 4.0);
    judge(c, "moved-back", &RM::of(&g.inverse_act_inertia(s).to_matrix()).fs(), &moved(&r.inv(), &full), 60.0 * e * psz * 4.0);
    c.eq("mass-kept", g.act_inertia(s).mass().d(), m);
    let (m2, com2, i2) = body::<T>(c);
    c.note("second", &(m2, com2, i2.fs()));
    let s2 = c.get("new", SpatialInertia::new(T::t(m2), va(com2), mat::<3, 3, T>(&i2)));
    let both = s.combined(s2);
    let sum = full.add(&six_inertia(m2, com2, &i2));
    judge(c, "combined", &RM::of(&both.to_matrix()).fs(), &sum, 60.0 * e * sum.maxabs());
    c.hit("inertia judged");
}
fn refused<T: Fl>(c: &mut Case) {
    let (m, com, i) = body::<T>(c);
    let im: Matrix<3, 3, T> = mat(&i);
    let bad = c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    let (r, k) = (c.us(0, 2), c.us(0, 2));
    let kind = c.us(0, 5);
    let (mut m_, mut com_, mut i_) = (T::t(m), va::<3, T>(com), im);
    let want = match kind {
        0 => { m_ = T::t(bad); E::NonFinite }
        1 => { com_[r] = T::t(bad); E::NonFinite }
        2 => { i_[(r, k)] = T::t(bad); E::NonFinite }
        3 => { m_ = T::t(c.pick(&[0.0, -0.0, -1.0, -1e-30])); E::NonPositiveMass }
        4 => { let (a, b) = if r == k { (r, (r + 1) % 3) } else { (r, k) }; i_[(a, b)] = T::t(i.f(a, b) + c.sign() * (c.lu(-3.0, 1.0)) * (1.0 + i.f(a, b).abs())); E::NotSymmetric }
        _ => { i_[(r, r)] = T::t(c.pick(&[0.0, -0.0, -1.0, -1e-20])); E::NonPositiveInertia }
    };
    c.note("bad", &(m_, com_, i_));
    c.eq("refused", SpatialInertia::new(m_, com_, i_).err(), Some(want));
    let mut dg: [T; 3] = core::array::from_fn(|k| im[(k, k)]);
    let want = match kind {
        0 | 1 | 2 => { dg[r] = T::t(bad); if bad.is_finite() { None } else { Some(E::NonFinite) } }
        3 => Some(E::NonPositiveMass),
        4 => None,
        _ => { dg[r] = T::t(-1.0); Some(E::NonPositiveInertia) }
    };
    let mm = if kind == 3 { T::t(-1.0) } else { T::t(m) };
    let got = SpatialInertia::from_diagonal_inertia(mm, va(com), Vector::new(dg));
    c.eq("refused-diagonal", got.err(), want);
    if let Ok(g) = got {
        c.eq("diagonal-kept", RM::of(&g.rotational_inertia()).fs(), RM::diag(&dg.map(|v| v.d())).fs());
    }
    c.hit("bad inertia refused");
}
fn free_joint<T: Fl>(c: &mut Case) {
    let q = gen_rot(c);
    let k = c.sign() * if c.p(0.5) { 1.0 } else { c.lu(-4.0, 4.0) };
    let q = rt::<4, T>(q.map(|v| v * k));
    let t = rt::<3, T>(c.arr(|c| c.real()));
    let v = six::<T>(c);
    c.note("state", &(t, q, v));
    let pos = [t[0], t[1], t[2], q[0], q[1], q[2], q[3]].map(T::t);
    let s = c.some("state", FreeJointState::from_generalized_vectors(pos, v.map(T::t)));
    let back = s.generalized_position().map(|v| v.d());
    c.eq("place", [back[0], back[1], back[2]], t);
    let u = qunit(q_of(q));
    for i in 0..4 {
        c.near("orientation", back[3 + i], u[i].f(), 8.0 * T::EPS);
    }
    c.eq("velocity", s.generalized_velocity().map(|v| v.d()), v);
    c.eq("velocity-typed", ta(s.velocity()), v);
    c.eq("pose", s.pose().translation().into_array().map(|v| v.d()), t);
    let n = FreeJointState::new(s.pose(), s.velocity());
    c.ok(n == s, "rebuilt", || "differs".into());
    let again = c.some("again", FreeJointState::from_generalized_vectors(s.generalized_position(), s.generalized_velocity()));
    for i in 0..7 {
        c.near("round-trip", again.generalized_position()[i].d(), back[i], 8.0 * T::EPS * (1.0 + back[i].abs()));
    }
    c.eq("identity", (FreeJointState::<T>::identity().generalized_position().map(|v| v.d()), FreeJointState::<T>::identity().generalized_velocity().map(|v| v.d())), ([0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0], [0.0; 6]));
    c.eq("sizes", (FreeJointState::<T>::GENERALIZED_POSITION_DIMENSION, FreeJointState::<T>::GENERALIZED_VELOCITY_DIMENSION), (7, 6));
    c.hit("free joint judged");
}
fn main() {
    vmon::run("C16", |s| {
        s.rule("A case counts when a spatial vector, inertia or free-joint operation was compared with the same operation in double-double 6x6 form; distinct = distinct inputs.");
        s.assume("Inertias are physical (positive spectrum); tolerances scale with the magnitude of the summed terms.");
        macro_rules! both {
            ($n:literal, $q:expr, $f:ident) => {
                s.monitor($n, $q, 20, |c| if c.p(0.35) { $f::<f32>(c) } else { $f::<f64>(c) })
            };
        }
        both!("vectors", 60000, vectors);
        both!("inertia", 30000, inertia);
        both!("refused", 20000, refused);
        both!("free-joint", 30000, free_joint);
        for (e, n) in [("spatial vector algebra judged", 30000), ("inertia judged", 10000), ("bad inertia refused", 10000), ("free joint judged", 10000)] {
            s.require(e, n);
        }
    })
}
