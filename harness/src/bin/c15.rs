//! C15: quaternions and Lie groups.
use multicalc::scalar::{Dual, Jet};
use multicalc::spatial::*;
use multicalc::{Matrix, Numeric, Vector};
use vmon::rot::*;
use vmon::*;

fn va<const N: usize, T: Fl>(a: [f64; N]) -> Vector<N, T> {
    Vector::new(a.map(T::t))
}
fn fa<const N: usize, T: Fl>(v: &Vector<N, T>) -> [f64; N] {
    core::array::from_fn(|i| v[i].d())
}
fn rt<const N: usize, T: Fl>(a: [f64; N]) -> [f64; N] {
    a.map(|v| T::t(v).d())
}
fn qt<T: Fl>(a: [f64; 4]) -> Quaternion<T> {
    Quaternion::from_array(a.map(T::t))
}
fn qa<T: Fl>(q: Quaternion<T>) -> [f64; 4] {
    q.as_array().map(|v| v.d())
}
fn close<const N: usize>(c: &mut Case, tag: &str, got: [f64; N], want: [DD; N], tol: f64) {
    for i in 0..N {
        c.ok((dd(got[i]) - want[i]).f().abs() <= tol, tag, || format!("component {i}: got {got:?}, want {:?}, tolerance {tol:e}", want.map(|v| v.f())));
    }
}
fn close_mat<const R: usize, const C: usize, T: Fl>(c: &mut Case, tag: &str, got: &Matrix<R, C, T>, want: &RM, tol: f64) {
    for i in 0..R {
        for j in 0..C {
            c.ok((dd(got[(i, j)].d()) - want.at(i, j)).f().abs() <= tol, tag, || format!("({i},{j}): got {:e}, want {:e}, tolerance {tol:e}", got[(i, j)].d(), want.f(i, j)));
        }
    }
}
fn unit_ok<T: Fl>(c: &mut Case, tag: &str, q: Quaternion<T>) {
    let n = qnorm(q_of(qa(q))).f();
    c.near(tag, n, 1.0, 8.0 * T::EPS);
}
/// Same rotation up to sign.
fn same_rot(c: &mut Case, tag: &str, got: [f64; 4], want: Q, tol: f64) {
    let e = |s: f64| (0..4).map(|i| (dd(got[i]) - want[i] * dd(s)).f().abs()).fold(0.0, f64::max);
    c.ok(e(1.0).min(e(-1.0)) <= tol, tag, || format!("got {got:?}, want +-{:?}, tolerance {tol:e}", want.map(|v| v.f())));
}
fn gen_phi<T: Fl>(c: &mut Case, max: f64) -> [f64; 3] {
    let u = c.unit3();
    let a = match c.us(0, 7) {
        0 => 0.0,
        1 => c.lu(-18.0, -6.0),
        2 => c.lu(-6.0, -1.0),
        3 => max - c.lu(-9.0, -1.0).min(0.5 * max),
        4 => c.lu(-3.0, 0.0),
        _ => c.f(0.0, max),
    };
    if c.p(0.15) {
        let i = c.us(0, 2);
        return rt::<3, T>(core::array::from_fn(|k| if k == i { a } else { 0.0 }));
    }
    rt::<3, T>(u.map(|v| v * a))
}
fn gen_q<T: Fl>(c: &mut Case) -> [f64; 4] {
    let q = gen_rot(c);
    let s = if c.p(0.3) { -1.0 } else { 1.0 };
    rt::<4, T>(q.map(|v| v * s))
}
fn algebra<T: Fl>(c: &mut Case) {
    let g = |c: &mut Case| if c.p(0.2) { c.lu(-6.0, 6.0) * c.sign() } else { c.f(-2.0, 2.0) };
    let a = rt::<4, T>(c.arr(g));
    let b = rt::<4, T>(c.arr(g));
    let k = T::t(c.real()).d();
    c.note("a b k", &(a, b, k));
    let (x, y) = (qt::<T>(a), qt::<T>(b));
    let (na, nb) = (nrm(&a), nrm(&b));
    close(c, "product", qa(x * y), qmul(q_of(a), q_of(b)), 6.0 * T::EPS * na * nb);
    close(c, "conjugate", qa(x.conjugate()), qconj(q_of(a)), 0.0);
    close(c, "sum", qa(x + y), core::array::from_fn(|i| dd(a[i]) + dd(b[i])), T::EPS * (na + nb));
    close(c, "difference", qa(x - y), core::array::from_fn(|i| dd(a[i]) - dd(b[i])), T::EPS * (na + nb));
    close(c, "negation", qa(-x), qneg(q_of(a)), 0.0);
    close(c, "scaled", qa(x * T::t(k)), q_of(a).map(|v| v * dd(k)), 2.0 * T::EPS * na * k.abs());
    c.near("norm", x.norm().d(), na, 6.0 * T::EPS * na);
    c.near("norm-squared", x.norm_squared().d(), na * na, 8.0 * T::EPS * na * na);
    c.near("dot", x.dot(y).d(), (0..4).map(|i| dd(a[i]) * dd(b[i])).fold(dd(0.0), |s, v| s + v).f(), 6.0 * T::EPS * na * nb);
    let inv = q_of(a).map(|v| v / dd(na * na));
    close(c, "inverse", qa(x.inverse()), qconj(inv), 12.0 * T::EPS / na);
    close(c, "normalized", qa(x.normalized()), qunit(q_of(a)), 8.0 * T::EPS);
    let t = c.some("try-normalized", x.try_normalized());
    close(c, "try-normalized", qa(t), qunit(q_of(a)), 8.0 * T::EPS);
    c.eq("parts", (qa(Quaternion::from_scalar_vector(x.w(), x.vec())), x.as_array().map(|v| v.d()), [x.w().d(), x.x().d(), x.y().d(), x.z().d()]), (a, a, a));
    // Exponential and logarithm.
    let ph = gen_phi::<T>(c, 3.0);
    let w = T::t(c.f(-2.0, 2.0)).d();
    c.note("exp of", &(w, ph));
    let e = qt::<T>([w, ph[0], ph[1], ph[2]]).exp();
    let ew = dd(w).exp_();
    let u = qexp(v_of(ph.map(|v| 2.0 * v)));
    close(c, "exp", qa(e), u.map(|v| v * ew), 20.0 * T::EPS * (1.0 + w.abs()) * ew.f());
    // Away from the negative real axis the logarithm undoes it.
    let back = qa(e.log());
    let th = nrm(&ph);
    if th < 2.8 {
        close(c, "log", back, q_of([w, ph[0], ph[1], ph[2]]), 60.0 * T::EPS * (1.0 + th / (std::f64::consts::PI - th)) * (1.0 + w.abs()));
        c.hit("quaternion log undoes exp");
    }
    c.hit("quaternion algebra judged");
}
fn refusals<T: Fl>(c: &mut Case) {
    let mut a = rt::<4, T>(c.unit4());
    let k = c.us(0, 3);
    a[k] = c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    c.ok(qt::<T>(a).try_normalized().is_none(), "normalized-nonfinite", || format!("{a:?}"));
    c.ok(SO3::try_from_quaternion(qt::<T>(a)).is_none(), "so3-nonfinite", || format!("{a:?}"));
    c.ok(qt::<T>([0.0; 4]).try_normalized().is_none() && SO3::try_from_quaternion(qt::<T>([0.0; 4])).is_none(), "normalized-zero", || "zero".into());
    c.ok(FreeJointState::<T>::from_generalized_vectors([T::ZERO; 7], [T::ONE; 6]).is_none(), "free-joint-zero", || "zero".into());
    c.hit("bad quaternion refused");
    // Matrices that are not rotations.
    let q = gen_q::<T>(c);
    let m = qmat(qunit(q_of(q)));
    let bad = c.us(0, 3);
    let (i, j) = (c.us(0, 2), c.us(0, 2));
    let mut f: [[f64; 3]; 3] = core::array::from_fn(|r| core::array::from_fn(|s| m.f(r, s)));
    match bad {
        0 => f[i][j] += c.sign() * c.lu(-2.0, 0.5),
        1 => (0..3).for_each(|r| f[r][j] = -f[r][j]),
        2 => f[i][j] = c.pick(&[f64::NAN, f64::INFINITY]),
        _ => {
            let k = 1.0 + c.sign() * c.lu(-2.0, -0.5);
            f.iter_mut().flatten().for_each(|v| *v *= k);
        }
    }
    c.note("not a rotation", &f);
    let mt = Matrix::<3, 3, T>::from_fn(|r, s| T::t(f[r][s]));
    c.ok(SO3::try_from_matrix(mt).is_none(), "so3-bad-matrix", || format!("{f:?}"));
    let homog = |f: &[[f64; 3]; 3], row: [f64; 4], t: [f64; 3]| Matrix::<4, 4, T>::from_fn(|r, s| T::t(if r == 3 { row[s] } else if s == 3 { t[r] } else { f[r][s] }));
    let t = rt::<3, T>(c.arr(|c| c.real()));
    c.ok(SE3::try_from_matrix(homog(&f, [0.0, 0.0, 0.0, 1.0], t)).is_none(), "se3-bad-rotation", || format!("{f:?}"));
    let good: [[f64; 3]; 3] = core::array::from_fn(|r| core::array::from_fn(|s| m.f(r, s)));
    let mut row = [0.0, 0.0, 0.0, 1.0];
    row[c.us(0, 3)] += c.sign() * c.lu(-3.0, 1.0);
    c.ok(SE3::try_from_matrix(homog(&good, row, t)).is_none(), "se3-bad-row", || format!("{row:?}"));
    let mut t2 = t;
    t2[c.us(0, 2)] = c.pick(&[f64::NAN, f64::INFINITY]);
    c.ok(SE3::try_from_matrix(homog(&good, [0.0, 0.0, 0.0, 1.0], t2)).is_none(), "se3-bad-translation", || format!("{t2:?}"));
    // Planar.
    let a = c.f(-3.2, 3.2);
    let (s, co) = a.sin_cos();
    let mut p = [[co, -s], [s, co]];
    let bad = c.us(0, 3);
    match bad {
        0 => p[c.us(0, 1)][c.us(0, 1)] += c.sign() * c.lu(-2.0, 0.0),
        1 => (0..2).for_each(|r| p[r][1] = -p[r][1]),
        2 => p[c.us(0, 1)][c.us(0, 1)] = c.pick(&[f64::NAN, f64::INFINITY]),
        _ => p.iter_mut().flatten().for_each(|v| *v *= 1.01),
    }
    c.note("not a planar rotation", &p);
    // A reflection needs a changed entry that is not tiny either way round.
    let planar = Matrix::<2, 2, T>::from_fn(|r, s| T::t(p[r][s]));
    c.ok(SO2::try_from_matrix(planar).is_none(), "so2-bad-matrix", || format!("{p:?}"));
    c.ok(SE2::try_from_matrix(Matrix::<3, 3, T>::from_fn(|r, s| if r == 2 { if s == 2 { T::ONE } else { T::ZERO } } else if s == 2 { T::ONE } else { T::t(p[r][s]) })).is_none(), "se2-bad-rotation", || format!("{p:?}"));
    let g = [[co, -s], [s, co]];
    let mut row = [0.0, 0.0, 1.0];
    row[c.us(0, 2)] += c.sign() * c.lu(-3.0, 1.0);
    c.ok(SE2::try_from_matrix(Matrix::<3, 3, T>::from_fn(|r, s| T::t(if r == 2 { row[s] } else if s == 2 { 0.5 } else { g[r][s] }))).is_none(), "se2-bad-row", || format!("{row:?}"));
    c.hit("bad matrix refused");
}
fn rotations<T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let a = gen_q::<T>(c);
    let qa_ = q_of(a);
    let x = qt::<T>(a);
    c.note("q", &a);
    // Matrix and point action.
    let m = x.to_rotation_matrix();
    close_mat(c, "to-matrix", &m, &qmat(qunit(qa_)), 12.0 * e);
    let p = rt::<3, T>(c.arr(|c| c.f(-3.0, 3.0)));
    let np = nrm(&p) + 1e-30;
    close(c, "rotate", fa(&x.transform_point(va(p))), qrot(qunit(qa_), v_of(p)), 24.0 * e * np);
    close(c, "rotate-back", fa(&x.inverse_transform_point(va(p))), qrot(qconj(qunit(qa_)), v_of(p)), 24.0 * e * np);
    // From a matrix, rounded from the exact one.
    let exact = qmat(qunit(qa_));
    let mt: Matrix<3, 3, T> = mat(&exact);
    let back = c.some("from-matrix", Quaternion::try_from_rotation_matrix(mt));
    same_rot(c, "from-matrix", qa(back), qunit(qa_), 16.0 * e);
    unit_ok(c, "from-matrix-unit", back);
    // Axis-angle and rotation vectors.
    let v = x.to_scaled_axis();
    let want = qlog(qunit(qa_));
    let half = vnorm(want).f();
    // At a half turn the sign is free.
    let d = |s: f64| (0..3).map(|i| (dd(v[i].d() * s) - want[i]).f().abs()).fold(0.0, f64::max);
    let free = std::f64::consts::PI - half < 40.0 * e;
    c.ok(d(1.0) <= 24.0 * e * half + 1e-300 || free && d(-1.0) <= 100.0 * e, "to-scaled-axis", || format!("{:?}, want {:?}", fa(&v), vf(want)));
    let (ax, an) = x.to_axis_angle();
    let (ax, an) = (fa(&ax), an.d());
    c.near("axis-unit", nrm(&ax), 1.0, 8.0 * e);
    c.ok((0.0..=std::f64::consts::PI + 4.0 * e).contains(&an), "angle-range", || format!("{an:e}"));
    c.near("axis-angle", an, half, 12.0 * e * (1.0 + half));
    same_rot(c, "axis-angle-turn", qexp(v_of(ax.map(|k| k * an))).map(|v| v.f()), qunit(qa_), 24.0 * e);
    let b = c.some("axis", Some(Quaternion::from_axis_angle(va::<3, T>(ax.map(|k| k * 3.5)), T::t(an))));
    same_rot(c, "from-axis-angle", qa(b), qunit(qa_), 24.0 * e);
    unit_ok(c, "from-axis-angle-unit", b);
    let long = T::t(c.f(-20.0, 20.0)).d();
    let axis = rt::<3, T>(c.unit3().map(|v| v * c.lu(-3.0, 3.0)));
    c.note("axis angle", &(axis, long));
    let n = vnorm(v_of(axis));
    let want = qexp(core::array::from_fn(|i| dd(axis[i]) / n * dd(long)));
    close(c, "axis-angle-long", qa(Quaternion::from_axis_angle(va::<3, T>(axis), T::t(long))), want, 12.0 * e * (1.0 + long.abs()));
    c.eq("zero-axis", qa(Quaternion::from_axis_angle(va::<3, T>([0.0; 3]), T::t(long))), [1.0, 0.0, 0.0, 0.0]);
    let ph = gen_phi::<T>(c, 9.0);
    c.note("phi", &ph);
    let s = Quaternion::from_scaled_axis(va::<3, T>(ph));
    close(c, "from-scaled-axis", qa(s), qexp(v_of(ph)), 16.0 * e * (1.0 + nrm(&ph)));
    unit_ok(c, "from-scaled-axis-unit", s);
    // The smallest rotations keep their relative accuracy.
    if nrm(&ph) < 1.0 {
        for i in 0..3 {
            c.near("small-vector", s.as_array()[1 + i].d(), qexp(v_of(ph))[1 + i].f(), 12.0 * e * ph[i].abs());
        }
        let l = fa(&s.to_scaled_axis());
        for i in 0..3 {
            c.near("small-round-trip", l[i], ph[i], 24.0 * e * ph[i].abs());
        }
        c.hit("small rotation kept relatively accurate");
    }
    // Relative angle.
    let b = if c.p(0.4) {
        let ph = gen_phi::<T>(c, 3.1);
        rt::<4, T>(qmul(qunit(qa_), qexp(v_of(ph))).map(|v| v.f() * if ph[0] > 1.0 { -1.0 } else { 1.0 }))
    } else {
        gen_q::<T>(c)
    };
    c.note("other", &b);
    let y = qt::<T>(b);
    let ub = qunit(q_of(b));
    let ang = qangle(qunit(qa_), ub);
    c.near("angle-to", x.rotation_angle_to(y).d(), ang, 16.0 * e);
    c.near("angle-to-double-cover", x.rotation_angle_to(-y).d(), ang, 16.0 * e);
    // Interpolation along the shortest arc.
    let t = T::t(if c.p(0.2) { c.pick(&[0.0, 1.0, 0.5]) } else if c.p(0.1) { c.f(-1.0, 2.0) } else { c.unit() }).d();
    c.note("t", &t);
    let s = x.slerp(y, T::t(t));
    unit_ok(c, "slerp-unit", s);
    let rel = qmul(qconj(qunit(qa_)), ub);
    if rel[0].f().abs() > 100.0 * e {
        let want = qmul(qunit(qa_), qexp(vscale(qlog(rel), dd(t))));
        same_rot(c, "slerp", qa(s), want, 60.0 * e * (1.0 + t.abs()));
        c.hit("slerp judged against the geodesic");
    } else {
        // Opposite by a half turn: either way round, at the right distance.
        let d0 = qangle(qunit(qa_), q_of(qa(s)));
        if (0.0..=1.0).contains(&t) {
            c.near("slerp-half-turn", d0, t * std::f64::consts::PI, 600.0 * e);
        }
    }
    let s = SO3::from_quaternion(x).interpolate(SO3::from_quaternion(y), T::t(t));
    unit_ok(c, "interpolate-unit", s.quaternion());
    c.hit("rotation judged");
}
fn euler<T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let g = |c: &mut Case| if c.p(0.2) { c.int(-2, 2) as f64 * std::f64::consts::FRAC_PI_2 + if c.p(0.5) { c.ls(-9.0, -1.0) } else { 0.0 } } else { c.f(-3.2, 3.2) };
    let (r, p, y) = (T::t(g(c)).d(), T::t(if c.p(0.6) { c.f(-1.6, 1.6) } else { g(c) }).d(), T::t(g(c)).d());
    c.note("roll pitch yaw", &(r, p, y));
    let ax = |i: usize, a: f64| qexp(core::array::from_fn(|k| dd(if k == i { a } else { 0.0 })));
    let want = qmul(qmul(ax(2, y), ax(1, p)), ax(0, r));
    let q = Quaternion::from_euler_zyx(T::t(r), T::t(p), T::t(y));
    close(c, "from-euler", qa(q), want, 16.0 * e);
    unit_ok(c, "from-euler-unit", q);
    // Read back from any unit quaternion.
    let a = if c.p(0.5) { gen_q::<T>(c) } else { qa(q) };
    c.note("q", &a);
    let (r, p, y) = qt::<T>(a).to_euler_zyx();
    let (r, p, y) = (r.d(), p.d(), y.d());
    c.ok(p.abs() <= std::f64::consts::FRAC_PI_2 + 2.0 * e, "pitch-range", || format!("{p}"));
    let back = qmul(qmul(ax(2, y), ax(1, p)), ax(0, r));
    // The arcsine's conditioning near the poles limits the pitch there.
    let u = qunit(q_of(a));
    let sp = ((u[0] * u[2] - u[3] * u[1]) * dd(2.0)).f().clamp(-1.0, 1.0);
    let cp = ((1.0 - sp) * (1.0 + sp)).sqrt();
    let tol = 40.0 * e + if cp < 10.0 * e.sqrt() { 12.0 * e.sqrt() } else { 10.0 * e / cp };
    same_rot(c, "euler-read-back", back.map(|v| v.f()), u, tol);
    if cp < 10.0 * e.sqrt() {
        c.hit("gimbal lock read back");
    }
    c.hit("euler judged");
}
fn two_vectors<T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let mut a = c.unit3();
    if c.p(0.2) {
        // Nearly equal components: the lengths' rounding lines up with the direction itself.
        a = core::array::from_fn(|i| a[0].signum() * (1.0 + a[i] * c.lu(-14.0, -2.0)));
        let n = nrm(&a);
        a = a.map(|v| v / n);
    }
    let ex = if T::F32 { 30.0 } else { 250.0 };
    let b = match c.us(0, 5) {
        0 => a.map(|v| -v),
        1 | 2 => {
            let d = c.unit3();
            let k = c.lu(-16.0, -1.0);
            core::array::from_fn(|i| -a[i] + k * d[i])
        }
        3 => {
            let d = c.unit3();
            let k = c.lu(-16.0, -1.0);
            core::array::from_fn(|i| a[i] + k * d[i])
        }
        _ => c.unit3(),
    };
    let (ka, kb) = if c.p(0.5) { (1.0, 1.0) } else { (c.lu(-ex, ex), c.lu(-ex, ex)) };
    let a = rt::<3, T>(a.map(|v| v * ka));
    let b = rt::<3, T>(b.map(|v| v * kb));
    c.note("from to", &(a, b));
    let q = Quaternion::from_two_vectors(va::<3, T>(a), va::<3, T>(b));
    unit_ok(c, "unit", q);
    let (na, nb) = (vnorm(v_of(a)), vnorm(v_of(b)));
    let (ua, ub) = (v_of(a).map(|v| v / na), v_of(b).map(|v| v / nb));
    let got = qrot(q_of(qa(q)), ua);
    close(c, "carries", vf(got), ub, 24.0 * e);
    // Shortest: the turn is the angle between the directions.
    let s = vnorm(vcross(ua, ub));
    let ang = DD::atan2_(s, vdot(ua, ub)).f();
    let turn = qangle(qid(), qunit(q_of(qa(q))));
    c.near("shortest", turn, ang, 24.0 * e);
    if ang > 3.14 {
        c.hit("nearly opposite directions");
    }
    let none = c.pick(&[[0.0; 3], [f64::NAN, 1.0, 0.0], [f64::INFINITY, 0.0, 0.0]]);
    let q = if c.p(0.5) { Quaternion::from_two_vectors(va::<3, T>(none), va(b)) } else { Quaternion::from_two_vectors(va::<3, T>(a), va(none)) };
    c.eq("no-direction", qa(q), [1.0, 0.0, 0.0, 0.0]);
    c.hit("two vectors judged");
}
fn direction_pairs<T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let truth = qunit(q_of(gen_rot(c)));
    let p = c.unit3();
    let other = c.unit3();
    let sep = if c.p(0.4) { c.lu(-3.0, 0.0) } else { 1.0 };
    let s: [f64; 3] = core::array::from_fn(|i| p[i] + sep * other[i]);
    let (k1, k2, k3, k4) = (c.lu(-3.0, 3.0), c.lu(-3.0, 3.0), c.lu(-3.0, 3.0), c.lu(-3.0, 3.0));
    // Observed in the body; reference in the world; the secondary may disagree.
    let po = rt::<3, T>(p.map(|v| v * k1));
    let so = rt::<3, T>(s.map(|v| v * k2));
    let pr = rt::<3, T>(vf(vscale(qrot(truth, v_of(p)), dd(k3))));
    let noisy = c.p(0.5);
    let jig = c.unit3();
    let sr = rt::<3, T>(vf(vscale(vadd(qrot(truth, v_of(s)), if noisy { v_of(jig.map(|v| 0.3 * sep * v)) } else { [dd(0.0); 3] }), dd(k4))));
    c.note("pairs", &(po, so, pr, sr));
    let sine = |a: [f64; 3], b: [f64; 3]| vnorm(vcross(v_of(a), v_of(b))).f() / (nrm(&a) * nrm(&b));
    let (so_, sr_) = (sine(po, so), sine(pr, sr));
    if so_.min(sr_) < 1e-4 {
        return c.discard();
    }
    let got = c.some("pairs", SO3::from_two_direction_pairs(va::<3, T>(po), va(so), va(pr), va(sr)));
    let q = q_of(qa(got.quaternion()));
    unit_ok(c, "pairs-unit", got.quaternion());
    let u = |a: [f64; 3]| {
        let n = vnorm(v_of(a));
        v_of(a).map(|v| v / n)
    };
    let tol = 200.0 * e / so_.min(sr_);
    close(c, "primary-exact", vf(qrot(q, u(po))), u(pr), 60.0 * e);
    // The secondary lands in the half-plane of the reference.
    let w = qrot(q, u(so));
    let n = vcross(u(pr), u(sr));
    c.ok((vdot(w, n).f()).abs() <= tol * sr_ && vdot(vcross(u(pr), w), n).f() > 0.0, "secondary-plane", || format!("{:e}", vdot(w, n).f()));
    if !noisy {
        same_rot(c, "recovered", qa(got.quaternion()), truth, tol);
    }
    if so_ < 0.03 {
        c.hit("nearly parallel pair");
    }
    // Parallel directions or none at all.
    let z = [0.0; 3];
    let nan = [f64::NAN, 0.0, 0.0];
    let par = c.int(1, 3) as f64 * c.sign();
    let along = rt::<3, T>(po.map(|v| v * 0.7 * par));
    let bad = match c.us(0, 5) {
        5 => SO3::from_two_direction_pairs(va::<3, T>(po), va(along), va(pr), va(sr)),
        0 => SO3::from_two_direction_pairs(va::<3, T>(z), va(so), va(pr), va(sr)),
        1 => SO3::from_two_direction_pairs(va::<3, T>(po), va(z), va(pr), va(sr)),
        2 => SO3::from_two_direction_pairs(va::<3, T>(po), va(so), va(pr), va(nan)),
        3 => SO3::from_two_direction_pairs(va::<3, T>([0.0, 2.0, 0.0]), va([0.0, 2.0 * par, 0.0]), va(pr), va(sr)),
        _ => SO3::from_two_direction_pairs(va::<3, T>(po), va(so), va(pr), va(z)),
    };
    c.ok(bad.is_none(), "pairs-refused", || "accepted".into());
    c.hit("direction pairs judged");
}
fn pose_of<T: Fl>(x: SE3<T>) -> Pose {
    Pose { q: qunit(q_of(qa(x.rotation().quaternion()))), t: v_of(fa(&x.translation())) }
}
fn so2se2<T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let g = |c: &mut Case| match c.us(0, 5) {
        0 => 0.0,
        1 => c.ls(-17.0, -3.0),
        2 => c.ls(-3.0, 0.3),
        3 => (std::f64::consts::PI - c.lu(-9.0, -1.0)) * c.sign(),
        _ => c.f(-3.1, 3.1),
    };
    let (wa, wb) = (T::t(g(c)).d(), T::t(g(c)).d());
    let h = |c: &mut Case| c.arr::<2>(|c| if c.p(0.2) { 0.0 } else { c.f(-4.0, 4.0) });
    let (va_, vb_) = (rt::<2, T>(h(c)), rt::<2, T>(h(c)));
    let p = rt::<2, T>(h(c));
    c.note("twists", &((va_, wa), (vb_, wb), p));
    // Reference planar motion embedded in space about z.
    let pe = |v: [f64; 2], w: f64| pexp(v_of([v[0], v[1], 0.0]), v_of([0.0, 0.0, w]));
    let (ra, rb) = (pe(va_, wa), pe(vb_, wb));
    let (a, b) = (SE2::<T>::exp(va([va_[0], va_[1], wa])), SE2::<T>::exp(va([vb_[0], vb_[1], wb])));
    let sz = 1.0 + nrm(&va_) + nrm(&vb_) + nrm(&p);
    let se = |c: &mut Case, tag: &str, got: SE2<T>, want: &Pose, tol: f64| {
        let (co, s) = got.rotation().cos_sin();
        let m = qmat(want.q);
        close(c, tag, [co.d(), s.d()], [m.at(0, 0), m.at(1, 0)], tol);
        close(c, tag, fa(&got.translation()), [want.t[0], want.t[1]], tol * sz);
    };
    se(c, "se2-exp", a, &ra, 12.0 * e);
    se(c, "se2-compose", a * b, &ra.mul(&rb), 40.0 * e);
    c.eq("se2-compose-op", a * b, a.compose(b));
    se(c, "se2-inverse", a.inverse(), &ra.inv(), 40.0 * e);
    let im = ra.act(v_of([p[0], p[1], 0.0]));
    close(c, "se2-act", fa(&a.act(va(p))), [im[0], im[1]], 40.0 * e * sz);
    let near_pi = std::f64::consts::PI - wa.abs();
    if near_pi > 1e-3 {
        close(c, "se2-log", fa(&a.log()), [dd(va_[0]), dd(va_[1]), dd(wa)], 60.0 * e * sz / near_pi.min(1.0));
        c.hit("planar log undoes exp");
    }
    let rel = ra.inv().mul(&rb);
    let (rl, rw) = plog(&rel);
    let t = T::t(c.f(-0.2, 1.2)).d();
    c.note("t", &t);
    if std::f64::consts::PI - vnorm(rw).f() > 1e-2 {
        let want = ra.mul(&pexp(vscale(rl, dd(t)), vscale(rw, dd(t))));
        se(c, "se2-interpolate", a.interpolate(b, T::t(t)), &want, 200.0 * e * (1.0 + 1.0 / (std::f64::consts::PI - vnorm(rw).f())));
    }
    // Matrices.
    let m = ra.mat();
    let hm = RM::from_fn(3, 3, |i, j| if i == 2 { if j == 2 { 1.0 } else { 0.0 } } else if j == 2 { ra.t[i].f() } else { m.f(i, j) });
    close_mat(c, "se2-matrix", &a.to_matrix(), &hm, 12.0 * e * sz);
    let back = c.some("se2-from-matrix", SE2::<T>::try_from_matrix(mat(&hm)));
    se(c, "se2-from-matrix", back, &ra, 12.0 * e);
    let back = c.some("so2-from-matrix", SO2::<T>::try_from_matrix(mat(&hm)));
    close(c, "so2-from-matrix", [back.cos_sin().0.d(), back.cos_sin().1.d()], [m.at(0, 0), m.at(1, 0)], 8.0 * e);
    // Adjoint, hat and the Jacobians from the adjoint series.
    let ad = RM::rows(&[&[0.0, -wa, va_[1]], &[wa, 0.0, -va_[0]], &[0.0, 0.0, 0.0]]);
    let xi = va::<3, T>([va_[0], va_[1], wa]);
    close_mat(c, "se2-hat", &SE2::<T>::hat(xi), &RM::rows(&[&[0.0, -wa, va_[0]], &[wa, 0.0, va_[1]], &[0.0; 3]]), 0.0);
    c.eq("se2-vee", fa(&SE2::<T>::vee(SE2::hat(xi))), fa(&xi));
    let big = ra.adj();
    let adj = RM::from_fn(3, 3, |i, j| big.f([0, 1, 5][i], [0, 1, 5][j]));
    close_mat(c, "se2-adjoint", &a.adjoint(), &adj, 16.0 * e * sz);
    let jl = phi1(&ad);
    let jr = phi1(&ad.scale(-1.0));
    close_mat(c, "se2-left-jacobian", &SE2::<T>::left_jacobian(xi), &jl, 400.0 * e * sz);
    close_mat(c, "se2-right-jacobian", &SE2::<T>::right_jacobian(xi), &jr, 400.0 * e * sz);
    close_mat(c, "se2-left-jacobian-inverse", &SE2::<T>::left_jacobian_inverse(xi), &jl.inv().unwrap(), 1000.0 * e * sz);
    close_mat(c, "se2-right-jacobian-inverse", &SE2::<T>::right_jacobian_inverse(xi), &jr.inv().unwrap(), 1000.0 * e * sz);
    // SO(2).
    let (x, y) = (SO2::<T>::from_angle(T::t(wa)), SO2::<T>::exp(T::t(wb)));
    let cs = |w: f64| dd(w).sincos();
    let (s, co) = cs(wa);
    close(c, "so2", [x.cos_sin().0.d(), x.cos_sin().1.d()], [co, s], 4.0 * e);
    let (s2, co2) = (dd(wa) + dd(wb)).sincos();
    let z = x * y;
    close(c, "so2-compose", [z.cos_sin().0.d(), z.cos_sin().1.d()], [co2, s2], 8.0 * e);
    close(c, "so2-inverse", [x.inverse().cos_sin().0.d(), x.inverse().cos_sin().1.d()], [co, -s], 4.0 * e);
    let lw = x.log().d();
    c.ok((lw - wa).abs() <= 8.0 * e * wa.abs() || std::f64::consts::PI - wa.abs() < 4.0 * e && (lw + wa).abs() <= 8.0 * e * wa.abs(), "so2-log", || format!("{lw:e}, want {wa:e}"));
    close(c, "so2-act", fa(&x.act(va(p))), [co * dd(p[0]) - s * dd(p[1]), s * dd(p[0]) + co * dd(p[1])], 12.0 * e * (nrm(&p) + 1e-30));
    c.near("so2-norm", z.norm().d(), 1.0, 8.0 * e);
    let drift = SO2::<T>::from_angle(T::t(wa));
    let mut d = drift;
    for _ in 0..20 {
        d = d * drift;
    }
    c.near("so2-normalized", d.normalized().norm().d(), 1.0, 4.0 * e);
    let rel = dd(wb) - dd(wa);
    let two_pi = 2.0 * std::f64::consts::PI;
    let k = (rel.f() / two_pi).round();
    let rel_w = rel.f() - k * two_pi;
    if std::f64::consts::PI - rel_w.abs() > 1e-3 {
        let w = dd(wa + 0.0) + dd(rel_w) * dd(t);
        let (s, co) = w.sincos();
        let i = x.interpolate(y, T::t(t));
        close(c, "so2-interpolate", [i.cos_sin().0.d(), i.cos_sin().1.d()], [co, s], 60.0 * e);
    }
    c.eq("so2-vee", SO2::<T>::vee(SO2::hat(T::t(wa))).d(), wa);
    close_mat(c, "so2-hat", &SO2::<T>::hat(T::t(wa)), &RM::rows(&[&[0.0, -wa], &[wa, 0.0]]), 0.0);
    close_mat(c, "so2-matrix", &x.to_matrix(), &RM::rows(&[&[co.f(), -s.f()], &[s.f(), co.f()]]), 4.0 * e);
    // A matrix that has drifted off the unit circle comes back on it.
    let grown = 1.0 + c.f(-12.0, 12.0) * e;
    let dm: Matrix<2, 2, T> = mat(&RM::rows(&[&[co.f() * grown, -s.f() * grown], &[s.f() * grown, co.f() * grown]]));
    let on = c.some("so2-drifted-matrix", SO2::<T>::try_from_matrix(dm));
    close(c, "so2-drifted-matrix", [on.cos_sin().0.d(), on.cos_sin().1.d()], [co, s], 4.0 * e);
    c.near("so2-drifted-matrix-unit", (on.cos_sin().0.d().powi(2) + on.cos_sin().1.d().powi(2)).sqrt(), 1.0, 2.0 * e);
    c.eq("so2-trivial", [x.adjoint(), SO2::left_jacobian(T::t(wa)), SO2::right_jacobian(T::t(wa)), SO2::left_jacobian_inverse(T::t(wa)), SO2::right_jacobian_inverse(T::t(wa))], [T::ONE; 5]);
    c.hit("planar group judged");
}
fn so3se3<T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let (wa, wb) = (gen_phi::<T>(c, 3.14159), gen_phi::<T>(c, 6.0));
    let h = |c: &mut Case| {
        let k = if c.p(0.2) { c.lu(-6.0, 2.0) } else { 3.0 };
        c.arr::<3>(|c| if c.p(0.1) { 0.0 } else { k * c.f(-1.0, 1.0) })
    };
    let (la, lb) = (rt::<3, T>(h(c)), rt::<3, T>(h(c)));
    let p = rt::<3, T>(h(c));
    c.note("twists", &((la, wa), (lb, wb), p));
    let six = |l: [f64; 3], w: [f64; 3]| va::<6, T>([l[0], l[1], l[2], w[0], w[1], w[2]]);
    let (ra, rb) = (pexp(v_of(la), v_of(wa)), pexp(v_of(lb), v_of(wb)));
    let (a, b) = (SE3::exp(six(la, wa)), SE3::exp(six(lb, wb)));
    let sz = nrm(&la) + nrm(&lb) + nrm(&p) + 1e-30;
    let se = |c: &mut Case, tag: &str, got: SE3<T>, want: &Pose, tol: f64| {
        same_rot(c, tag, qa(got.rotation().quaternion()), want.q, tol);
        close(c, tag, fa(&got.translation()), want.t, tol * sz);
    };
    let (tha, thb) = (nrm(&wa), nrm(&wb));
    let base = 100.0 * e * (1.0 + tha + thb);
    se(c, "se3-exp", a, &ra, base);
    se(c, "se3-exp", b, &rb, base);
    se(c, "se3-compose", a * b, &ra.mul(&rb), 3.0 * base);
    c.eq("se3-compose-op", a * b, a.compose(b));
    se(c, "se3-inverse", a.inverse(), &ra.inv(), 3.0 * base);
    close(c, "se3-act", fa(&a.act(va(p))), ra.act(v_of(p)), 3.0 * base * sz);
    let slack = std::f64::consts::PI - tha;
    if slack > 40.0 * e {
        let l = fa(&a.log());
        close(c, "se3-log", [l[3], l[4], l[5]], v_of(wa), 40.0 * e * (1.0 + tha));
        close(c, "se3-log", [l[0], l[1], l[2]], v_of(la), 10.0 * base * sz);
        close(c, "so3-log", fa(&a.rotation().log()), v_of(wa), 40.0 * e * (1.0 + tha));
        c.hit("spatial log undoes exp");
    }
    // Interpolation along the screw.
    let rel = pose_of(a).inv().mul(&pose_of(b));
    let (rl, rw) = plog(&rel);
    let t = T::t(c.f(-0.2, 1.2)).d();
    c.note("t", &t);
    if std::f64::consts::PI - vnorm(rw).f() > 1e-2 {
        let want = pose_of(a).mul(&pexp(vscale(rl, dd(t)), vscale(rw, dd(t))));
        se(c, "se3-interpolate", a.interpolate(b, T::t(t)), &want, 20.0 * base);
        c.hit("screw interpolation judged");
    }
    // Matrices.
    close_mat(c, "se3-matrix", &a.to_matrix(), &ra.mat(), base * (1.0 + sz));
    let mt: Matrix<4, 4, T> = mat(&ra.mat());
    let back = c.some("se3-from-matrix", SE3::try_from_matrix(mt));
    se(c, "se3-from-matrix", back, &ra, 24.0 * e);
    let back = c.some("so3-from-matrix", SO3::try_from_matrix(mat::<3, 3, T>(&qmat(ra.q))));
    same_rot(c, "so3-from-matrix", qa(back.quaternion()), ra.q, 24.0 * e);
    close_mat(c, "so3-matrix", &a.rotation().to_matrix(), &qmat(ra.q), base);
    close_mat(c, "so3-adjoint", &a.rotation().adjoint(), &qmat(ra.q), base);
    c.eq("parts", SE3::from_parts(a.rotation(), a.translation()), a);
    let o = SO3::exp(va::<3, T>(wa));
    same_rot(c, "so3-exp", qa(o.quaternion()), qexp(v_of(wa)), base);
    same_rot(c, "so3-compose", qa((o * SO3::exp(va::<3, T>(wb))).quaternion()), qmul(qexp(v_of(wa)), qexp(v_of(wb))), base);
    same_rot(c, "so3-inverse", qa(o.inverse().quaternion()), qconj(qexp(v_of(wa))), base);
    close(c, "so3-act", fa(&o.act(va(p))), qrot(qexp(v_of(wa)), v_of(p)), base * sz);
    // Hat, vee, adjoints.
    let xi = six(la, wa);
    let hw = hat3(v_of(wa));
    let hm = RM::from_fn(4, 4, |i, j| if i == 3 { 0.0 } else if j == 3 { la[i] } else { hw.f(i, j) });
    close_mat(c, "se3-hat", &SE3::<T>::hat(xi), &hm, 0.0);
    c.eq("se3-vee", fa(&SE3::<T>::vee(SE3::hat(xi))), fa(&xi));
    close_mat(c, "so3-hat", &SO3::<T>::hat(va(wa)), &hw, 0.0);
    c.eq("so3-vee", fa(&SO3::<T>::vee(SO3::hat(va(wa)))), wa);
    let adj = pose_of(a).adj();
    close_mat(c, "se3-adjoint", &a.adjoint(), &adj, 30.0 * e * (1.0 + sz));
    let fad = adj.inv().unwrap().t();
    close_mat(c, "se3-force-adjoint", &a.force_adjoint(), &fad, 30.0 * e * (1.0 + sz));
    // Jacobians from the adjoint series.
    let ad = ad6(v_of(la), v_of(wa));
    let (jl, jr) = (phi1(&ad), phi1(&ad.scale(-1.0)));
    let jt = 3000.0 * e * (1.0 + nrm(&la));
    close_mat(c, "se3-left-jacobian", &SE3::<T>::left_jacobian(xi), &jl, jt);
    close_mat(c, "se3-right-jacobian", &SE3::<T>::right_jacobian(xi), &jr, jt);
    close_mat(c, "se3-left-jacobian-inverse", &SE3::<T>::left_jacobian_inverse(xi), &jl.inv().unwrap(), 5.0 * jt);
    close_mat(c, "se3-right-jacobian-inverse", &SE3::<T>::right_jacobian_inverse(xi), &jr.inv().unwrap(), 5.0 * jt);
    let (j3, r3) = (phi1(&hw), phi1(&hw.scale(-1.0)));
    close_mat(c, "so3-left-jacobian", &SO3::<T>::left_jacobian(va(wa)), &j3, 200.0 * e);
    close_mat(c, "so3-right-jacobian", &SO3::<T>::right_jacobian(va(wa)), &r3, 200.0 * e);
    close_mat(c, "so3-left-jacobian-inverse", &SO3::<T>::left_jacobian_inverse(va(wa)), &j3.inv().unwrap(), 400.0 * e);
    close_mat(c, "so3-right-jacobian-inverse", &SO3::<T>::right_jacobian_inverse(va(wa)), &r3.inv().unwrap(), 400.0 * e);
    c.hit("spatial group judged");
}
/// Derivatives carried through exp and log equal the group Jacobians, at and near zero too.
fn derivatives(c: &mut Case) {
    let wa = gen_phi::<f64>(c, 3.0);
    let la = c.arr::<3>(|c| c.f(-2.0, 2.0));
    let d = c.arr::<6>(|c| c.f(-1.0, 1.0));
    c.note("twist and direction", &(la, wa, d));
    let x: [f64; 6] = [la[0], la[1], la[2], wa[0], wa[1], wa[2]];
    let g = SE3::<Dual<f64>>::exp(Vector::new(core::array::from_fn(|i| Dual { value: x[i], deriv: d[i] })));
    let jr = phi1(&ad6(v_of(la), v_of(wa)).scale(-1.0));
    // Body velocity of the moving frame.
    let body: [DD; 6] = core::array::from_fn(|i| (0..6).fold(dd(0.0), |s, j| s + jr.at(i, j) * dd(d[j])));
    let base = pexp(v_of(la), v_of(wa));
    let dt = qrot(base.q, [body[0], body[1], body[2]]);
    let t = g.translation();
    let sz = 1.0 + nrm(&la);
    close(c, "exp-translation-derivative", [t[0].deriv, t[1].deriv, t[2].deriv], dt, 2e-9 * sz);
    let dq = qmul(base.q, [dd(0.0), body[3] * dd(0.5), body[4] * dd(0.5), body[5] * dd(0.5)]);
    close(c, "exp-rotation-derivative", g.rotation().quaternion().as_array().map(|v| v.deriv), dq, 1e-12);
    // And back down.
    let l = g.log();
    for i in 0..6 {
        c.ok(l[i].value.is_finite() && l[i].deriv.is_finite(), "log-derivative-finite", || format!("{:?}", l[i]));
    }
    let th = nrm(&wa);
    if th > 1e-3 || th == 0.0 {
        for i in 3..6 {
            c.near("log-derivative", l[i].deriv, d[i], 1e-9);
        }
        if th > 0.05 {
            for i in 0..3 {
                c.near("log-linear-derivative", l[i].deriv, d[i], 1e-8 * sz);
            }
        }
        c.hit("log derivative judged");
    }
    let w = c.f(-3.0, 3.0) * if c.p(0.3) { c.lu(-12.0, -1.0) } else { 1.0 };
    let w = if c.p(0.1) { 0.0 } else { w };
    let e = SE2::<Dual<f64>>::exp(Vector::new([Dual { value: la[0], deriv: d[0] }, Dual { value: la[1], deriv: d[1] }, Dual { value: w, deriv: d[2] }]));
    let ad = RM::rows(&[&[0.0, -w, la[1]], &[w, 0.0, -la[0]], &[0.0, 0.0, 0.0]]);
    let jr = phi1(&ad.scale(-1.0));
    let body: [DD; 3] = core::array::from_fn(|i| (0..3).fold(dd(0.0), |s, j| s + jr.at(i, j) * dd(d[j])));
    let (s, co) = dd(w).sincos();
    let t = e.translation();
    c.note("planar turn", &w);
    close(c, "se2-translation-derivative", [t[0].deriv, t[1].deriv], [co * body[0] - s * body[1], s * body[0] + co * body[1]], 2e-9 * sz);
    c.hit("exp derivative judged");
    // Setting off from rest along a straight line: where it bends to, second order included.
    let jet = |v: f64| Jet::<f64, 3>::new([0.0, v, 0.0]);
    let (l, w) = ([d[0], d[1], d[2]], [d[3], d[4], d[5]]);
    let s0 = c.f(-1.0, 1.0);
    let q = Quaternion::<Jet<f64, 3>>::from_array([Jet::new([s0, 0.0, 0.0]), jet(w[0]), jet(w[1]), jet(w[2])]).exp();
    let ww = nrm(&w) * nrm(&w);
    let k = s0.exp();
    let q = q.as_array().map(|v| v.coeffs);
    let want: [[f64; 3]; 4] = [[k, 0.0, -0.5 * ww * k], [0.0, k * w[0], 0.0], [0.0, k * w[1], 0.0], [0.0, k * w[2], 0.0]];
    for i in 0..4 {
        for o in 0..3 {
            c.near("quaternion-exp-at-rest", q[i][o], want[i][o], 1e-13);
        }
    }
    let g = SE3::<Jet<f64, 3>>::exp(Vector::new([jet(l[0]), jet(l[1]), jet(l[2]), jet(w[0]), jet(w[1]), jet(w[2])]));
    let (m, t) = (g.rotation().to_matrix(), g.translation());
    let wx = [[0.0, -w[2], w[1]], [w[2], 0.0, -w[0]], [-w[1], w[0], 0.0]];
    for i in 0..3 {
        let bend = 0.5 * (0..3).map(|j| wx[i][j] * l[j]).sum::<f64>();
        for (o, want) in [0.0, l[i], bend].into_iter().enumerate() {
            c.near("translation-at-rest", t[i].coeffs[o], want, 1e-13);
        }
        for j in 0..3 {
            let two = 0.5 * (0..3).map(|n| wx[i][n] * wx[n][j]).sum::<f64>();
            for (o, want) in [(i == j) as u8 as f64, wx[i][j], two].into_iter().enumerate() {
                c.near("rotation-at-rest", m[(i, j)].coeffs[o], want, 1e-13);
            }
        }
    }
    let g = SE2::<Jet<f64, 3>>::exp(Vector::new([jet(l[0]), jet(l[1]), jet(w[2])]));
    let t = g.translation();
    for (i, bend) in [-0.5 * w[2] * l[1], 0.5 * w[2] * l[0]].into_iter().enumerate() {
        for (o, want) in [0.0, l[i], bend].into_iter().enumerate() {
            c.near("planar-translation-at-rest", t[i].coeffs[o], want, 1e-13);
        }
    }
    c.hit("bend from rest judged");
}
fn main() {
    vmon::run("C15", |s| {
        s.rule("A case counts when a rotation or rigid motion was compared with the same motion worked out in double-double; distinct = distinct inputs.");
        s.assume("Rotation queries are given unit quaternions (as documented); axis lengths stay where their square is representable except in from_two_vectors; Euler read-back near the poles is held to the arcsine's own conditioning.");
        macro_rules! both {
            ($n:literal, $q:expr, $f:ident) => {
                s.monitor($n, $q, 20, |c| if c.p(0.35) { $f::<f32>(c) } else { $f::<f64>(c) })
            };
        }
        both!("algebra", 60000, algebra);
        both!("refusals", 30000, refusals);
        both!("rotations", 60000, rotations);
        both!("euler", 60000, euler);
        both!("two-vectors", 60000, two_vectors);
        both!("direction-pairs", 40000, direction_pairs);
        both!("planar", 30000, so2se2);
        both!("spatial", 15000, so3se3);
        s.monitor("derivatives", 20000, 20, derivatives);
        for (e, n) in [("quaternion algebra judged", 30000), ("quaternion log undoes exp", 20000), ("bad matrix refused", 10000), ("rotation judged", 30000), ("slerp judged against the geodesic", 30000), ("small rotation kept relatively accurate", 5000), ("gimbal lock read back", 500), ("euler judged", 30000), ("two vectors judged", 30000), ("nearly opposite directions", 1000), ("direction pairs judged", 10000), ("nearly parallel pair", 500), ("planar group judged", 10000), ("planar log undoes exp", 10000), ("spatial group judged", 5000), ("spatial log undoes exp", 5000), ("screw interpolation judged", 3000), ("exp derivative judged", 5000), ("log derivative judged", 3000)] {
            s.require(e, n);
        }
    })
}
