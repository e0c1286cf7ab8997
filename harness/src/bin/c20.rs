//! C20: sphere/capsule clearances and collision queries on a posed mechanism.
use multicalc::error::KinematicsError as E;
use multicalc::kinematics::*;
use multicalc::spatial::*;
use multicalc::Vector;
use vmon::robot::*;
use vmon::rot::*;
use vmon::*;

/// A shape: radius and, for a capsule, half length.
#[derive(Clone, Copy, Debug)]
struct Sh {
    r: f64,
    h: Option<f64>,
}
fn prim<T: Fl>(s: Sh) -> Primitive<T> {
    match s.h {
        None => Primitive::Sphere { radius: T::t(s.r) },
        Some(h) => Primitive::Capsule { radius: T::t(s.r), half_length: T::t(h) },
    }
}
fn clamp01(x: DD) -> DD {
    if x.f() < 0.0 { dd(0.0) } else if x.f() > 1.0 { dd(1.0) } else { x }
}
fn at(a: V, d: V, s: DD) -> V {
    vadd(a, vscale(d, s))
}
fn point_seg(p: V, a: V, d: V) -> DD {
    let l = vdot(d, d);
    let s = if l.f() > 0.0 { clamp01(vdot(vsub(p, a), d) / l) } else { dd(0.0) };
    vnorm(vsub(p, at(a, d, s)))
}
/// Distance between segments: the interior critical point and the four end projections.
fn seg_seg(a: V, d: V, b: V, g: V) -> DD {
    let mut best = point_seg(a, b, g);
    for x in [point_seg(vadd(a, d), b, g), point_seg(b, a, d), point_seg(vadd(b, g), a, d)] {
        best = best.min_(x);
    }
    let n = vcross(d, g);
    let nn = vdot(n, n);
    if nn.f() > 0.0 {
        let r = vsub(b, a);
        let s = vdot(vcross(r, g), n) / nn;
        let t = vdot(vcross(r, d), n) / nn;
        if s.f() >= 0.0 && s.f() <= 1.0 && t.f() >= 0.0 && t.f() <= 1.0 {
            best = best.min_(vnorm(vsub(at(a, d, s), at(b, g, t))));
        }
    }
    best
}
fn spine(s: Sh, p: &Pose) -> (V, V) {
    let h = dd(s.h.unwrap_or(0.0));
    let z = qrot(p.q, [dd(0.0), dd(0.0), dd(1.0)]);
    (at(p.t, z, -h), vscale(z, h + h))
}
/// Clearance and how far a correct evaluation in this precision may stray from it.
fn want(e: f64, a: Sh, p: &Pose, b: Sh, q: &Pose) -> (f64, f64) {
    let (s, d) = spine(a, p);
    let (t, g) = spine(b, q);
    let gap = seg_seg(s, d, t, g);
    let (la, lb) = (vnorm(d).f(), vnorm(g).f());
    let size = vnorm(p.t).f() + vnorm(q.t).f() + la + lb + a.r.abs() + b.r.abs();
    let mut tol = 40.0 * e * size;
    if la > 0.0 && lb > 0.0 {
        let sin = vnorm(vcross(d, g)).f() / la / lb;
        let cap = la.max(lb) * (sin + 4.0 * e);
        let delta = if sin * sin <= 8.0 * e { cap } else { cap.min(40.0 * e * size / sin) };
        tol += delta;
    }
    ((gap - dd(a.r) - dd(b.r)).f(), tol)
}
fn shape<T: Fl>(c: &mut Case, k: f64) -> Sh {
    let r = if c.p(0.15) { 0.0 } else { k * c.lu(-2.0, 0.3) };
    let h = match c.us(0, 5) {
        0 | 1 => None,
        2 => Some(if c.p(0.3) { 0.0 } else { k * c.lu(-5.0, -1.0) }),
        _ => Some(k * c.lu(-1.0, 0.5)),
    };
    Sh { r: T::t(r).d(), h: h.map(|v| T::t(v).d()) }
}
fn place<T: Fl>(c: &mut Case, q: [f64; 4], t: [f64; 3]) -> (SE3<T>, Pose) {
    let (q, t) = (rt::<4, T>(q), rt::<3, T>(t));
    c.note("pose", &(q, t));
    (SE3::from_parts(SO3::from_quaternion(Quaternion::from_array(q.map(T::t))), va(t)), Pose { q: qunit(q_of(q)), t: v_of(t) })
}
/// A second pose placed with respect to the first so that every branch is reached.
fn pair_pose<T: Fl>(c: &mut Case, k: f64, a: Sh, b: Sh) -> (SE3<T>, Pose, SE3<T>, Pose) {
    let off = if c.p(0.2) { k * c.lu(0.0, 3.0) } else { 0.0 };
    let t0 = c.arr::<3>(|c| (off + k) * c.f(-1.0, 1.0));
    let q0 = if c.p(0.3) { [1.0, 0.0, 0.0, 0.0] } else { gen_rot(c) };
    let (g, p) = place::<T>(c, q0, t0);
    // Direction of the second spine.
    let q1 = match c.us(0, 4) {
        0 => q0,
        1 => {
            // A little off parallel, or nearly opposite.
            let ax = c.unit3();
            let th = c.lu(-9.0, -0.5) + if c.p(0.3) { std::f64::consts::PI } else { 0.0 };
            let d = qexp(vscale(v_of(ax), dd(th)));
            qmul(d, qunit(q_of(q0))).map(|v| v.f())
        }
        2 => {
            let h = std::f64::consts::FRAC_PI_2;
            let ax = c.pick(&[[h, 0.0, 0.0], [0.0, h, 0.0]]);
            qmul(qunit(q_of(q0)), qexp(v_of(ax))).map(|v| v.f())
        }
        _ => gen_rot(c),
    };
    // Where: around the first shape's size, on its axis, at its ends, coincident, far.
    let ha = a.h.unwrap_or(0.0);
    let hb = b.h.unwrap_or(0.0);
    let z = qrot(p.q, [dd(0.0), dd(0.0), dd(1.0)]).map(|v| v.f());
    let s = k * (0.2 + ha / k + hb / k);
    let t1 = match c.us(0, 6) {
        0 => t0,
        1 => { let m = c.f(-2.0, 2.0) * (ha + hb); core::array::from_fn(|i| t0[i] + z[i] * m) }
        2 => { let (m, u) = (c.sign() * ha, c.unit3()); let w = a.r + b.r; core::array::from_fn(|i| t0[i] + z[i] * m + u[i] * w) }
        3 => { let u = c.unit3(); let m = 100.0 * s; core::array::from_fn(|i| t0[i] + u[i] * m) }
        _ => { let u = c.arr::<3>(|c| c.f(-1.0, 1.0)); core::array::from_fn(|i| t0[i] + u[i] * 2.0 * s) }
    };
    let (gg, pp) = place::<T>(c, q1, t1);
    (g, p, gg, pp)
}
fn pairs<T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let k = if c.p(0.5) { 1.0 } else { c.lu(-4.0, 3.0) };
    let (a, b) = (shape::<T>(c, k), shape::<T>(c, k));
    c.note("shapes", &(a, b));
    let (ga, pa, gb, pb) = pair_pose::<T>(c, k, a, b);
    let (w, tol) = want(e, a, &pa, b, &pb);
    let x = prim::<T>(a).distance_to(ga, prim(b), gb).d();
    c.near("distance", x, w, tol);
    let y = prim::<T>(b).distance_to(gb, prim(a), ga).d();
    c.near("symmetric", y, w, tol);
    let (r, s) = (T::t(a.r), T::t(b.r));
    let free = match (a.h, b.h) {
        (None, None) => sphere_sphere_distance(ga, r, gb, s),
        (Some(h), Some(g)) => capsule_capsule_distance(ga, r, T::t(h), gb, s, T::t(g)),
        (None, Some(g)) => sphere_capsule_distance(ga, r, gb, s, T::t(g)),
        (Some(h), None) => sphere_capsule_distance(gb, s, ga, r, T::t(h)),
    };
    c.near("free-function", free.d(), w, tol);
    c.hit("pair distance judged");
    if a.h.is_some() && b.h.is_some() {
        c.hit("capsule pair judged");
    }
    if w < 0.0 {
        c.hit("overlap judged");
    }
}
fn query<T: Fl>(c: &mut Case) {
    const MS: usize = 5;
    const ME: usize = 3;
    const MX: usize = 4;
    let e = T::EPS;
    let t = gen_tree::<T>(c, 6, 0.2);
    let tree = build::<T>(c, &t);
    let q = gen_config::<T>(c, &t);
    let st = c.get("pose", tree.forward_kinematics(&va::<MC, T>(q)));
    let fk = t.fk(&ddv(&q));
    let rot: f64 = q.iter().map(|v| if v.is_finite() { v.abs() } else { 0.0 }).sum();
    let mut qu = CollisionQuery::<MS, ME, MX, T>::new();
    let (mut own, mut env, mut ex): (Vec<(usize, Sh, Pose)>, Vec<(Sh, Pose)>, Vec<(usize, usize)>) = (vec![], vec![], vec![]);
    for i in 0..c.us(0, MS) {
        let f = c.us(0, t.0.len() - 1);
        let s = shape::<T>(c, 0.5);
        let (r, o) = (gen_rot(c), c.arr::<3>(|c| c.f(-0.5, 0.5)));
        let (g, p) = place::<T>(c, r, o);
        c.note("own", &(f, s));
        c.eq("index", qu.push_self_primitive(f, prim(s), g), Ok(i));
        own.push((f, s, p));
    }
    for i in 0..c.us(0, ME) {
        let s = shape::<T>(c, 0.7);
        let (r, o) = (gen_rot(c), c.arr::<3>(|c| c.f(-3.0, 3.0)));
        let (g, p) = place::<T>(c, r, o);
        c.note("obstacle", &s);
        c.eq("index", qu.push_environment_primitive(prim(s), g), Ok(i));
        env.push((s, p));
    }
    for _ in 0..c.us(0, MX) {
        let p = (c.us(0, MS), c.us(0, MS));
        c.note("excluded", &p);
        c.eq("excluded", qu.exclude_pair(p.0, p.1), Ok(()));
        ex.push(p);
    }
    c.eq("counts", (qu.self_primitive_count(), qu.environment_primitive_count()), (own.len(), env.len()));
    // Full lists are refused and nothing changes.
    if own.len() == MS {
        c.eq("own-full", qu.push_self_primitive(0, Primitive::Sphere { radius: T::t(100.0) }, SE3::identity()), Err(E::CollisionCapacityExceeded));
    }
    if env.len() == ME {
        c.eq("environment-full", qu.push_environment_primitive(Primitive::Sphere { radius: T::t(100.0) }, SE3::identity()), Err(E::CollisionCapacityExceeded));
    }
    if ex.len() == MX {
        c.eq("excluded-full", qu.exclude_pair(0, 1), Err(E::CollisionCapacityExceeded));
    }
    // Every pair, redone.
    let poses: Vec<Pose> = own.iter().map(|(f, _, p)| fk[*f].mul(p)).collect();
    let mut all: Vec<((CollisionSource, CollisionSource), f64, f64)> = vec![];
    let slack = 60.0 * e * (1.0 + rot) * (1.0 + t.reach(&q)) * t.0.len() as f64;
    for i in 0..own.len() {
        for j in i + 1..own.len() {
            if !ex.iter().any(|p| *p == (i, j) || *p == (j, i)) {
                let (w, tol) = want(e, own[i].1, &poses[i], own[j].1, &poses[j]);
                all.push(((CollisionSource::SelfPrimitive(i), CollisionSource::SelfPrimitive(j)), w, tol + slack));
            }
        }
        for j in 0..env.len() {
            let (w, tol) = want(e, own[i].1, &poses[i], env[j].0, &env[j].1);
            all.push(((CollisionSource::SelfPrimitive(i), CollisionSource::Environment(j)), w, tol + slack));
        }
    }
    let got = c.get("check", qu.check(&st));
    let m = got.minimum_clearance.d();
    match got.closest_pair {
        None => {
            c.eq("no pair to check", (all.len(), m), (0, 0.0));
            c.ok(got.is_clear(T::MAX), "vacuous", || "not clear".into());
            c.hit("empty query judged");
        }
        Some(p) => {
            let tol = all.iter().fold(0.0f64, |s, x| s.max(x.2));
            let best = all.iter().fold(f64::INFINITY, |s, x| s.min(x.1));
            c.near("minimum", m, best, tol);
            let own_pair = all.iter().find(|x| x.0 == p);
            match own_pair {
                None => c.fail("pair", format!("{p:?} is not a pair to be checked")),
                Some(x) => c.near("pair-clearance", m, x.1, x.2),
            }
            c.ok(got.is_clear(got.minimum_clearance), "clear-at", || format!("{got:?}"));
            let d = T::t(c.lu(-6.0, 0.0) * (1.0 + m.abs()));
            c.ok(got.is_clear(got.minimum_clearance - d) && !got.is_clear(got.minimum_clearance + d), "clear-threshold", || format!("{got:?} {d:?}"));
            c.hit("query judged");
            c.hits("pairs checked by the reference", all.len() as u64);
        }
    }
    // A shape on a frame this mechanism lacks.
    if own.len() < MS {
        let f = c.pick(&[t.0.len(), t.0.len() + 1, usize::MAX]);
        let _ = qu.push_self_primitive(f, Primitive::Sphere { radius: T::ONE }, SE3::identity());
        c.eq("missing-frame", qu.check(&st).err(), Some(E::ToolIndexOutOfRange));
        c.hit("missing frame refused");
    }
    let _ = Vector::<1, T>::zeros();
}
fn main() {
    vmon::run("C20", |s| {
        s.rule("A case counts when a clearance, or a whole query's minimum and closest pair, was compared with segment distances worked out in double-double; distinct = distinct inputs.");
        s.assume("Tolerance is rounding at the size of the scene plus the unavoidable loss when two spines are nearly parallel.");
        macro_rules! both {
            ($n:literal, $q:expr, $f:ident) => {
                s.monitor($n, $q, 20, |c| if c.p(0.35) { $f::<f32>(c) } else { $f::<f64>(c) })
            };
        }
        both!("pairs", 100000, pairs);
        both!("query", 20000, query);
        for (e, n) in [("pair distance judged", 50000), ("capsule pair judged", 20000), ("overlap judged", 5000), ("query judged", 5000), ("empty query judged", 500), ("missing frame refused", 5000)] {
            s.require(e, n);
        }
    })
}
