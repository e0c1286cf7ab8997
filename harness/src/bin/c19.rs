//! C19: planar mobile bases — differential drive, odometry, unicycle.
use multicalc::error::KinematicsError as E;

use multicalc::kinematics::*;
use multicalc::spatial::*;
use multicalc::{Dual, Rk4, Vector, VectorFn};
use vmon::robot::*;
use vmon::*;

/// Planar pose in double-double.
type P2 = [DD; 3];
/// Exact end of a constant-twist arc.
fn arc(p: P2, s: DD, w: DD) -> P2 {
    let (sn, cs) = p[2].sincos();
    let (a, b) = if w.f().abs() < 1e-3 {
        // sin w / w and (1 - cos w) / w as series, exact to the working precision.
        let w2 = w * w;
        let (mut a, mut b, mut t) = (dd(1.0), dd(0.5), dd(1.0));
        for k in 1..8 {
            let k = k as f64;
            t = -t * w2;
            let f = |n: f64| (1..=n as i64).fold(dd(1.0), |m, i| m * dd(i as f64));
            a = a + t / f(2.0 * k + 1.0);
            b = b + t / f(2.0 * k + 2.0);
        }
        (a, b * w)
    } else {
        let (s_, c_) = w.sincos();
        (s_ / w, (dd(1.0) - c_) / w)
    };
    [p[0] + s * (cs * a - sn * b), p[1] + s * (sn * a + cs * b), p[2] + w]
}
fn wrapdiff(a: f64, b: DD) -> f64 {
    let (s, c) = (dd(a) - b).sincos();
    DD::atan2_(s, c).f().abs()
}
fn se2<T: Fl>(p: [f64; 3]) -> SE2<T> {
    SE2::from_parts(SO2::exp(T::t(p[2])), va::<2, T>([p[0], p[1]]))
}
fn out<T: Fl>(g: SE2<T>) -> [f64; 3] {
    let t = g.translation();
    [t[0].d(), t[1].d(), g.rotation().log().d()]
}
fn judge(c: &mut Case, tag: &str, got: [f64; 3], want: P2, tp: f64, ta: f64) {
    for i in 0..2 {
        c.ok((dd(got[i]) - want[i]).f().abs() <= tp, tag, || format!("position {i}: got {got:?}, want {:?}, tolerance {tp:e}", want.map(|v| v.f())));
    }
    c.ok(wrapdiff(got[2], want[2]) <= ta, tag, || format!("heading: got {got:?}, want {:?}, tolerance {ta:e}", want.map(|v| v.f())));
}
fn start<T: Fl>(c: &mut Case) -> [f64; 3] {
    let k = if c.p(0.2) { c.lu(-3.0, 4.0) } else { 5.0 };
    let th = match c.us(0, 4) {
        0 => 0.0,
        1 => c.sign() * std::f64::consts::PI,
        2 => c.f(-40.0, 40.0),
        _ => c.f(-3.2, 3.2),
    };
    rt::<3, T>([c.f(-k, k), c.f(-k, k), th])
}
/// A heading change: zero, tiny, straddling the series guard, ordinary, several turns.
fn turn<T: Fl>(c: &mut Case) -> f64 {
    T::t(match c.us(0, 6) {
        0 => 0.0,
        1 => c.ls(-12.0, -2.0),
        2 => c.ls(-3.5, -0.5),
        3 => c.sign() * std::f64::consts::PI * c.pick(&[0.5, 1.0, 2.0]),
        4 => c.f(-20.0, 20.0),
        _ => c.f(-3.0, 3.0),
    })
    .d()
}
fn geometry<T: Fl>(c: &mut Case) -> (DifferentialDrive<T>, f64, f64) {
    let (r, b) = (T::t(c.lu(-3.0, 1.0)).d(), T::t(c.lu(-2.0, 1.0)).d());
    c.note("radius, track", &(r, b));
    let d = DifferentialDrive::new(T::t(r), T::t(b));
    (c.get("geometry accepted", d), r, b)
}
fn drive<T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let (d, r, b) = geometry::<T>(c);
    c.eq("kept", (d.wheel_radius().d(), d.wheelbase().d()), (r, b));
    let k = if c.p(0.3) { c.lu(-5.0, 5.0) } else { 3.0 };
    let (l, q) = match c.us(0, 4) {
        0 => { let v = c.f(-k, k); (v, v) }
        1 => { let v = c.f(-k, k); (v, -v) }
        2 => (0.0, c.f(-k, k)),
        _ => (c.f(-k, k), c.f(-k, k)),
    };
    let [l, q] = rt::<2, T>([l, q]);
    c.note("wheels", &(l, q));
    let lin = dd(r) * (dd(q) + dd(l)) * dd(0.5);
    let ang = dd(r) * (dd(q) - dd(l)) / dd(b);
    let m = 6.0 * e * r * (l.abs() + q.abs());
    let tw = d.forward(WheelVelocities::new(T::t(l), T::t(q)));
    let ar = d.forward_arc(WheelRotations::new(T::t(l), T::t(q)));
    for (tag, x) in [("forward", (tw.linear(), tw.angular())), ("forward-arc", (ar.linear(), ar.angular()))] {
        c.near(tag, x.0.d(), lin.f(), m);
        c.near(tag, x.1.d(), ang.f(), m / b);
    }
    // And back, and the inverse of arbitrary motion.
    let back = d.inverse(tw);
    let arcb = d.inverse_arc(ar);
    for (tag, x) in [("round-trip", (back.left(), back.right())), ("round-trip-arc", (arcb.left(), arcb.right()))] {
        c.near(tag, x.0.d(), l, 24.0 * e * (l.abs() + q.abs()));
        c.near(tag, x.1.d(), q, 24.0 * e * (l.abs() + q.abs()));
    }
    let [v, w] = rt::<2, T>([c.f(-k, k), c.f(-k, k)]);
    c.note("body", &(v, w));
    let hs = dd(w) * dd(b) * dd(0.5);
    let (wl, wr) = ((dd(v) - hs) / dd(r), (dd(v) + hs) / dd(r));
    let m = 6.0 * e * (v.abs() + hs.f().abs()) / r;
    let x = d.inverse(BodyTwist::new(T::t(v), T::t(w)));
    let y = d.inverse_arc(BodyArc::new(T::t(v), T::t(w)));
    for (tag, x) in [("inverse", (x.left(), x.right())), ("inverse-arc", (y.left(), y.right()))] {
        c.near(tag, x.0.d(), wl.f(), m);
        c.near(tag, x.1.d(), wr.f(), m);
    }
    // Travel.
    let (tl, tr) = d.wheel_travel(WheelRotations::new(T::t(l), T::t(q)));
    c.near("travel", tl.d(), l * r, 4.0 * e * (l * r).abs());
    c.near("travel", tr.d(), q * r, 4.0 * e * (q * r).abs());
    let z = d.wheel_rotations_from_travel(T::t(l), T::t(q));
    c.near("rotations", z.left().d(), l / r, 4.0 * e * (l / r).abs());
    c.near("rotations", z.right().d(), q / r, 4.0 * e * (q / r).abs());
    // Twist plumbing.
    let dt = T::t(c.lu(-4.0, 1.0)).d();
    let bt = BodyTwist::new(T::t(v), T::t(w));
    let h = bt.integrate_over(T::t(dt));
    c.near("held", h.linear().d(), v * dt, 4.0 * e * (v * dt).abs());
    c.near("held", h.angular().d(), w * dt, 4.0 * e * (w * dt).abs());
    let lat = T::t(c.f(-3.0, 3.0)).d();
    let full = va::<3, T>([v, lat, w]);
    c.eq("tangent", bt.to_tangent().into_array().map(|v| v.d()), [v, 0.0, w]);
    let p = BodyTwist::project_tangent(full);
    c.eq("projected", (p.linear().d(), p.angular().d(), BodyTwist::tangent_slip(full).d()), (v, w, lat));
    c.eq("zeros", (BodyTwist::<T>::zeros() == BodyTwist::new(T::ZERO, T::ZERO), BodyArc::<T>::zeros() == BodyArc::new(T::ZERO, T::ZERO), WheelVelocities::<T>::zeros() == WheelVelocities::new(T::ZERO, T::ZERO), WheelRotations::<T>::zeros() == WheelRotations::new(T::ZERO, T::ZERO)), (true, true, true, true));
    c.hit("wheel map judged");
}
fn refused<T: Fl>(c: &mut Case) {
    let bad = c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, -1e-12, -1.0]);
    let good = c.lu(-3.0, 2.0);
    let other = c.pick(&[good, f64::NAN, -1.0, 0.0]);
    let (r, b) = if c.p(0.5) { (bad, other) } else { (other, bad) };
    c.note("radius, track", &(r, b));
    let want = if !r.is_finite() || !b.is_finite() { E::NonFinite } else { E::NonPositiveParameter };
    c.eq("refused", DifferentialDrive::new(T::t(r), T::t(b)).err(), Some(want));
    c.hit("bad geometry refused");
}
fn odom<T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let p = start::<T>(c);
    let w = turn::<T>(c);
    let k = if c.p(0.2) { c.lu(-4.0, 3.0) } else { 2.0 };
    let s = T::t(c.f(-k, k)).d();
    c.note("pose, arc", &(p, s, w));
    let want = arc(p.map(dd), dd(s), dd(w));
    let tp = 24.0 * e * (p[0].abs() + p[1].abs() + s.abs() * (1.0 + w.abs())) + 4.0 * e * s.abs() * p[2].abs();
    let ta = 16.0 * e * (1.0 + p[2].abs() + w.abs());
    let g = integrate(se2::<T>(p), BodyArc::new(T::t(s), T::t(w)));
    judge(c, "integrate", out(g), want, tp, ta);
    let u = g.rotation().to_matrix();
    c.near("rotation-unit", (u[(0, 0)] * u[(0, 0)] + u[(1, 0)] * u[(1, 0)]).d(), 1.0, 16.0 * e);
    // The process model says the same, heading wrapped.
    let st = [p[0], p[1], p[2], s, w];
    let m = OdometryStep.eval(&st.map(T::t));
    judge(c, "process-model", m.map(|v| v.d()), want, tp, ta);
    c.ok(m[2].d() > -T::t(std::f64::consts::PI).d() - 2.0 * e && m[2].d() <= T::t(std::f64::consts::PI).d() + 2.0 * e, "wrapped", || format!("{:?}", m[2]));
    // Its derivative, column by column.
    let h = dd(1e-9);
    for j in 0..5 {
        let at = |d: DD| {
            let mut z = st.map(dd);
            z[j] = z[j] + d;
            arc([z[0], z[1], z[2]], z[3], z[4])
        };
        let (a, b) = (at(h), at(-h));
        let x: [Dual<T>; 5] = core::array::from_fn(|i| Dual::new(T::t(st[i]), if i == j { T::ONE } else { T::ZERO }));
        let y = OdometryStep.eval(&x);
        for i in 0..3 {
            let want = ((a[i] - b[i]) / (h + h)).f();
            let tol = 1e-14 + 200.0 * e * (1.0 + s.abs() * (1.0 + p[2].abs() + w.abs()));
            c.near("jacobian", y[i].deriv.d(), want, tol);
        }
    }
    // Splitting the tick changes nothing: the arc is exact at any step.
    let n = c.us(2, 8);
    let mut q = se2::<T>(p);
    for _ in 0..n {
        q = integrate(q, BodyArc::new(T::t(s / n as f64), T::t(w / n as f64)));
    }
    judge(c, "split-tick", out(q), want, 3.0 * n as f64 * tp, 3.0 * n as f64 * ta);
    c.hit("arc judged");
    // A drive takes its rotations to the same arc.
    let (d, r, b) = geometry::<T>(c);
    let [l, q] = rt::<2, T>([c.f(-3.0, 3.0), c.f(-3.0, 3.0)]);
    c.note("wheels", &(l, q));
    let (ds, dw) = (dd(r) * (dd(q) + dd(l)) * dd(0.5), dd(r) * (dd(q) - dd(l)) / dd(b));
    let want = arc(p.map(dd), ds, dw);
    let mag = r * (l.abs() + q.abs());
    let tp = 30.0 * e * (p[0].abs() + p[1].abs() + mag * (1.0 + mag / b)) + 4.0 * e * mag * p[2].abs();
    judge(c, "odometry-step", out(d.odometry_step(se2::<T>(p), WheelRotations::new(T::t(l), T::t(q)))), want, tp, 16.0 * e * (1.0 + p[2].abs() + mag / b));
}
fn unicycle<T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let p = start::<T>(c);
    let [v, w] = rt::<2, T>([c.f(-3.0, 3.0), if c.p(0.2) { 0.0 } else { c.f(-4.0, 4.0) }]);
    c.note("pose, twist", &(p, v, w));
    let u = Unicycle::new(BodyTwist::new(T::t(v), T::t(w)));
    let y = va::<3, T>(p);
    let (s, k) = dd(p[2]).sincos();
    let d = u.derivative(&y).into_array().map(|v| v.d());
    let tol = 8.0 * e * v.abs();
    c.near("dx", d[0], v * k.f(), tol);
    c.near("dy", d[1], v * s.f(), tol);
    c.same_bits("dtheta", d[2], w);
    let t = T::t(c.real());
    let f = u.field()(t, &y).into_array().map(|v| v.d());
    c.eq("field", f, d);
    // Integrated, it follows the arc the odometry takes in one go.
    let n = c.us(4, 24);
    let dt = c.lu(-2.0, 0.3);
    let h = T::t(dt / n as f64);
    let total = h.d() * n as f64;
    let end = Rk4::integrate(&u.field(), T::ZERO, &y, h, n, |_, _| {}).into_array().map(|v| v.d());
    let want = arc(p.map(dd), dd(v) * dd(total), dd(w) * dd(total));
    let simpson = (v * total).abs() * (w * h.d()).abs().powi(4) / 1000.0;
    let tp = simpson + 8.0 * n as f64 * e * (p[0].abs() + p[1].abs() + (v * total).abs() * (1.0 + p[2].abs() + (w * total).abs()));
    judge(c, "flow", end, want, tp, 8.0 * n as f64 * e * (p[2].abs() + (w * total).abs()) + 1e-300);
    let g = integrate(se2::<T>(p), BodyTwist::new(T::t(v), T::t(w)).integrate_over(T::t(total)));
    judge(c, "same-as-odometry", out(g), end.map(dd), 2.0 * tp + 40.0 * e * (v * total).abs() * (1.0 + p[2].abs()), 10.0 * n as f64 * e * (1.0 + p[2].abs() + (w * total).abs()));
    c.hit("unicycle judged");
}
fn main() {
    vmon::run("C19", |s| {
        s.rule("A case counts when a wheel map, an odometry arc, its derivative or a unicycle flow was compared with the same quantity in double-double; distinct = distinct inputs.");
        macro_rules! both {
            ($n:literal, $q:expr, $f:ident) => {
                s.monitor($n, $q, 20, |c| if c.p(0.35) { $f::<f32>(c) } else { $f::<f64>(c) })
            };
        }
        both!("drive", 60000, drive);
        both!("refused", 10000, refused);
        both!("odometry", 40000, odom);
        both!("unicycle", 40000, unicycle);
        for (e, n) in [("wheel map judged", 30000), ("bad geometry refused", 5000), ("arc judged", 20000), ("unicycle judged", 20000)] {
            s.require(e, n);
        }
    })
}
