//! C29: the two light attitude filters.
use multicalc::error::EstimationError as E;
use multicalc::estimation::{MadgwickFilter, MahonyFilter};
use multicalc::spatial::{Quaternion, SO3};
use multicalc::{Numeric, Vector};
use vmon::rot::*;
use vmon::*;

type V3<T> = Vector<3, T>;
fn vt<T: Fl>(a: [f64; 3]) -> V3<T> {
    vecn(&a)
}
fn vd<T: Fl>(v: V3<T>) -> V {
    [dd(v[0].d()), dd(v[1].d()), dd(v[2].d())]
}
fn qd<T: Fl>(r: SO3<T>) -> Q {
    r.quaternion().as_array().map(|x| dd(x.d()))
}
fn so<T: Fl>(q: [f64; 4]) -> SO3<T> {
    SO3::from_quaternion(Quaternion::from_array(q.map(T::t)))
}

/// Both filters behind one face.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Any<T: Fl> {
    Mad(MadgwickFilter<T>),
    Mah(MahonyFilter<T>),
}
macro_rules! on {
    ($s:expr, $f:ident => $e:expr) => {
        match $s {
            Any::Mad($f) => $e,
            Any::Mah($f) => $e,
        }
    };
}
impl<T: Fl> Any<T> {
    fn q(&self) -> SO3<T> {
        on!(self, f => f.orientation())
    }
    fn bias(&self) -> V3<T> {
        on!(self, f => f.gyroscope_bias())
    }
    fn step(&mut self, g: V3<T>, a: V3<T>, m: Option<V3<T>>, dt: T) -> Result<(), E> {
        on!(self, f => f.step(g, a, m, dt))
    }
    fn step_bare(&mut self, g: V3<T>, a: V3<T>, dt: T) -> Result<(), E> {
        on!(self, f => f.step_without_magnetometer(g, a, dt))
    }
    fn place(&mut self, q: SO3<T>) {
        on!(self, f => f.set_orientation(q))
    }
    fn load(&mut self, b: V3<T>) {
        on!(self, f => f.set_gyroscope_bias(b))
    }
    fn aim(self, up: V3<T>, north: V3<T>) -> Self {
        match self {
            Any::Mad(f) => Any::Mad(f.with_reference_directions(up, north)),
            Any::Mah(f) => Any::Mah(f.with_reference_directions(up, north)),
        }
    }
    /// Pull and offset gains.
    fn gains(self, k: T, b: T) -> Self {
        match self {
            Any::Mad(f) => Any::Mad(f.with_correction_gain(k).with_bias_gain(b)),
            Any::Mah(f) => Any::Mah(f.with_proportional_gain(k).with_integral_gain(b)),
        }
    }
    fn mad(&self) -> bool {
        matches!(self, Any::Mad(_))
    }
}
fn gen_filter<T: Fl>(c: &mut Case, q: SO3<T>) -> (Any<T>, f64, f64) {
    let mad = c.p(0.5);
    let f = if mad { Any::Mad(MadgwickFilter::new(q)) } else { Any::Mah(MahonyFilter::new(q)) };
    if c.p(0.2) {
        return if mad { (f, T::t(0.1).d(), T::t(0.01).d()) } else { (f, 1.0, T::t(0.1).d()) };
    }
    let (k, b) = (T::t(c.lu(-2.0, 1.0)), T::t(if c.p(0.3) { 0.0 } else { c.lu(-3.0, 0.0) }));
    (f.gains(k, b), k.d(), b.d())
}
fn unit(v: V) -> Option<V> {
    let n = vnorm(v);
    (n.f() > 0.0).then(|| vscale(v, dd(1.0) / n))
}

fn tick<T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let q0: SO3<T> = so(gen_rot(c));
    let (mut f, gain, bgain) = gen_filter::<T>(c, q0);
    c.ok(f.q() == q0 && (0..3).all(|i| f.bias()[i].d() == 0.0), "starts where it was told", String::new);
    let (mut up, mut north) = (v_of([0.0, 0.0, 1.0]), v_of([1.0, 0.0, 0.0]));
    if c.p(0.5) {
        // A pair that is no pair changes nothing.
        let bad = f.aim(vt([0.0; 3]), vt([1.0, 0.0, 0.0]));
        let u = c.unit3();
        let flat = f.aim(vt([0.0, 2.0, 0.0]), vt([0.0, c.f(-3.0, 3.0), 0.0]));
        let nan = f.aim(vt([f64::NAN, 0.0, 1.0]), vt([1.0, 0.0, 0.0]));
        let (ku, kn) = (c.lu(-3.0, 3.0), c.sign() * c.lu(-3.0, 3.0));
        let along = f.aim(vt(u.map(|x| x * ku)), vt(u.map(|x| x * kn)));
        c.note("one direction twice", &(u, ku, kn));
        c.ok(same(&bad, &f) && same(&flat, &f) && same(&nan, &f) && same(&along, &f), "unusable directions change nothing", String::new);
        let (su, sn) = (c.lu(-3.0, 3.0), c.lu(-3.0, 3.0));
        let n = c.unit3();
        let (tu, tn): (V3<T>, V3<T>) = (vt(u.map(|x| x * su)), vt(n.map(|x| x * sn)));
        let w = unit(vd(tu)).unwrap();
        let lev = vsub(vd(tn), vscale(w, vdot(vd(tn), w)));
        if vnorm(lev).f() > 0.2 * sn {
            f = f.aim(tu, tn);
            up = w;
            north = unit(lev).unwrap();
            c.hit("directions set");
        }
    }
    let mut slip_ref = 8.0 * e;
    if up[2].f() == 1.0 {
        slip_ref = 0.0;
    }
    for _ in 0..c.us(1, 10) {
        let (old, q) = (f, qunit(qd(f.q())));
        let b = vd(f.bias());
        match c.us(0, 9) {
            0 => {
                let n: SO3<T> = so(gen_rot(c));
                f.place(n);
                c.ok(f.q() == n && f.bias() == old.bias(), "placed", String::new);
                let b = vt(c.arr::<3>(|c| c.f(-0.5, 0.5)));
                f.load(b);
                c.ok(f.q() == n && f.bias() == b, "offset restored", String::new);
                continue;
            }
            1 => {
                let bad = T::t(c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]));
                let mut v: [V3<T>; 3] = [vt(c.unit3()), vt(c.unit3()), vt(c.unit3())];
                let mut dt = T::t(0.01);
                let k = c.us(0, 3);
                if k < 3 {
                    v[k][c.us(0, 2)] = bad;
                } else {
                    dt = bad;
                }
                c.eq("a reading that is no number", f.step(v[0], v[1], Some(v[2]), dt).err(), Some(E::NonFinite));
                if k != 2 {
                    c.eq("a reading that is no number", [f.step(v[0], v[1], None, dt).err(), f.step_bare(v[0], v[1], dt).err()], [Some(E::NonFinite); 2]);
                }
                // Too fast to be held.
                let fast = T::t(if T::F32 { 3e38 } else { 1e308 });
                let r = f.step(Vector::new([fast; 3]), v[1], None, fast);
                if r.is_err() {
                    c.eq("too fast to be held", r.err(), Some(E::NonFinite));
                    c.ok(same(&f, &old), "a refusal changes nothing", String::new);
                } else {
                    f = old;
                }
                c.ok(same(&f, &old), "a refusal changes nothing", String::new);
                c.hit("refusals");
                continue;
            }
            _ => {}
        }
        let dt = T::t(if c.p(0.05) { 0.0 } else { c.lu(-4.0, -0.5) });
        let spin = c.lu(-2.0, 1.3);
        let g: V3<T> = vt(c.arr::<3>(|c| c.f(-spin, spin)));
        let (sa, sm) = if c.p(0.3) { (c.lu(-12.0, 12.0), c.lu(-12.0, 12.0)) } else { (9.81, 50.0) };
        let a: V3<T> = match c.us(0, 9) {
            0 => vt([0.0; 3]),
            1 => vt(vf(qrot(qconj(q), vscale(up, dd(sa))))),
            _ => vt(c.unit3().map(|x| x * sa)),
        };
        let m: Option<V3<T>> = match c.us(0, 9) {
            0..=2 => None,
            3 => Some(vt([0.0; 3])),
            4 => Some(vt(vf(qrot(qconj(q), vscale(up, dd(sm)))))),
            _ => Some(vt(c.unit3().map(|x| x * sm))),
        };
        let r = if m.is_none() && c.p(0.5) { f.step_bare(g, a, dt) } else { f.step(g, a, m, dt) };
        c.get("step", r);
        // What each sensor says is off, in body axes.
        let mut off = v_of([0.0; 3]);
        let mut slip = 0.0;
        let body = |v: V| qrot(qconj(q), v);
        if let Some(u) = unit(vd(a)) {
            off = vadd(off, vcross(u, body(up)));
            slip += 16.0 * e + slip_ref;
        }
        if let Some(u) = m.and_then(|m| unit(vd(m))) {
            let w = qrot(q, u);
            let v = vdot(w, up);
            let flat = vnorm(vsub(w, vscale(up, v)));
            let r = vadd(vscale(north, flat), vscale(up, v));
            off = vadd(off, vcross(u, body(r)));
            slip += (32.0 * e + 4.0 * slip_ref) * (1.0 + 1.0 / flat.f().max(e.sqrt()));
            c.hit("headings pulled");
        }
        let mut dir = off;
        if f.mad() {
            let n = vnorm(off).f();
            dir = unit(off).unwrap_or(off);
            if n == 0.0 && slip == 0.0 {
                slip = 0.0;
            } else if n < 8.0 * slip {
                // Too near agreement to say which way: only how far.
                slip = 2.0;
            } else {
                slip = 4.0 * slip / n + 8.0 * e;
            }
        }
        let d = dt.d();
        let nb = vsub(b, vscale(dir, dd(bgain) * dd(d)));
        let got = vd(f.bias());
        let lb = vnorm(b).f() + bgain * d * vnorm(dir).f();
        for i in 0..3 {
            c.near("offset learned", got[i].f(), nb[i].f(), slip * bgain * d + 8.0 * e * lb + 1e-300);
        }
        let rate = vadd(vsub(vd(g), nb), vscale(dir, dd(gain)));
        let to = qmul(q, qexp(vscale(rate, dd(d))));
        let rt = vnorm(vd(g)).f() + lb + gain * vnorm(dir).f();
        let ang = qangle(qunit(qd(f.q())), to);
        c.near("turned", ang, 0.0, slip * (gain + bgain * d) * d + 16.0 * e * (1.0 + rt * d));
        c.near("stays a rotation", qnorm(qd(f.q())).f(), 1.0, 4.0 * e);
        if f.mad() {
            // However wild the readings, no faster than told.
            let moved = vnorm(vsub(got, b)).f();
            c.ok(moved <= bgain * d * (1.0 + 16.0 * e) + 4.0 * e * lb, "the offset walks no faster than told", || format!("{moved}"));
            let free = qmul(q, qexp(vscale(vsub(vd(g), got), dd(d))));
            let pull = qangle(qunit(qd(f.q())), free);
            c.ok(pull <= gain * d * (1.0 + 16.0 * e) + 32.0 * e * (1.0 + rt * d), "the facing walks no faster than told", || format!("{pull} {}", gain * d));
        }
        // How hard the body is pushed says nothing, only which way.
        let k = T::t(2.0f64.powi(c.int(-8, 8) as i32));
        let mut twin = old;
        let r = twin.step(g, a * k, m.map(|m| m * k), dt);
        c.get("step", r);
        c.near("only directions count", qangle(qunit(qd(twin.q())), qunit(qd(f.q()))), 0.0, 2.0 * slip.min(1.0) * (gain + bgain * d) * d + 32.0 * e * (1.0 + rt * d));
        c.hit("ticks");
    }
}
fn same<T: Fl>(a: &Any<T>, b: &Any<T>) -> bool {
    // Gains may be anything; compare what can be seen and the whole, where comparable.
    a == b && a.q() == b.q() && a.bias() == b.bias()
}

/// Left out by a lean, how the filter comes back.
fn lean(c: &mut Case) {
    let ax = {
        let t = c.f(0.0, core::f64::consts::TAU);
        [t.cos(), t.sin(), 0.0]
    };
    let th0 = c.f(0.05, 3.0);
    let truth = q_of(gen_rot(c));
    // The estimate leans about a level axis.
    let est = qmul(qexp(vscale(v_of(ax), dd(th0))), truth);
    let a = vf(qrot(qconj(truth), v_of([0.0, 0.0, 9.81])));
    let dt = c.lu(-3.5, -2.0);
    let k = c.lu(-1.0, 0.7);
    let mad = c.p(0.5);
    let q: SO3<f64> = so(est.map(|x| x.f()));
    let mut f = if mad { Any::Mad(MadgwickFilter::new(q)) } else { Any::Mah(MahonyFilter::new(q)) };
    f = f.gains(k, 0.0);
    let n = c.us(1, 600);
    let z = Vector::zeros();
    for i in 0..n {
        let r = f.step_bare(z, vt(a), dt);
        c.get("step", r);
        let up = qrot(qunit(qd(f.q())), unit(v_of(a)).unwrap());
        let th = vnorm([up[0], up[1], dd(0.0)]).f().atan2(up[2].f());
        let t = (i + 1) as f64 * dt;
        if mad {
            let want = (th0 - k * t).max(0.0);
            c.near("walks back at the told rate", th, want, if want > k * dt { 1e-9 * (1.0 + th0) } else { 1.001 * k * dt });
        } else {
            // Pulled by the sine of the lean: the half-angle tangent decays.
            let want = 2.0 * ((th0 / 2.0).tan() * (-k * t).exp()).atan();
            c.near("pulled back by how far it is out", th, want, 2.0 * k * dt * (th0 / 2.0).tan().min(3.0) + 1e-9);
        }
    }
    // The lean comes out about the axis it went in by: the heading is not stirred.
    let rel = qmul(qunit(qd(f.q())), qconj(truth));
    c.near("heading untouched", rel[3].f(), 0.0, 1e-9);
    let side = rel[1].f() * ax[1] - rel[2].f() * ax[0];
    c.near("straight back", side, 0.0, 1e-9);
    c.ok((0..3).all(|i| f.bias()[i] == 0.0), "no offset when told to learn none", String::new);
    c.hit("leans recovered");
}

/// A still body with a crooked start and an offset sensor: both are found, whatever the field's dip.
fn settle(c: &mut Case) {
    let truth = q_of(gen_rot(c));
    let (ax, th) = (c.unit3(), c.f(0.0, 2.4));
    let est = qmul(truth, qexp(vscale(v_of(ax), dd(th))));
    let dip = c.f(-1.2, 1.2);
    let a = vf(qrot(qconj(truth), v_of([0.0, 0.0, 9.81])));
    let m = vf(qrot(qconj(truth), v_of([dip.cos() * 40.0, 0.0, -dip.sin() * 40.0])));
    let off = c.arr::<3>(|c| c.f(-0.02, 0.02));
    let q: SO3<f64> = so(est.map(|x| x.f()));
    let mut f = Any::Mah(MahonyFilter::new(q)).gains(2.0, 0.4);
    let dt = 0.02;
    for _ in 0..8000 {
        let r = f.step(vt(off), vt(a), Some(vt(m)), dt);
        c.get("step", r);
    }
    c.near("finds the facing", qangle(qunit(qd(f.q())), truth), 0.0, 2e-3);
    for i in 0..3 {
        c.near("finds the offset", f.bias()[i], off[i], 2e-3);
    }
    // The walker ends within a step or so of it, and stays.
    let mut w = Any::Mad(MadgwickFilter::new(q)).gains(0.5, 0.0);
    for _ in 0..6000 {
        let r = w.step(Vector::zeros(), vt(a), Some(vt(m)), 0.005);
        c.get("step", r);
    }
    c.near("walks onto the facing", qangle(qunit(qd(w.q())), truth), 0.0, 0.02);
    c.hit("settled");
}

/// Hours at a kilohertz in single precision: still a rotation at the end.
fn hours(c: &mut Case) {
    let q: SO3<f32> = so(gen_rot(c));
    let (mut f, _, _) = gen_filter::<f32>(c, q);
    let a: V3<f32> = vt(c.unit3().map(|x| x * 9.81));
    let m: V3<f32> = vt(c.unit3().map(|x| x * 40.0));
    let w: V3<f32> = vt(c.arr::<3>(|c| c.f(-3.0, 3.0)));
    let with = c.p(0.5);
    let mut worst = 0.0f64;
    for i in 0..20000 {
        let s = if i % 2 == 0 { 1.0 } else { 0.7 };
        let r = f.step(w * s, a, with.then_some(m), 0.001);
        if r.is_err() {
            c.fail("step", "refused");
        }
        worst = worst.max((qnorm(qd(f.q())).f() - 1.0).abs());
    }
    c.near("stays a rotation", worst, 0.0, 4.0 * f32::EPSILON as f64);
    c.hit("long runs");
}
fn main() {
    vmon::run("C29", |s| {
        s.rule("every tick, from the filter's actual previous state, vs double-double: sensor disagreement, learned offset, turn; walking-rate bounds always; recovery from a lean vs its closed form; convergence on facing and offset from crooked starts at any dip; long f32 runs");
        macro_rules! both {
            ($n:literal, $q:expr, $f:expr, $g:expr) => {
                s.monitor($n, $q, 20, |c| if c.p(0.35) { $f(c) } else { $g(c) })
            };
        }
        both!("tick", 60000, tick::<f32>, tick::<f64>);
        s.monitor("lean", 1500, 20, lean);
        s.monitor("settle", 120, 20, settle);
        s.monitor("hours", 60, 10, hours);
        for (e, n) in [("ticks", 20000), ("headings pulled", 5000), ("directions set", 1000), ("refusals", 2000), ("leans recovered", 500), ("settled", 40), ("long runs", 20)] {
            s.require(e, n);
        }
    });
}
