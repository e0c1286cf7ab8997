//! C22: multirotor mixing and rotor lag.
use multicalc::error::PlantError as E;
use multicalc::plant::*;
use multicalc::Vector;
use vmon::robot::*;
use vmon::*;

struct Lay<const N: usize> {
    p: [[f64; 3]; N],
    s: [bool; N],
    k: f64,
    lo: f64,
    hi: f64,
}
impl<const N: usize> Lay<N> {
    fn a(&self) -> RM {
        RM::from_fn(4, N, |r, i| match r {
            0 => 1.0,
            1 => self.p[i][1],
            2 => -self.p[i][0],
            _ => if self.s[i] { self.k } else { -self.k },
        })
    }
    fn build<T: Fl>(&self) -> Result<MultirotorMixer<N, T>, E> {
        let s = self.s.map(|b| if b { RotorSpin::Clockwise } else { RotorSpin::CounterClockwise });
        MultirotorMixer::new(self.p.map(|p| va::<3, T>(p)), s, T::t(self.k), T::t(self.lo), T::t(self.hi))
    }
}
fn layout<const N: usize, T: Fl>(c: &mut Case) -> Lay<N> {
    let arm = if T::F32 { c.lu(-1.0, 0.5) } else { c.lu(-2.0, 1.0) };
    let ring = c.p(0.5);
    let ph = c.f(0.0, 6.0);
    let p = core::array::from_fn(|i| {
        let z = if c.p(0.3) { c.f(-1.0, 1.0) } else { 0.0 };
        if ring {
            let a = ph + i as f64 * std::f64::consts::TAU / N as f64;
            rt::<3, T>([arm * a.cos(), arm * a.sin(), z])
        } else {
            rt::<3, T>([c.f(-arm, arm), c.f(-arm, arm), z])
        }
    });
    let mut s = core::array::from_fn(|i| i % 2 == 0);
    if !ring {
        s = core::array::from_fn(|_| c.p(0.5));
    }
    let k = T::t(if T::F32 { c.lu(-1.7, 0.0) } else { c.lu(-3.0, 0.5) }).d();
    let lo = T::t(if c.p(0.6) { 0.0 } else { c.f(-5.0, 2.0) }).d();
    let hi = T::t(lo + c.lu(-1.0, 1.5)).d();
    let l = Lay { p, s, k, lo, hi };
    c.note("rotors", &(l.p, l.s, l.k, l.lo, l.hi));
    l
}
fn mixer<const N: usize, T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let l = layout::<N, T>(c);
    let a = l.a();
    // How far the layout is from losing a direction.
    let g = a.mul(&a.t());
    let sv = a.t().sing();
    let cond = sv.iter().copied().fold(0.0, f64::max) / sv.iter().take(4).copied().fold(f64::INFINITY, f64::min).max(1e-300);
    if N < 4 || cond > 1e12 {
        c.eq("dependent-refused", l.build::<T>().err(), Some(E::RotorLayoutNotIndependent));
        c.hit("dependent layout refused");
        return;
    }
    if cond * e > 1e-7 {
        c.discard();
    }
    let m = c.get("layout", l.build::<T>());
    c.eq("limits", (m.minimum_thrust().d(), m.maximum_thrust().d()), (l.lo, l.hi));
    c.eq("allocation", RM::of(&m.allocation()).fs(), a.fs());
    let gi = match g.inv() { Some(x) => x, None => c.discard() };
    let pinv = a.t().mul(&gi);
    let k = c.lu(-1.0, 1.5);
    let w4 = rt::<4, T>(match c.us(0, 3) {
        0 => [k * N as f64, 0.0, 0.0, 0.0],
        1 => { let t = RM::col(&c.vecf(N, |c| c.f(l.lo, l.hi))); let w = a.mul(&t); core::array::from_fn(|i| w.f(i, 0)) }
        _ => c.arr(|c| k * c.f(-1.0, 1.0)),
    });
    c.note("wanted", &w4);
    let share = pinv.mul(&RM::col(&w4));
    let nw = w4.iter().map(|v| v * v).sum::<f64>().sqrt();
    let tol = 60.0 * e * cond * pinv.maxabs() * nw * 4.0;
    let got = m.rotor_thrusts(T::t(w4[0]), va([w4[1], w4[2], w4[3]]));
    let t = got.thrusts().into_array().map(|v| v.d());
    let mut sure_sat = false;
    let mut maybe_sat = false;
    for i in 0..N {
        let s = share.f(i, 0);
        let w = s.max(l.lo).min(l.hi);
        c.near("share", t[i], w, tol);
        c.ok(t[i] >= l.lo && t[i] <= l.hi, "within-limits", || format!("{t:?}"));
        sure_sat |= s < l.lo - tol || s > l.hi + tol;
        maybe_sat |= s < l.lo + tol || s > l.hi - tol;
    }
    c.ok(!sure_sat || got.saturated(), "saturation-told", || format!("{t:?} share {:?}", share.fs()));
    c.ok(maybe_sat || !got.saturated(), "saturation-invented", || format!("{t:?} share {:?}", share.fs()));
    let w = m.wrench(got.thrusts());
    let wf = w.as_array().map(|v| v.d());
    let back = a.mul(&RM::col(&t));
    let bt = 8.0 * N as f64 * e * a.maxabs() * t.iter().fold(0.0f64, |s, v| s.max(v.abs()));
    for (i, j) in [(2, 0), (3, 1), (4, 2), (5, 3)] {
        c.near("wrench", wf[i], back.f(j, 0), bt);
        if !got.saturated() {
            c.near("round-trip", wf[i], w4[j], bt + tol * a.maxabs() * N as f64);
            c.hit("unsaturated command reproduced");
        }
    }
    c.eq("no-side-push", (wf[0], wf[1]), (0.0, 0.0));
    if got.saturated() {
        c.hit("saturated command judged");
    }
    // A command that is not a number comes back as one.
    let nan = m.rotor_thrusts(T::t(f64::NAN), va([0.0; 3])).thrusts().into_array().map(|v| v.d());
    c.ok(nan.iter().any(|v| !v.is_finite()), "not-finite-passed-on", || format!("{nan:?}"));
    c.hit("mixer judged");
}
fn lined<T: Fl>(c: &mut Case) {
    // Rotors all in a line through the origin cannot tip the body about it.
    let (dx, dy) = { let a = c.f(0.0, 6.3); (a.cos(), a.sin()) };
    let k = c.f(0.1, 2.0);
    let axis = c.p(0.5);
    let p: [[f64; 3]; 6] = core::array::from_fn(|_| { let s = c.f(-2.0, 2.0); rt::<3, T>(if axis { [s, 0.0, 0.1] } else { [s * dx, s * dy, 0.0] }) });
    let l = Lay { p, s: core::array::from_fn(|i| i % 2 == 0), k, lo: 0.0, hi: 10.0 };
    c.note("line", &l.p);
    c.eq("in-line", l.build::<T>().err(), Some(E::RotorLayoutNotIndependent));
    // All turning the same way: the twist follows the push.
    let mut l = layout::<6, T>(c);
    l.s = [c.p(0.5); 6];
    if c.p(0.3) {
        l.k = T::t(c.lu(-6.0, -3.0)).d();
    }
    c.eq("same-spin", l.build::<T>().err(), Some(E::RotorLayoutNotIndependent));
    c.hit("dependent layout refused");
    // Bad numbers, in order of checking.
    let bad = c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    let mut l = layout::<6, T>(c);
    let want = match c.us(0, 6) {
        0 => { l.p[c.us(0, 5)][c.us(0, 2)] = bad; E::NonFinite }
        1 => { l.k = bad; E::NonFinite }
        2 => { l.lo = bad; E::NonFinite }
        3 => { l.hi = bad; E::NonFinite }
        4 => { l.k = c.pick(&[0.0, -0.0, -1.0]); E::NonPositiveTorqueRatio }
        5 => { l.hi = l.lo; E::InvalidThrustLimits }
        _ => { l.hi = l.lo - c.lu(-2.0, 1.0); E::InvalidThrustLimits }
    };
    c.note("bad", &(l.p, l.k, l.lo, l.hi));
    c.eq("refused", l.build::<T>().err(), Some(want));
    let arm = c.pick(&[bad, 0.0, -0.0, -1.0]);
    c.eq("arm", MultirotorMixer::quadrotor_x(T::t(arm), T::ONE, T::ZERO, T::ONE).err(), Some(if arm.is_finite() { E::NonPositiveArmLength } else { E::NonFinite }));
    c.hit("bad layout refused");
}
fn quad<T: Fl>(c: &mut Case) {
    let [arm, k, hi] = rt::<3, T>([c.lu(-1.0, 0.5), c.lu(-1.7, 0.0), c.lu(-1.0, 1.0)]);
    c.note("arm, ratio, most", &(arm, k, hi));
    let m = c.get("quadrotor", MultirotorMixer::quadrotor_x(T::t(arm), T::t(k), T::ZERO, T::t(hi)));
    let a = m.allocation();
    let h = arm / 2f64.sqrt();
    // front right, back left, front left, back right
    let pos = [(h, -h), (-h, h), (h, h), (-h, -h)];
    for i in 0..4 {
        let w = [1.0, pos[i].1, -pos[i].0, if i < 2 { k } else { -k }];
        for r in 0..4 {
            c.near("layout", a[(r, i)].d(), w[r], 8.0 * T::EPS * w[r].abs());
        }
    }
    // Pure push: shared evenly. Pure turns: the right rotors work harder.
    let f = T::t(hi * 4.0 * c.f(0.1, 0.9));
    let t = m.rotor_thrusts(f, va([0.0; 3]));
    for i in 0..4 {
        c.near("even-share", t.thrusts()[i].d(), f.d() / 4.0, 200.0 * T::EPS * f.d());
    }
    c.ok(!t.saturated(), "even-share-unsaturated", || "saturated".into());
    c.hit("quadrotor judged");
}
fn lag<T: Fl>(c: &mut Case) {
    const N: usize = 3;
    let e = T::EPS;
    let tau = T::t(c.lu(-4.0, 2.0)).d();
    let h = T::t(tau * c.lu(-6.0, 1.7)).d();
    let t0 = rt::<N, T>(if c.p(0.4) { [0.0; N] } else { c.arr(|c| c.f(-5.0, 20.0)) });
    c.note("lag, tick, start", &(tau, h, t0));
    let fresh = c.get("built", RotorLag::<N, T>::new(T::t(tau), T::t(h)));
    c.eq("kept", (fresh.time_constant().d(), fresh.timestep().d(), fresh.thrusts().into_array().map(|v| v.d())), (tau, h, [0.0; N]));
    let mut r = fresh.with_thrusts(va(t0));
    let mut now = t0.map(dd);
    let n = c.us(1, 12);
    let mut err = [0.0; N];
    for k in 0..n {
        let cmd = rt::<N, T>(if c.p(0.5) { [c.f(0.0, 10.0); N] } else { c.arr(|c| c.f(-5.0, 20.0)) });
        let before = r.thrusts().into_array().map(|v| v.d());
        let rate = r.rate(va(cmd)).into_array().map(|v| v.d());
        let dt = if c.p(0.6) { h } else { T::t(tau * c.lu(-6.0, 1.7)).d() };
        c.note("command, tick", &(cmd, dt));
        let got = if dt == h { r.stepped(va(cmd)) } else { r.stepped_over(va(cmd), T::t(dt)) }.into_array().map(|v| v.d());
        c.eq("landed", got, r.thrusts().into_array().map(|v| v.d()));
        let x = -(dd(dt) / dd(tau));
        let (keep, gain) = (x.exp_(), -x.expm1_());
        for i in 0..N {
            c.near("rate", rate[i], (cmd[i] - before[i]) / tau, 4.0 * e * ((cmd[i].abs() + before[i].abs()) / tau));
            now[i] = keep * now[i] + gain * dd(cmd[i]);
            err[i] += 12.0 * e * (before[i].abs() + gain.f() * cmd[i].abs());
            c.near("follows", got[i], now[i].f(), err[i]);
            let s = 6.0 * e * (before[i].abs() + cmd[i].abs());
            c.ok(got[i] >= before[i].min(cmd[i]) - s && got[i] <= before[i].max(cmd[i]) + s, "no-overshoot", || format!("tick {k}: {} from {} to {}", got[i], before[i], cmd[i]));
            if before[i] == 0.0 {
                c.near("first-move", got[i], (gain * dd(cmd[i])).f(), 8.0 * e * gain.f() * cmd[i].abs());
            }
        }
    }
    r.reset();
    c.eq("reset", r.thrusts().into_array().map(|v| v.d()), [0.0; N]);
    // A restarted model is a fresh one.
    let cmd = va::<N, T>([1.0, 2.0, 3.0]);
    let mut f = fresh;
    c.eq("reset-like-new", r.stepped(cmd), f.stepped(cmd));
    // Cutting the tick changes nothing.
    let (mut one, mut many) = (fresh.with_thrusts(va(t0)), fresh.with_thrusts(va(t0)));
    let m = c.us(2, 6);
    let a = one.stepped(cmd).into_array().map(|v| v.d());
    for _ in 0..m {
        many.stepped_over(cmd, T::t(h / m as f64));
    }
    let b = many.thrusts().into_array().map(|v| v.d());
    for i in 0..N {
        c.near("cut-tick", b[i], a[i], 24.0 * m as f64 * e * (t0[i].abs() + 3.0));
    }
    let bad = c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    let z = c.pick(&[0.0, -0.0, -1.0]);
    let (want, got) = match c.us(0, 3) {
        0 => (E::NonFinite, RotorLag::<N, T>::new(T::t(bad), T::t(c.pick(&[h, 0.0, -1.0])))),
        1 => (E::NonFinite, RotorLag::<N, T>::new(T::t(c.pick(&[tau, 0.0, -1.0])), T::t(bad))),
        2 => (E::NonPositiveTimeConstant, RotorLag::<N, T>::new(T::t(z), T::t(c.pick(&[h, 0.0])))),
        _ => (E::NonPositiveTimestep, RotorLag::<N, T>::new(T::t(tau), T::t(z))),
    };
    c.eq("refused", got.err(), Some(want));
    let _ = Vector::<1, T>::zeros();
    c.hit("lag judged");
}
fn main() {
    vmon::run("C22", |s| {
        s.rule("A case counts when a layout, a command or a lag sequence was judged against double-double allocation, least-norm shares and exact exponentials; distinct = distinct layouts, commands and ticks.");
        s.assume("Layouts whose condition times the scalar's precision lies between 1e-7 and the clearly dependent ones are discarded.");
        macro_rules! both {
            ($n:literal, $q:expr, $f:expr, $g:expr) => {
                s.monitor($n, $q, 20, |c| if c.p(0.35) { $f(c) } else { $g(c) })
            };
        }
        both!("mixer-3", 1500, mixer::<3, f32>, mixer::<3, f64>);
        both!("mixer-4", 15000, mixer::<4, f32>, mixer::<4, f64>);
        both!("mixer-6", 10000, mixer::<6, f32>, mixer::<6, f64>);
        both!("mixer-8", 6000, mixer::<8, f32>, mixer::<8, f64>);
        both!("dependent", 5000, lined::<f32>, lined::<f64>);
        both!("quadrotor", 5000, quad::<f32>, quad::<f64>);
        both!("lag", 40000, lag::<f32>, lag::<f64>);
        for (e, n) in [("mixer judged", 10000), ("unsaturated command reproduced", 3000), ("saturated command judged", 3000), ("dependent layout refused", 3000), ("bad layout refused", 3000), ("quadrotor judged", 2000), ("lag judged", 20000)] {
            s.require(e, n);
        }
    })
}
