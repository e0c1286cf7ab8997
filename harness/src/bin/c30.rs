//! C30: filters, smoothers and signal conditioning.
use multicalc::Vector;
use multicalc::error::SignalError as E;
use multicalc::signal_processing::*;
use vmon::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Low,
    High,
    Band,
    Notch,
}
const KINDS: [Kind; 4] = [Kind::Low, Kind::High, Kind::Band, Kind::Notch];
fn make<T: Fl>(k: Kind, hz: f64, q: f64, dt: f64) -> Result<BiquadCoefficients<T>, E> {
    let (a, b, d) = (T::t(hz), T::t(q), T::t(dt));
    match k {
        Kind::Low => BiquadCoefficients::low_pass(a, b, d),
        Kind::High => BiquadCoefficients::high_pass(a, b, d),
        Kind::Band => BiquadCoefficients::band_pass(a, b, d),
        Kind::Notch => BiquadCoefficients::notch(a, b, d),
    }
}
fn pi2() -> DD {
    DD::atan2_(dd(0.0), dd(-1.0)) * dd(2.0)
}
type Cf = ([f64; 3], [f64; 2]);
fn cf<T: Fl>(b: &BiquadCoefficients<T>) -> Cf {
    (b.feed_forward().map(|x| x.d()), b.feedback().map(|x| x.d()))
}
/// Both halves of the response at an angle per sample.
fn halves(w: &Cf, ang: DD) -> (DD, DD, DD, DD) {
    let (s1, c1) = ang.sincos();
    let (s2, c2) = (ang * dd(2.0)).sincos();
    let (b, a) = (w.0.map(dd), w.1.map(dd));
    (b[0] + b[1] * c1 + b[2] * c2, -(b[1] * s1 + b[2] * s2), dd(1.0) + a[0] * c1 + a[1] * c2, -(a[0] * s1 + a[1] * s2))
}
fn hyp(x: DD, y: DD) -> DD {
    (x * x + y * y).sqr()
}
fn freq<T: Fl>(c: &mut Case) -> (f64, f64) {
    let dt = if c.p(0.5) { c.pick(&[0.001, 0.01, 0.005, 1.0, 0.0025]) } else { c.lu(-5.0, 1.0) };
    let dt = T::t(dt).d();
    let lo = if T::F32 { -3.2 } else { -6.0 };
    let fr = match c.us(0, 4) {
        0 => c.f(0.001, 0.499),
        1 => 0.5 - c.lu(lo, -0.4).min(0.49),
        2 => c.pick(&[0.25, 0.125, 0.1, 1.0 / 3.0, 0.01]),
        _ => c.lu(lo, -0.305),
    };
    (T::t(fr / dt).d(), dt)
}
fn sharp(c: &mut Case) -> f64 {
    match c.us(0, 4) {
        0 => core::f64::consts::FRAC_1_SQRT_2,
        1 => c.pick(&[0.5, 1.0, 2.0, 5.0, 10.0, 30.0]),
        2 => c.lu(-1.5, 0.0),
        _ => c.lu(-1.0, 2.0),
    }
}

// ---- design ----
fn design<T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let (hz, dt) = freq::<T>(c);
    let q = T::t(sharp(c)).d();
    let k = c.pick(&KINDS);
    c.note("kind, hz, sharpness, timestep", &(k, hz, q, dt));
    let ang = pi2() * dd(hz) * dd(dt);
    let band = ang / dd(q);
    let wide = matches!(k, Kind::Band | Kind::Notch) && band.f() > core::f64::consts::PI * (1.0 - 64.0 * e);
    let edge = (hz * dt - 0.5).abs() < 16.0 * e;
    let r = make::<T>(k, hz, q, dt);
    if wide || edge {
        if matches!(k, Kind::Band | Kind::Notch) && band.f() > core::f64::consts::PI * (1.0 + 64.0 * e) {
            c.eq("band too wide", r.as_ref().err(), Some(&E::FrequencyOutOfRange));
        }
        // A band as wide as everything below half the sampling rate is no band at all: what must
        // never come out is a filter that grows.
        if let Ok(b) = r {
            c.ok(b.is_stable(), "a designed filter settles", || format!("{:?}", cf(&b)));
            if wide {
                let w = cf(&b);
                c.ok(w.1[1].abs() < 1.0 && w.1[0].abs() < 1.0 + w.1[1], "a designed filter settles", || format!("{w:?}"));
            }
        } else {
            c.eq("band too wide", r.err(), Some(E::FrequencyOutOfRange));
        }
        c.hit("bands too wide");
        return;
    }
    // What the weights should be.
    let (sn, cs) = ang.sincos();
    let (hs, hc) = (ang * dd(0.5)).sincos();
    let (hb, cb) = (band * dd(0.5)).sincos();
    let al = match k {
        Kind::Low | Kind::High => sn / (dd(2.0) * dd(q)),
        _ => hb / cb,
    };
    let lead = dd(1.0) + al;
    let f = al.f();
    // How close the poles sit to the circle, against what rounding can move.
    let margin = {
        let (a1, a2) = ((-(cs + cs) / lead).f(), ((dd(1.0) - al) / lead).f());
        (1.0 - a2.abs()).min(1.0 + a2 - a1.abs()).min(((dd(2.0) - cs - cs).f().min((dd(2.0) + cs + cs).f())) / lead.f())
    };
    if margin < 64.0 * e {
        if let Ok(b) = r {
            c.ok(b.is_stable(), "a designed filter settles", || format!("{:?}", cf(&b)));
        }
        c.hit("designs at the limit of the precision");
        return;
    }
    let b = c.get("design", r);
    let w = cf(&b);
    let want: [DD; 3] = match k {
        Kind::Low => [hs * hs, hs * hs * dd(2.0), hs * hs],
        Kind::High => [hc * hc, -(hc * hc * dd(2.0)), hc * hc],
        Kind::Band => [al, dd(0.0), -al],
        Kind::Notch => [dd(1.0), -(cs + cs), dd(1.0)],
    };
    // tan near a quarter turn magnifies the rounding of its argument.
    let ta = match k {
        Kind::Low | Kind::High => (4.0 * e * (1.0 + (ang * cs / sn).f().abs())) * f,
        _ => 8.0 * e * (f + band.f() * (1.0 + f * f)),
    };
    let rel = ta / lead.f() + 4.0 * e;
    for i in 0..3 {
        let v = (want[i] / lead).f();
        let num = match k {
            Kind::Band => ta + 4.0 * e * f,
            _ => 32.0 * e,
        };
        c.near("newest inputs", w.0[i], v, num / lead.f() + rel * v.abs());
    }
    c.near("feedback", w.1[0], (-(cs + cs) / lead).f(), 32.0 * e / lead.f() + 2.0 * rel / lead.f());
    c.near("feedback", w.1[1], ((dd(1.0) - al) / lead).f(), 2.0 * ta / lead.sq().f().max(1e-300) + 8.0 * e);
    c.eq("timestep", b.timestep().d(), dt);
    c.ok(b.is_stable(), "a designed filter settles", || format!("{w:?}"));
    // What the filter is for, at the frequencies that name it.
    let cond = e * 64.0 * (1.0 + 1.0 / margin);
    if cond > 0.02 {
        c.hit("too sharp to measure");
        return;
    }
    let dc = b.magnitude_at(T::t(0.0)).d();
    let ny = b.magnitude_at(T::t(0.5 / dt)).d();
    let at = b.magnitude_at(T::t(hz)).d();
    match k {
        Kind::Low => {
            c.near("a steady input passes", dc, 1.0, cond);
            c.near("at the cutoff", at, q, cond * q.max(1.0) * (1.0 + q));
        }
        Kind::High => {
            c.near("the fastest input passes", ny, 1.0, cond);
            c.near("at the cutoff", at, q, cond * q.max(1.0) * (1.0 + q));
            c.near("a steady input is removed", dc, 0.0, cond);
        }
        Kind::Band => {
            c.near("the centre passes", at, 1.0, cond * (1.0 + 1.0 / f));
            c.near("a steady input is removed", dc, 0.0, cond);
        }
        Kind::Notch => {
            c.near("a steady input passes", dc, 1.0, cond);
            c.near("the centre is removed", at, 0.0, cond * (1.0 + 1.0 / f));
        }
    }
    if matches!(k, Kind::Band | Kind::Notch) {
        // Half the power comes through at both ends of a band hz/q wide around the centre.
        let m = cs * cb;
        let mid = DD::atan2_((dd(1.0) - m * m).sqr(), m);
        for s in [-0.5, 0.5] {
            let edge = (mid + band * dd(s)) / (pi2() * dd(dt));
            let g = b.magnitude_at(T::t(edge.f())).d();
            c.near("half power at the ends of the band", g, core::f64::consts::FRAC_1_SQRT_2, cond * (1.0 + 1.0 / f));
        }
        c.hit("bands measured");
    }
    c.hit("designed");
}
fn design_refused<T: Fl>(c: &mut Case) {
    let (hz, dt) = freq::<T>(c);
    let (q, k) = (c.lu(-0.2, 1.0), c.pick(&KINDS));
    let bad = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    let z = [0.0, -0.0, -1.0, -1e-30];
    let nan = c.pick(&bad);
    let neg = c.pick(&z);
    let (h, qq, d, w) = match c.us(0, 7) {
        0 => (nan, q, dt, E::NonFinite),
        1 => (hz, nan, dt, E::NonFinite),
        2 => (hz, q, nan, E::NonFinite),
        3 => (hz, q, neg, E::NonPositiveTimestep),
        4 => (hz, neg, dt, E::NonPositiveQualityFactor),
        5 => (neg, q, dt, E::FrequencyOutOfRange),
        6 => (c.pick(&[0.5, 0.75, 1.0, 1.25, 40.0]), q, 1.0, E::FrequencyOutOfRange),
        _ => (0.5 / dt * (1.0 + 1e-5) + c.lu(-3.0, 3.0), q, dt, E::FrequencyOutOfRange),
    };
    c.note("kind, hz, q, dt", &(k, h, qq, d));
    c.eq("refused design", make::<T>(k, h, qq, d).err(), Some(w.clone()));
    if w == E::FrequencyOutOfRange || k == Kind::Notch {
        let g = harmonic_notch_coefficients::<3, T>(T::t(h), T::t(qq), T::t(d)).err();
        c.eq("refused harmonics", g, Some(w));
    }
    // Weights handed in directly.
    let mut ws: [f64; 6] = c.arr(|c| c.f(-2.0, 2.0));
    ws[5] = dt;
    let j = c.us(0, 6);
    let want = match j {
        6 => {
            ws[5] = neg;
            E::NonPositiveTimestep
        }
        _ => {
            ws[j] = nan;
            E::NonFinite
        }
    };
    let t = ws.map(T::t);
    c.eq("refused weights", BiquadCoefficients::new([t[0], t[1], t[2]], [t[3], t[4]], t[5]).err(), Some(want));
    let h0 = harmonic_notch_coefficients::<0, T>(T::t(1.0), T::t(1.0), T::t(0.01)).err();
    c.eq("no harmonics", h0, Some(E::WindowTooShort));
    // The other blocks.
    c.eq("one pole", OnePoleLowPass::new(T::t(nan)).err(), Some(E::NonFinite));
    let out = c.pick(&[-1e-9, 1.000001, -3.0, 5.0]);
    c.eq("one pole", OnePoleLowPass::new(T::t(out)).err(), Some(E::CoefficientOutOfRange));
    c.eq("one pole", OnePoleLowPass::from_cutoff(T::t(nan), T::t(dt)).err(), Some(E::NonFinite));
    c.eq("one pole", OnePoleLowPass::from_cutoff(T::t(hz), T::t(nan)).err(), Some(E::NonFinite));
    c.eq("one pole", OnePoleLowPass::from_cutoff(T::t(hz), T::t(neg)).err(), Some(E::NonPositiveTimestep));
    c.eq("one pole", OnePoleLowPass::from_cutoff(T::t(-hz), T::t(dt)).err(), Some(E::FrequencyOutOfRange));
    c.eq("deadband", Deadband::plain(T::t(nan)).err(), Some(E::NonFinite));
    c.eq("deadband", Deadband::recentered(T::t(-hz)).err(), Some(E::NegativeThreshold));
    c.eq("deadband", Deadband::plain(T::t(-0.0)).err(), None);
    c.eq("switch", Hysteresis::new(T::t(nan), T::t(1.0)).err(), Some(E::NonFinite));
    c.eq("switch", Hysteresis::new(T::t(0.0), T::t(nan)).err(), Some(E::NonFinite));
    c.eq("switch", Hysteresis::new(T::t(hz), T::t(hz)).err(), Some(E::ThresholdsOutOfOrder));
    c.eq("switch", Hysteresis::new(T::t(hz), T::t(-hz)).err(), Some(E::ThresholdsOutOfOrder));
    let sl = |a: f64, b: f64, d: f64| SlewRateLimiter::new(T::t(a), T::t(b), T::t(d)).err();
    c.eq("slew", [sl(nan, 1.0, 1.0), sl(1.0, nan, 1.0), sl(1.0, 1.0, nan)], [Some(E::NonFinite), Some(E::NonFinite), Some(E::NonFinite)]);
    c.eq("slew", [sl(1.0, 1.0, neg), sl(neg, 1.0, 1.0), sl(1.0, neg, 1.0)], [Some(E::NonPositiveTimestep), Some(E::NonPositiveRate), Some(E::NonPositiveRate)]);
    c.eq("slew", SlewRateLimiter::symmetric(T::t(neg), T::t(1.0)).err(), Some(E::NonPositiveRate));
    c.eq("mean of nothing", MovingAverage::<0, T>::new().err(), Some(E::WindowTooShort));
    c.eq("median of nothing", RunningMedian::<0, T>::new().err(), Some(E::WindowTooShort));
    c.eq("even median", RunningMedian::<4, T>::new().err(), Some(E::WindowEvenLength));
    c.eq("fit", SavitzkyGolay::<5, 2, T>::latest(T::t(nan)).err(), Some(E::NonFinite));
    c.eq("fit", SavitzkyGolay::<5, 2, T>::centered(T::t(neg)).err(), Some(E::NonPositiveTimestep));
    c.eq("fit", SavitzkyGolay::<4, 2, T>::centered(T::t(dt)).err(), Some(E::WindowEvenLength));
    c.eq("fit", SavitzkyGolay::<3, 4, T>::centered(T::t(dt)).err(), Some(E::PolynomialOrderTooHigh));
    c.eq("fit", SavitzkyGolay::<3, 4, T>::latest(T::t(dt)).err(), Some(E::PolynomialOrderTooHigh));
    c.eq("fit", SavitzkyGolay::<3, 0, T>::latest(T::t(dt)).err(), Some(E::WindowTooShort));
    c.eq("fit of nothing", SavitzkyGolay::<0, 2, T>::latest(T::t(dt)).err(), Some(E::WindowTooShort));
    c.eq("fit of nothing", SavitzkyGolay::<0, 2, T>::centered(T::t(dt)).err(), Some(E::WindowEvenLength));
    c.hit("refused");
}

// ---- what a set of weights does to an oscillation ----
fn gen_weights<T: Fl>(c: &mut Case, dt: f64) -> BiquadCoefficients<T> {
    if c.p(0.4) {
        let (hz, q, k) = (T::t(c.f(0.02, 0.45) / dt).d(), c.f(0.5, 6.0), c.pick(&KINDS));
        if let Ok(b) = make::<T>(k, hz, q, dt) {
            return b;
        }
    }
    // Two poles inside the circle: a pair, or two real ones.
    let fb = if c.p(0.6) {
        let (r, a) = (c.f(0.0, 0.98), c.f(0.0, 3.14));
        [-2.0 * r * a.cos(), r * r]
    } else {
        let (p, s) = (c.f(-0.97, 0.97), c.f(-0.97, 0.97));
        [-(p + s), p * s]
    };
    let ff: [f64; 3] = c.arr(|c| if c.p(0.15) { 0.0 } else { c.f(-2.0, 2.0) });
    c.get("weights", BiquadCoefficients::new(ff.map(T::t), fb.map(T::t), T::t(dt)))
}
fn response<T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let dt = T::t(c.lu(-4.0, 0.5)).d();
    let b = gen_weights::<T>(c, dt);
    let w = cf(&b);
    let f = if c.p(0.1) { 0.0 } else { T::t(c.f(0.0, 0.5) / dt).d() };
    c.note("weights, timestep, hz", &(w, dt, f));
    let ang = pi2() * dd(f) * dd(dt);
    let (nr, ni, dr, di) = halves(&w, ang);
    let (n, d) = (hyp(nr, ni).f(), hyp(dr, di).f());
    let sn = 24.0 * e * w.0.iter().map(|x| x.abs()).sum::<f64>();
    let sd = 24.0 * e * (1.0 + w.1[0].abs() + w.1[1].abs());
    if d < 16.0 * sd {
        c.discard();
    }
    let m = n / d;
    let tm = (sn + m * sd) / d * 1.1 + 4.0 * e * m;
    let got = b.magnitude_at(T::t(f)).d();
    c.near("how much comes through", got, m, tm);
    let db = b.magnitude_in_decibels_at(T::t(f)).d();
    if got == 0.0 {
        c.ok(db == f64::NEG_INFINITY, "nothing left in decibels", || format!("{db}"));
    } else {
        c.near("decibels", db, 20.0 * got.log10(), 16.0 * e * (db.abs() + 20.0));
    }
    if n > 16.0 * sn {
        let pn = DD::atan2_(ni, nr).f();
        let pd = DD::atan2_(di, dr).f();
        let p = b.phase_at(T::t(f)).d();
        let tp = 4.0 * (sn / n + sd / d) + 16.0 * e;
        let diff = (p - (pn - pd)).abs();
        // On the far side of the cut either side of half a turn is right.
        let cut = (nr.f() < 0.0 && ni.f().abs() <= sn) || (dr.f() < 0.0 && di.f().abs() <= sd);
        let turn = core::f64::consts::TAU;
        c.ok(diff <= tp || (cut && ((diff - turn).abs() <= tp || (diff - 2.0 * turn).abs() <= tp)), "how far along", || format!("{p} against {}", pn - pd));
        let dl = b.delay_at(T::t(f)).d();
        if f == 0.0 {
            c.same_bits("no delay at rest", dl, 0.0);
        } else {
            let v = -p / (turn * f);
            c.near("delay", dl, v, 8.0 * e * v.abs());
            c.hit("phases");
        }
    }
    // Whether it settles, from the poles.
    let (a1, a2) = (w.1[0], w.1[1]);
    let big: [f64; 2] = [c.f(-2.5, 2.5), c.f(-1.5, 1.5)];
    let o = c.get("weights", BiquadCoefficients::new(b.feed_forward(), big.map(T::t), b.timestep()));
    let big = o.feedback().map(|x| x.d());
    for (q, got) in [([a1, a2], b.is_stable()), (big, o.is_stable())] {
        let disc = q[0] * q[0] - 4.0 * q[1];
        let r = if disc < 0.0 { q[1].sqrt() } else { (q[0].abs() + disc.sqrt()) * 0.5 };
        if (r - 1.0).abs() > 16.0 * e {
            c.eq("settles", got, r < 1.0);
            c.hit(if r < 1.0 { "settling" } else { "growing" });
        }
    }
}

// ---- running filters ----
/// The last two samples in and out, with the weights each went through.
struct Trail<T: Fl> {
    w: Cf,
    past: [(f64, f64, Cf); 2],
    f: Biquad<T>,
}
impl<T: Fl> Trail<T> {
    fn new(b: BiquadCoefficients<T>) -> Self {
        let w = cf(&b);
        Trail { w, past: [(0.0, 0.0, w); 2], f: Biquad::new(b) }
    }
    fn expect(&self, x: f64) -> (DD, f64) {
        let [(x1, y1, w1), (x2, y2, w2)] = self.past;
        let t = [
            dd(self.w.0[0]) * dd(x),
            dd(w1.0[1]) * dd(x1),
            -(dd(w1.1[0]) * dd(y1)),
            dd(w2.0[2]) * dd(x2),
            -(dd(w2.1[1]) * dd(y2)),
        ];
        t.iter().fold((dd(0.0), 0.0), |s, v| (s.0 + *v, s.1 + v.f().abs()))
    }
    fn push(&mut self, x: f64, y: f64) {
        self.past = [(x, y, self.w), self.past[0]];
    }
}
fn running<T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let dt = 0.01;
    let b = gen_weights::<T>(c, dt);
    let mut t = Trail::<T>::new(b);
    c.note("weights", &t.w);
    let n = c.us(1, 60);
    let s = c.lu(-2.0, 3.0);
    let mut last = 0.0;
    for _ in 0..n {
        match c.us(0, 19) {
            0 => {
                let b = if c.p(0.2) { t.f.coefficients() } else { gen_weights::<T>(c, dt) };
                t.f.set_coefficients(b);
                t.w = cf(&b);
                c.eq("swapping weights says nothing", t.f.value().d(), last);
                c.hit("weights swapped");
            }
            1 => {
                t.f.reset();
                t.past = [(0.0, 0.0, t.w); 2];
                last = 0.0;
                c.same_bits("at rest", t.f.value().d(), 0.0);
                c.ok(t.f == Biquad::new(t.f.coefficients()), "at rest", String::new);
                c.hit("put to rest");
            }
            2 => {
                let v = T::t(c.f(-s, s)).d();
                t.f.settle_to(T::t(v));
                let y = t.f.value().d();
                let (num, den) = (dd(t.w.0[0]) + dd(t.w.0[1]) + dd(t.w.0[2]), dd(1.0) + dd(t.w.1[0]) + dd(t.w.1[1]));
                let want = (dd(v) * num / den).f();
                let k = 8.0 * e / den.f().abs();
                let sw: f64 = t.w.0.iter().map(|x| x.abs()).sum();
                c.near("where a steady input leaves it", y, want, k * (v.abs() * sw + want.abs() * (1.0 + t.w.1[0].abs() + t.w.1[1].abs())) + 1e-300);
                t.past = [(v, y, t.w); 2];
                last = y;
                // and it stays there
                let mut g = t.f;
                let m = c.us(1, 20);
                let (_, mag) = t.expect(v);
                // Everything a rounding error at one step does to the outputs after it.
                let (mut h, mut h1, mut h2) = (0.0, 1.0, 0.0);
                for _ in 0..=m {
                    h += f64::abs(h1);
                    (h1, h2) = (-(t.w.1[0] * h1 + t.w.1[1] * h2), h1);
                }
                for _ in 0..m {
                    let z = g.filter(T::t(v)).d();
                    c.near("settled filters stay put", z, y, 32.0 * e * mag * h / den.f().abs().min(1.0));
                }
                c.hit("settled");
            }
            3 => {
                let a = t.f.value().d();
                c.eq("reading the output changes nothing", a, last);
                c.eq("weights kept", cf(&t.f.coefficients()), t.w);
            }
            _ => {
                let x = T::t(if c.p(0.1) { 0.0 } else { c.f(-s, s) }).d();
                let (want, mag) = t.expect(x);
                let y = t.f.filter(T::t(x)).d();
                c.near("next output", y, want.f(), 8.0 * e * mag + 1e-300);
                c.eq("value", t.f.value().d(), y);
                t.push(x, y);
                last = y;
                c.hit("samples filtered");
            }
        }
    }
}
/// A steady oscillation comes out as the response says it will.
fn steady<T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let dt = T::t(c.lu(-3.5, 0.0)).d();
    let bs: [BiquadCoefficients<T>; 3] = core::array::from_fn(|_| gen_weights::<T>(c, dt));
    let mut slow = 0f64;
    for b in &bs {
        let w = cf(b);
        let disc = w.1[0] * w.1[0] - 4.0 * w.1[1];
        slow = slow.max(if disc < 0.0 { w.1[1].sqrt() } else { (w.1[0].abs() + disc.sqrt()) * 0.5 });
    }
    if slow > 0.97 {
        c.discard();
    }
    let mut k = BiquadCascade::<3, T>::new(bs);
    c.ok(k.is_stable(), "every section settles", String::new);
    let f = T::t(c.f(0.003, 0.49) / dt).d();
    let (m, p) = (k.magnitude_at(T::t(f)).d(), k.phase_at(T::t(f)).d());
    let (mut wm, mut wp, mut peak, mut amp) = (1.0, 0.0, 1.0f64, 1.0f64);
    for b in &bs {
        let g = b.magnitude_at(T::t(f)).d();
        wm *= g;
        wp += b.phase_at(T::t(f)).d();
        let w = cf(b);
        let gain = w.0.iter().map(|x| x.abs()).sum::<f64>() / (1.0 - slow).powi(2);
        amp *= gain.max(1.0);
        peak = peak.max(amp);
    }
    c.near("sections multiply", m, wm, 8.0 * e * wm);
    c.near("phases add", p, wp, 32.0 * e);
    let db = k.magnitude_in_decibels_at(T::t(f)).d();
    if m > 0.0 {
        c.near("decibels", db, 20.0 * m.log10(), 16.0 * e * (db.abs() + 20.0));
    }
    let dl = k.delay_at(T::t(f)).d();
    c.near("delay", dl, -p / (core::f64::consts::TAU * f), 8.0 * e * dl.abs());
    c.same_bits("no delay at rest", k.delay_at(T::t(0.0)).d(), 0.0);
    let n = ((1e-9f64.ln() / slow.max(0.05).ln()) * 1.6) as usize + 60;
    let om = core::f64::consts::TAU * f * dt;
    let ph = c.f(0.0, 6.28);
    let tol = 4e-8 * peak + 64.0 * e * peak * (1.0 + n as f64 * 0.05) / (1.0 - slow);
    c.note("hz, weights, magnitude, tolerance", &(f, bs.iter().map(cf).collect::<Vec<_>>(), m, tol));
    let mut worst = 0f64;
    for i in 0..n + 24 {
        let a = om * i as f64 + ph;
        let y = k.filter(T::t(a.cos())).d();
        if i >= n {
            worst = worst.max((y - m * (a + p).cos()).abs());
        }
    }
    c.ok(worst <= tol, "a steady oscillation comes out as the response says", || format!("off by {worst}, tolerance {tol}"));
    if tol < 0.05 * m {
        c.hit("steady oscillations");
    }
}
fn chains<T: Fl>(c: &mut Case) {
    let dt = 0.01;
    let bs: [BiquadCoefficients<T>; 4] = core::array::from_fn(|_| gen_weights::<T>(c, dt));
    let mut k = BiquadCascade::<4, T>::new(bs);
    let mut each = bs.map(Biquad::new);
    let mut chan = MultiChannelBiquad::<3, T>::new(bs[0]);
    let mut lone = [Biquad::new(bs[0]); 3];
    c.same_bits("starts at rest", k.value().d(), 0.0);
    let n = c.us(4, 50);
    for _ in 0..n {
        let e = T::EPS;
        match c.us(0, 15) {
            0 => {
                let b = gen_weights::<T>(c, dt);
                let i = c.us(0, 5);
                let r = k.set_section(i, b);
                if i < 4 {
                    c.get("swap", r);
                    each[i].set_coefficients(b);
                } else {
                    c.eq("no such section", r.err(), Some(E::SectionIndexOutOfRange));
                    c.hit("missing sections");
                }
                chan.set_coefficients(b);
                for f in lone.iter_mut() {
                    f.set_coefficients(b);
                }
            }
            1 => {
                k.reset();
                chan.reset();
                each.iter_mut().chain(lone.iter_mut()).for_each(|f| f.reset());
            }
            2 => {
                let v: [f64; 3] = c.arr(|c| c.f(-5.0, 5.0));
                k.settle_to(T::t(v[0]));
                let mut x = T::t(v[0]);
                for f in each.iter_mut() {
                    f.settle_to(x);
                    x = f.value();
                }
                chan.settle_to(Vector::new(v.map(T::t)));
                for i in 0..3 {
                    lone[i].settle_to(T::t(v[i]));
                }
                c.hit("chains settled");
            }
            _ => {
                let v: [f64; 3] = c.arr(|c| c.f(-5.0, 5.0));
                let y = k.filter(T::t(v[0])).d();
                let mut x = T::t(v[0]);
                for f in each.iter_mut() {
                    x = f.filter(x);
                }
                c.near("one section after another", y, x.d(), 16.0 * e * x.d().abs() + 1e-300);
                let out = chan.filter(Vector::new(v.map(T::t)));
                for i in 0..3 {
                    let w = lone[i].filter(T::t(v[i])).d();
                    c.near("every channel on its own", out[i].d(), w, 16.0 * e * w.abs() + 1e-300);
                }
                c.hit("chained samples");
            }
        }
        c.eq("the last section's output", k.value().d(), each[3].value().d());
        c.eq("stable when every section is", k.is_stable(), each.iter().all(|f| f.coefficients().is_stable()));
        let v = chan.value();
        for i in 0..3 {
            c.eq("channel value", v[i].d(), lone[i].value().d());
        }
    }
    // A notch on every harmonic.
    let f = T::t(c.f(0.005, 0.2)).d();
    let q = T::t(c.f(1.0, 20.0)).d();
    let r = harmonic_notch_coefficients::<4, T>(T::t(f), T::t(q), T::t(1.0));
    if f * 4.0 >= 0.5 {
        c.eq("top harmonic too fast", r.err(), Some(E::FrequencyOutOfRange));
        c.hit("harmonics refused");
    } else if f * 4.0 < 0.5 - 1e-3 || r.is_ok() {
        let h = c.get("harmonics", r);
        for (i, b) in h.iter().enumerate() {
            let w = c.get("notch", BiquadCoefficients::notch(T::t(f) * T::t((i + 1) as f64), T::t(q), T::t(1.0)));
            c.eq("a notch on each harmonic", cf(b), cf(&w));
        }
        c.hit("harmonics");
    }
}

// ---- simple blocks ----
fn one_pole<T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let s;
    let mut f = if c.p(0.5) {
        s = T::t(if c.p(0.2) { c.pick(&[0.0, 1.0, 0.5]) } else { c.unit() }).d();
        c.get("one pole", OnePoleLowPass::new(T::t(s)))
    } else {
        let (hz, dt) = (T::t(if c.p(0.1) { 0.0 } else { c.lu(-3.0, 5.0) }).d(), T::t(c.lu(-5.0, 1.0)).d());
        let a = pi2() * dd(hz) * dd(dt);
        s = (a / (a + dd(1.0))).f();
        c.hit("smoothing from a cutoff");
        c.get("one pole", OnePoleLowPass::from_cutoff(T::t(hz), T::t(dt)))
    };
    c.note("smoothing", &s);
    c.same_bits("empty", f.value().d(), 0.0);
    let mut prev: Option<f64> = None;
    for _ in 0..c.us(1, 40) {
        if c.p(0.05) {
            f.reset();
            prev = None;
            c.same_bits("cleared", f.value().d(), 0.0);
            continue;
        }
        let x = T::t(c.ls(-3.0, 3.0)).d();
        let y = f.filter(T::t(x)).d();
        match prev {
            None => c.eq("starts at the first sample", y, x),
            Some(p) => {
                let w = dd(p) + (dd(x) - dd(p)) * dd(s);
                c.near("blend", y, w.f(), 16.0 * e * (x.abs() + p.abs()));
                let t = 8.0 * e * (x.abs() + p.abs());
                c.ok(y >= x.min(p) - t && y <= x.max(p) + t, "between the two", || format!("{y} of {p} and {x}"));
            }
        }
        c.eq("value", f.value().d(), y);
        prev = Some(y);
        c.hit("blends");
    }
}
fn conditioning<T: Fl>(c: &mut Case) {
    let e = T::EPS;
    // Deadband.
    let th = T::t(if c.p(0.15) { 0.0 } else { c.lu(-3.0, 2.0) }).d();
    let (p, r) = (c.get("plain", Deadband::plain(T::t(th))), c.get("recentered", Deadband::recentered(T::t(th))));
    c.eq("threshold", (p.threshold().d(), r.threshold().d()), (th, th));
    for _ in 0..8 {
        let x = T::t(if c.p(0.15) { th * c.pick(&[1.0, -1.0]) } else { th * c.ls(-1.0, 1.0) + c.pick(&[0.0, 0.0, 1.0, -1.0]) }).d();
        let (a, b) = (p.apply(T::t(x)).d(), r.apply(T::t(x)).d());
        if x.abs() <= th {
            c.ok(a == 0.0 && b == 0.0, "inside the band is nothing", || format!("{x} in {th}: {a} {b}"));
            c.hit("inside the band");
        } else {
            c.eq("outside passes untouched", a, x);
            let w = x - th.copysign(x);
            c.near("outside slides back", b, w, 2.0 * e * w.abs());
            c.ok(b * x >= 0.0 && b.abs() <= x.abs(), "never past zero", || format!("{x} {b}"));
            c.hit("outside the band");
        }
    }
    // Switch.
    let lo = T::t(c.f(-2.0, 2.0)).d();
    let hi = T::t(lo + c.lu(-3.0, 0.5)).d();
    if lo < hi {
        let mut h = c.get("switch", Hysteresis::new(T::t(lo), T::t(hi)));
        c.eq("starts as no", h.is_high(), false);
        let mut on = false;
        for _ in 0..20 {
            if c.p(0.05) {
                h.reset();
                on = false;
            } else {
                let x = T::t(match c.us(0, 5) {
                    0 => lo,
                    1 => hi,
                    2 => c.f(lo, hi),
                    _ => c.f(lo - 1.0, hi + 1.0),
                }).d();
                let was = on;
                if x > hi {
                    on = true;
                } else if x < lo {
                    on = false;
                }
                c.eq("switch", h.update(T::t(x)), on);
                if was != on {
                    c.hit("switched");
                } else if x >= lo && x <= hi {
                    c.hit("held");
                }
            }
            c.eq("switch state", h.is_high(), on);
        }
    }
    // Slew limit.
    let (up, down, dt) = (T::t(c.lu(-2.0, 2.0)).d(), T::t(c.lu(-2.0, 2.0)).d(), T::t(c.lu(-3.0, 0.0)).d());
    let sym = c.p(0.3);
    let down = if sym { up } else { down };
    let r = if sym { SlewRateLimiter::symmetric(T::t(up), T::t(dt)) } else { SlewRateLimiter::new(T::t(up), T::t(down), T::t(dt)) };
    let mut l = c.get("slew", r);
    let mut at: Option<f64> = None;
    let mut x = 0.0;
    for _ in 0..24 {
        if c.p(0.05) {
            l.reset();
            at = None;
            c.same_bits("cleared", l.value().d(), 0.0);
        }
        if c.p(0.4) {
            x = T::t(at.unwrap_or(0.0) + (up + down) * dt * c.ls(-1.0, 1.0)).d();
        }
        let y = l.filter(T::t(x)).d();
        c.eq("value", l.value().d(), y);
        if let Some(p) = at {
            let t = 4.0 * e * (x.abs() + p.abs() + y.abs());
            let w = if x - p > up * dt {
                c.hit("climbing at the limit");
                p + up * dt
            } else if x - p < -down * dt {
                c.hit("falling at the limit");
                p - down * dt
            } else {
                c.hit("arrived");
                x
            };
            c.near("moves no faster than allowed", y, w, t);
        } else {
            c.eq("jumps to its first target", y, x);
        }
        at = Some(y);
    }
}
fn window<const W: usize, T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let mut m = c.get("mean", MovingAverage::<W, T>::new());
    let mut d = c.get("median", RunningMedian::<W, T>::new());
    let mut past: Vec<f64> = vec![];
    let s = c.lu(-2.0, 4.0);
    let n = if c.p(0.1) { 400 } else { c.us(1, 3 * W + 4) };
    let ties = c.p(0.3);
    for _ in 0..n {
        if c.p(0.02) {
            m.reset();
            d.reset();
            past.clear();
            c.ok(m.value().d() == 0.0 && d.value().d() == 0.0, "cleared", String::new);
            continue;
        }
        let x = T::t(if ties { c.int(-2, 2) as f64 } else if c.p(0.05) { s * c.ls(0.0, 6.0) } else { c.f(-s, s) }).d();
        if past.is_empty() {
            past = vec![x; W];
        } else {
            past.remove(0);
            past.push(x);
        }
        let (a, b) = (m.filter(T::t(x)).d(), d.filter(T::t(x)).d());
        c.eq("values", (m.value().d(), d.value().d()), (a, b));
        let sum = past.iter().fold(dd(0.0), |t, v| t + dd(*v));
        let mag: f64 = past.iter().map(|v| v.abs()).sum();
        c.near("mean of the window", a, (sum / dd(W as f64)).f(), (W as f64 + 2.0) * e * mag / W as f64 + 1e-300);
        let mut so = past.clone();
        so.sort_by(|a, b| a.partial_cmp(b).unwrap());
        c.ok(b == so[W / 2], "middle of the window", || format!("{b} of {so:?}"));
        c.hit("windows");
    }
}
/// The weights a fit of `n` terms gives to samples at offsets measured in samples.
fn fit(w: usize, n: usize, read: usize) -> Option<Vec<Vec<DD>>> {
    let u = |i: usize| dd(i as f64) - dd(read as f64);
    let sc = dd(w as f64);
    let mut v = RM::zeros(w, n);
    for i in 0..w {
        for j in 0..n {
            *v.at_mut(i, j) = (u(i) / sc).powi_(j as i32);
        }
    }
    let inv = v.t().mul(&v).inv()?;
    let p = inv.mul(&v.t());
    Some((0..n).map(|j| (0..w).map(|i| p.at(j, i) / sc.powi_(j as i32)).collect()).collect())
}
fn golay<const W: usize, const N: usize, T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let dt = T::t(c.lu(-4.0, 0.5)).d();
    let mid = W % 2 == 1 && c.p(0.5);
    let r = if mid { SavitzkyGolay::<W, N, T>::centered(T::t(dt)) } else { SavitzkyGolay::<W, N, T>::latest(T::t(dt)) };
    let mut g = c.get("fit", r);
    let read = if mid { (W - 1) / 2 } else { W - 1 };
    c.note("window, terms, centred, timestep", &(W, N, mid, dt));
    c.near("delay", g.delay().d(), (W - 1 - read) as f64 * dt, 4.0 * e * dt * W as f64);
    let k = c.some("weights", fit(W, N, read));
    let mut past: Vec<f64> = vec![];
    let n = c.us(1, 2 * W + 2);
    // A sum of weighted samples is good to the size of its terms, and the weights to a few
    // rounding errors of the largest of them.
    let poly: [f64; 6] = c.arr(|c| c.f(-1.0, 1.0));
    let clean = c.p(0.4);
    let cond = if N > 4 { 32.0 } else { 4.0 };
    for i in 0..n {
        if c.p(0.02) {
            g.reset();
            past.clear();
            c.ok(g.value().d() == 0.0 && g.first_derivative().d() == 0.0, "cleared", String::new);
            continue;
        }
        let u = i as f64 / W as f64;
        let x = T::t(if clean { (0..N).map(|j| poly[j] * u.powi(j as i32)).sum() } else { c.f(-3.0, 3.0) }).d();
        if past.is_empty() {
            past = vec![x; W];
        } else {
            past.remove(0);
            past.push(x);
        }
        let y = g.filter(T::t(x)).d();
        c.eq("value", g.value().d(), y);
        let row = |j: usize, f: f64| -> (f64, f64) {
            if j >= N {
                return (0.0, 0.0);
            }
            let h = dd(dt).powi_(j as i32);
            let s = k[j].iter().zip(&past).fold((dd(0.0), 0.0), |s, (a, b)| (s.0 + *a * dd(*b), s.1 + (a.f() * b).abs()));
            let big = k[j].iter().map(|a| a.f().abs()).sum::<f64>() * past.iter().fold(0.0f64, |m, v| m.max(v.abs()));
            ((s.0 / h).f() * f, big / h.f() * f)
        };
        for (j, got, f) in [(0, y, 1.0), (1, g.first_derivative().d(), 1.0), (2, g.second_derivative().d(), 2.0)] {
            let (w, big) = row(j, f);
            let t = 16.0 * e * cond * (W as f64).sqrt() * big + 1e-300;
            let tag = ["smoothed value", "slope", "bend"][j];
            if vmon_trace() && big > 0.0 {
                let r = (got - w).abs() / (e * (W as f64).sqrt() * big);
                if r > 1.0 {
                    eprintln!("W={W} N={N} mid={mid} f32={} {tag} ratio {r:.1} x{:.1}", T::F32, r / cond);
                }
            }
            c.near(tag, got, w, t);
        }
        c.hit(if mid { "fits in the middle" } else { "fits at the newest" });
        if clean && i + 1 >= W && past.len() == W {
            c.hit("curves followed");
        }
    }
}
fn vmon_trace() -> bool {
    std::env::var("C30_TRACE").is_ok()
}

fn main() {
    vmon::run("C30", |s| {
        s.rule("filter weights and measured response vs double-double closed forms (gain at dc/centre/cutoff, half-power edges); every output vs the difference equation over recorded inputs and outputs; steady oscillations vs magnitude/phase; windows vs sorted/summed recorded samples; fits vs double-double least squares");
        s.assume("frequencies from 1e-6 (1e-3.2 at f32) of the sampling rate up to half of it, sharpness 0.03 to 100, filters with every pole inside 0.98 for the running checks");
        macro_rules! both {
            ($n:literal,$q:expr,$f:expr,$g:expr) => {
                s.monitor($n, $q, 20, |c| if c.p(0.35) { $f(c) } else { $g(c) })
            };
        }
        both!("design", 160000, design::<f32>, design::<f64>);
        both!("refused", 24000, design_refused::<f32>, design_refused::<f64>);
        both!("response", 160000, response::<f32>, response::<f64>);
        both!("running", 40000, running::<f32>, running::<f64>);
        both!("steady", 12000, steady::<f32>, steady::<f64>);
        both!("chains", 24000, chains::<f32>, chains::<f64>);
        both!("one-pole", 60000, one_pole::<f32>, one_pole::<f64>);
        both!("conditioning", 60000, conditioning::<f32>, conditioning::<f64>);
        both!("window-1", 6000, window::<1, f32>, window::<1, f64>);
        both!("window-5", 24000, window::<5, f32>, window::<5, f64>);
        both!("window-11", 12000, window::<11, f32>, window::<11, f64>);
        both!("window-31", 6000, window::<31, f32>, window::<31, f64>);
        both!("fit-1-1", 2000, golay::<1, 1, f32>, golay::<1, 1, f64>);
        both!("fit-3-3", 6000, golay::<3, 3, f32>, golay::<3, 3, f64>);
        both!("fit-5-2", 6000, golay::<5, 2, f32>, golay::<5, 2, f64>);
        both!("fit-6-3", 6000, golay::<6, 3, f32>, golay::<6, 3, f64>);
        both!("fit-7-4", 6000, golay::<7, 4, f32>, golay::<7, 4, f64>);
        both!("fit-11-3", 6000, golay::<11, 3, f32>, golay::<11, 3, f64>);
        both!("fit-21-4", 2000, golay::<21, 4, f32>, golay::<21, 4, f64>);
        both!("fit-31-3", 2000, golay::<31, 3, f32>, golay::<31, 3, f64>);
        both!("fit-25-5", 2000, golay::<25, 5, f32>, golay::<25, 5, f64>);
        for (e, n) in [
            ("designed", 20000),
            ("bands measured", 8000),
            ("bands too wide", 200),
            ("phases", 20000),
            ("settling", 20000),
            ("growing", 20000),
            ("samples filtered", 200000),
            ("weights swapped", 5000),
            ("settled", 5000),
            ("steady oscillations", 1000),
            ("missing sections", 500),
            ("harmonics", 2000),
            ("harmonics refused", 2000),
            ("held", 2000),
            ("switched", 2000),
            ("climbing at the limit", 5000),
            ("falling at the limit", 5000),
            ("arrived", 5000),
            ("windows", 50000),
            ("curves followed", 5000),
        ] {
            s.require(e, n);
        }
    });
}
