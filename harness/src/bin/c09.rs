//! C09: line and flux integrals along parametrized curves.
use core::cell::{Cell, RefCell};
use multicalc::error::IntegrateError;
use multicalc::vector_field::*;
use vmon::*;

fn hash(mut h: u64, k: u64) -> u64 {
    h ^= k.wrapping_add(0x9E3779B97F4A7C15).wrapping_mul(0xBF58476D1CE4E5B9);
    h = (h ^ (h >> 30)).wrapping_mul(0x94D049BB133111EB);
    h ^ (h >> 29)
}
fn hv(h: u64) -> f64 {
    ((h >> 20) & 0xFFFFF) as f64 / 0x80000 as f64 - 1.0
}
fn limits<T: Fl>(c: &mut Case) -> [f64; 2] {
    let s = if c.p(0.8) { 3.0 } else { c.lu(-3.0, 3.0) };
    let a = T::t(c.f(-s, s)).d();
    [a, T::t(a + c.f(0.1, 2.0) * s).d()]
}
/// Which coordinate each field component is paired with, and its sign.
fn terms(n: usize, flux: bool, part: Option<usize>) -> Vec<(usize, usize, f64)> {
    if let Some(i) = part {
        return vec![(i, i, 1.0)];
    }
    match (n, flux) {
        (2, false) => vec![(0, 0, 1.0), (1, 1, 1.0)],
        (3, false) => vec![(0, 0, 1.0), (1, 1, 1.0), (2, 2, 1.0)],
        (2, true) => vec![(0, 1, 1.0), (1, 0, -1.0)],
        _ => vec![(0, 0, 1.0), (1, 1, -1.0), (2, 2, -1.0)],
    }
}
/// Random tabulated curves and fields: every node and pairing is identified exactly.
fn tabulated<T: Fl>(c: &mut Case) {
    let three = c.p(0.5);
    let flux = c.p(0.5);
    let part = if c.p(0.3) { Some(c.us(0, if three { 2 } else { 1 })) } else { None };
    let dims = if three { 3 } else { 2 };
    let n = if c.p(0.2) { 120 } else { c.us(1, 200) as u64 };
    let lim = limits::<T>(c);
    let h = (lim[1] - lim[0]) / n as f64;
    let drift = T::EPS * 2.0 * n as f64 * (lim[0].abs() + lim[1].abs());
    if drift > 0.3 * h {
        c.discard()
    }
    let salt = c.u64();
    let base = if c.p(0.5) { 0.0 } else { c.ls(-1.0, 2.0) };
    c.note("integral", &(dims, flux, part, n, lim, base));
    let stray = RefCell::new(None);
    let curve_at = |axis: usize, k: i64| T::t(base + hv(hash(hash(salt, axis as u64), k as u64)));
    let at = |axis: usize, t: T| {
        let k = ((t.d() - lim[0]) / h).round();
        if !((t.d() - (lim[0] + k * h)).abs() <= drift) || k < 0.0 || k > n as f64 {
            *stray.borrow_mut() = Some(t.d());
        }
        curve_at(axis, k as i64)
    };
    let field = |comp: usize, p: &[T]| {
        let mut q = hash(salt, 77 + comp as u64);
        for v in p {
            q = hash(q, v.d().to_bits());
        }
        T::t(hv(q))
    };
    let (x, y, z) = (|t: T| at(0, t), |t: T| at(1, t), |t: T| at(2, t));
    let tl = [T::t(lim[0]), T::t(lim[1])];
    let default = n == 120 && part.is_none();
    let (got, got_default) = if three {
        let (a, b, e) = (|p: &[T; 3]| field(0, p), |p: &[T; 3]| field(1, p), |p: &[T; 3]| field(2, p));
        let vf: [&dyn Fn(&[T; 3]) -> T; 3] = [&a, &b, &e];
        let tr: [&dyn Fn(T) -> T; 3] = [&x, &y, &z];
        match part {
            Some(i) => (line_integral_partial_3d(&vf, &tr, &tl, n, i), None),
            None if flux => (flux_integral_3d_custom(&vf, &tr, &tl, n), default.then(|| flux_integral_3d(&vf, &tr, &tl))),
            None => (line_integral_3d_custom(&vf, &tr, &tl, n), default.then(|| line_integral_3d(&vf, &tr, &tl))),
        }
    } else {
        let (a, b) = (|p: &[T; 2]| field(0, p), |p: &[T; 2]| field(1, p));
        let vf: [&dyn Fn(&[T; 2]) -> T; 2] = [&a, &b];
        let tr: [&dyn Fn(T) -> T; 2] = [&x, &y];
        match part {
            Some(i) => (line_integral_partial_2d(&vf, &tr, &tl, n, i), None),
            None if flux => (flux_integral_2d_custom(&vf, &tr, &tl, n), default.then(|| flux_integral_2d(&vf, &tr, &tl))),
            None => (line_integral_2d_custom(&vf, &tr, &tl, n), default.then(|| line_integral_2d(&vf, &tr, &tl))),
        }
    };
    let got = c.get("integral", got).d();
    c.ok(stray.borrow().is_none(), "parameter", || format!("curve sampled at {:?}, no node of the partition", stray.borrow()));
    if let Some(g) = got_default {
        let g = c.get("default", g).d();
        c.same_bits("default", g, got);
    }
    let (mut want, mut mag) = (dd(0.0), 0.0);
    for (comp, axis, sign) in terms(dims, flux && part.is_none(), part) {
        for k in 0..n as i64 {
            let pl: Vec<T> = (0..dims).map(|a| curve_at(a, k)).collect();
            let pr: Vec<T> = (0..dims).map(|a| curve_at(a, k + 1)).collect();
            let (l, r) = (field(comp, &pl).d(), field(comp, &pr).d());
            let step = dd(pr[axis].d()) - dd(pl[axis].d());
            let t = step * (dd(l) + dd(r)) * dd(0.5 * sign);
            want = want + t;
            mag += t.f().abs() + T::EPS * (pr[axis].d().abs() + pl[axis].d().abs()) * (l.abs() + r.abs());
        }
    }
    c.near(if flux { "flux" } else { "line" }, got, want.f(), T::EPS * (n as f64 + 12.0) * mag + 1e-300);
    c.hit(if flux && part.is_none() { "flux integral" } else { "line integral" });
}
/// Fields with exact answers: potentials, and linear fields around closed polygons.
fn exact<T: Fl>(c: &mut Case) {
    let n = c.us(3, 400) as u64;
    let (ra, rb, ph) = (c.f(0.2, 3.0), c.f(0.2, 3.0), c.f(-3.0, 3.0));
    let (cx, cy) = (c.f(-2.0, 2.0), c.f(-2.0, 2.0));
    let dir = c.sign();
    let x = |t: T| T::t(cx) + T::t(ra) * t.cos();
    let y = |t: T| T::t(cy) + T::t(rb * dir) * t.sin();
    let tr: [&dyn Fn(T) -> T; 2] = [&x, &y];
    let tl = [T::t(ph), T::t(ph + std::f64::consts::TAU)];
    let m: [f64; 4] = c.arr(|c| c.f(-2.0, 2.0));
    let k: [f64; 2] = c.arr(|c| c.f(-2.0, 2.0));
    let mt = m.map(T::t);
    let kt = k.map(T::t);
    let fx = |p: &[T; 2]| mt[0] * p[0] + mt[1] * p[1] + kt[0];
    let fy = |p: &[T; 2]| mt[2] * p[0] + mt[3] * p[1] + kt[1];
    let vf: [&dyn Fn(&[T; 2]) -> T; 2] = [&fx, &fy];
    c.note("ellipse", &(n, ra, rb, ph, cx, cy, dir, m, k));
    // Area of the inscribed polygon, signed by direction.
    let nf = n as f64;
    let area = dir * 0.5 * nf * ra * rb * (std::f64::consts::TAU / nf).sin();
    let tol = T::EPS * 60.0 * nf.max(20.0) * (ra + rb + cx.abs() + cy.abs()).powi(2) * 8.0;
    let g = line_integral_2d_custom(&vf, &tr, &tl, n);
    let g = c.get("green", g).d();
    c.near("green-circulation", g, (m[2] - m[1]) * area, tol);
    let g = flux_integral_2d_custom(&vf, &tr, &tl, n);
    let g = c.get("green", g).d();
    c.near("green-flux", g, (m[0] + m[3]) * area, tol);
    // Constant field in 3D: displacement only.
    let q: [f64; 3] = c.arr(|c| c.f(-2.0, 2.0));
    let qt = q.map(T::t);
    let z = |t: T| T::t(0.7) * t * t;
    let tr3: [&dyn Fn(T) -> T; 3] = [&x, &y, &z];
    let (a, b, e) = (|_: &[T; 3]| qt[0], |_: &[T; 3]| qt[1], |_: &[T; 3]| qt[2]);
    let vf3: [&dyn Fn(&[T; 3]) -> T; 3] = [&a, &b, &e];
    let hi = ph + c.f(0.2, 5.0);
    let tl3 = [T::t(ph), T::t(hi)];
    let g = line_integral_3d_custom(&vf3, &tr3, &tl3, n);
    let g = c.get("constant", g).d();
    let want = q[0] * (ra * (hi.cos() - ph.cos())) + q[1] * rb * dir * (hi.sin() - ph.sin()) + q[2] * 0.7 * (hi * hi - ph * ph);
    c.near("constant-field", g, want, tol * 40.0);
    // Along the same curve backwards, through the same nodes, the integral changes sign.
    let xr = |t: T| x(-t);
    let yr = |t: T| y(-t);
    let trr: [&dyn Fn(T) -> T; 2] = [&xr, &yr];
    let f = line_integral_2d_custom(&vf, &tr, &tl3, n);
    let f = c.get("forward", f).d();
    let g = line_integral_2d_custom(&vf, &trr, &[-tl3[1], -tl3[0]], n);
    let g = c.get("backward", g).d();
    c.near("reversal", g, -f, tol * 4.0);
    c.hit("exact curve integral");
}
fn refusals<T: Fl>(c: &mut Case) {
    let (x, y) = (c.maybe_hostile(0.5), c.maybe_hostile(0.5));
    let l = c.pick(&[[x, y], [y, x], [x, x], [f64::NAN, x], [x, f64::NAN]]);
    let l = [T::t(l[0]), T::t(l[1])];
    let calls = Cell::new(0);
    let f = |_: &[T; 2]| T::ONE;
    let t = |v: T| {
        calls.set(calls.get() + 1);
        v * T::ZERO
    };
    let f3 = |_: &[T; 3]| T::ONE;
    let vf: [&dyn Fn(&[T; 2]) -> T; 2] = [&f, &f];
    let tr: [&dyn Fn(T) -> T; 2] = [&t, &t];
    let vf3: [&dyn Fn(&[T; 3]) -> T; 3] = [&f3, &f3, &f3];
    let tr3: [&dyn Fn(T) -> T; 3] = [&t, &t, &t];
    let bad = !(l[0] < l[1]);
    let want = if bad { Some(IntegrateError::LimitsIllDefined) } else { None };
    c.note("limits", &l);
    let n = 1 + c.us(0, 4) as u64;
    c.eq("limits", line_integral_2d(&vf, &tr, &l).err(), want);
    c.eq("limits", flux_integral_2d(&vf, &tr, &l).err(), want);
    c.eq("limits", line_integral_3d(&vf3, &tr3, &l).err(), want);
    c.eq("limits", flux_integral_3d(&vf3, &tr3, &l).err(), want);
    c.eq("limits", line_integral_2d_custom(&vf, &tr, &l, n).err(), want);
    c.eq("limits", flux_integral_3d_custom(&vf3, &tr3, &l, n).err(), want);
    if bad {
        c.eq("no-sampling", calls.get(), 0);
        c.hit("ill-defined limits refused");
    }
    let e = Some(IntegrateError::IterationsZero);
    let g = [T::ZERO, T::ONE];
    c.eq("zero", line_integral_2d_custom(&vf, &tr, &g, 0).err(), e);
    c.eq("zero", flux_integral_2d_custom(&vf, &tr, &g, 0).err(), e);
    c.eq("zero", line_integral_3d_custom(&vf3, &tr3, &g, 0).err(), e);
    c.eq("zero", flux_integral_3d_custom(&vf3, &tr3, &g, 0).err(), e);
    c.eq("zero", line_integral_partial_3d(&vf3, &tr3, &g, 0, 2).err(), e);
    let i = c.us(0, 6);
    c.eq("index", line_integral_partial_2d(&vf, &tr, &g, n, i).err(), if i > 1 { Some(IntegrateError::IndexOutOfRange) } else { None });
    c.eq("index", line_integral_partial_3d(&vf3, &tr3, &g, n, i).err(), if i > 2 { Some(IntegrateError::IndexOutOfRange) } else { None });
}
fn main() {
    vmon::run("C09", |s| {
        s.rule("A case counts when a line or flux integral of a tabulated (node-identifying) or closed-form field was compared with its definition, or a refusal was checked; distinct = distinct fields, curves and partitions.");
        s.monitor("tabulated", 100000, 20, |c| if c.p(0.3) { tabulated::<f32>(c) } else { tabulated::<f64>(c) });
        s.monitor("exact", 60000, 20, |c| if c.p(0.3) { exact::<f32>(c) } else { exact::<f64>(c) });
        s.monitor("refusals", 30000, 20, |c| if c.p(0.3) { refusals::<f32>(c) } else { refusals::<f64>(c) });
        for (e, n) in [("flux integral", 20000), ("line integral", 20000), ("exact curve integral", 20000), ("ill-defined limits refused", 5000)] {
            s.require(e, n);
        }
    })
}
