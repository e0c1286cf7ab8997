//! Shared oracle for Kalman-type filters: one reading folded in, in double-double.
use crate::*;
use multicalc::error::EstimationError as E;

pub fn rnd<T: Fl>(m: RM) -> RM {
    m.rounded::<T>()
}
pub fn rmat<T: Fl>(c: &mut Case, r: usize, k: usize, s: f64) -> RM {
    let z = c.f(0.0, 0.5);
    RM::from_fn(r, k, |_, _| T::t(if c.p(z) { 0.0 } else { c.f(-s, s) }).d())
}
pub fn rcol<T: Fl>(c: &mut Case, n: usize, s: f64) -> RM {
    RM::from_fn(n, 1, |_, _| T::t(c.f(-s, s)).d())
}
/// A covariance with a spread of sizes, exactly symmetric in the scalar.
pub fn cov<T: Fl>(c: &mut Case, n: usize) -> RM {
    let w = if T::F32 { 1.0 } else { 2.0 };
    let mid = c.f(-2.0, 2.0);
    let (lo, hi) = (mid - c.f(0.0, w), mid + c.f(0.0, w));
    let m = gen_spd(c, n, lo, hi);
    sym::<T>(&m)
}
pub fn sym<T: Fl>(m: &RM) -> RM {
    RM::from_fn(m.r, m.r, |i, j| T::t(if i <= j { m.f(i, j) } else { m.f(j, i) }).d())
}
pub fn mx(m: &RM) -> f64 {
    m.maxabs()
}
pub fn close(c: &mut Case, tag: &str, got: &RM, want: &RM, tol: f64) {
    for i in 0..got.r {
        for j in 0..got.c {
            c.near(tag, got.f(i, j), want.f(i, j), tol);
        }
    }
}
pub fn lowest(m: &RM) -> f64 {
    m.sym_eig().into_iter().fold(f64::INFINITY, f64::min)
}

/// One reading folded into an estimate, worked out from scratch.
pub struct Fold {
    pub x: RM,
    pub p: RM,
    pub s: RM,
    pub y: RM,
    /// How far rounding can move the state, the covariance and the spread of the residual.
    pub tx: f64,
    pub tp: f64,
    pub ts: f64,
    /// How far a lopsided covariance can be passed on.
    pub keep: f64,
}
#[allow(clippy::too_many_arguments)]
pub fn fold<T: Fl>(x: &RM, p: &RM, h: &RM, habs: f64, r: &RM, y: RM, yabs: f64, joseph: bool) -> Option<Fold> {
    let (n, k) = (p.r as f64, r.r as f64);
    let s = h.mul(p).mul(&h.t()).add(r);
    let low = lowest(&s);
    let ts = T::EPS * (n + k) * (habs * habs * mx(p) * n * n + mx(r));
    if low <= 0.0 || ts > 1e-3 * low {
        return None;
    }
    let g = s.inv()?.mul(&h.mul(&p.t())).t();
    let res = RM::eye(p.r).sub(&g.mul(h));
    let np = if joseph { res.mul(p).mul(&res.t()).add(&g.mul(r).mul(&g.t())) } else { res.mul(p) };
    let e = T::EPS * 64.0 * (n + k);
    // How far the gain itself can be off.
    let dg = 4.0 * (e * habs * mx(p) * n + mx(&g) * (ts * 64.0 + e * mx(&s) + habs * habs * n * n * lopsided(p)) * k) / low * k;
    let gm = mx(&g) + dg;
    let nx = x.add(&g.mul(&y));
    let rm = 1.0 + gm * habs * k;
    Some(Fold {
        tx: e * (mx(x) + gm * yabs * k) + dg * k * mx(&y),
        tp: e * (rm * rm * mx(p) * n * n + gm * gm * mx(r) * k * k) + dg * habs * mx(p) * n * k * if joseph { rm * n * T::EPS * 8.0 + dg } else { 1.0 },
        x: nx,
        p: np,
        ts: ts * 16.0,
        keep: rm * rm * n * n,
        s,
        y,
    })
}

pub fn nis<T: Fl>(c: &mut Case, got: Result<T, E>, y: &RM, s: &RM, e: f64) {
    let low = lowest(s);
    let cond = mx(s) * s.r as f64 / low;
    if !(low > 0.0 && cond * e < 1e-3) {
        return;
    }
    let want = y.t().mul(&s.inv().unwrap().mul(y)).f(0, 0);
    let v = c.get("normalized innovation", got).d();
    let bound = mx(y).powi(2) * s.r as f64 / low;
    c.near("normalized innovation squared", v, want, (64.0 * e * cond + 4.0 * lopsided(s) * s.r as f64 / low) * (want.abs() + bound));
    c.hit("normalized innovations");
}
/// Still symmetric, and still a covariance.
pub fn lopsided(p: &RM) -> f64 {
    mx(&p.sub(&p.t()))
}
pub fn shape(c: &mut Case, p: &RM, tol: f64) {
    close(c, "symmetric", p, &p.t(), tol);
    let low = lowest(&RM::from_fn(p.r, p.r, |i, j| 0.5 * (p.f(i, j) + p.f(j, i))));
    c.ok(low >= -64.0 * p.r as f64 * tol, "never less than nothing uncertain", || format!("{low} (rounding {tol})"));
}
