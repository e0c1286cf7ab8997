//! C02: pivoted QR, least squares and the damped normal equations.
use multicalc::error::LinalgError;
use multicalc::linear_algebra::PivotedQr;
use multicalc::{Matrix, Vector};
use vmon::*;

fn colnorm(a: &RM, j: usize) -> f64 {
    (0..a.r).map(|i| a.f(i, j).powi(2)).sum::<f64>().sqrt()
}
fn qr<const M: usize, const N: usize, T: Fl>(c: &mut Case) {
    let a0 = gen_mat(c, M, N).rounded::<T>();
    // An exact power-of-two overall scale: the overflow-safe norm has to carry it.
    let e = if c.p(0.35) { if T::F32 { c.int(-60, 60) } else { c.int(-500, 500) } } else { 0 };
    let g = 2f64.powi(e as i32);
    if T::F32 && a0.d.iter().any(|x| x.f() != 0.0 && (x.f().abs() < 1e-12 || x.f().abs() > 1e12)) {
        c.discard()
    }
    let a = a0.clone();
    let mut am: Matrix<M, N, T> = mat(&a0);
    for row in am.as_mut_slice_rows() {
        for x in row.iter_mut() {
            *x = T::t(x.d() * g);
        }
    }
    c.note("A", &am);
    let f = PivotedQr::decompose(am);
    let f = c.get("decompose", f);
    let unscale = |m: RM| m.scale(1.0 / g);
    let q = RM::of(&f.orthogonal());
    let rt = f.triangular();
    let r = unscale(RM::of(&rt));
    let p = f.permutation();
    let mut seen = [false; N];
    for &i in &p {
        c.ok(i < N && !seen[i.min(N - 1)], "permutation", || format!("{p:?}"));
        seen[i] = true;
    }
    let n = N as f64;
    let m = M as f64;
    let cn: Vec<f64> = (0..N).map(|j| colnorm(&a, j)).collect();
    let qq = q.t().mul(&q);
    for i in 0..N {
        for j in 0..N {
            c.near("Q-orthonormal", qq.f(i, j), if i == j { 1.0 } else { 0.0 }, 12.0 * m * n * T::EPS);
            if j < i {
                c.ok(r.f(i, j) == 0.0, "R-shape", || "R has a lower entry".into());
            }
        }
    }
    let qrm = q.mul(&r);
    for j in 0..N {
        for i in 0..M {
            c.near("AP=QR", qrm.f(i, j), a.f(i, p[j]), 12.0 * m * n * T::EPS * cn[p[j]]);
        }
    }
    // Column pivoting: each pivot is (within the downdating slack) the largest remaining column.
    for j in 0..N {
        for k in j + 1..N {
            let rest = (j..=k).map(|i| r.f(i, k).powi(2)).sum::<f64>().sqrt();
            c.ok(
                r.f(j, j).abs() >= 0.5 * rest - 1e3 * m * T::EPS * cn[p[k]],
                "column-pivoting",
                || format!("pivot {j} = {:e} but column {k} still has norm {rest:e}", r.f(j, j)),
            );
        }
    }
    // Least squares.
    let b = RM::col(&gen_vec(c, M)).rounded::<T>();
    let bn = b.norm();
    let bm: Vector<M, T> = vecn(&b.fs());
    let thr = T::EPS * M.max(N) as f64 * rt[(0, 0)].d().abs();
    let mut deficient = false;
    for i in 0..N {
        deficient |= rt[(i, i)].d().abs() <= thr;
    }
    let s = a.sing();
    match f.solve_least_squares(bm) {
        Ok(x) => {
            c.hit("least squares");
            c.ok(!deficient, "rank-verdict", || "R has a negligible diagonal entry yet Ok".into());
            let x = RM::ofv(&x).scale(g);
            let ax = a.mul(&x);
            let res = b.sub(&ax);
            let rn = res.norm();
            let size: f64 = rn + (0..N).map(|k| cn[k] * x.f(k, 0).abs()).sum::<f64>();
            if size < 1e60 && (!T::F32 || size < 1e15) {
                let at_r = a.t().mul(&res);
                for j in 0..N {
                    c.near("normal-equations", at_r.f(j, 0), 0.0, 20.0 * m * n * T::EPS * cn[j] * (size + bn));
                }
            }
        }
        Err(e) => {
            c.hit("rank-deficient");
            c.eq("error-kind", e, LinalgError::Singular);
            c.ok(deficient, "spurious-singular", || format!("no negligible diagonal entry in R; singular values {s:?}"));
            c.ok(s[N - 1] <= 300.0 * m * n * n * T::EPS * s[0] * 8.0, "spurious-singular", || format!("full rank: {s:?}"));
        }
    }
    if cn.iter().any(|x| *x == 0.0) {
        c.ok(deficient, "zero-column", || "zero column not seen in R".into());
    }
    // Damped problem.
    let dl = f.into_damped(bm);
    let nthr = T::EPS * n * rt[(0, 0)].d().abs();
    let want = (0..N).all(|i| rt[(i, i)].d().abs() > nthr);
    c.eq("is_non_singular", dl.is_non_singular(), want);
    if e.abs() > 40 && !(T::F32 && e.abs() <= 20) {
        return;
    }
    let mut diag = [T::ZERO; N];
    let mut allpos = true;
    for d in diag.iter_mut() {
        *d = T::t(if c.p(0.15) { 0.0 } else { c.lu(-3.0, 2.0) * g });
        allpos &= d.d() > 0.0;
    }
    let zero = c.p(0.15);
    let (x, fac) = if zero { dl.solve_with_zero_diagonal() } else { dl.solve_with_diagonal(&diag) };
    if zero {
        diag = [T::ZERO; N];
        allpos = false;
    }
    let dg: Vec<f64> = diag.iter().map(|d| d.d() / g).collect();
    if allpos || s[N - 1] > 1e3 * m * n * T::EPS * s[0] {
        c.hit("damped solve");
        let x = RM::ofv(&x).scale(g);
        let res = b.sub(&a.mul(&x));
        let at_r = a.t().mul(&res);
        let full: Vec<f64> = (0..N).map(|j| cn[j].hypot(dg[j])).collect();
        let size: f64 = bn + (0..N).map(|k| full[k] * x.f(k, 0).abs()).sum::<f64>();
        for j in 0..N {
            let lhs = at_r.at(j, 0) - dd(dg[j]) * dd(dg[j]) * x.at(j, 0);
            c.near("damped-normal-equations", lhs.f(), 0.0, 40.0 * m * n * T::EPS * full[j] * size);
        }
        // The factor S: w = S^-T rhs has w.w = rhs' (P'(A'A + D^2)P)^-1 rhs.
        let mut h = a.t().mul(&a);
        for j in 0..N {
            let v = dd(dg[j]) * dd(dg[j]);
            *h.at_mut(j, j) = h.at(j, j) + v;
        }
        let hp = RM::from_fn(N, N, |i, j| h.f(p[i], p[j]));
        let eig = h.sym_eig();
        let cond = eig[0] / eig[N - 1];
        if eig[N - 1] > 0.0 && cond < 1e-4 / T::EPS {
            let rhs = c.vecf(N, |c| c.f(-2.0, 2.0));
            let rt: [T; N] = core::array::from_fn(|i| T::t(rhs[i] * g));
            let w = fac.solve(rt);
            let ww: f64 = w.iter().map(|x| x.d() * x.d()).sum();
            let rr = RM::col(&rt.map(|x| x.d() / g));
            if let Some(y) = hp.solve(&rr) {
                let q = rr.t().mul(&y).f(0, 0);
                c.hit("damped factor");
                c.near("damped-factor", ww, q, 60.0 * m * n * T::EPS * cond * q.abs());
            }
        }
        // Scaled gradient and ||Ax||.
        let bnorm = T::t(bn * c.f(0.5, 2.0));
        let got = dl.max_a_t_b_scaled(bnorm).d();
        if bnorm.d() == 0.0 {
            c.eq("gradient-zero-norm", got, 0.0);
        } else {
            let atb = a.t().mul(&b);
            let mut want = 0.0f64;
            for j in 0..N {
                if cn[j] != 0.0 {
                    want = want.max((atb.f(j, 0) / (cn[j] * bnorm.d())).abs());
                }
            }
            c.near("scaled-gradient", got, want, 20.0 * m * n * T::EPS * (bn / bnorm.d()));
        }
        let v = c.vecf(N, |c| c.real());
        let vm: Vector<N, T> = vecn(&v);
        let vr = RM::ofv(&vm);
        let want = a.mul(&vr).norm();
        let size: f64 = (0..N).map(|k| cn[k] * vr.f(k, 0).abs()).sum();
        c.near("a_x_norm", dl.a_x_norm(&vm).d() / g, want, 20.0 * m * n * T::EPS * size);
    }
}
fn under(c: &mut Case) {
    let a = gen_mat(c, 2, 4);
    c.eq("wide", PivotedQr::decompose(mat::<2, 4, f64>(&a)).map(|_| ()).err(), Some(LinalgError::Underdetermined));
    let a = gen_mat(c, 4, 5);
    c.eq("wide", PivotedQr::decompose(mat::<4, 5, f64>(&a)).map(|_| ()).err(), Some(LinalgError::Underdetermined));
}
fn pick<T: Fl>(c: &mut Case) {
    match c.us(0, 11) {
        0 => qr::<1, 1, T>(c),
        1 => qr::<3, 1, T>(c),
        2 => qr::<2, 2, T>(c),
        3 => qr::<3, 2, T>(c),
        4 => qr::<3, 3, T>(c),
        5 => qr::<4, 3, T>(c),
        6 => qr::<5, 3, T>(c),
        7 => qr::<5, 5, T>(c),
        8 => qr::<6, 4, T>(c),
        9 => qr::<9, 5, T>(c),
        10 => qr::<7, 6, T>(c),
        _ => qr::<6, 6, T>(c),
    }
}
fn main() {
    vmon::run("C02", |s| {
        s.rule("A case counts when a generated tall matrix was factored and Q, R, P, the least-squares and the damped solves were judged against double-double; distinct = distinct generated inputs.");
        s.assume("Column-wise backward-error bounds with constants of at most 40*M*N ulps; pivot order judged with the factor-of-two slack norm downdating allows.");
        s.monitor("qr-f64", 250000, 20, pick::<f64>);
        s.monitor("qr-f32", 80000, 20, pick::<f32>);
        s.monitor("qr-large", 20000, 20, |c| match c.us(0, 5) {
            0 => qr::<12, 8, f64>(c),
            1 => qr::<10, 10, f64>(c),
            2 => qr::<16, 3, f64>(c),
            3 => qr::<20, 12, f64>(c),
            4 => qr::<16, 9, f32>(c),
            _ => qr::<12, 12, f32>(c),
        });
        s.monitor("underdetermined", 200, 4, under);
        for (e, n) in [("least squares", 20000), ("rank-deficient", 500), ("damped solve", 20000), ("damped factor", 5000)] {
            s.require(e, n);
        }
    })
}
