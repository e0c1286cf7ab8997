//! C03: SVD, pseudo-inverse, symmetric eigendecomposition.
use multicalc::error::LinalgError;
use multicalc::{Matrix, Vector};
use vmon::*;

fn orthonormal(c: &mut Case, tag: &str, q: &RM, tol: f64) {
    let g = q.t().mul(q);
    for i in 0..q.c {
        for j in 0..q.c {
            c.near(tag, g.f(i, j), if i == j { 1.0 } else { 0.0 }, tol);
        }
    }
}
fn sign_convention(c: &mut Case, tag: &str, q: &RM) {
    for k in 0..q.c {
        let (mut best, mut val) = (0.0, 0.0);
        for i in 0..q.r {
            if q.f(i, k).abs() > best {
                best = q.f(i, k).abs();
                val = q.f(i, k);
            }
        }
        if best > 0.0 {
            c.ok(val > 0.0 || (0..q.r).any(|i| q.f(i, k) > best * (1.0 - 1e-12)), tag, || format!("column {k}: largest-magnitude entry is {val}"));
        }
    }
}
fn svd<const M: usize, const N: usize, T: Fl>(c: &mut Case) {
    let mut a0 = gen_mat(c, M, N);
    if c.p(0.15) && N > 1 {
        // Exact rank deficiency: a repeated or a zero column.
        let (i, j) = (c.us(0, N - 1), c.us(0, N - 1));
        let f = if i == j { 0.0 } else { c.pick(&[1.0, -1.0, 2.0, 0.0, 0.5]) };
        for r in 0..M {
            let v = a0.at(r, j).mulf(f);
            *a0.at_mut(r, i) = v;
        }
    }
    let a = a0.rounded::<T>();
    if T::F32 && a.d.iter().any(|x| x.f() != 0.0 && (x.f().abs() < 1e-9 || x.f().abs() > 1e9)) {
        c.discard()
    }
    let am: Matrix<M, N, T> = mat(&a);
    c.note("A", &am);
    let f = am.svd();
    let f = c.get("svd", f);
    let (u, s, v) = (RM::of(&f.left()), RM::ofv(&f.singular_values()).fs(), RM::of(&f.right()));
    let (m, n) = (M as f64, N as f64);
    let truth = a.sing();
    let tol = 40.0 * m * n * T::EPS;
    let fro = a.norm();
    for k in 0..N {
        c.ok(s[k] >= 0.0, "nonnegative", || format!("{s:?}"));
        if k > 0 {
            c.ok(s[k - 1] >= s[k], "descending", || format!("{s:?}"));
        }
        c.near("singular-value", s[k], truth[k], tol * fro);
    }
    orthonormal(c, "right-orthonormal", &v, tol);
    // Left columns: orthonormal wherever the singular value is not at rounding level.
    let clear = |k: usize| s[k] > 1e3 * m * n * T::EPS * s[0].max(1e-300);
    let uu = u.t().mul(&u);
    let mut deficient = false;
    for i in 0..N {
        if !clear(i) {
            deficient = true;
            continue;
        }
        for j in 0..=i {
            // One-sided Jacobi: columns are orthogonal relative to their own norms.
            c.near("left-orthonormal", uu.f(i, j), if i == j { 1.0 } else { 0.0 }, tol + 4.0 * m * T::EPS * s[0] / s[i] * 4.0);
        }
    }
    sign_convention(c, "svd-sign", &u);
    let rec = u.mul(&RM::diag(&s)).mul(&v.t());
    for i in 0..M {
        for j in 0..N {
            c.near("A=USVt", rec.f(i, j), a.f(i, j), tol * fro);
        }
    }
    if deficient {
        c.hit("rank-deficient svd");
    } else {
        c.hit("full-rank svd");
    }
    // rank / condition.
    let sk = s[c.us(0, N - 1)];
    let t = T::t(c.pick(&[0.0, 1e-9, 1e-3, 1.0, 100.0, sk]));
    let want = s.iter().filter(|x| **x > t.d()).count();
    c.eq("rank", f.rank(t), want);
    let cond = f.condition_number().d();
    if s[N - 1] <= 0.0 {
        c.ok(cond == f64::INFINITY, "condition", || format!("{cond}"));
    } else {
        c.rel("condition", cond, T::t(s[0] / s[N - 1]).d(), 4.0 * T::EPS, 0.0);
    }
    // Pseudo-inverse: V S+ U' from the returned factors, and the Penrose equations.
    for kind in 0..2 {
        let cut = if kind == 0 { M.max(N) as f64 * T::EPS * s[0] } else { t.d() };
        if s.iter().any(|x| (x - cut).abs() <= 1e-3 * cut && cut > 0.0 && *x != cut) {
            continue;
        }
        let pi = if kind == 0 { f.pseudo_inverse() } else { f.pseudo_inverse_tol(t) };
        let pi = RM::of(&pi);
        let mut ssp = RM::zeros(N, N);
        let mut smin = 0.0f64;
        for k in 0..N {
            if s[k] > cut {
                *ssp.at_mut(k, k) = dd(1.0) / dd(s[k]);
                smin = smin.max(1.0 / s[k]);
            }
        }
        if smin > 1e30 {
            continue;
        }
        let want = v.mul(&ssp).mul(&u.t());
        for i in 0..N {
            for j in 0..M {
                c.near("pseudo-inverse", pi.f(i, j), want.f(i, j), 8.0 * n * T::EPS * smin);
            }
        }
        let kept = s.iter().filter(|x| **x > cut).count();
        let gap_ok = kept == N || truth[kept] <= 1e-2 * truth[kept.max(1) - 1];
        if kept > 0 && s[0] * smin < 1e-3 / T::EPS && kind == 0 && gap_ok {
            c.hit("penrose");
            let k2 = 200.0 * m * n * T::EPS * s[0] * smin;
            let apa = a.mul(&pi).mul(&a);
            let pap = pi.mul(&a).mul(&pi);
            for i in 0..M {
                for j in 0..N {
                    c.near("A.A+.A=A", apa.f(i, j), a.f(i, j), k2 * fro + 4.0 * m * T::EPS * fro);
                    c.near("A+.A.A+=A+", pap.f(j, i), pi.f(j, i), k2 * smin);
                }
            }
            let (ap, pa) = (a.mul(&pi), pi.mul(&a));
            for i in 0..M {
                for j in 0..M {
                    c.near("A.A+ symmetric", ap.f(i, j), ap.f(j, i), k2);
                }
            }
            for i in 0..N {
                for j in 0..N {
                    c.near("A+.A symmetric", pa.f(i, j), pa.f(j, i), k2);
                }
            }
        }
        if kind == 0 {
            let b = RM::col(&gen_vec(c, M)).rounded::<T>();
            let x = RM::ofv(&f.solve(vecn(&b.fs())));
            let w = want.mul(&b);
            for i in 0..N {
                c.near("min-norm-solve", x.f(i, 0), w.f(i, 0), 8.0 * (m + n) * T::EPS * smin * b.norm());
            }
            let mp = am.pseudo_inverse();
            let mp = RM::of(&c.get("matrix-pinv", mp));
            for i in 0..N {
                for j in 0..M {
                    c.near("matrix-pinv", mp.f(i, j), want.f(i, j), 8.0 * n * T::EPS * smin);
                }
            }
            // The wide route.
            let wide = am.transpose().pseudo_inverse();
            let wide = RM::of(&c.get("wide-pinv", wide));
            if M > N {
                for i in 0..N {
                    for j in 0..M {
                        c.near("wide-pinv", wide.f(j, i), want.f(i, j), 8.0 * n * T::EPS * smin);
                    }
                }
                c.eq("wide-svd", am.transpose().svd().map(|_| ()).err(), Some(LinalgError::Underdetermined));
            }
        }
    }
    if deficient && truth[N - 1] <= 1e-3 * T::EPS * truth[0] && c.us(0, 3) == 0 {
        // The documented contract also covers this case.
        for i in 0..N {
            if !clear(i) {
                for j in 0..=i {
                    c.near("left-orthonormal-rank-deficient", uu.f(i, j), if i == j { 1.0 } else { 0.0 }, 1e-3);
                }
            }
        }
    }
}
fn svd_bad(c: &mut Case) {
    let mut a: Matrix<4, 3> = mat(&gen_mat(c, 4, 3));
    let (i, j) = (c.us(0, 3), c.us(0, 2));
    a[(i, j)] = c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    c.eq("non-finite svd", a.svd().map(|_| ()).err(), Some(LinalgError::NonFinite));
    c.eq("non-finite pinv", a.pseudo_inverse().map(|_| ()).err(), Some(LinalgError::NonFinite));
    c.eq("non-finite pinv", a.transpose().pseudo_inverse().map(|_| ()).err(), Some(LinalgError::NonFinite));
    let mut s: Matrix<3, 3> = mat(&gen_spd(c, 3, -1.0, 1.0));
    let (i, j) = (c.us(0, 2), c.us(0, 2));
    s[(i, j)] = c.pick(&[f64::NAN, f64::INFINITY]);
    s[(j, i)] = s[(i, j)];
    c.eq("non-finite eig", s.symmetric_eigendecomposition().map(|_| ()).err(), Some(LinalgError::NonFinite));
    let mut s: Matrix<3, 3> = mat(&gen_spd(c, 3, -1.0, 1.0));
    let i = c.us(0, 2);
    let j = (i + c.us(1, 2)) % 3;
    s[(i, j)] += c.ls(-9.0, 1.0) * s[(i, i)].max(1.0) * 10.0;
    c.eq("asymmetric eig", s.symmetric_eigendecomposition().map(|_| ()).err(), Some(LinalgError::NotSymmetric));
}
fn eig<const N: usize, T: Fl>(c: &mut Case) {
    let kind = c.us(0, 5);
    let e = match kind {
        0 => c.vecf(N, |c| c.f(-3.0, 3.0)),
        1 => c.vecf(N, |c| c.lu(-9.0, 2.0)),
        2 => {
            // Repeated eigenvalues.
            let x = [c.f(-2.0, 2.0), c.f(-2.0, 2.0)];
            c.vecf(N, |c| c.pick(&x))
        }
        3 => c.vecf(N, |c| c.ls(-9.0, 3.0)),
        _ => vec![],
    };
    let g = if c.p(0.3) { 2f64.powi(if T::F32 { c.int(-40, 40) } else { c.int(-300, 300) } as i32) } else { 1.0 };
    let a = if kind <= 3 {
        gen_sym(c, &e)
    } else {
        // Structured: integer, diagonal, sparse, already-diagonal with ties.
        let m = RM::from_fn(N, N, |_, _| if kind == 4 { c.int(-3, 3) as f64 } else if c.p(0.7) { 0.0 } else { c.int(-2, 2) as f64 });
        RM::from_fn(N, N, |i, j| if i <= j { m.f(i, j) } else { m.f(j, i) })
    }
    .rounded::<T>();
    let am: Matrix<N, N, T> = Matrix::from_fn(|i, j| T::t(a.f(i, j) * g));
    c.note("A", &am);
    let f = am.symmetric_eigendecomposition();
    let f = c.get("eig", f);
    let l: Vec<f64> = RM::ofv(&f.eigenvalues()).fs().iter().map(|x| x / g).collect();
    let v = RM::of(&f.eigenvectors());
    let n = N as f64;
    let fro = a.norm();
    let tol = 40.0 * n * n * T::EPS;
    let truth = a.sym_eig();
    for k in 0..N {
        c.near("eigenvalue", l[k], truth[k], tol * fro);
        if k > 0 {
            c.ok(l[k - 1] >= l[k], "descending", || format!("{l:?}"));
        }
    }
    c.hit("eigendecomposition");
    orthonormal(c, "eigenvectors-orthonormal", &v, tol);
    sign_convention(c, "eig-sign", &v);
    let rec = v.mul(&RM::diag(&l)).mul(&v.t());
    for i in 0..N {
        for j in 0..N {
            c.near("A=VLVt", rec.f(i, j), a.f(i, j), tol * fro);
        }
    }
    c.eq("is_positive_definite", f.is_positive_definite(), l[N - 1] > 0.0);
    let big = l.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    let small = l.iter().fold(f64::INFINITY, |m, x| m.min(x.abs()));
    let cond = f.condition_number().d();
    if small == 0.0 {
        c.ok(cond == f64::INFINITY, "condition", || format!("{cond}"));
    } else if big / small < 1e30 {
        c.rel("condition", cond, big / small, 4.0 * T::EPS, 0.0);
    }
    if g == 1.0 && !T::F32 {
        let want: f64 = l.iter().product();
        c.rel("determinant", f.determinant().d(), want, 4.0 * n * T::EPS, 1e-300);
        // The determinant of the matrix itself.
    }
    let floor = c.pick(&[0.0, 0.5, 1e-6, -0.5, 2.0]);
    let cl = f.clamped(T::t(floor * g));
    let raised: Vec<f64> = l.iter().map(|x| x.max(T::t(floor * g).d() / g)).collect();
    let want = v.mul(&RM::diag(&raised)).mul(&v.t());
    let size = raised.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    for i in 0..N {
        for j in 0..N {
            c.same_bits("clamped-symmetric", cl[(i, j)].d(), cl[(j, i)].d());
            c.near("clamped", cl[(i, j)].d() / g, want.f(i, j), 6.0 * n * T::EPS * size);
        }
    }
    if raised.iter().zip(&l).any(|(a, b)| a != b) {
        c.hit("clamped lifted");
    }
    let _ = Vector::<N, T>::zeros();
}
fn pick<T: Fl>(c: &mut Case) {
    match c.us(0, 10) {
        0 => svd::<1, 1, T>(c),
        1 => svd::<2, 1, T>(c),
        2 => svd::<2, 2, T>(c),
        3 => svd::<3, 2, T>(c),
        4 => svd::<3, 3, T>(c),
        5 => svd::<4, 4, T>(c),
        6 => svd::<5, 3, T>(c),
        7 => svd::<6, 6, T>(c),
        8 => svd::<8, 4, T>(c),
        9 => svd::<6, 2, T>(c),
        _ => svd::<7, 5, T>(c),
    }
}
fn main() {
    vmon::run("C03", |s| {
        s.rule("A case counts when a decomposition of a generated matrix was judged (orthonormality, order, sign, reconstruction, double-double spectrum, Penrose equations); distinct = distinct inputs.");
        s.assume("Singular values and eigenvalues to 40*M*N ulps of the Frobenius norm; squared entries representable for the SVD.");
        s.monitor("svd-f64", 60000, 20, pick::<f64>);
        s.monitor("svd-f32", 20000, 20, pick::<f32>);
        s.monitor("eig-f64", 60000, 20, |c| { let n = c.us(1, 8); sized!(c, n, eig, f64) });
        s.monitor("eig-f32", 20000, 20, |c| { let n = c.us(1, 8); sized!(c, n, eig, f32) });
        s.monitor("svd-large", 1200, 20, |c| match c.us(0, 3) {
            0 => svd::<9, 9, f64>(c),
            1 => svd::<12, 9, f64>(c),
            2 => svd::<16, 12, f64>(c),
            _ => svd::<10, 10, f32>(c),
        });
        s.monitor("eig-large", 1500, 20, |c| { let n = c.us(0, 3); if c.p(0.3) { sized_big!(c, n, eig, f32) } else { sized_big!(c, n, eig, f64) } });
        s.monitor("refusals", 2000, 4, svd_bad);
        for (e, n) in [("full-rank svd", 10000), ("rank-deficient svd", 1000), ("penrose", 5000), ("eigendecomposition", 20000), ("clamped lifted", 3000)] {
            s.require(e, n);
        }
    })
}
