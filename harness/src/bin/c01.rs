//! C01: square linear systems: LU, Cholesky, determinant, inverse.
use multicalc::error::LinalgError;
use multicalc::{Matrix, Vector};
use vmon::*;

/// PA = LU with |L| <= 1, and everything derived from it.
fn lu<const N: usize, T: Fl>(c: &mut Case) {
    let a = gen_mat(c, N, N).rounded::<T>();
    let b = RM::col(&gen_vec(c, N)).rounded::<T>();
    let am: Matrix<N, N, T> = mat(&a);
    c.note("A", &am);
    let amax = a.maxabs();
    let n = N as f64;
    match am.lu_decompose() {
        Ok(f) => {
            c.hit("lu factored");
            let (l, u, p) = (RM::of(&f.lower()), RM::of(&f.upper()), f.permutation());
            let mut seen = [false; N];
            for &i in &p {
                c.ok(i < N && !seen[i.min(N - 1)], "permutation", || format!("{p:?} is not a permutation"));
                seen[i] = true;
            }
            let mut minp = f64::INFINITY;
            for i in 0..N {
                for j in 0..N {
                    if i == j {
                        c.ok(l.f(i, j) == 1.0, "lower-shape", || "L diagonal is not one".into());
                    } else if j > i {
                        c.ok(l.f(i, j) == 0.0, "lower-shape", || "L has an upper entry".into());
                    } else {
                        c.ok(u.f(i, j) == 0.0, "upper-shape", || "U has a lower entry".into());
                        c.ok(l.f(i, j).abs() <= 1.0 + 4.0 * T::EPS, "pivoting", || format!("multiplier {} exceeds one", l.f(i, j)));
                    }
                }
                minp = minp.min(u.f(i, i).abs());
            }
            c.ok(minp > T::EPS * amax, "ill-conditioned-verdict", || format!("pivot {minp:e} is at most EPSILON*{amax:e} yet Ok"));
            let pa = RM::from_fn(N, N, |i, j| a.f(p[i], j));
            let lu = l.mul(&u);
            let bound = l.abs().mul(&u.abs());
            for i in 0..N {
                for j in 0..N {
                    c.near("PA=LU", lu.f(i, j), pa.f(i, j), 2.0 * n * T::EPS * bound.f(i, j) + 1e-300);
                }
            }
            // Determinant of the factorization: exactly sign(P) * prod U_ii up to rounding.
            let mut want = 1.0f64;
            let mut range_ok = true;
            for i in 0..N {
                want *= u.f(i, i);
                range_ok &= want.abs() > 1e-30 && want.abs() < 1e30;
            }
            let mut parity = 1.0;
            for i in 0..N {
                for j in i + 1..N {
                    if p[i] > p[j] {
                        parity = -parity;
                    }
                }
            }
            if range_ok || !T::F32 {
                c.rel("lu-determinant", f.determinant().d(), parity * want, 2.0 * (n + 1.0) * T::EPS, 0.0);
                if parity < 0.0 {
                    c.hit("odd permutation");
                }
            }
            // Solves: componentwise backward error against P^T|L||U|.
            let bm: Vector<N, T> = vecn(&b.fs());
            let xs = RM::ofv(&f.solve(bm));
            back(c, "solve", &pa, &bound, &p, &b, &xs, 0, T::EPS);
            let x2 = am.solve(bm);
            let x2 = RM::ofv(&c.get("solve-one-call", x2));
            back(c, "solve-one-call", &pa, &bound, &p, &b, &x2, 0, T::EPS);
            let k = RM::from_fn(N, 3, |i, j| if j == 0 { b.f(i, 0) } else { ((i * 7 + j * 5) % 4) as f64 - 1.5 });
            let km: Matrix<N, 3, T> = mat(&k);
            let xm = RM::of(&f.solve_matrix(km));
            for j in 0..3 {
                back(c, "solve_matrix", &pa, &bound, &p, &k, &xm, j, T::EPS);
            }
            let inv = RM::of(&f.inverse());
            for j in 0..N {
                back(c, "lu-inverse", &pa, &bound, &p, &RM::eye(N), &inv, j, T::EPS);
            }
        }
        Err(e) => {
            // A rejection needs a reason: the matrix is within rounding of a rank-deficient one, or
            // is so graded that a pivot is negligible against the largest entry.
            let s = a.sing();
            let small = s[N - 1];
            let grade = 64.0 * n * n * T::EPS * amax;
            c.ok(
                small <= grade,
                "spurious-rejection",
                || format!("{e:?} for a matrix with smallest singular value {small:e}, largest entry {amax:e}"),
            );
            match e {
                LinalgError::Singular => c.hit("singular"),
                LinalgError::IllConditioned => c.hit("ill-conditioned"),
                _ => c.fail("error-kind", format!("{e:?}")),
            }
            if e == LinalgError::IllConditioned {
                let bm: Vector<N, T> = vecn(&b.fs());
                let e2 = am.solve(bm).map(|_| ());
                c.eq("solve-verdict", e2, Err(LinalgError::IllConditioned));
            }
            // An exactly zero column is always the `Singular` verdict when it is met first.
            if (0..N).all(|i| a.f(i, 0) == 0.0) {
                c.eq("zero-column", e, LinalgError::Singular);
            }
        }
    }
}
fn back(c: &mut Case, tag: &str, pa: &RM, bound: &RM, p: &[usize], b: &RM, x: &RM, col: usize, eps: f64) {
    let n = pa.r;
    for i in 0..n {
        let mut s = dd(0.0);
        let mut bnd = 0.0;
        for j in 0..n {
            s = s + pa.at(i, j) * x.at(j, col);
            bnd += bound.f(i, j) * x.f(j, col).abs();
        }
        if !bnd.is_finite() || bnd > 1e30 {
            return;
        }
        c.near(tag, s.f(), b.f(p[i], col), 6.0 * n as f64 * eps * bnd + 1e-290 + if eps > 1e-10 { 1e-36 } else { 0.0 });
    }
}

fn chol<const N: usize, T: Fl>(c: &mut Case) {
    let n = N as f64;
    let kind = c.us(0, 3);
    let a = match kind {
        0 | 1 => gen_spd(c, N, if T::F32 { -4.0 } else { -9.0 }, 1.0),
        2 => {
            // Clearly indefinite.
            let mut e = c.vecf(N, |c| c.f(0.1, 3.0));
            let k = c.us(0, N - 1);
            e[k] = -c.f(0.05, 3.0);
            gen_sym(c, &e)
        }
        _ => {
            // Gram matrix of integers: often singular.
            let m = RM::from_fn(N, N, |_, _| c.int(-2, 2) as f64);
            m.mul(&m.t())
        }
    }
    .rounded::<T>();
    let g = if c.p(0.3) { 2f64.powi(c.int(-20, 20) as i32) } else { 1.0 };
    let a = a.scale(g);
    // Only the lower triangle is read: the upper one is filled with garbage.
    let junk = c.p(0.5);
    let full: Matrix<N, N, T> = Matrix::from_fn(|i, j| {
        if j > i && junk { T::t(if (i + j) % 2 == 0 { f64::NAN } else { 77.5 }) } else { T::t(a.f(i, j)) }
    });
    c.note("A", &full);
    let r = full.cholesky();
    if kind <= 1 {
        c.ok(r.is_ok(), "rejected-positive-definite", || format!("{:?}", r.err()));
    }
    if kind == 2 {
        c.eq("indefinite", r.as_ref().err().copied(), Some(LinalgError::NotPositiveDefinite));
        c.hit("not positive definite");
    }
    if let Ok(f) = r {
        c.hit("cholesky factored");
        let l = RM::of(&f.lower());
        for i in 0..N {
            c.ok(l.f(i, i) > 0.0, "positive-diagonal", || format!("L[{i}][{i}] = {}", l.f(i, i)));
            for j in i + 1..N {
                c.ok(l.f(i, j) == 0.0, "lower-shape", || "L has an upper entry".into());
            }
        }
        let ll = l.mul(&l.t());
        let bound = l.abs().mul(&l.abs().t());
        for i in 0..N {
            for j in 0..=i {
                c.near("A=LLt", ll.f(i, j), a.f(i, j), 2.0 * (n + 1.0) * T::EPS * bound.f(i, j));
            }
        }
        let mut want = 1.0;
        for i in 0..N {
            want *= l.f(i, i) * l.f(i, i);
        }
        if !T::F32 || (want > 1e-30 && want < 1e30) {
            c.rel("cholesky-determinant", f.determinant().d(), want, 4.0 * (n + 1.0) * T::EPS, 0.0);
        }
        let b = RM::col(&gen_vec(c, N)).rounded::<T>();
        let idp: Vec<usize> = (0..N).collect();
        let sym = RM::from_fn(N, N, |i, j| if j <= i { a.f(i, j) } else { a.f(j, i) });
        let xs = RM::ofv(&f.solve(vecn(&b.fs())));
        back(c, "cholesky-solve", &sym, &bound, &idp, &b, &xs, 0, T::EPS);
        let k = RM::from_fn(N, 2, |i, j| if j == 0 { b.f(i, 0) } else { i as f64 - 1.25 });
        let xm = RM::of(&f.solve_matrix(mat::<N, 2, T>(&k)));
        for j in 0..2 {
            back(c, "cholesky-solve_matrix", &sym, &bound, &idp, &k, &xm, j, T::EPS);
        }
        let inv = RM::of(&f.inverse());
        for j in 0..N {
            back(c, "cholesky-inverse", &sym, &bound, &idp, &RM::eye(N), &inv, j, T::EPS);
        }
    } else {
        c.eq("error-kind", r.err(), Some(LinalgError::NotPositiveDefinite));
        c.ok(kind >= 2, "rejected", || String::new());
    }
}

/// Non-finite data never yields a Cholesky factor: a NaN radicand is not strictly positive.
fn chol_nan<const N: usize, T: Fl>(c: &mut Case) {
    let a = gen_spd(c, N, -1.0, 1.0);
    let (i, j) = (c.us(0, N - 1), c.us(0, N - 1));
    let (i, j) = (i.max(j), i.min(j));
    let mut m: Matrix<N, N, T> = mat(&a);
    m[(i, j)] = T::t(f64::NAN);
    c.note("A", &m);
    c.eq("nan-radicand", m.cholesky().map(|_| ()).err(), Some(LinalgError::NotPositiveDefinite));
}

fn det_inv<const N: usize, T: Fl>(c: &mut Case) {
    let a = gen_mat(c, N, N).rounded::<T>();
    let am: Matrix<N, N, T> = mat(&a);
    c.note("A", &am);
    let n = N as f64;
    let amax = a.maxabs();
    if amax == 0.0 {
        c.eq("zero-determinant", am.determinant().d(), 0.0);
        c.eq("zero-inverse", am.inverse().is_err(), true);
        return;
    }
    let top = amax.powi(N as i32);
    if T::F32 && !(1e-28..1e30).contains(&top) || !(1e-250..1e250).contains(&top) {
        return;
    }
    let want = a.det().f();
    let got = am.determinant().d();
    if N <= 4 {
        let perm = a.abs().permanent();
        let err = 4.0 * n * T::EPS * perm + 1e-29 * top + if T::F32 { 1e-43 } else { 0.0 };
        c.near("determinant", got, want, err);
        // The closed-form inverse's own verdict: |det| against EPSILON * n * max|a|^n.
        let thr = if N == 1 { 0.0 } else { T::EPS * n * top };
        let slack = err + 20.0 * n * T::EPS * thr;
        match am.inverse() {
            Ok(x) => {
                c.hit("inverse");
                c.ok(want.abs() > thr - slack, "inverse-verdict", || format!("det {want:e} is below the threshold {thr:e} yet Ok"));
                let x = RM::of(&x);
                if want.abs() > 8.0 * err {
                    for i in 0..N {
                        for j in 0..N {
                            let (cof, pm) = if N == 1 {
                                (1.0, 1.0)
                            } else {
                                let m = a.minor(j, i);
                                (m.det().f() * if (i + j) % 2 == 0 { 1.0 } else { -1.0 }, m.abs().permanent())
                            };
                            let e = (6.0 * n * T::EPS * pm + 1e-29 * amax.powi(N as i32 - 1) + 2.0 * err / want.abs() * cof.abs()) / want.abs() + 8.0 * T::EPS * (cof / want).abs();
                            c.near("inverse-entry", x.f(i, j), cof / want, e * 1.5 + if T::F32 { 1e-40 } else { 0.0 });
                        }
                    }
                }
            }
            Err(e) => {
                c.hit("inverse rejected");
                c.eq("inverse-error-kind", e, LinalgError::Singular);
                c.ok(want.abs() <= thr + slack, "inverse-spurious-singular", || format!("det {want:e}, threshold {thr:e}"));
            }
        }
    } else {
        // Backward stable through LU: det of a matrix within rounding of A.
        let f = am.lu_decompose();
        let growth = match &f {
            Ok(f) => {
                let p = f.permutation();
                let bd = RM::of(&f.lower()).abs().mul(&RM::of(&f.upper()).abs());
                let mut b = RM::zeros(N, N);
                for i in 0..N {
                    for j in 0..N {
                        *b.at_mut(p[i], j) = bd.at(i, j);
                    }
                }
                b
            }
            Err(_) => RM::from_fn(N, N, |_, _| amax * n * 4.0),
        };
        let err = match (f.is_ok(), a.inv()) {
            (true, Some(inv)) => {
                let mut e = 0.0;
                for i in 0..N {
                    for j in 0..N {
                        e += growth.f(i, j) * (inv.f(j, i) * want).abs();
                    }
                }
                4.0 * n * T::EPS * e + (if e / want.abs() * n * T::EPS > 0.05 { n * T::EPS * growth.permanent() } else { 0.0 }) + 4.0 * n * T::EPS * want.abs()
            }
            _ => 4.0 * n * n * T::EPS * growth.permanent(),
        };
        c.near("determinant-lu", got, want, err + if T::F32 { 1e-35 } else { 0.0 });
        match (am.inverse(), f) {
            (Ok(x), Ok(f)) => {
                c.hit("inverse lu");
                let p = f.permutation();
                let pa = RM::from_fn(N, N, |i, j| a.f(p[i], j));
                let bd = RM::of(&f.lower()).abs().mul(&RM::of(&f.upper()).abs());
                let x = RM::of(&x);
                for j in 0..N {
                    back(c, "inverse-large", &pa, &bd, &p, &RM::eye(N), &x, j, T::EPS);
                }
            }
            (Err(e), Err(g)) => c.eq("inverse-large-error", e, g),
            (x, f) => c.fail("inverse-large-verdict", format!("inverse {:?} but factorization {:?}", x.map(|_| ()), f.map(|_| ()))),
        }
    }
}

/// Well-conditioned matrices at extreme scales still invert, in every size.
fn extreme<const N: usize, T: Fl>(c: &mut Case) {
    let s = c.vecf(N, |c| c.f(0.5, 2.0));
    let span = if T::F32 { 30.0 } else { 250.0 };
    let g = 10f64.powf(c.f(-span, span));
    let base = gen_svd(c, N, N, &s);
    let a = base.scale(g).rounded::<T>();
    let am: Matrix<N, N, T> = mat(&a);
    c.note("A", &am);
    let x = c.get("well-conditioned-inverse", am.inverse());
    let want = RM::from_fn(N, N, |i, j| a.f(i, j) / g).inv().unwrap();
    for i in 0..N {
        for j in 0..N {
            c.near("extreme-inverse", x[(i, j)].d() * g, want.f(i, j), 400.0 * N as f64 * T::EPS);
        }
    }
    c.hit("extreme scale");
    let b = gen_vec(c, N);
    let bm: Vector<N, T> = vecn(&b);
    let y = c.get("well-conditioned-solve", am.solve(bm));
    let sc = b.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    if sc / g < 1e300 && (!T::F32 || (sc / g < 1e36 && sc / g > 1e-28)) {
        let yw = RM::from_fn(N, N, |i, j| a.f(i, j) / g).solve(&RM::col(&b).rounded::<T>()).unwrap();
        for i in 0..N {
            c.near("extreme-solve", y[i].d() * g, yw.f(i, 0), 400.0 * N as f64 * T::EPS * sc);
        }
    }
}

fn main() {
    vmon::run("C01", |s| {
        s.rule("A case counts when the matrix produced a factorization, inverse, determinant or verdict that an independent double-double oracle judged; distinct = distinct generated (matrix, rhs) inputs.");
        s.assume("Componentwise backward-error bounds (Higham) with a constant of at most 6n ulps; results that over- or underflow the scalar are not judged for accuracy.");
        s.monitor("lu", 300000, 20, |c| {
            let n = c.us(1, 8);
            if c.p(0.3) { sized!(c, n, lu, f32) } else { sized!(c, n, lu, f64) }
        });
        s.monitor("cholesky", 200000, 20, |c| {
            let n = c.us(1, 8);
            if c.p(0.3) { sized!(c, n, chol, f32) } else { sized!(c, n, chol, f64) }
        });
        s.monitor("cholesky-nan", 4000, 10, |c| {
            let n = c.us(1, 8);
            if c.p(0.3) { sized!(c, n, chol_nan, f32) } else { sized!(c, n, chol_nan, f64) }
        });
        s.monitor("determinant-inverse", 500000, 20, |c| {
            let n = if c.p(0.75) { c.us(1, 4) } else { c.us(5, 7) };
            if c.p(0.3) { sized!(c, n, det_inv, f32) } else { sized!(c, n, det_inv, f64) }
        });
        s.monitor("extreme-scale", 60000, 20, |c| {
            let n = c.us(1, 8);
            if c.p(0.5) { sized!(c, n, extreme, f32) } else { sized!(c, n, extreme, f64) }
        });
        s.monitor("lu-large", 20000, 20, |c| { let n = c.us(0, 3); if c.p(0.3) { sized_big!(c, n, lu, f32) } else { sized_big!(c, n, lu, f64) } });
        s.monitor("cholesky-large", 20000, 20, |c| { let n = c.us(0, 3); if c.p(0.3) { sized_big!(c, n, chol, f32) } else { sized_big!(c, n, chol, f64) } });
        s.monitor("determinant-inverse-large", 20000, 20, |c| { let n = c.us(0, 3); if c.p(0.3) { sized_big!(c, n, det_inv, f32) } else { sized_big!(c, n, det_inv, f64) } });
        for (e, n) in [("lu factored", 2000), ("singular", 50), ("ill-conditioned", 50), ("odd permutation", 500), ("cholesky factored", 2000), ("not positive definite", 500), ("inverse", 3000), ("inverse rejected", 200), ("inverse lu", 500), ("extreme scale", 3000)] {
            s.require(e, n);
        }
    })
}
