//! Linear algebra and discretization.
use super::*;
use multicalc::linear_algebra::*;

crate::scenarios!(list: views, algebra, square2, square3, square4, square5, square1, chol, qr_tall, qr_damped, svd_tall, svd_square, eig3, eig5, expm3, expm5, lyap, ricc, disc, vectors, odd_sizes, structured);

fn views<T: Sc>(s: &mut Sim) {
    let mut m: Matrix<3, 4, T> = s.m();
    let (i, j) = (s.ix(3), s.ix(4));
    s.opt(m.get(i, j).copied());
    if let Some(x) = m.get_mut(i, j) {
        *x = *x + T::ONE;
    }
    if let Some(r) = m.try_row(i) {
        s.pv(r);
    }
    if let Some(c) = m.try_column(j) {
        s.pv(c);
    }
    let n = s.us(0, 14);
    let buf: [T; 14] = s.a();
    let t = Matrix::<3, 4, T>::try_from_row_slice(&buf[..n]);
    s.b(t.is_some());
    let v = Vector::<5, T>::try_from_slice(&buf[..n]);
    s.b(v.is_some());
    s.pa(&m.as_slice_rows()[1]);
    m.as_mut_slice_rows()[0][0] = T::TWO;
    s.pa(&m.into_array()[2]);
    s.pa(&Matrix::<4, 4, T>::from_diagonal(buf[..4].try_into().unwrap()).diagonal());
}
fn algebra<T: Sc>(s: &mut Sim) {
    let (a, b): (Matrix<3, 3, T>, Matrix<3, 3, T>) = (s.m(), s.m());
    let v: Vector<3, T> = s.v();
    let k: T = s.x();
    s.pm(a + b);
    s.pm(a - b);
    s.pm(a * b);
    s.pv(a * v);
    s.pm(-a * k);
    s.pm(a / k);
    s.pm(a.scale(k).transpose());
    let mut c = a;
    c += b;
    c -= a;
    s.pm(c);
    s.put(a.frobenius_norm());
    s.put(a.trace());
    s.b(a.is_finite());
    s.b(a.is_symmetric());
    s.b(a.symmetrized().is_symmetric());
}
fn square<const N: usize, T: Sc>(s: &mut Sim) {
    let a: Matrix<N, N, T> = s.m();
    let b: Vector<N, T> = s.v();
    let bb: Matrix<N, 2, T> = s.m();
    s.put(a.determinant());
    if let Some(i) = { let r = a.inverse(); s.res(r) } {
        s.pm(i);
    }
    if let Some(x) = { let r = a.solve(b); s.res(r) } {
        s.pv(x);
    }
    if let Some(f) = { let r = a.lu_decompose(); s.res(r) } {
        s.pm(f.lower());
        s.pm(f.upper());
        for k in f.permutation() {
            s.k(k);
        }
        s.put(f.determinant());
        s.pv(f.solve(b));
        s.pm(f.solve_matrix(bb));
        s.pm(f.inverse());
    }
}
fn square1<T: Sc>(s: &mut Sim) {
    square::<1, T>(s)
}
fn square2<T: Sc>(s: &mut Sim) {
    square::<2, T>(s)
}
fn square3<T: Sc>(s: &mut Sim) {
    square::<3, T>(s)
}
fn square4<T: Sc>(s: &mut Sim) {
    square::<4, T>(s)
}
fn square5<T: Sc>(s: &mut Sim) {
    square::<5, T>(s)
}
fn chol<T: Sc>(s: &mut Sim) {
    let a: Matrix<4, 4, T> = if s.p(0.2) { s.m() } else { s.spd() };
    let b: Vector<4, T> = s.v();
    let bb: Matrix<4, 3, T> = s.m();
    if let Some(f) = { let r = a.cholesky(); s.res(r) } {
        s.pm(f.lower());
        s.put(f.determinant());
        s.pv(f.solve(b));
        s.pm(f.solve_matrix(bb));
        s.pm(f.inverse());
    }
}
fn qr_tall<T: Sc>(s: &mut Sim) {
    let a: Matrix<5, 3, T> = s.m();
    let b: Vector<5, T> = s.v();
    if let Some(f) = { let r = PivotedQr::decompose(a); s.res(r) } {
        s.pm(f.triangular());
        s.pm(f.orthogonal());
        for k in f.permutation() {
            s.k(k);
        }
        if let Some(x) = { let r = f.solve_least_squares(b); s.res(r) } {
            s.pv(x);
        }
    }
    let w: Matrix<2, 4, T> = s.m();
    let r = PivotedQr::decompose(w);
    s.b(r.is_ok());
}
fn qr_damped<T: Sc>(s: &mut Sim) {
    let a: Matrix<6, 4, T> = s.m();
    let b: Vector<6, T> = s.v();
    let d: [T; 4] = core::array::from_fn(|_| s.r(0.0, 2.0));
    if let Some(f) = { let r = PivotedQr::decompose(a); s.res(r) } {
        let f = f.into_damped(b);
        let (x, l) = f.solve_with_diagonal(&d);
        s.pv(x);
        s.pa(&l.solve(d));
        let (x, l) = f.solve_with_zero_diagonal();
        s.pv(x);
        s.pa(&l.solve(d));
        s.put(f.max_a_t_b_scaled(b.norm()));
        s.put(f.a_x_norm(&x));
        s.b(f.is_non_singular());
    }
}
fn svd<const M: usize, const N: usize, T: Sc>(s: &mut Sim) {
    let a: Matrix<M, N, T> = s.m();
    let b: Vector<M, T> = s.v();
    let tol: T = s.r(0.0, 0.5);
    if let Some(f) = { let r = a.svd(); s.res(r) } {
        s.pv(f.singular_values());
        s.pm(f.left());
        s.pm(f.right());
        s.k(f.rank(tol));
        s.put(f.condition_number());
        s.pm(f.pseudo_inverse_tol(tol));
        s.pm(f.pseudo_inverse());
        s.pv(f.solve(b));
    }
    if let Some(p) = { let r = a.pseudo_inverse(); s.res(r) } {
        s.pm(p);
    }
}
fn svd_tall<T: Sc>(s: &mut Sim) {
    svd::<5, 3, T>(s);
    svd::<2, 4, T>(s)
}
fn svd_square<T: Sc>(s: &mut Sim) {
    svd::<4, 4, T>(s)
}
fn eig<const N: usize, T: Sc>(s: &mut Sim) {
    let a: Matrix<N, N, T> = if s.p(0.1) { s.m() } else { s.m::<N, N, T>().symmetrized() };
    if let Some(f) = { let r = a.symmetric_eigendecomposition(); s.res(r) } {
        s.pv(f.eigenvalues());
        s.pm(f.eigenvectors());
        s.put(f.determinant());
        s.put(f.condition_number());
        s.b(f.is_positive_definite());
        let k: T = s.x();
        s.pm(f.clamped(k));
    }
}
fn eig3<T: Sc>(s: &mut Sim) {
    eig::<3, T>(s)
}
fn eig5<T: Sc>(s: &mut Sim) {
    eig::<5, T>(s)
}
fn expm<const N: usize, T: Sc>(s: &mut Sim) {
    let k: T = s.r(0.0, 2.0);
    let a = s.m::<N, N, T>().scale(k);
    if let Some(e) = { let r = a.expm(); s.res(r) } {
        s.pm(e);
    }
}
fn expm3<T: Sc>(s: &mut Sim) {
    expm::<3, T>(s)
}
fn expm5<T: Sc>(s: &mut Sim) {
    expm::<5, T>(s)
}
fn lyap<T: Sc>(s: &mut Sim) {
    let k: T = s.r(0.05, 0.5);
    let (a, q): (Matrix<3, 3, T>, Matrix<3, 3, T>) = (s.m().scale(k), s.spd());
    if let Some(x) = { let r = solve_discrete_lyapunov(a, q); s.res(r) } {
        s.pm(x);
    }
}
fn ricc<T: Sc>(s: &mut Sim) {
    let (a, b, q, r): (Matrix<3, 3, T>, Matrix<3, 2, T>, Matrix<3, 3, T>, Matrix<2, 2, T>) = (s.m(), s.m(), s.spd(), s.spd());
    if let Some(x) = { let r = solve_discrete_riccati(a, b, q, r); s.res(r) } {
        s.pm(x);
    }
}
fn disc<T: Sc>(s: &mut Sim) {
    let (a, b, q): (Matrix<2, 2, T>, Matrix<2, 1, T>, Matrix<2, 2, T>) = (s.m(), s.m(), s.spd());
    let h: T = s.r(0.001, 0.5);
    if let Some((f, g)) = { let r = zoh::<2, 1, 3, T>(a, b, h); s.res(r) } {
        s.pm(f);
        s.pm(g);
    }
    if let Some((f, g)) = { let r = van_loan::<2, 4, T>(a, q, h); s.res(r) } {
        s.pm(f);
        s.pm(g);
    }
    let var: T = s.pos();
    s.pm(q_discrete_white_noise::<2, T>(h, var));
    s.pm(q_discrete_white_noise::<3, T>(h, var));
    s.pm(q_discrete_white_noise::<4, T>(h, var));
}
fn vectors<T: Sc>(s: &mut Sim) {
    let (a, b, c): (Vector<3, T>, Vector<3, T>, Vector<3, T>) = (s.v(), s.v(), s.v());
    let k: T = s.x();
    s.pv(a + b);
    s.pv(a - b);
    s.pv(-a * k);
    s.pv(a / k);
    s.pv(a.scale(k));
    s.put(a.dot(b));
    s.put(a.norm());
    s.put(a.norm_squared());
    s.pv(a.cross(b));
    s.put(a.scalar_triple(b, c));
    s.b(a.is_finite());
    s.pv(a.normalized());
    if let Some(n) = a.try_normalized() {
        s.pv(n);
    }
    let mut d = a;
    d.normalize();
    s.pv(d);
    let mut d = b;
    s.b(d.try_normalize().is_some());
    s.pv(d);
    let mut d = a;
    d += b;
    d -= c;
    s.pv(d);
    let i = s.ix(3);
    s.opt(a.get(i).copied());
    if let Some(x) = d.get_mut(i) {
        *x = T::ZERO;
    }
    s.pv(d.map(|x| x * x));
    s.pa(a.as_slice());
    d.as_mut_slice()[0] = T::ONE;
    s.pa(&d.into_array());
    let (e, f): (Vector<2, T>, Vector<2, T>) = (s.v(), s.v());
    s.put(e.cross(f));
}
/// Empty and one-wide sizes.
fn odd_sizes<T: Sc>(s: &mut Sim) {
    let z: Matrix<0, 0, T> = Matrix::zeros();
    s.put(z.determinant());
    s.b(z.inverse().is_ok());
    s.b(z.lu_decompose().is_ok());
    s.b(z.cholesky().is_ok());
    s.b(z.symmetric_eigendecomposition().is_ok());
    s.b(z.svd().is_ok());
    s.b(z.expm().is_ok());
    s.put(z.frobenius_norm());
    let v: Vector<0, T> = Vector::zeros();
    s.put(v.norm());
    s.b(v.try_normalized().is_some());
    let w: Matrix<3, 0, T> = Matrix::zeros();
    s.b(w.svd().is_ok());
    s.b(PivotedQr::decompose(w).is_ok());
    let w: Matrix<0, 3, T> = Matrix::zeros();
    s.b(w.svd().is_ok());
    s.b(PivotedQr::decompose(w).is_ok());
    svd::<3, 1, T>(s);
    svd::<1, 3, T>(s);
    eig::<1, T>(s);
    eig::<2, T>(s);
    expm::<1, T>(s);
}
/// Structured matrices on which iterations are hardest put: Jordan blocks, rotations, graded rows.
fn structured<T: Sc>(s: &mut Sim) {
    let kind = s.us(0, 4);
    let mut a: Matrix<4, 4, T> = Matrix::zeros();
    for i in 0..4 {
        for j in 0..4 {
            a[(i, j)] = match kind {
                0 => if i == j { s.r(0.9, 1.1) } else if j == i + 1 { T::ONE } else { T::ZERO },
                1 => if i + j == 3 { s.x() } else { T::ZERO },
                2 => T::t(10f64.powi(-(4 * (i + j) as i32))) * s.x(),
                3 => T::t(1.0 / (1 + i + j) as f64),
                _ => if (i + 1) % 4 == j { T::ONE } else { T::ZERO },
            };
        }
    }
    s.put(a.determinant());
    for m in [a, a.symmetrized(), a.transpose() * a] {
        if let Some(f) = { let r = m.svd(); s.res(r) } {
            s.pv(f.singular_values());
        }
        if let Some(f) = { let r = m.symmetric_eigendecomposition(); s.res(r) } {
            s.pv(f.eigenvalues());
        }
        if let Some(x) = { let r = m.inverse(); s.res(r) } {
            s.pm(x);
        }
        if let Some(x) = { let r = m.expm(); s.res(r) } {
            s.pm(x);
        }
        if let Some(x) = { let r = solve_discrete_lyapunov(m, Matrix::identity()); s.res(r) } {
            s.pm(x);
        }
        let b: Matrix<4, 1, T> = s.m();
        if let Some(x) = { let r = solve_discrete_riccati(m, b, Matrix::identity(), Matrix::identity()); s.res(r) } {
            s.pm(x);
        }
    }
}
