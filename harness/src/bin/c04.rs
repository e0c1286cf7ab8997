//! C04: vector and matrix algebra, views and fallible access.
use multicalc::{Matrix, Vector, matrix, vector};
use vmon::*;

fn h<T: Fl>(c: &mut Case) -> T {
    T::t(c.maybe_hostile(0.08))
}
fn sdiv(a: f64, b: f64) -> f64 {
    if b == 0.0 {
        if a.is_nan() || a == 0.0 { f64::NAN } else if a < 0.0 { f64::NEG_INFINITY } else { f64::INFINITY }
    } else {
        a / b
    }
}
fn tb<T: Fl>(c: &mut Case, tag: &str, got: T, want: f64) {
    // Elementwise operations are single IEEE operations in the scalar.
    c.same_bits(tag, got.d() + 0.0, T::t(want).d() + 0.0)
}
fn f32op(a: f64, b: f64, op: u8) -> f64 {
    match op {
        0 => a + b,
        1 => a - b,
        2 => a * b,
        _ => sdiv(a, b),
    }
}
fn vec_case<const N: usize, T: Fl>(c: &mut Case) {
    let a: Vector<N, T> = Vector::from_fn(|_| h(c));
    let b: Vector<N, T> = Vector::from_fn(|_| h(c));
    let k: T = h(c);
    c.note("a", &a);
    c.note("b", &b);
    c.note("k", &k);
    let (mut p, mut m) = (a, a);
    p += b;
    m -= b;
    for i in 0..N {
        let (x, y, s) = (a[i].d(), b[i].d(), k.d());
        tb(c, "vector-add", (a + b)[i], f32op(x, y, 0));
        tb(c, "vector-add-assign", p[i], f32op(x, y, 0));
        tb(c, "vector-sub", (a - b)[i], f32op(x, y, 1));
        tb(c, "vector-sub-assign", m[i], f32op(x, y, 1));
        tb(c, "vector-neg", (-a)[i], -x);
        tb(c, "vector-scale", a.scale(k)[i], f32op(x, s, 2));
        tb(c, "vector-mul", (a * k)[i], f32op(x, s, 2));
        tb(c, "vector-div", (a / k)[i], f32op(x, s, 3));
        tb(c, "zeros", Vector::<N, T>::zeros()[i], 0.0);
        tb(c, "map", a.map(|v| v + v)[i], x + x);
        tb(c, "as_array", a.as_array()[i], x);
        tb(c, "as_slice", a.as_slice()[i], x);
        tb(c, "into_array", a.into_array()[i], x);
    }
    // Access.
    let idx = c.us(0, N + 2);
    c.eq("get", a.get(idx).map(|x| x.d().to_bits()), if idx < N { Some(a[idx].d().to_bits()) } else { None });
    let mut g = a;
    let had = g.get_mut(idx).map(|x| *x = T::t(5.5)).is_some();
    c.eq("get_mut", had, idx < N);
    for i in 0..N {
        tb(c, "get_mut", g[i], if i == idx { 5.5 } else { a[i].d() });
    }
    let len = c.us(0, N + 2);
    let sl: Vec<T> = (0..len).map(|i| T::t(i as f64 + 0.5)).collect();
    match Vector::<N, T>::try_from_slice(&sl) {
        Some(v) => {
            c.eq("try_from_slice", len, N);
            for i in 0..N {
                tb(c, "try_from_slice", v[i], i as f64 + 0.5);
            }
        }
        None => c.ok(len != N, "try_from_slice", || "None for a matching length".into()),
    }
    let fin = (0..N).all(|i| a[i].d().is_finite());
    c.eq("is_finite", a.is_finite(), fin);
    // Reductions.
    let (ar, br) = (RM::ofv(&a), RM::ofv(&b));
    let sq: f64 = ar.d.iter().map(|x| x.f() * x.f()).sum();
    let sqb: f64 = br.d.iter().map(|x| x.f() * x.f()).sum();
    let (lo, hi) = if T::F32 { (1e-34, 1e36) } else { (1e-290, 1e290) };
    let rng = |s: f64| s > lo && s < hi;
    if fin && rng(sq) && b.is_finite() && rng(sqb) {
        c.hit("vector reductions");
        let d = ar.t().mul(&br).f(0, 0);
        let bd = ar.abs().t().mul(&br.abs()).f(0, 0);
        c.near("dot", a.dot(b).d(), d, 2.0 * N as f64 * T::EPS * bd + if T::F32 { 1e-37 } else { 1e-300 });
        c.near("norm_squared", a.norm_squared().d(), sq, 3.0 * N as f64 * T::EPS * sq);
        c.near("norm", a.norm().d(), ar.norm(), 3.0 * (N as f64 + 1.0) * T::EPS * ar.norm());
    }
    let nan = (0..N).any(|i| a[i].d().is_nan());
    let zero = (0..N).all(|i| a[i].d() == 0.0);
    let mut inplace = a;
    let r = inplace.try_normalize();
    let t = a.try_normalized();
    if nan || zero {
        c.ok(t.is_none(), "try_normalized-none", || format!("{t:?}"));
        c.ok(r.is_none(), "try_normalize-none", || "Some".into());
        for i in 0..N {
            c.same_bits("try_normalize-unchanged", inplace[i].d(), a[i].d());
        }
        c.hit("normalize refused");
    } else if fin && rng(sq) {
        let t = c.some("try_normalized", t);
        c.some("try_normalize", r);
        let mut n2 = a;
        n2.normalize();
        let n = ar.norm();
        for i in 0..N {
            for (tag, v) in [("try_normalized", t[i]), ("try_normalize", inplace[i]), ("normalize", n2[i]), ("normalized", a.normalized()[i])] {
                c.near(tag, v.d(), a[i].d() / n, 4.0 * (N as f64 + 2.0) * T::EPS * (a[i].d() / n).abs() + if T::F32 { 1e-44 } else { 1e-320 });
            }
        }
        c.hit("normalized");
    } else if fin {
        // Too large or too small to square, and a direction all the same.
        let m = (0..N).fold(0.0f64, |m, i| m.max(a[i].d().abs()));
        let near: Vec<DD> = (0..N).map(|i| dd(a[i].d() / m)).collect();
        let n = near.iter().fold(dd(0.0), |s, x| s + *x * *x).sqr();
        let t = c.some("try_normalized", t);
        c.some("try_normalize", r);
        for i in 0..N {
            for (tag, v) in [("try_normalized out of range", t[i]), ("try_normalize out of range", inplace[i])] {
                c.near(tag, v.d(), (near[i] / n).f(), 4.0 * (N as f64 + 2.0) * T::EPS);
            }
        }
        c.hit("normalized out of range");
    } else {
        c.ok(t.is_none() && r.is_none(), "no direction in an infinite vector", || format!("{t:?}"));
    }
}
fn cross<T: Fl>(c: &mut Case) {
    let a: Vector<3, T> = Vector::from_fn(|_| T::t(c.real()));
    let b: Vector<3, T> = Vector::from_fn(|_| T::t(c.real()));
    let d: Vector<3, T> = Vector::from_fn(|_| T::t(c.real()));
    let (x, y, z) = (RM::ofv(&a), RM::ofv(&b), RM::ofv(&d));
    let cr = |x: &RM, y: &RM, i: usize| {
        let (j, k) = ((i + 1) % 3, (i + 2) % 3);
        (x.at(j, 0) * y.at(k, 0) - x.at(k, 0) * y.at(j, 0), (x.f(j, 0) * y.f(k, 0)).abs() + (x.f(k, 0) * y.f(j, 0)).abs())
    };
    let got = a.cross(b);
    let mut tri = dd(0.0);
    let mut tb = 0.0;
    for i in 0..3 {
        let (w, bd) = cr(&x, &y, i);
        c.near("cross", got[i].d(), w.f(), 3.0 * T::EPS * bd);
        let (w, bd) = cr(&y, &z, i);
        tri = tri + x.at(i, 0) * w;
        tb += x.f(i, 0).abs() * bd;
    }
    c.near("scalar_triple", a.scalar_triple(b, d).d(), tri.f(), 8.0 * T::EPS * tb);
    let a2: Vector<2, T> = Vector::new([a[0], a[1]]);
    let b2: Vector<2, T> = Vector::new([b[0], b[1]]);
    let (w, bd) = cr(&x, &y, 2);
    c.near("cross2", a2.cross(b2).d(), w.f(), 3.0 * T::EPS * bd);
    c.hit("cross products");
}
fn mat_case<const R: usize, const K: usize, const C2: usize, T: Fl>(c: &mut Case) {
    let a: Matrix<R, K, T> = Matrix::from_fn(|_, _| h(c));
    let b: Matrix<R, K, T> = Matrix::from_fn(|_, _| h(c));
    let k: T = h(c);
    c.note("a", &a);
    let (mut p, mut m) = (a, a);
    p += b;
    m -= b;
    let t = a.transpose();
    for i in 0..R {
        for j in 0..K {
            let (x, y, s) = (a[(i, j)].d(), b[(i, j)].d(), k.d());
            tb(c, "matrix-add", (a + b)[(i, j)], x + y);
            tb(c, "matrix-add-assign", p[(i, j)], x + y);
            tb(c, "matrix-sub", (a - b)[(i, j)], x - y);
            tb(c, "matrix-sub-assign", m[(i, j)], x - y);
            tb(c, "matrix-neg", (-a)[(i, j)], -x);
            tb(c, "matrix-scale", a.scale(k)[(i, j)], x * s);
            tb(c, "matrix-mul-scalar", (a * k)[(i, j)], x * s);
            tb(c, "matrix-div", (a / k)[(i, j)], sdiv(x, s));
            tb(c, "transpose", t[(j, i)], x);
            tb(c, "rows", a.as_slice_rows()[i][j], x);
            tb(c, "into_array", a.into_array()[i][j], x);
            tb(c, "matrix-zeros", Matrix::<R, K, T>::zeros()[(i, j)], 0.0);
        }
    }
    let (ri, ci) = (c.us(0, R + 1), c.us(0, K + 1));
    let inb = ri < R && ci < K;
    c.eq("matrix-get", a.get(ri, ci).map(|x| x.d().to_bits()), if inb { Some(a[(ri, ci)].d().to_bits()) } else { None });
    let mut g = a;
    let had = g.get_mut(ri, ci).map(|x| *x = T::t(3.25)).is_some();
    c.eq("matrix-get_mut", had, inb);
    if inb {
        c.same_bits("matrix-get_mut", g[(ri, ci)].d(), 3.25);
    }
    match a.try_row(ri) {
        Some(v) => {
            c.ok(ri < R, "try_row", || "Some out of range".into());
            for j in 0..K {
                tb(c, "try_row", v[j], a[(ri, j)].d());
            }
        }
        None => c.ok(ri >= R, "try_row", || "None in range".into()),
    }
    match a.try_column(ci) {
        Some(v) => {
            c.ok(ci < K, "try_column", || "Some out of range".into());
            for i in 0..R {
                tb(c, "try_column", v[i], a[(i, ci)].d());
            }
        }
        None => c.ok(ci >= K, "try_column", || "None in range".into()),
    }
    let len = c.pick(&[R * K, R * K, R * K + 1, R * K - 1, 0]);
    let sl: Vec<T> = (0..len).map(|i| T::t(i as f64)).collect();
    match Matrix::<R, K, T>::try_from_row_slice(&sl) {
        Some(v) => {
            c.eq("try_from_row_slice", len, R * K);
            for i in 0..R {
                for j in 0..K {
                    tb(c, "try_from_row_slice", v[(i, j)], (i * K + j) as f64);
                }
            }
        }
        None => c.ok(len != R * K, "try_from_row_slice", || "None for a matching length".into()),
    }
    let fin = RM::of(&a).finite();
    c.eq("matrix-is_finite", a.is_finite(), fin);
    // Products on ordinary data.
    let a: Matrix<R, K, T> = mat(&gen_mat(c, R, K));
    let b: Matrix<K, C2, T> = mat(&gen_mat(c, K, C2));
    let v: Vector<K, T> = vecn(&gen_vec(c, K));
    let (ar, br, vr) = (RM::of(&a), RM::of(&b), RM::ofv(&v));
    let floor = if T::F32 { 1e-37 } else { 1e-300 };
    let (w, bd) = (ar.mul(&br), ar.abs().mul(&br.abs()));
    let got = a * b;
    for i in 0..R {
        for j in 0..C2 {
            c.near("matmul", got[(i, j)].d(), w.f(i, j), 2.0 * K as f64 * T::EPS * bd.f(i, j) + floor);
        }
    }
    let (w, bd) = (ar.mul(&vr), ar.abs().mul(&vr.abs()));
    let got = a * v;
    for i in 0..R {
        c.near("matvec", got[i].d(), w.f(i, 0), 2.0 * K as f64 * T::EPS * bd.f(i, 0) + floor);
    }
    let want = ar.norm();
    if want < 1e15 && want > 1e-15 {
        c.near("frobenius", a.frobenius_norm().d(), want, 3.0 * (R * K) as f64 * T::EPS * want);
    }
    c.hit("matrix algebra");
}
fn square<const N: usize, T: Fl>(c: &mut Case) {
    let a: Matrix<N, N, T> = mat(&gen_mat(c, N, N));
    let d: [T; N] = core::array::from_fn(|_| h(c));
    let dm = Matrix::from_diagonal(d);
    let id = Matrix::<N, N, T>::identity();
    let s = a.symmetrized();
    let diag = a.diagonal();
    for i in 0..N {
        tb(c, "diagonal", diag[i], a[(i, i)].d());
        for j in 0..N {
            tb(c, "from_diagonal", dm[(i, j)], if i == j { d[i].d() } else { 0.0 });
            tb(c, "identity", id[(i, j)], if i == j { 1.0 } else { 0.0 });
            c.same_bits("symmetrized-exact", s[(i, j)].d(), s[(j, i)].d());
            let w = 0.5 * a[(i, j)].d() + 0.5 * a[(j, i)].d();
            c.near("symmetrized", s[(i, j)].d(), w, 2.0 * T::EPS * (a[(i, j)].d().abs() + a[(j, i)].d().abs()));
        }
        c.same_bits("symmetrized-diagonal", s[(i, i)].d(), a[(i, i)].d());
    }
    let tr: f64 = (0..N).map(|i| a[(i, i)].d()).sum();
    let tra: f64 = (0..N).map(|i| a[(i, i)].d().abs()).sum();
    c.near("trace", a.trace().d(), tr, 2.0 * N as f64 * T::EPS * tra);
    c.ok(s.is_symmetric(), "symmetrized-is_symmetric", || "not symmetric".into());
    // The symmetry allowance: 30 eps relative to the larger of the pair, floored at one.
    if N >= 2 {
        let mut q = s;
        let i = c.us(0, N - 2);
        let j = c.us(i + 1, N - 1);
        let base = q[(i, j)].d();
        let allow = 30.0 * T::EPS * base.abs().max(1.0);
        let f = c.pick(&[0.3, 0.5, 2.0, 3.0, 100.0, 1e6]);
        let (lo, up) = if c.p(0.5) { ((i, j), (j, i)) } else { ((j, i), (i, j)) };
        q[lo] = T::t(base + c.sign() * f * allow);
        let _ = up;
        let actual = (q[(i, j)].d() - q[(j, i)].d()).abs();
        let bound = 30.0 * T::EPS * q[(i, j)].d().abs().max(q[(j, i)].d().abs()).max(1.0);
        if (actual - bound).abs() > 0.05 * bound {
            c.eq("is_symmetric", q.is_symmetric(), actual <= bound);
            c.hit(if actual <= bound { "symmetric within rounding" } else { "asymmetric" });
        }
    }
}
fn misc(c: &mut Case) {
    let e = c.vecf(9, |c| c.real());
    let m = RM::from_fn(3, 3, |i, j| e[i * 3 + j]);
    let spd = Matrix::<3, 3>::symmetric_positive_definite(&e);
    let w = m.mul(&m.t());
    let bd = m.abs().mul(&m.abs().t());
    for i in 0..3 {
        for j in 0..3 {
            c.near("symmetric_positive_definite", spd[(i, j)], w.f(i, j) + if i == j { 0.25 } else { 0.0 }, 1e-15 * 4.0 * (bd.f(i, j) + 0.25));
        }
    }
    let x = c.arr::<4>(|c| c.real());
    let v = vector![x[0], x[1], x[2], x[3]];
    let r = vector![x[0]; 5];
    let mm = matrix![[x[0], x[1]], [x[2], x[3]]];
    let m2 = matrix![[x[0], x[1]]; 3];
    let m3 = matrix![[x[2]; 2]; 4];
    for i in 0..4 {
        c.same_bits("vector!", v[i], x[i]);
        c.same_bits("matrix!", mm[(i / 2, i % 2)], x[i]);
    }
    for i in 0..5 {
        c.same_bits("vector![;]", r[i], x[0]);
    }
    for i in 0..3 {
        c.same_bits("matrix![;]", m2[(i, 0)], x[0]);
        c.same_bits("matrix![;]", m2[(i, 1)], x[1]);
        c.same_bits("matrix![[;];]", m3[(i + 1, i % 2)], x[2]);
    }
}
fn main() {
    vmon::run("C04", |s| {
        s.rule("A case counts when every operation, view and reduction on a generated vector or matrix was compared with its IEEE or double-double definition; distinct = distinct operands.");
        s.assume("Elementwise operations are compared bit for bit (signed zeros aside); reductions within 2N ulps of the sum of absolute terms; norms only where the squared norm is representable.");
        s.monitor("vector", 60000, 20, |c| { let n = c.us(1, 8); if c.p(0.3) { sized!(c, n, vec_case, f32) } else { sized!(c, n, vec_case, f64) } });
        s.monitor("cross", 60000, 20, |c| if c.p(0.3) { cross::<f32>(c) } else { cross::<f64>(c) });
        s.monitor("matrix", 60000, 20, |c| match c.us(0, 6) {
            0 => mat_case::<1, 1, 1, f64>(c),
            1 => mat_case::<2, 3, 4, f64>(c),
            2 => mat_case::<4, 2, 3, f64>(c),
            3 => mat_case::<3, 5, 2, f32>(c),
            4 => mat_case::<6, 6, 6, f64>(c),
            5 => mat_case::<1, 7, 1, f64>(c),
            _ => mat_case::<5, 1, 4, f32>(c),
        });
        s.monitor("square", 60000, 20, |c| { let n = c.us(1, 8); if c.p(0.3) { sized!(c, n, square, f32) } else { sized!(c, n, square, f64) } });
        s.monitor("vector-large", 3000, 20, |c| { let n = c.us(0, 3); if c.p(0.3) { sized_big!(c, n, vec_case, f32) } else { sized_big!(c, n, vec_case, f64) } });
        s.monitor("matrix-large", 3000, 20, |c| match c.us(0, 2) {
            0 => mat_case::<9, 12, 10, f64>(c),
            1 => mat_case::<16, 9, 11, f32>(c),
            _ => mat_case::<3, 17, 2, f64>(c),
        });
        s.monitor("square-large", 3000, 20, |c| { let n = c.us(0, 3); if c.p(0.3) { sized_big!(c, n, square, f32) } else { sized_big!(c, n, square, f64) } });
        s.monitor("literals", 4000, 10, misc);
        for (e, n) in [("vector reductions", 10000), ("normalize refused", 1000), ("normalized", 10000), ("normalized out of range", 300), ("matrix algebra", 10000), ("symmetric within rounding", 2000), ("asymmetric", 2000)] {
            s.require(e, n);
        }
    })
}
