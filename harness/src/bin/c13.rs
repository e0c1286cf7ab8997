//! C13: polynomial algebra, construction, piecewise curves and polynomials in several variables.
use multicalc::error::{LinalgError, PolynomialError as E};
use multicalc::polynomial::*;
use multicalc::scalar::Jet;
use multicalc::Vector;
use std::collections::BTreeMap;
use vmon::*;

type P<const N: usize, T> = Polynomial<N, T>;
fn coef<T: Fl>(c: &mut Case) -> f64 {
    let v = match c.us(0, 7) {
        0 => 0.0,
        1 | 2 => c.int(-5, 5) as f64,
        3 => c.ls(-6.0, 6.0),
        4 => -c.unit(),
        _ => c.f(-3.0, 3.0),
    };
    T::t(v).d()
}
fn coefs<const N: usize, T: Fl>(c: &mut Case) -> [f64; N] {
    let top = c.us(0, N);
    let mut a: [f64; N] = c.arr(coef::<T>);
    if c.p(0.4) {
        for v in a.iter_mut().skip(top) {
            *v = 0.0;
        }
    }
    a
}
fn poly<const N: usize, T: Fl>(a: &[f64; N]) -> P<N, T> {
    Polynomial::new(a.map(T::t))
}
fn cf<const N: usize, T: Fl>(p: &P<N, T>) -> Vec<f64> {
    p.coefficients().iter().map(|v| v.d()).collect()
}
fn deg(a: &[f64]) -> Option<usize> {
    a.iter().rposition(|v| *v != 0.0)
}
/// k-th derivative of the polynomial at x, with the sum of the magnitudes.
fn ev(a: &[f64], x: DD, k: usize) -> (DD, f64) {
    let mut s = dd(0.0);
    let mut m = 0.0;
    let mut pw = dd(1.0);
    for j in k..a.len() {
        let mut w = 1.0;
        for i in 0..k {
            w *= (j - i) as f64;
        }
        let t = dd(a[j]).mulf(w) * pw;
        s = s + t;
        m += t.f().abs();
        pw = pw * x;
    }
    (s, m)
}
fn conv(a: &[f64], b: &[f64]) -> (Vec<DD>, Vec<f64>) {
    let n = a.len() + b.len();
    let (mut r, mut m) = (vec![dd(0.0); n], vec![0.0; n]);
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j] = r[i + j] + dd(*x) * dd(*y);
            m[i + j] += (x * y).abs();
        }
    }
    (r, m)
}
fn tiny<T: Fl>() -> f64 {
    if T::F32 { 1e-36 } else { 1e-290 }
}
fn core<const N: usize, T: Fl>(c: &mut Case) {
    let a = coefs::<N, T>(c);
    let p = poly::<N, T>(&a);
    let x = T::t(match c.us(0, 5) {
        0 => 0.0,
        1 => c.pick(&[1.0, -1.0, 2.0]),
        2 => c.ls(-3.0, 3.0),
        _ => c.f(-2.0, 2.0),
    });
    c.note("coefficients", &a);
    c.note("x", &x);
    let xd = dd(x.d());
    let e = 3.0 * (N as f64 + 1.0) * T::EPS;
    let (w, m) = ev(&a, xd, 0);
    if !(m < if T::F32 { 1e30 } else { 1e250 }) {
        return c.discard();
    }
    c.near("evaluate", p.evaluate(x).d(), w.f(), e * m + tiny::<T>());
    let all = p.evaluate_with_derivatives::<5>(x);
    for k in 0..5 {
        let (w, m) = ev(&a, xd, k);
        c.near("derivatives", all[k].d(), w.f(), 2.0 * e * m + tiny::<T>() * 100.0);
        let nth = p.nth_derivative(k);
        c.near("nth-derivative", nth.evaluate(x).d(), w.f(), 3.0 * e * m + tiny::<T>() * 100.0);
    }
    let d = cf(&p.derivative());
    for k in 0..N {
        let want = if k + 1 < N { dd(a[k + 1]).mulf((k + 1) as f64).f() } else { 0.0 };
        c.near("derivative", d[k], want, T::EPS * want.abs());
    }
    c.eq("derivative-is-nth", p.derivative(), p.nth_derivative(1));
    let past = N + c.us(0, 3);
    c.eq("nth-past-degree", p.nth_derivative(past).is_zero(), true);
    c.eq("nth-zero", p.nth_derivative(0), p);
    // Integral.
    let (lo, hi) = (T::t(c.f(-2.0, 2.0)), T::t(c.f(-2.0, 2.0)));
    let (mut w, mut m) = (dd(0.0), 0.0);
    for k in 0..N {
        let (h, l) = (dd(hi.d()).powi_(k as i32 + 1), dd(lo.d()).powi_(k as i32 + 1));
        w = w + dd(a[k]) * (h - l) / dd(k as f64 + 1.0);
        m += (a[k].abs() * (h.f().abs() + l.f().abs())) / (k as f64 + 1.0);
    }
    c.near("definite-integral", p.definite_integral(lo, hi).d(), w.f(), 2.0 * e * m + tiny::<T>());
    c.near("integral-reversed", p.definite_integral(hi, lo).d(), -w.f(), 2.0 * e * m + tiny::<T>());
    // Questions.
    let dg = deg(&a);
    c.eq("degree", p.degree(), dg);
    c.eq("leading", p.leading_coefficient().map(|v| v.d()), dg.map(|k| a[k]));
    c.eq("is-zero", p.is_zero(), dg.is_none());
    c.eq("is-finite", p.is_finite(), true);
    let i = c.us(0, N + 2);
    c.eq("coefficient", p.coefficient(i).map(|v| v.d()), a.get(i).copied());
    if N > 0 {
        let mut h = a;
        let at = c.us(0, N - 1);
        h[at] = c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
        c.eq("not-finite", poly::<N, T>(&h).is_finite(), false);
    }
    // Elementwise.
    let b = coefs::<N, T>(c);
    let q = poly::<N, T>(&b);
    let f = T::t(c.f(-3.0, 3.0));
    let (s, df, ng, sc, rv) = (cf(&(p + q)), cf(&(p - q)), cf(&(-p)), cf(&p.scale(f)), cf(&p.reverse()));
    let (tm, ov) = (cf(&(p * f)), cf(&(p / f)));
    for k in 0..N {
        c.same_bits("add", s[k], (T::t(a[k]) + T::t(b[k])).d());
        c.same_bits("sub", df[k], (T::t(a[k]) - T::t(b[k])).d());
        c.eq("neg", ng[k], -a[k]);
        c.same_bits("scale", sc[k], (T::t(a[k]) * f).d());
        c.same_bits("times a number", tm[k], (T::t(a[k]) * f).d());
        if f.d() != 0.0 {
            let w = a[k] / f.d();
            c.near("over a number", ov[k], w, 2.0 * T::EPS * w.abs() + tiny::<T>());
        }
        c.eq("reverse", rv[k], a[N - 1 - k]);
    }
    // Shift and stretch.
    let o = T::t(if c.p(0.1) { 0.0 } else { c.f(-3.0, 3.0) });
    let sh = cf(&p.shift_argument(o));
    let st = cf(&p.scale_argument(o));
    for k in 0..N {
        let (mut w, mut m) = (dd(0.0), 0.0);
        for j in k..N {
            let mut b = 1.0;
            for i in 0..k {
                b = b * (j - i) as f64 / (i + 1) as f64;
            }
            let t = dd(a[j]).mulf(b.round()) * dd(o.d()).powi_((j - k) as i32);
            w = w + t;
            m += t.f().abs();
        }
        c.near("shift", sh[k], w.f(), 2.0 * e * m + tiny::<T>());
        let w = (dd(a[k]) * dd(o.d()).powi_(k as i32)).f();
        c.near("stretch", st[k], w, e * w.abs() + tiny::<T>());
    }
    c.hit("polynomial judged");
}
fn resize<const N: usize, const M: usize, T: Fl>(c: &mut Case) {
    let a = coefs::<N, T>(c);
    c.note("coefficients", &a);
    let fits = deg(&a).is_none_or(|d| d < M);
    let r = poly::<N, T>(&a).try_resize::<M>();
    c.eq("resize-fits", r.is_some(), fits);
    if let Some(r) = r {
        for (k, v) in cf(&r).into_iter().enumerate() {
            c.eq("resize", v, a.get(k).copied().unwrap_or(0.0));
        }
        c.hit("resized");
    } else {
        c.hit("resize refused");
    }
}
fn product<const N: usize, const M: usize, const O: usize, T: Fl>(c: &mut Case) {
    let (a, b) = (coefs::<N, T>(c), coefs::<M, T>(c));
    c.note("product", &(a, b, O));
    let (w, m) = conv(&a, &b);
    let over = m.iter().skip(O).any(|v| *v != 0.0);
    match poly::<N, T>(&a).multiply_into::<M, O>(&poly::<M, T>(&b)) {
        Ok(r) => {
            c.ok(!over, "product-overflow", || "a term past the output was dropped".into());
            for (k, v) in cf(&r).into_iter().enumerate() {
                let (w, m) = (w.get(k).map_or(0.0, |v| v.f()), m.get(k).copied().unwrap_or(0.0));
                c.near("product", v, w, (N.min(M) as f64 + 1.0) * T::EPS * m + tiny::<T>());
            }
            c.hit("product judged");
        }
        Err(e) => {
            c.eq("product-error", e, E::DegreeOverflow);
            c.ok(over, "product-spurious", || "DegreeOverflow though every term fits".into());
            c.hit("product refused");
        }
    }
}
fn compose<const N: usize, const M: usize, const O: usize, T: Fl>(c: &mut Case) {
    let (a, b) = (coefs::<N, T>(c), coefs::<M, T>(c));
    c.note("compose", &(a, b, O));
    let top = match (deg(&a), deg(&b)) {
        (Some(x), Some(y)) => x * y,
        _ => 0,
    };
    let r = poly::<N, T>(&a).compose_into::<M, O>(&poly::<M, T>(&b));
    if O == 0 {
        return;
    }
    let r = match r {
        Err(e) => {
            c.eq("compose-error", e, E::DegreeOverflow);
            c.ok(top >= O, "compose-spurious", || format!("degree {top} fits in {O}"));
            c.hit("composition refused");
            return;
        }
        Ok(r) => r,
    };
    c.ok(top < O, "compose-overflow", || format!("degree {top} does not fit in {O}"));
    let mut w = vec![dd(0.0); O + M + 1];
    let mut m = vec![0.0; O + M + 1];
    for k in (0..N).rev() {
        let (mut nw, mut nm) = (vec![dd(0.0); O + M + 1], vec![0.0; O + M + 1]);
        for i in 0..O {
            for j in 0..M {
                nw[i + j] = nw[i + j] + w[i] * dd(b[j]);
                nm[i + j] += m[i] * b[j].abs();
            }
        }
        nw[0] = nw[0] + dd(a[k]);
        nm[0] += a[k].abs();
        w = nw;
        m = nm;
    }
    for (k, v) in cf(&r).into_iter().enumerate() {
        c.near("compose", v, w[k].f(), 4.0 * (N + M) as f64 * T::EPS * m[k] + tiny::<T>());
    }
    c.hit("composition judged");
}
fn divide<const N: usize, const D: usize, const Q: usize, const R: usize, T: Fl>(c: &mut Case) {
    let a = coefs::<N, T>(c);
    let mut b = coefs::<D, T>(c);
    let exact = c.p(0.3);
    if exact {
        b = b.map(|v| v.round());
        if let Some(d) = deg(&b) {
            b[d] = b[d].signum();
        }
    }
    c.note("divide", &(a, b, Q, R));
    let r = poly::<N, T>(&a).divide::<D, Q, R>(&poly::<D, T>(&b));
    let Some(dd_) = deg(&b) else {
        c.eq("divide-by-zero", r.err(), Some(E::LeadingCoefficientZero));
        c.hit("division by zero refused");
        return;
    };
    let dn = deg(&a);
    let qover = dn.is_some_and(|n| n >= dd_ && n - dd_ >= Q);
    match r {
        Err(e) => {
            c.eq("divide-error", e, E::DegreeOverflow);
            // A quotient too long always shows; otherwise the remainder must be the reason.
            c.ok(qover || R < dd_, "divide-spurious", || "DegreeOverflow though both outputs fit".into());
            c.hit("division refused");
        }
        Ok((q, r)) => {
            c.ok(!qover, "divide-overflow", || "the quotient does not fit".into());
            let (q, r) = (cf(&q), cf(&r));
            c.ok(deg(&r).is_none_or(|x| x < dd_), "remainder-degree", || format!("{r:?}"));
            let (w, m) = conv(&q, &b);
            if q.iter().chain(&m).any(|v| !(v.abs() < 1e30)) {
                return c.discard();
            }
            let mut big = vec![0.0; N.max(w.len())];
            // Growth of the working copy bounds the rounding.
            for k in 0..big.len() {
                big[k] = a.get(k).copied().unwrap_or(0.0).abs() + m.get(k).copied().unwrap_or(0.0);
            }
            for k in 0..N {
                let got = w.get(k).map_or(dd(0.0), |v| *v) + dd(r.get(k).copied().unwrap_or(0.0));
                c.near("divide", (got - dd(a[k])).f(), 0.0, 4.0 * N as f64 * T::EPS * big[k] + tiny::<T>());
            }
            for k in N..w.len() {
                c.eq("divide-high", w[k].f(), 0.0);
            }
            if exact {
                c.hit("monic division judged");
            }
            c.hit("division judged");
        }
    }
}
fn roots_to_poly<const N: usize, T: Fl>(c: &mut Case) {
    let n = c.us(0, N + 1);
    let mut r: Vec<f64> = (0..n).map(|_| T::t(if c.p(0.2) { c.int(-3, 3) as f64 } else { c.f(-4.0, 4.0) }).d()).collect();
    let bad = n > 0 && c.p(0.1);
    if bad {
        let i = c.us(0, n - 1);
        r[i] = c.pick(&[f64::NAN, f64::INFINITY]);
    }
    c.note("roots", &r);
    let rt: Vec<T> = r.iter().map(|v| T::t(*v)).collect();
    let g = P::<N, T>::from_roots(&rt);
    if bad {
        c.eq("from-roots-nonfinite", g.err(), Some(E::NonFinite));
        return;
    }
    if n >= N {
        c.eq("from-roots-overflow", g.err(), Some(E::DegreeOverflow));
        c.hit("too many roots refused");
        return;
    }
    let g = cf(&c.get("from-roots", g));
    let (mut w, mut m) = (vec![dd(0.0); N], vec![0.0; N]);
    w[0] = dd(1.0);
    m[0] = 1.0;
    for x in &r {
        for k in (0..N).rev() {
            let lo = if k > 0 { (w[k - 1], m[k - 1]) } else { (dd(0.0), 0.0) };
            w[k] = lo.0 - w[k] * dd(*x);
            m[k] = lo.1 + m[k] * x.abs();
        }
    }
    for k in 0..N {
        c.near("from-roots", g[k], w[k].f(), 3.0 * N as f64 * T::EPS * m[k]);
    }
    c.eq("monic", g[n], 1.0);
    c.hit("roots expanded");
}
fn jet<const N: usize, T: Fl>(c: &mut Case) {
    let a: [f64; 4] = coefs::<4, T>(c);
    let j = Jet::<T, 4> { coeffs: a.map(T::t) };
    let r = P::<N, T>::from_jet(&j);
    if N < 4 {
        c.eq("jet-overflow", r.err(), Some(E::DegreeOverflow));
    } else {
        let r = cf(&c.get("jet", r));
        for k in 0..N {
            c.eq("jet", r[k], a.get(k).copied().unwrap_or(0.0));
        }
        c.hit("jet carried over");
    }
}
fn cheb<const N: usize, T: Fl>(c: &mut Case) {
    let lo = T::t(c.f(-5.0, 5.0));
    let hi = T::t(lo.d() + c.lu(-1.0, 2.0));
    c.note("range", &(lo, hi));
    let n = P::<N, T>::chebyshev_nodes(lo, hi);
    for i in 0..N {
        let ang = dd((2 * (N - 1 - i) + 1) as f64) * DD::atan2_(dd(0.0), dd(-1.0)) / dd(2.0 * N as f64);
        let w = (dd(lo.d()) + dd(hi.d())) * dd(0.5) + (dd(hi.d()) - dd(lo.d())) * dd(0.5) * ang.sincos().1;
        c.near("chebyshev", n[i].d(), w.f(), 6.0 * T::EPS * (lo.d().abs() + hi.d().abs()));
    }
    c.hit("chebyshev nodes judged");
}
fn nodes_for<T: Fl>(c: &mut Case, n: usize) -> Vec<f64> {
    // Distinct, reasonably separated positions on a range that may sit away from zero.
    let (mid, wid) = (if c.p(0.5) { 0.0 } else { c.f(-4.0, 4.0) }, c.lu(-1.0, 2.0));
    let mut v: Vec<f64> = (0..n).map(|i| T::t(mid + wid * (i as f64 + 0.6 * c.unit()) / n as f64).d()).collect();
    let p = c.perm(n);
    v = p.iter().map(|i| v[*i]).collect();
    v
}
fn interpolate<const N: usize, T: Fl>(c: &mut Case) {
    let x: [f64; N] = nodes_for::<T>(c, N).try_into().unwrap();
    let scale = c.lu(-2.0, 2.0);
    let y: [f64; N] = c.arr(|c| T::t(c.f(-1.0, 1.0) * scale).d());
    c.note("points", &(x, y));
    let bad = if N >= 2 && c.p(0.15) { c.us(1, 2) } else { 0 };
    let (mut xt, mut yt) = (x.map(T::t), y.map(T::t));
    if bad == 1 {
        let i = c.us(0, N - 2);
        let j = c.us(i + 1, N - 1);
        xt[j] = xt[i];
        c.eq("duplicate-node", P::<N, T>::from_points(&xt, &yt).err(), Some(E::DuplicateNode));
        c.hit("duplicate node refused");
        return;
    }
    if bad == 2 {
        let k = c.us(0, 2 * N - 1);
        let v = T::t(c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]));
        if k < N { xt[k] = v } else { yt[k - N] = v }
        c.eq("non-finite-node", P::<N, T>::from_points(&xt, &yt).err(), Some(E::NonFinite));
        return;
    }
    let p = cf(&c.get("from-points", P::<N, T>::from_points(&xt, &yt)));
    // Through every point, up to what the powers around zero cost.
    let mut v = RM::zeros(N, N);
    let (lo, hi) = (x.iter().cloned().fold(f64::MAX, f64::min), x.iter().cloned().fold(f64::MIN, f64::max));
    let (mid, half) = ((lo + hi) / 2.0, if N > 1 { (hi - lo) / 2.0 } else { 1.0 });
    for i in 0..N {
        for j in 0..N {
            *v.at_mut(i, j) = ((dd(x[i]) - dd(mid)) / dd(half)).powi_(j as i32);
        }
    }
    let cn = v.solve(&RM::col(&y)).unwrap();
    let grow = v.inv().unwrap().abs().norm();
    // Sum of term magnitudes after expanding around zero.
    for i in 0..N {
        let mag: f64 = (0..N).map(|k| cn.f(k, 0).abs() * ((x[i].abs() + mid.abs()) / half).powi(k as i32)).sum();
        let tol = 20.0 * N as f64 * T::EPS * (mag + grow * nrm(&y) * ((x[i].abs() + mid.abs()) / half + 1.0).powi(N as i32 - 1));
        c.near("through-the-points", (ev(&p, dd(x[i]), 0).0 - dd(y[i])).f(), 0.0, tol);
    }
    c.hit("interpolation judged");
}
fn exact_points<const N: usize>(c: &mut Case) {
    // Whole-number polynomials on whole-number positions come back exactly enough to recognise.
    let a: [f64; N] = c.arr(|c| c.int(-4, 4) as f64);
    let start = c.int(-4, 0);
    let x: Vec<f64> = (0..N + 3).map(|i| (start + i as i64) as f64).collect();
    let per = c.perm(N);
    let xs: [f64; N] = core::array::from_fn(|i| x[per[i]]);
    let ys = xs.map(|x| ev(&a, dd(x), 0).0.f());
    c.note("whole", &(a, xs));
    let p = c.get("from-points", P::<N, f64>::from_points(&xs, &ys));
    for k in 0..N {
        c.near("whole-points", p.coefficients()[k], a[k], 1e-7);
    }
    c.hit("whole-number interpolation judged");
}
fn fit<const N: usize, const S: usize, T: Fl>(c: &mut Case) {
    let mut x: [f64; S] = nodes_for::<T>(c, S).try_into().unwrap();
    let y: [f64; S] = c.arr(|c| T::t(c.f(-2.0, 2.0)).d());
    if S < N {
        c.eq("too-few-samples", P::<N, T>::fit_least_squares(&x.map(T::t), &y.map(T::t)).err(), Some(E::TooFewSamples));
        c.hit("too few samples refused");
        return;
    }
    match c.us(0, 12) {
        0 => {
            x = [x[0]; S];
            c.eq("one-position", P::<N, T>::fit_least_squares(&x.map(T::t), &y.map(T::t)).err(), Some(E::DuplicateNode));
            return;
        }
        1 => {
            let k = c.us(0, S - 1);
            let mut yt = y.map(T::t);
            yt[k] = T::t(f64::NAN);
            c.eq("nan-sample", P::<N, T>::fit_least_squares(&x.map(T::t), &yt).err(), Some(E::NonFinite));
            c.hit("nan sample refused");
            return;
        }
        2 if N > 2 => {
            // Only N - 1 distinct positions cannot pin down N coefficients.
            for k in 0..S {
                x[k] = x[k % (N - 1)];
            }
            let r = P::<N, T>::fit_least_squares(&x.map(T::t), &y.map(T::t));
            c.note("positions", &x);
            c.ok(matches!(r, Err(E::Linalg(LinalgError::Singular | LinalgError::IllConditioned | LinalgError::Underdetermined))), "rank-deficient-fit", || format!("{r:?}"));
            c.hit("rank-deficient fit refused");
            return;
        }
        _ => {}
    }
    c.note("samples", &(x, y));
    let p = cf(&c.get("fit", P::<N, T>::fit_least_squares(&x.map(T::t), &y.map(T::t))));
    let (lo, hi) = (x.iter().cloned().fold(f64::MAX, f64::min), x.iter().cloned().fold(f64::MIN, f64::max));
    let (mid, half) = ((lo + hi) / 2.0, (hi - lo) / 2.0);
    let mut v = RM::zeros(S, N);
    for i in 0..S {
        for j in 0..N {
            *v.at_mut(i, j) = ((dd(x[i]) - dd(mid)) / dd(half)).powi_(j as i32);
        }
    }
    let g = v.t().mul(&v);
    let Some(cn) = g.solve(&v.t().mul(&RM::col(&y))) else { return c.discard() };
    let grow = g.inv().map_or(1e9, |m| m.norm());
    let want = v.mul(&cn);
    for i in 0..S {
        let r = (x[i].abs() + mid.abs()) / half;
        let mag: f64 = (0..N).map(|k| cn.f(k, 0).abs() * r.powi(k as i32)).sum();
        let tol = 30.0 * S as f64 * T::EPS * (1.0 + grow) * (mag + nrm(&y) * (1.0 + r).powi(N as i32 - 1));
        c.near("fit", ev(&p, dd(x[i]), 0).0.f(), want.f(i, 0), tol);
    }
    c.hit("fit judged");
}
fn endpoints<T: Fl>(c: &mut Case) {
    let span = T::t(c.lu(-2.0, 2.0)).d();
    let g = |c: &mut Case| T::t(c.f(-3.0, 3.0)).d();
    let s: [f64; 4] = c.arr(g);
    let e: [f64; 4] = c.arr(g);
    c.note("endpoints", &(s, e, span));
    if c.p(0.15) {
        let bad = T::t(c.pick(&[0.0, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0]));
        let want = Some(if bad.d().is_finite() { E::SpanNotPositive } else { E::NonFinite });
        c.eq("bad-span-4", P::<4, T>::from_endpoint_derivatives(T::t(s[0]), T::t(s[1]), T::t(e[0]), T::t(e[1]), bad).err(), want);
        c.eq("bad-span-8", P::<8, T>::from_endpoint_derivatives(&s.map(T::t), &e.map(T::t), bad).err(), want);
        let k = c.us(0, 7);
        let (mut st, mut et) = (s.map(T::t), e.map(T::t));
        if k < 4 { st[k] = T::t(f64::NAN) } else { et[k - 4] = T::t(f64::INFINITY) }
        c.eq("bad-end-8", P::<8, T>::from_endpoint_derivatives(&st, &et, T::t(span)).err(), Some(E::NonFinite));
        c.hit("bad end conditions refused");
        return;
    }
    let p = cf(&c.get("cubic", P::<4, T>::from_endpoint_derivatives(T::t(s[0]), T::t(s[1]), T::t(e[0]), T::t(e[1]), T::t(span))));
    let m = s[0].abs() + e[0].abs() + (s[1].abs() + e[1].abs()) * span;
    for (x, v) in [(0.0, s), (1.0, e)] {
        for k in 0..2 {
            let got = ev(&p, dd(x), k).0.f();
            c.near("cubic-ends", got, v[k] * span.powi(k as i32), 60.0 * T::EPS * m);
        }
    }
    let r = P::<8, T>::from_endpoint_derivatives(&s.map(T::t), &e.map(T::t), T::t(span));
    if T::F32 && !(0.2..5.0).contains(&span) && matches!(r, Err(E::Linalg(LinalgError::IllConditioned))) {
        c.hit("single-precision solve refused");
        return;
    }
    let p = cf(&c.get("septic", r));
    let m: f64 = (0..4).map(|k| (s[k].abs() + e[k].abs()) * span.powi(k as i32)).sum();
    for (x, v) in [(0.0, s), (1.0, e)] {
        for k in 0..4 {
            let got = ev(&p, dd(x), k).0.f();
            c.near("septic-ends", got, (dd(v[k]) * dd(span).powi_(k as i32)).f(), 3e5 * T::EPS * m);
        }
    }
    c.hit("end conditions met");
}
fn piecewise<const N: usize, const M: usize, const D: usize, T: Fl>(c: &mut Case) {
    let n = c.us(0, N + 1);
    let pcs: Vec<[[f64; M]; D]> = (0..n).map(|_| core::array::from_fn(|_| c.arr(|c| T::t(c.f(-2.0, 2.0)).d()))).collect();
    let mut sp: Vec<f64> = (0..n).map(|_| T::t(if c.p(0.5) { c.int(1, 4) as f64 * 0.5 } else { c.lu(-2.0, 1.0) }).d()).collect();
    let mut bad_span = false;
    if n > 0 && c.p(0.07) {
        let i = c.us(0, n - 1);
        sp[i] = c.pick(&[0.0, -1.0, f64::NAN, f64::INFINITY]);
        bad_span = true;
    }
    let uneven = c.p(0.05);
    if uneven {
        sp.push(1.0);
    }
    c.note("pieces", &(&pcs, &sp));
    let pt: Vec<[P<M, T>; D]> = pcs.iter().map(|p| core::array::from_fn(|d| poly::<M, T>(&p[d]))).collect();
    let st: Vec<T> = sp.iter().map(|v| T::t(*v)).collect();
    let r = PiecewisePolynomial::<N, M, D, T>::try_from_pieces(&pt, &st);
    let want = if n == 0 || sp.is_empty() { Some(E::Empty) } else if uneven || n > N { Some(E::CapacityExceeded) } else if bad_span { Some(E::SpanNotPositive) } else { None };
    if want.is_some() {
        c.eq("pieces-error", r.err(), want);
        c.hit("bad pieces refused");
        return;
    }
    let cv = c.get("pieces", r);
    c.eq("piece-count", cv.piece_count(), n);
    c.eq("is-empty", cv.is_empty(), false);
    let k = c.us(0, N + 1);
    c.eq("span", cv.span(k).map(|v| v.d()), sp.get(k).copied());
    let ax = c.us(0, D);
    c.eq("piece-polynomial", cv.piece_polynomial(k, ax).map(cf), if k < n && ax < D { Some(pcs[k][ax].to_vec()) } else { None });
    let knots: Vec<f64> = core::iter::once(0.0).chain(st.iter().scan(T::ZERO, |a, s| { *a += *s; Some(a.d()) })).collect();
    let tot = knots[n];
    c.near("total-span", cv.total_span().d(), tot, 2.0 * n as f64 * T::EPS * tot);
    for _ in 0..4 {
        let t = T::t(match c.us(0, 6) {
            0 => -c.lu(-3.0, 2.0),
            1 => tot + c.lu(-3.0, 2.0),
            2 => { let i = c.us(0, n); knots[i] }
            3 => 0.0,
            _ => c.f(0.0, tot),
        });
        c.note("parameter", &t);
        let td = t.d();
        // The piece the parameter falls in: a joint belongs to the piece that starts there.
        let cl = td.max(0.0).min(tot);
        let i = (0..n).rev().find(|i| knots[*i] <= cl).unwrap();
        let i = if cl >= tot { n - 1 } else { i };
        let u = if cl >= tot { dd(1.0) } else { (dd(cl) - dd(knots[i])) / dd(sp[i]) };
        let v = c.get("evaluate", cv.evaluate(t));
        let all = c.get("evaluate-all", cv.evaluate_with_derivatives::<4>(t));
        let ud = 4.0 * T::EPS * (1.0 + knots[i] / sp[i]);
        for d in 0..D {
            for o in 0..4 {
                let a = &pcs[i][d];
                let (w, m) = ev(a, u, o);
                let (_, m1) = ev(a, u + dd(ud), o + 1);
                let z = sp[i].powi(o as i32);
                let tol = (20.0 * M as f64 * T::EPS * m + ud * m1) / z;
                let w = (w / dd(sp[i]).powi_(o as i32)).f();
                if o == 0 {
                    c.near("curve", v[d].d(), w, tol);
                }
                c.near("curve-derivative", all[o][d].d(), w, tol);
                let nd = cv.nth_derivative(o);
                let got = c.get("slope-curve", nd.evaluate(t));
                c.near("derivative-curve", got[d].d(), w, tol);
                if o == 1 {
                    c.eq("derivative-is-first", cv.derivative(), nd);
                }
            }
        }
        c.hit("curve point judged");
    }
    let nd = cv.nth_derivative(M + c.us(0, 2));
    for i in 0..n {
        for d in 0..D {
            c.eq("flat", nd.piece_polynomial(i, d).unwrap().is_zero(), true);
        }
    }
    // Areas.
    let (a, b) = (c.f(-1.0, tot + 1.0), c.f(-1.0, tot + 1.0));
    let (ta, tb) = (T::t(a), T::t(b));
    let got = c.get("area", cv.definite_integral(ta, tb));
    let (lo, hi) = (ta.d().min(tb.d()).max(0.0).min(tot), ta.d().max(tb.d()).max(0.0).min(tot));
    for d in 0..D {
        let (mut w, mut m) = (dd(0.0), 0.0);
        for i in 0..n {
            let (l, h) = (lo.max(knots[i]), hi.min(knots[i + 1]));
            if h <= l {
                continue;
            }
            let (ul, uh) = ((dd(l) - dd(knots[i])) / dd(sp[i]), (dd(h) - dd(knots[i])) / dd(sp[i]));
            for k in 0..M {
                w = w + dd(pcs[i][d][k]) * (uh.powi_(k as i32 + 1) - ul.powi_(k as i32 + 1)) / dd(k as f64 + 1.0) * dd(sp[i]);
                m += 2.0 * pcs[i][d][k].abs() * (sp[i] + knots[i]);
            }
        }
        let sgn = if tb < ta { -1.0 } else { 1.0 };
        c.near("area", got[d].d(), sgn * w.f(), 12.0 * M as f64 * T::EPS * (m + 1e-3));
    }
    c.hit("curve area judged");
}
type Terms<const V: usize> = BTreeMap<[u32; V], (DD, f64)>;
fn table<const V: usize>(t: &[([u32; V], f64)]) -> Terms<V> {
    let mut m = BTreeMap::new();
    for (e, k) in t {
        let s = m.entry(*e).or_insert((dd(0.0), 0.0));
        s.0 = s.0 + dd(*k);
        s.1 += k.abs();
    }
    m
}
fn terms_of<const V: usize, const M: usize, T: Fl>(p: &MultivariatePolynomial<V, M, T>) -> Vec<([u32; V], f64)> {
    p.terms().iter().map(|t| (*t.exponents(), t.coefficient().d())).collect()
}
fn same_poly<const V: usize>(c: &mut Case, tag: &str, got: &[([u32; V], f64)], want: &Terms<V>, eps: f64, merged: bool) {
    let g = table(got);
    if merged {
        c.ok(g.len() == got.len(), tag, || format!("terms with the same powers left unmerged: {got:?}"));
        c.ok(got.iter().all(|(_, k)| *k != 0.0), tag, || "a cancelled term was kept".into());
    }
    for (e, (w, m)) in want {
        let v = g.get(e).map_or(0.0, |v| v.0.f());
        c.near(tag, v, w.f(), eps * m);
    }
    for e in g.keys() {
        c.ok(want.contains_key(e), tag, || format!("a term with powers {e:?} appeared"));
    }
}
fn mv_eval<const V: usize>(t: &[([u32; V], f64)], x: &[f64; V]) -> (DD, f64) {
    let (mut s, mut m) = (dd(0.0), 0.0);
    for (e, k) in t {
        let v = (0..V).fold(dd(*k), |a, i| a * dd(x[i]).powi_(e[i] as i32));
        s = s + v;
        m += v.f().abs();
    }
    (s, m)
}
fn multivariate<const V: usize, const M: usize, const O: usize, T: Fl>(c: &mut Case) {
    let gen_terms = |c: &mut Case, n: usize| -> Vec<([u32; V], f64)> {
        (0..n).map(|_| (core::array::from_fn(|_| c.us(0, 3) as u32), if c.p(0.4) { c.int(-2, 2) as f64 } else { T::t(c.f(-2.0, 2.0)).d() })).collect()
    };
    let n = c.us(0, M + 1);
    let t = gen_terms(c, n);
    c.note("terms", &t);
    let tt: Vec<MultivariateTerm<V, T>> = t.iter().map(|(e, k)| MultivariateTerm::new(T::t(*k), *e)).collect();
    let r = MultivariatePolynomial::<V, M, T>::try_from_terms(&tt);
    if n > M {
        c.eq("too-many-terms", r.err(), Some(E::CapacityExceeded));
        c.hit("too many terms refused");
        return;
    }
    let p = c.get("terms", r);
    c.eq("term-list", terms_of(&p), t.clone());
    c.eq("len", (p.len(), p.is_empty(), p.is_finite()), (n, n == 0, true));
    let mut full = p;
    c.eq("push-bad", full.push(MultivariateTerm::new(T::t(f64::NAN), [0; V])).err(), Some(E::NonFinite));
    let mut holes: [MultivariateTerm<V, T>; M] = core::array::from_fn(|_| MultivariateTerm::new(T::t(c.f(-2.0, 2.0)), [c.us(0, 3) as u32; V]));
    let whole = c.get("term-array", MultivariatePolynomial::<V, M, T>::try_from_array(holes));
    c.eq("term-array", (whole.len(), terms_of(&whole)), (M, holes.iter().map(|t| (*t.exponents(), t.coefficient().d())).collect::<Vec<_>>()));
    let bad = T::t(c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]));
    holes[c.us(0, M - 1)] = MultivariateTerm::new(bad, [1; V]);
    c.eq("term-array-bad", MultivariatePolynomial::<V, M, T>::try_from_array(holes).err(), Some(E::NonFinite));
    c.eq("push", full.push(MultivariateTerm::new(T::ONE, [1; V])).is_ok(), n < M);
    let x: [f64; V] = c.arr(|c| T::t(if c.p(0.1) { 0.0 } else { c.f(-2.0, 2.0) }).d());
    c.note("x", &x);
    let xt = x.map(T::t);
    let e = 40.0 * T::EPS;
    let (w, m) = mv_eval(&t, &x);
    c.near("mv-evaluate", p.evaluate(&xt).d(), w.f(), e * m);
    let g = p.gradient_at(&xt);
    let var = c.us(0, V);
    for v in 0..V {
        let d: Vec<_> = t.iter().filter(|(q, _)| q[v] > 0).map(|(q, k)| { let mut r = *q; r[v] -= 1; (r, k * q[v] as f64) }).collect();
        let (w, m) = mv_eval(&d, &x);
        c.near("gradient", g[v].d(), w.f(), e * m);
        if v == var {
            let got = c.get("partial", p.partial_derivative(v));
            same_poly(c, "partial", &terms_of(&got), &table(&d), 3.0 * T::EPS, false);
            let ad: Vec<_> = t.iter().map(|(q, k)| { let mut r = *q; r[v] += 1; (r, k / (q[v] + 1) as f64) }).collect();
            let got = c.get("antiderivative", p.partial_antiderivative(v));
            same_poly(c, "antiderivative", &terms_of(&got), &table(&ad), 3.0 * T::EPS, false);
            let val = T::t(c.f(-2.0, 2.0));
            let sb: Vec<_> = t.iter().map(|(q, k)| { let mut r = *q; r[v] = 0; (r, (dd(*k) * dd(val.d()).powi_(q[v] as i32)).f()) }).collect();
            let got = c.get("substitute", p.substitute(v, val));
            same_poly(c, "substitute", &terms_of(&got), &table(&sb), 16.0 * T::EPS, true);
            c.hit("variable operations judged");
        }
    }
    if var == V {
        c.eq("no-variable", [p.partial_derivative(V).err(), p.partial_antiderivative(V).err(), p.substitute(V, T::ONE).err()], [Some(E::VariableOutOfRange); 3]);
        c.eq("no-degree", p.degree_in(V), None);
    } else {
        c.eq("degree-in", p.degree_in(var), t.iter().map(|(q, _)| q[var]).max());
    }
    c.eq("total-degree", p.total_degree(), t.iter().map(|(q, _)| q.iter().sum::<u32>()).max());
    let mut col = p;
    col.collect_like_terms();
    same_poly(c, "collect", &terms_of(&col), &table(&t), (n as f64 + 1.0) * T::EPS, true);
    // Another polynomial.
    let k = c.us(0, 3);
    let u = gen_terms(c, k);
    c.note("other", &u);
    let ut: Vec<MultivariateTerm<V, T>> = u.iter().map(|(e, k)| MultivariateTerm::new(T::t(*k), *e)).collect();
    let q = c.get("other", MultivariatePolynomial::<V, 3, T>::try_from_terms(&ut));
    let both: Vec<_> = t.iter().chain(&u).cloned().collect();
    match p.add_into::<3, O>(&q) {
        Ok(r) => {
            c.ok(both.len() <= O, "add-capacity", || "more terms than fit were accepted".into());
            same_poly(c, "mv-add", &terms_of(&r), &table(&both), (both.len() as f64 + 1.0) * T::EPS, true);
            c.hit("sum judged");
        }
        Err(e) => {
            c.eq("add-error", e, E::CapacityExceeded);
            c.ok(both.len() > O, "add-spurious", || "refused though everything fits".into());
        }
    }
    let prod: Vec<_> = t.iter().flat_map(|(a, x)| u.iter().map(move |(b, y)| (core::array::from_fn(|i| a[i] + b[i]), x * y))).collect();
    match p.multiply_into::<3, O>(&q) {
        Ok(r) => {
            c.ok(prod.len() <= O, "multiply-capacity", || "more terms than fit were accepted".into());
            same_poly(c, "mv-multiply", &terms_of(&r), &table::<V>(&prod), (prod.len() as f64 + 2.0) * T::EPS, true);
            c.hit("multivariate product judged");
        }
        Err(e) => {
            c.eq("multiply-error", e, E::CapacityExceeded);
            c.ok(prod.len() > O, "multiply-spurious", || "refused though everything fits".into());
        }
    }
    // Powers that run past what a term can hold.
    if c.p(0.05) && V > 0 {
        let big = MultivariatePolynomial::<V, 1, T>::try_from_array([MultivariateTerm::new(T::ONE, [u32::MAX; V])]).unwrap();
        c.eq("power-overflow", (big.multiply_into::<1, 4>(&big).err(), big.partial_antiderivative(0).err()), (Some(E::DegreeOverflow), Some(E::DegreeOverflow)));
        c.eq("power-total", big.total_degree(), Some(if V == 1 { u32::MAX } else { u32::MAX }));
        let ex: u32 = c.pick(&[0x7fff_ffff, 0x8000_0000, 0x8000_0001, u32::MAX - 1, u32::MAX]);
        let mut es = [0; V];
        es[0] = ex;
        let huge = MultivariatePolynomial::<V, 1, T>::try_from_array([MultivariateTerm::new(T::TWO, es)]).unwrap();
        c.note("huge power", &ex);
        c.eq("huge-power", huge.evaluate(&[-T::ONE; V]).d(), if ex % 2 == 0 { 2.0 } else { -2.0 });
        c.hit("huge powers judged");
    }
}
fn univariate<const M: usize, const O: usize, T: Fl>(c: &mut Case) {
    let n = c.us(0, M);
    let t: Vec<([u32; 1], f64)> = (0..n).map(|_| ([c.us(0, O) as u32], coef::<T>(c))).collect();
    c.note("terms", &t);
    let tt: Vec<MultivariateTerm<1, T>> = t.iter().map(|(e, k)| MultivariateTerm::new(T::t(*k), *e)).collect();
    let p = c.get("terms", MultivariatePolynomial::<1, M, T>::try_from_terms(&tt));
    match p.to_univariate::<O>() {
        Err(e) => {
            c.eq("univariate-error", e, E::DegreeOverflow);
            c.ok(t.iter().any(|(e, _)| e[0] as usize >= O), "univariate-spurious", || "every power fits".into());
        }
        Ok(d) => {
            c.ok(t.iter().all(|(e, _)| (e[0] as usize) < O), "univariate-overflow", || "a power was dropped".into());
            let w = table(&t);
            for (k, v) in cf(&d).into_iter().enumerate() {
                let (w, m) = w.get(&[k as u32]).copied().unwrap_or((dd(0.0), 0.0));
                c.near("to-univariate", v, w.f(), n as f64 * T::EPS * m);
            }
            let nz = cf(&d).iter().filter(|v| **v != 0.0).count();
            match MultivariatePolynomial::<1, M, T>::from_univariate(&d) {
                Ok(b) => {
                    let want: Vec<_> = cf(&d).into_iter().enumerate().filter(|(_, v)| *v != 0.0).map(|(k, v)| ([k as u32], v)).collect();
                    c.eq("from-univariate", terms_of(&b), want);
                    c.hit("dense round trip");
                }
                Err(e) => {
                    c.eq("from-univariate-error", e, E::CapacityExceeded);
                    c.ok(nz > M, "from-univariate-spurious", || "every term fits".into());
                }
            }
        }
    }
}
fn main() {
    vmon::run("C13", |s| {
        s.rule("A case counts when a polynomial operation's result was judged against the exact one; distinct = distinct polynomials.");
        s.assume("References are recomputed in double-double arithmetic from the same coefficients.");
        s.monitor("core", 240000, 20, |c| match c.us(0, 6) {
            0 => core::<1, f64>(c),
            1 => core::<2, f64>(c),
            2 => core::<4, f64>(c),
            3 => core::<6, f64>(c),
            4 => core::<9, f64>(c),
            5 => core::<0, f64>(c),
            _ => core::<5, f32>(c),
        });
        s.monitor("resize", 60000, 20, |c| match c.us(0, 4) {
            0 => resize::<5, 3, f64>(c),
            1 => resize::<3, 6, f64>(c),
            2 => resize::<4, 4, f32>(c),
            3 => resize::<3, 0, f64>(c),
            _ => resize::<6, 1, f64>(c),
        });
        s.monitor("product", 240000, 20, |c| match c.us(0, 5) {
            0 => product::<3, 3, 5, f64>(c),
            1 => product::<4, 2, 4, f64>(c),
            2 => product::<2, 5, 9, f32>(c),
            3 => product::<5, 5, 6, f64>(c),
            4 => product::<1, 3, 3, f64>(c),
            _ => product::<6, 4, 9, f64>(c),
        });
        s.monitor("compose", 120000, 20, |c| match c.us(0, 4) {
            0 => compose::<3, 3, 5, f64>(c),
            1 => compose::<4, 2, 4, f64>(c),
            2 => compose::<3, 4, 7, f32>(c),
            3 => compose::<4, 3, 5, f64>(c),
            _ => compose::<2, 5, 5, f64>(c),
        });
        s.monitor("divide", 240000, 20, |c| match c.us(0, 5) {
            0 => divide::<4, 2, 4, 2, f64>(c),
            1 => divide::<6, 3, 6, 3, f64>(c),
            2 => divide::<5, 3, 3, 2, f32>(c),
            3 => divide::<6, 4, 2, 2, f64>(c),
            4 => divide::<3, 5, 3, 4, f64>(c),
            _ => divide::<7, 2, 6, 0, f64>(c),
        });
        s.monitor("build", 120000, 20, |c| match c.us(0, 7) {
            0 => roots_to_poly::<4, f64>(c),
            1 => roots_to_poly::<7, f64>(c),
            2 => roots_to_poly::<5, f32>(c),
            3 => jet::<3, f64>(c),
            4 => jet::<6, f64>(c),
            5 => cheb::<5, f64>(c),
            6 => cheb::<8, f32>(c),
            _ => cheb::<1, f64>(c),
        });
        s.monitor("interpolate", 120000, 20, |c| match c.us(0, 6) {
            0 => interpolate::<1, f64>(c),
            1 => interpolate::<2, f64>(c),
            2 => interpolate::<4, f64>(c),
            3 => interpolate::<7, f64>(c),
            4 => interpolate::<4, f32>(c),
            5 => exact_points::<4>(c),
            _ => exact_points::<6>(c),
        });
        s.monitor("fit", 60000, 20, |c| match c.us(0, 5) {
            0 => fit::<2, 5, f64>(c),
            1 => fit::<3, 8, f64>(c),
            2 => fit::<4, 4, f64>(c),
            3 => fit::<5, 12, f64>(c),
            4 => fit::<4, 3, f64>(c),
            _ => fit::<3, 6, f32>(c),
        });
        s.monitor("endpoints", 60000, 20, |c| if c.p(0.25) { endpoints::<f32>(c) } else { endpoints::<f64>(c) });
        s.monitor("piecewise", 60000, 20, |c| match c.us(0, 3) {
            0 => piecewise::<4, 4, 2, f64>(c),
            1 => piecewise::<6, 6, 1, f64>(c),
            2 => piecewise::<1, 3, 3, f64>(c),
            _ => piecewise::<3, 4, 2, f32>(c),
        });
        s.monitor("multivariate", 120000, 20, |c| match c.us(0, 3) {
            0 => multivariate::<2, 4, 8, f64>(c),
            1 => multivariate::<3, 6, 18, f64>(c),
            2 => multivariate::<1, 3, 6, f64>(c),
            _ => multivariate::<2, 5, 15, f32>(c),
        });
        s.monitor("univariate", 60000, 20, |c| if c.p(0.3) { univariate::<3, 5, f32>(c) } else { univariate::<5, 4, f64>(c) });
        for (e, n) in [("polynomial judged", 20000), ("resized", 2000), ("resize refused", 1000), ("product judged", 10000), ("product refused", 2000), ("composition judged", 5000), ("composition refused", 500), ("division judged", 10000), ("division refused", 1000), ("division by zero refused", 500), ("monic division judged", 2000), ("roots expanded", 3000), ("too many roots refused", 500), ("chebyshev nodes judged", 3000), ("jet carried over", 500), ("interpolation judged", 5000), ("duplicate node refused", 300), ("whole-number interpolation judged", 2000), ("fit judged", 4000), ("rank-deficient fit refused", 200), ("end conditions met", 5000), ("bad end conditions refused", 500), ("curve point judged", 20000), ("curve area judged", 4000), ("bad pieces refused", 500), ("variable operations judged", 5000), ("sum judged", 5000), ("multivariate product judged", 5000), ("dense round trip", 2000), ("huge powers judged", 200)] {
            s.require(e, n);
        }
        let _ = Vector::<1, f64>::zeros();
    })
}
