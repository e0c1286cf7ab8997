//! C08: numerical integration: quadrature tables, Gaussian and composite rules, domains, sums, refusals.
use core::cell::{Cell, RefCell};
use multicalc::error::IntegrateError;
use multicalc::gaussian_tables::{nodes, MAX_ORDER};
use multicalc::numerical_integration::*;
use multicalc::Numeric;
use std::sync::OnceLock;
use vmon::ser::dd_pi;
use vmon::*;

type G = GaussianQuadratureMethod;
const FAM: [G; 3] = [G::GaussLegendre, G::GaussHermite, G::GaussLaguerre];
/// (abscissa, weight) by family and order, from the orthonormal three-term recurrence.
fn reference() -> &'static Vec<Vec<Vec<(DD, DD)>>> {
    static R: OnceLock<Vec<Vec<Vec<(DD, DD)>>>> = OnceLock::new();
    R.get_or_init(|| (0..3).map(family).collect())
}
fn ab(f: usize, k: usize) -> (DD, DD) {
    let kf = k as f64;
    match f {
        0 => (dd(0.0), if k == 0 { dd(0.0) } else { (dd(kf * kf) / dd(4.0 * kf * kf - 1.0)).sqr() }),
        1 => (dd(0.0), (dd(kf) / dd(2.0)).sqr()),
        _ => (dd(2.0 * kf + 1.0), dd(kf)),
    }
}
/// p_n, p_n', sum of p_k^2 for k < n.
fn ortho(f: usize, n: usize, x: DD) -> (DD, DD, DD) {
    let mu0 = match f {
        0 => dd(2.0),
        1 => dd_pi().sqr(),
        _ => dd(1.0),
    };
    let (mut pm, mut dm) = (dd(0.0), dd(0.0));
    let (mut p, mut d) = (dd(1.0) / mu0.sqr(), dd(0.0));
    let mut s = dd(0.0);
    for k in 0..n {
        s = s + p * p;
        let (a, b) = ab(f, k);
        let b1 = ab(f, k + 1).1;
        let q = ((x - a) * p - b * pm) / b1;
        let e = (p + (x - a) * d - b * dm) / b1;
        pm = p;
        dm = d;
        p = q;
        d = e;
    }
    (p, d, s)
}
fn family(f: usize) -> Vec<Vec<(DD, DD)>> {
    let mut out: Vec<Vec<(DD, DD)>> = vec![vec![]];
    for n in 1..=30usize {
        let nf = n as f64;
        let (lo, hi) = match f {
            0 => (-1.0, 1.0),
            1 => (-(2.0 * nf + 2.0).sqrt() - 0.5, (2.0 * nf + 2.0).sqrt() + 0.5),
            _ => (0.0, 4.0 * nf + 8.0),
        };
        let mut cuts = vec![lo];
        cuts.extend(out[n - 1].iter().map(|(x, _)| x.f()));
        cuts.push(hi);
        let mut row = vec![];
        for i in 0..n {
            let (mut a, mut b) = (cuts[i], cuts[i + 1]);
            let sa = ortho(f, n, dd(a)).0.f() > 0.0;
            for _ in 0..70 {
                let m = 0.5 * (a + b);
                if (ortho(f, n, dd(m)).0.f() > 0.0) == sa { a = m } else { b = m }
            }
            let mut x = dd(0.5 * (a + b));
            for _ in 0..4 {
                let (p, d, _) = ortho(f, n, x);
                x = x - p / d;
            }
            row.push((x, dd(1.0) / ortho(f, n, x).2));
        }
        out.push(row);
    }
    out
}

/// Integrands with exact integrals.
#[derive(Clone, Debug)]
enum Fam {
    Poly(Vec<f64>),
    Sin(f64, f64),
    Exp(f64),
    Lorentz(f64),
}
impl Fam {
    fn eval<S: Numeric>(&self, x: S) -> S {
        let k = |v: f64| S::from_f64(v);
        match self {
            Fam::Poly(c) => c.iter().rev().fold(S::ZERO, |a, b| a * x + k(*b)),
            Fam::Sin(w, p) => (k(*w) * x + k(*p)).sin(),
            Fam::Exp(a) => (k(*a) * x).exp(),
            Fam::Lorentz(a) => S::ONE / (S::ONE + k(*a) * x * x),
        }
    }
    fn integral(&self, a: f64, b: f64) -> DD {
        let at = |x: DD| match self {
            Fam::Poly(c) => c.iter().enumerate().rev().fold(dd(0.0), |s, (i, v)| s * x + dd(*v) / dd(i as f64 + 1.0)) * x,
            Fam::Sin(w, p) => -(dd(*w) * x + dd(*p)).sincos().1 / dd(*w),
            Fam::Exp(k) => (dd(*k) * x).exp_() / dd(*k),
            Fam::Lorentz(k) => {
                let r = dd(*k).sqr();
                DD::atan2_(r * x, dd(1.0)) / r
            }
        };
        at(dd(b)) - at(dd(a))
    }
}
fn gen_fam(c: &mut Case, deg: usize) -> Fam {
    match c.us(0, 4) {
        0 | 1 => Fam::Poly((0..=deg).map(|_| c.f(-2.0, 2.0)).collect()),
        2 => Fam::Sin(c.f(0.2, 4.0), c.f(-3.0, 3.0)),
        3 => Fam::Exp(c.sign() * c.f(0.05, 1.5)),
        _ => Fam::Lorentz(c.f(0.1, 5.0)),
    }
}

fn tables(c: &mut Case) {
    let f = c.us(0, 2);
    let n = c.us(1, 30);
    let t = nodes(FAM[f], n);
    let t = c.get("nodes", t);
    c.eq("len", t.len(), n);
    let r = &reference()[f][n];
    for (k, &(w, x)) in t.iter().enumerate() {
        c.near("abscissa", x, r[k].0.f(), if f == 2 { 2e-14 } else { 1e-15 } * r[k].0.f().abs() + 1e-16);
        let wr = r[k].1.f();
        c.near("weight", w, wr, 7e-13 * wr);
        if k > 0 {
            c.ok(t[k - 1].1 < x, "ascending", || format!("{} then {x}", t[k - 1].1));
        }
    }
    let bad = if c.p(0.3) { 0 } else if c.p(0.5) { usize::MAX } else { MAX_ORDER + c.us(1, 9) };
    c.eq("order", nodes(FAM[f], bad).err(), Some(IntegrateError::QuadratureOrderOutOfRange));
    c.note("table", &(f, n));
    c.hit("quadrature table row set checked");
}
fn hash(mut h: u64, k: u64) -> u64 {
    h ^= k.wrapping_add(0x9E3779B97F4A7C15).wrapping_mul(0xBF58476D1CE4E5B9);
    h = (h ^ (h >> 30)).wrapping_mul(0x94D049BB133111EB);
    h ^ (h >> 29)
}
fn hv(h: u64) -> f64 {
    // 20 bits, so the value is the same number in f32 and f64.
    ((h >> 20) & 0xFFFFF) as f64 / 0x80000 as f64 - 1.0
}
fn limits<T: Fl>(c: &mut Case) -> [f64; 2] {
    let s = if c.p(0.8) { 3.0 } else { c.lu(-3.0, 3.0) };
    let a = T::t(c.f(-s, s)).d();
    let b = T::t(a + c.f(0.05, 1.5) * s).d();
    [a, b]
}
fn canon(f: usize) -> [f64; 2] {
    if f == 1 { [f64::NEG_INFINITY, f64::INFINITY] } else { [0.0, f64::INFINITY] }
}
/// Gaussian rules: table-driven integrands identify every node by position.
fn gauss_single<T: Fl>(c: &mut Case) {
    let f = c.us(0, 2);
    let n = c.us(1, 30);
    let lim = if f == 0 { limits::<T>(c) } else { canon(f) };
    let r = &reference()[f][n];
    let g = if n == 4 && f == 0 && c.p(0.5) { GaussianSingle::<T>::default() } else { GaussianSingle::<T>::from_parameters(n, FAM[f]) };
    let (half, mid) = if f == 0 { ((dd(lim[1]) - dd(lim[0])) / dd(2.0), (dd(lim[1]) + dd(lim[0])) / dd(2.0)) } else { (dd(1.0), dd(0.0)) };
    let xs: Vec<f64> = r.iter().map(|(x, _)| (half * *x + mid).f()).collect();
    let xt = 8.0 * T::EPS;
    let salt = c.u64();
    c.note("rule", &(f, n, lim));
    let seen = RefCell::new(vec![0u32; n]);
    let stray = Cell::new(f64::NAN);
    let kill = if c.p(0.2) { Some(c.us(0, n - 1)) } else { None };
    let bad = T::t(c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]));
    let func = |x: T| {
        let v = x.d();
        match xs.iter().position(|t| (t - v).abs() <= xt * (t.abs() + mid.f().abs() + half.f().abs())) {
            Some(k) => {
                seen.borrow_mut()[k] += 1;
                if kill == Some(k) { bad } else { T::t(hv(hash(salt, k as u64))) }
            }
            None => {
                stray.set(v);
                T::ZERO
            }
        }
    };
    let tl = [T::t(lim[0]), T::t(lim[1])];
    let got = g.single_integral(&func, &tl);
    c.ok(stray.get().is_nan(), "node-position", || format!("sampled at {} which is no node of the rule", stray.get()));
    if kill.is_some() {
        c.eq("non-finite", got.err(), Some(IntegrateError::NonFinite));
        c.hit("non-finite sample refused");
        return;
    }
    let got = c.get("gauss", got).d();
    let (mut want, mut mag) = (dd(0.0), 0.0);
    for k in 0..n {
        let t = r[k].1.mulf(hv(hash(salt, k as u64)));
        want = want + t;
        mag += t.f().abs();
    }
    want = want * half;
    mag *= half.f();
    let tol = mag * (T::EPS * (n as f64 + 6.0) + 8e-13) + 1e-36;
    c.near("gauss-sum", got, want.f(), tol);
    c.ok(seen.borrow().iter().all(|k| *k == 1), "node-once", || format!("{:?}", seen.borrow()));
    // Repeated integration of a constant inner value.
    if f == 0 {
        let l2 = limits::<T>(c);
        let got = g.double_integral(&func, &[tl, [T::t(l2[0]), T::t(l2[1])]]);
        let got = c.get("gauss-double", got).d();
        let w = l2[1] - l2[0];
        c.near("gauss-double", got, want.f() * w, (tol + 60.0 * T::EPS * (want.f().abs() + mag) + T::EPS * want.f().abs() * (l2[0].abs() + l2[1].abs()) / w) * w);
    } else {
        let got = g.double_integral(&func, &[tl, tl]);
        let got = c.get("gauss-double", got).d();
        let w = if f == 1 { dd_pi().sqr().f() } else { 1.0 };
        c.near("gauss-double", got, want.f() * w, (2.0 * tol + 60.0 * T::EPS * want.f().abs()) * w + 1e-12 * want.f().abs());
    }
    // Exactness on polynomials of degree up to 2n - 1 against the true weighted integral.
    let deg = c.us(0, (2 * n - 1).min(if T::F32 { 8 } else { 15 }));
    let co: Vec<f64> = (0..=deg).map(|_| T::t(c.f(-2.0, 2.0)).d()).collect();
    let p = Fam::Poly(co.clone());
    let got = g.single_integral(&|x: T| p.eval(x), &tl);
    let got = c.get("gauss-poly", got).d();
    let mut mag = 0.0;
    for (x, w) in r {
        let t = (half * *x + mid).f().abs();
        mag += w.f() * co.iter().enumerate().map(|(i, v)| v.abs() * t.powi(i as i32)).sum::<f64>();
    }
    let want = match f {
        0 => p.integral(lim[0], lim[1]),
        1 => {
            // moments of e^{-x^2}
            let (mut s, mut m) = (dd(0.0), dd_pi().sqr());
            for (i, v) in co.iter().enumerate().step_by(2) {
                s = s + m.mulf(*v);
                m = m.mulf((i as f64 + 1.0) / 2.0);
            }
            s
        }
        _ => {
            let (mut s, mut m) = (dd(0.0), dd(1.0));
            for (i, v) in co.iter().enumerate() {
                s = s + m.mulf(*v);
                m = m.mulf(i as f64 + 1.0);
            }
            s
        }
    };
    // Interior magnitude: intermediate powers of (|half| + |mid|) bound the mapped node error.
    let tol = mag * half.f() * (T::EPS * (4.0 * deg as f64 * (1.0 + if f == 0 { mid.f().abs() / half.f() } else { 0.0 }) + n as f64 + 10.0) + 1e-12 * (1.0 + deg as f64 / 4.0)) + 1e-300;
    c.near("gauss-exactness", got, want.f(), tol);
    c.hit("gauss rule");
}
fn gauss_multi<const N: usize, const K: usize, T: Fl>(c: &mut Case) {
    let f = c.us(0, 2);
    let n = c.us(1, if K == 3 { 6 } else { 12 });
    let r = &reference()[f][n];
    let lims: Vec<[f64; 2]> = (0..K).map(|_| if f == 0 { limits::<T>(c) } else { canon(f) }).collect();
    let mut idx = [0usize; K];
    let pm = c.perm(N);
    for k in 0..K {
        idx[k] = pm[k];
    }
    let pt: Vec<f64> = (0..N).map(|_| T::t(c.f(-2.0, 2.0)).d()).collect();
    let salt = c.u64();
    let xs: Vec<Vec<f64>> = (0..K).map(|k| {
        let (h, m) = if f == 0 { ((lims[k][1] - lims[k][0]) / 2.0, (lims[k][1] + lims[k][0]) / 2.0) } else { (1.0, 0.0) };
        r.iter().map(|(x, _)| h * x.f() + m).collect()
    }).collect();
    c.note("rule", &(f, n, &lims, idx, &pt));
    let stray = RefCell::new(None);
    let count = Cell::new(0u64);
    let func = |p: &[T; N]| {
        let mut h = salt;
        count.set(count.get() + 1);
        for v in 0..N {
            match idx.iter().position(|i| *i == v) {
                None => {
                    if p[v].d() != pt[v] {
                        *stray.borrow_mut() = Some((v, p[v].d()));
                    }
                }
                Some(k) => {
                    let x = p[v].d();
                    let s = if f == 0 { lims[k][0].abs() + lims[k][1].abs() } else { 0.01 };
                    match xs[k].iter().position(|t| (t - x).abs() <= 8.0 * T::EPS * (t.abs() + s)) {
                        Some(j) => h = hash(h, (v * 64 + j) as u64),
                        None => *stray.borrow_mut() = Some((v, x)),
                    }
                }
            }
        }
        T::t(hv(h))
    };
    let g = GaussianMulti::<T>::from_parameters(n, FAM[f]);
    let tl: [[T; 2]; K] = core::array::from_fn(|k| [T::t(lims[k][0]), T::t(lims[k][1])]);
    let tp: [T; N] = core::array::from_fn(|i| T::t(pt[i]));
    let got = g.integrate(idx, &func, &tl, &tp);
    let got = c.get("gauss-multi", got).d();
    c.ok(stray.borrow().is_none(), "point", || format!("variable, value = {:?}", stray.borrow()));
    c.eq("evaluations", count.get(), (n as u64).pow(K as u32));
    let (mut want, mut mag) = (dd(0.0), 0.0);
    let mut it = vec![0usize; K];
    loop {
        let mut h = salt;
        let mut w = dd(1.0);
        for v in 0..N {
            if let Some(k) = idx.iter().position(|i| *i == v) {
                h = hash(h, (v * 64 + it[k]) as u64);
                w = w * r[it[k]].1;
            }
        }
        let t = w.mulf(hv(h));
        want = want + t;
        mag += t.f().abs();
        let mut k = 0;
        while k < K {
            it[k] += 1;
            if it[k] < n {
                break;
            }
            it[k] = 0;
            k += 1;
        }
        if k == K {
            break;
        }
    }
    let mut vol = dd(1.0);
    let mut cancel = 0.0;
    for l in &lims {
        if f == 0 {
            vol = vol * ((dd(l[1]) - dd(l[0])) / dd(2.0));
            cancel += 1.0;
        }
    }
    let tol = mag * vol.f() * (T::EPS * (K as f64 * (n as f64 + 6.0) + cancel) + 2e-12);
    c.near("gauss-multi", got, (want * vol).f(), tol + 1e-36);
    let mut bi = idx;
    let at = c.us(0, K - 1);
    bi[at] = N + c.us(0, 2);
    c.eq("index", g.integrate(bi, &func, &tl, &tp).err(), Some(IntegrateError::IndexOutOfRange));
    if K == 1 {
        let g1 = g.single_partial_integral(&func, idx[0], &tl[0], &tp);
        c.same_bits("single-partial", g1.unwrap_or(T::NAN).d(), got);
    }
    if K == 2 {
        let g1 = g.double_partial_integral(&func, [idx[0], idx[1 % K]], &[tl[0], tl[1 % K]], &tp);
        c.same_bits("double-partial", g1.unwrap_or(T::NAN).d(), got);
    }
    c.hit("gauss multi rule");
}
fn pick_rule(c: &mut Case) -> (IterativeMethod, usize, f64, Vec<f64>) {
    match c.us(0, 2) {
        0 => (IterativeMethod::Booles, 4, 2.0 / 45.0, vec![14.0, 32.0, 12.0, 32.0]),
        1 => (IterativeMethod::Simpsons, 3, 3.0 / 8.0, vec![2.0, 3.0, 3.0]),
        _ => (IterativeMethod::Trapezoidal, 1, 0.5, vec![2.0]),
    }
}
fn weight(pat: &[f64], k: u64, n: u64) -> f64 {
    if k == 0 || k == n { pat[0] / 2.0 } else { pat[(k as usize) % pat.len()] }
}
/// What the running sum may lose: compensated sums a constant, pairwise the block plus a logarithm.
fn sum_err(kahan: bool, n: u64, eps: f64) -> f64 {
    if kahan { 8.0 * eps + (n as f64) * eps * eps } else { eps * ((n as f64).min(128.0) + 2.0 * ((n as f64 / 128.0).max(1.0)).log2() + 8.0) }
}
fn iter_single<T: Fl>(c: &mut Case, big: bool) {
    let (method, mult, scale, pat) = pick_rule(c);
    let ask = if big { c.us(2000, 12000) as u64 } else if c.p(0.3) { c.us(1, 12) as u64 } else { c.us(1, 400) as u64 };
    let n = ask.div_ceil(mult as u64) * mult as u64;
    let kahan = c.p(0.5);
    let mut it = IterativeSingle::<T>::from_parameters(ask, method);
    c.eq("rounded-count", it.config.total_iterations, n);
    if kahan {
        it = it.with_kahan_summation();
    }
    if matches!(method, IterativeMethod::Booles) && c.p(0.1) {
        let d = IterativeSingle::<T>::default();
        c.eq("default", (d.config.total_iterations, matches!(d.config.integration_method, IterativeMethod::Booles)), (120, true));
    }
    let lim = limits::<T>(c);
    let tl = [T::t(lim[0]), T::t(lim[1])];
    let h = (dd(lim[1]) - dd(lim[0])) / dd(n as f64);
    let salt = c.u64();
    // Values of one sign expose a naive running sum.
    let bias = if c.p(0.5) { 3.0 } else { 0.0 };
    c.note("rule", &(method, n, lim, kahan, bias));
    let drift = T::EPS * 2.0 * n as f64 * (lim[0].abs() + lim[1].abs());
    if drift > 0.3 * h.f() {
        c.discard()
    }
    let stray = RefCell::new(None);
    let ends = RefCell::new((0u32, 0u32));
    let count = Cell::new(0u64);
    let kill = if c.p(0.15) { Some(c.us(0, n as usize) as u64) } else { None };
    let bad = T::t(c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]));
    let func = |x: T| {
        count.set(count.get() + 1);
        let v = x.d();
        let k = ((v - lim[0]) / h.f()).round();
        let off = (v - (lim[0] + k * h.f())).abs();
        if !(off <= drift) || k < 0.0 || k > n as f64 {
            *stray.borrow_mut() = Some(v);
        }
        if v == lim[0] {
            ends.borrow_mut().0 += 1;
        }
        if v == lim[1] {
            ends.borrow_mut().1 += 1;
        }
        if kill == Some(k as u64) { bad } else { T::t(hv(hash(salt, k as u64)) + bias) }
    };
    let got = it.single_integral(&func, &tl);
    c.ok(stray.borrow().is_none(), "node-position", || format!("sampled at {:?}", stray.borrow()));
    if kill.is_some() {
        c.eq("non-finite", got.err(), Some(IntegrateError::NonFinite));
        c.hit("non-finite sample refused");
        return;
    }
    let got = c.get("iterative", got).d();
    c.eq("evaluations", count.get(), n + 1);
    c.ok(ends.borrow().0 >= 1 && ends.borrow().1 >= 1, "ends", || "an endpoint was not sampled".into());
    let (mut want, mut mag) = (dd(0.0), 0.0);
    for k in 0..=n {
        let v = T::t(hv(hash(salt, k)) + bias).d() * weight(&pat, k, n);
        want = want + dd(v);
        mag += v.abs();
    }
    let s = h.mulf(scale);
    let tol = mag * s.f() * sum_err(kahan, n, T::EPS) + 10.0 * T::EPS * (want * s).f().abs();
    c.near("composite-sum", got, (want * s).f(), tol);
    if n > 1000 {
        c.hit("long sum judged");
    }
    // Two levels: the inner value is constant in the outer variable.
    if !big {
        let l2 = limits::<T>(c);
        let g = it.double_integral(&func, &[tl, [T::t(l2[0]), T::t(l2[1])]]);
        let w = l2[1] - l2[0];
        let g = c.get("double", g).d();
        c.near("double", g, (want * s).f() * w, (tol + (want * s).f().abs() * (sum_err(kahan, n, T::EPS) + 10.0 * T::EPS + 2.0 * T::EPS * (l2[0].abs() + l2[1].abs()) / w)) * w);
    }
    c.hit("composite rule");
}
/// Tens of millions of nodes: no block of the running sum may go missing, early or late.
fn vast<T: Fl>(c: &mut Case) {
    let (method, mult, scale, pat) = pick_rule(c);
    let n = c.f(23.5, 26.6).exp2() as u64 / mult as u64 * mult as u64;
    let kahan = c.p(0.5);
    let mut it = IterativeSingle::<T>::from_parameters(n, method);
    if kahan {
        it = it.with_kahan_summation();
    }
    let w = c.us(1, 64) as f64 / 8.0;
    // In single precision the nodes stand still long before the end, so the curve must be flat.
    let flat = T::EPS > 1e-10;
    let (early, late) = (c.us(1, 7) as f64 / 8.0, if flat { 0.0 } else { c.int(-16, 16) as f64 / 8.0 });
    let cut = if flat { f64::INFINITY } else { w * c.f(0.0, 1.0) };
    c.note("rule", &(method, n, w, kahan, early, late, cut));
    let (te, tl) = (T::t(early), T::t(late));
    let count = Cell::new(0u64);
    let got = it.single_integral(
        &|x: T| {
            count.set(count.get() + 1);
            if x.d() <= cut { te } else { tl }
        },
        &[T::ZERO, T::t(w)],
    );
    let got = c.get("iterative", got).d();
    c.eq("evaluations", count.get(), n + 1);
    let h = w / n as f64;
    let (mut want, mut mag) = (0.0, 0.0);
    for k in 0..=n {
        // Sums of small binary fractions, so exact.
        let v = weight(&pat, k, n) * if k as f64 * h <= cut { early } else { late };
        want += v;
        mag += v.abs();
    }
    // The nodes may have drifted past the cut by a few places.
    let drift = (n as f64 * n as f64 * T::EPS + 4.0) * 32.0 * (early - late).abs();
    let s = h * scale;
    c.near("vast-sum", got, want * s, mag * s * sum_err(kahan, n, T::EPS) + 16.0 * T::EPS * (want * s).abs() + if flat { 0.0 } else { drift * s });
    c.hit("vast sum judged");
}
fn iter_multi<const N: usize, const K: usize, T: Fl>(c: &mut Case) {
    let (method, mult, scale, pat) = pick_rule(c);
    let ask = c.us(1, if K == 3 { 7 } else { 24 }) as u64;
    let n = ask.div_ceil(mult as u64) * mult as u64;
    let kahan = c.p(0.5);
    let mut it = IterativeMulti::<T>::from_parameters(ask, method);
    if kahan {
        it = it.with_kahan_summation();
    }
    let lims: Vec<[f64; 2]> = (0..K).map(|_| limits::<T>(c)).collect();
    let mut idx = [0usize; K];
    let pm = c.perm(N);
    for k in 0..K {
        idx[k] = pm[k];
    }
    let pt: Vec<f64> = (0..N).map(|_| T::t(c.f(-2.0, 2.0)).d()).collect();
    let salt = c.u64();
    c.note("rule", &(method, n, &lims, idx, &pt));
    let hs: Vec<f64> = lims.iter().map(|l| (l[1] - l[0]) / n as f64).collect();
    for k in 0..K {
        if T::EPS * 2.0 * n as f64 * (lims[k][0].abs() + lims[k][1].abs()) > 0.3 * hs[k] {
            c.discard()
        }
    }
    let stray = RefCell::new(None);
    let count = Cell::new(0u64);
    let func = |p: &[T; N]| {
        let mut h = salt;
        count.set(count.get() + 1);
        for v in 0..N {
            match idx.iter().position(|i| *i == v) {
                None => {
                    if p[v].d() != pt[v] {
                        *stray.borrow_mut() = Some((v, p[v].d()));
                    }
                }
                Some(k) => {
                    let x = p[v].d();
                    let j = ((x - lims[k][0]) / hs[k]).round();
                    if !((x - (lims[k][0] + j * hs[k])).abs() <= T::EPS * 2.0 * n as f64 * (lims[k][0].abs() + lims[k][1].abs())) || j < 0.0 || j > n as f64 {
                        *stray.borrow_mut() = Some((v, x));
                    }
                    h = hash(h, v as u64 * 64 + j as u64);
                }
            }
        }
        T::t(hv(h))
    };
    let tl: [[T; 2]; K] = core::array::from_fn(|k| [T::t(lims[k][0]), T::t(lims[k][1])]);
    let tp: [T; N] = core::array::from_fn(|i| T::t(pt[i]));
    let got = IntegratorMultiVariable::integrate(&it, idx, &func, &tl, &tp);
    let got = c.get("iter-multi", got).d();
    c.ok(stray.borrow().is_none(), "point", || format!("variable, value = {:?}", stray.borrow()));
    c.eq("evaluations", count.get(), (n + 1).pow(K as u32));
    let (mut want, mut mag) = (dd(0.0), 0.0);
    let mut j = vec![0u64; K];
    loop {
        let mut h = salt;
        let mut w = 1.0;
        for v in 0..N {
            if let Some(k) = idx.iter().position(|i| *i == v) {
                h = hash(h, v as u64 * 64 + j[k]);
                w *= weight(&pat, j[k], n);
            }
        }
        let t = w * hv(h);
        want = want + dd(t);
        mag += t.abs();
        let mut k = 0;
        while k < K {
            j[k] += 1;
            if j[k] <= n {
                break;
            }
            j[k] = 0;
            k += 1;
        }
        if k == K {
            break;
        }
    }
    let vol: f64 = hs.iter().map(|h| h * scale).product();
    let tol = mag * vol * K as f64 * (T::EPS * (n as f64 + 20.0));
    c.near("iter-multi", got, want.f() * vol, tol);
    let mut bi = idx;
    let at = c.us(0, K - 1);
    bi[at] = N + c.us(0, 2);
    c.eq("index", IntegratorMultiVariable::integrate(&it, bi, &func, &tl, &tp).err(), Some(IntegrateError::IndexOutOfRange));
    c.hit("composite multi rule");
}
/// True integrals: smooth integrands on finite ranges and decaying ones on infinite ranges.
fn truth<T: Fl>(c: &mut Case) {
    let f = gen_fam(c, 6);
    let a = T::t(c.f(-2.0, 1.5)).d();
    let b = T::t(a + c.f(0.1, 2.5)).d();
    c.note("integrand", &(&f, a, b));
    let want = f.integral(a, b).f();
    let mag: f64 = (0..=16).map(|k| f.eval(a + (b - a) * k as f64 / 16.0).abs()).fold(0.0, f64::max) * (b - a) * (1.0 + a.abs() + b.abs()).powi(2);
    let rt = 400.0 * T::EPS * mag;
    let g = integral(&|x: T| f.eval(x), [T::t(a), T::t(b)]);
    let g = c.get("integral", g).d();
    // 120 Boole intervals of width at most 2.5/120: truncation is far below 1e-9.
    c.near("integral", g, want, rt + 1e-9 * mag);
    let g = GaussianSingle::<T>::from_parameters(30, G::GaussLegendre).single_integral(&|x: T| f.eval(x), &[T::t(a), T::t(b)]);
    let g = c.get("legendre-30", g).d();
    c.near("legendre-30", g, want, rt + 1e-9 * mag);
    // Half-lines and the line.
    let k = T::t(c.f(0.6, 3.0)).d();
    let s = T::t(c.f(-1.5, 1.5)).d();
    let kt = T::t(k);
    let m = c.us(0, 3);
    let inf = T::INFINITY;
    let (got, want, tag): (Result<T, IntegrateError>, DD, &str) = match c.us(0, 5) {
        0 => {
            // x^m e^{-kx} over (0, inf)
            let mut w = dd(1.0) / dd(k);
            for i in 1..=m {
                w = w * dd(i as f64) / dd(k);
            }
            (integral(&|x: T| x.powi(m as i32) * (-kt * x).exp(), [T::ZERO, inf]), w, "half-line")
        }
        1 => (integral(&|x: T| (-kt * (x - T::t(s))).exp(), [T::t(s), inf]), dd(1.0) / dd(k), "shifted-half-line"),
        2 => (integral(&|x: T| (kt * (x - T::t(s))).exp(), [T::NEG_INFINITY, T::t(s)]), dd(1.0) / dd(k), "lower-half-line"),
        3 => (integral(&|x: T| (-kt * x * x).exp(), [T::NEG_INFINITY, inf]), (dd_pi() / dd(k)).sqr(), "line"),
        4 => (integral(&|x: T| x.powi(2) * (-kt * x * x).exp(), [T::NEG_INFINITY, inf]), (dd_pi() / dd(k)).sqr() / dd(2.0 * k), "line-moment"),
        _ => (IterativeMulti::<T>::default().single_partial_integral(&|p: &[T; 2]| p[0] * (-kt * (p[1] - T::t(s))).exp(), 1, &[T::t(s), inf], &[T::TWO, T::ZERO]), dd(2.0) / dd(k), "multi-half-line"),
    };
    c.note("infinite", &(tag, k, s, m));
    let got = c.get(tag, got).d();
    c.near(tag, got, want.f(), want.f() * (2e-5 * 10f64.powi(if tag == "half-line" { m as i32 } else { 0 }) + 600.0 * T::EPS));
    // Infinite ranges inside a repeated integral: Gaussian over the plane.
    if !T::F32 && c.p(0.05) {
        let g = IterativeMulti::<T>::default().integrate2(k);
        let g = c.get("plane", g).d();
        c.near("plane", g, dd_pi().f() / k, 3e-5);
        c.hit("plane integral");
    }
    c.hit("true integral");
}
trait Int2<T> {
    fn integrate2(&self, k: f64) -> Result<T, IntegrateError>;
}
impl<T: Fl> Int2<T> for IterativeMulti<T> {
    fn integrate2(&self, k: f64) -> Result<T, IntegrateError> {
        let l = [T::NEG_INFINITY, T::INFINITY];
        self.double_partial_integral(&|p: &[T; 2]| (-T::t(k) * (p[0] * p[0] + p[1] * p[1])).exp(), [0, 1], &[l, l], &[T::ZERO; 2])
    }
}
/// Limits, counts and orders that must be refused, and exactly with which error.
fn refusals<T: Fl>(c: &mut Case) {
    let calls = Cell::new(0);
    let f = |_: T| {
        calls.set(calls.get() + 1);
        T::ONE
    };
    let inf = f64::INFINITY;
    let x = c.maybe_hostile(0.4);
    let y = c.maybe_hostile(0.4);
    let l = if c.p(0.15) { [x, x] } else { c.pick(&[[x, y], [y, x], [inf, x], [x, -inf], [inf, -inf], [inf, inf], [-inf, -inf], [f64::NAN, x], [x, f64::NAN], [-inf, inf], [0.0, inf], [-0.0, inf], [x, inf], [-inf, x]]) };
    let l = [T::t(l[0]).d(), T::t(l[1]).d()];
    let tl = [T::t(l[0]), T::t(l[1])];
    c.note("limits", &l);
    let well = l[0] < l[1];
    let (m, _, _, _) = pick_rule(c);
    let it = IterativeSingle::<T>::from_parameters(12, m);
    let r = it.single_integral(&f, &tl);
    if !well {
        c.eq("iterative-limits", r.err(), Some(IntegrateError::LimitsIllDefined));
        c.eq("no-sampling", calls.get(), 0);
        c.hit("ill-defined limits refused");
    } else {
        let ok = matches!(r, Ok(_) | Err(IntegrateError::NonFinite));
        c.ok(ok, "iterative-limits", || format!("{r:?} for well-defined limits"));
        c.hit("well-defined limits accepted");
    }
    let good = [T::ZERO, T::ONE];
    c.eq("outer-limits", it.double_integral(&f, &[good, tl]).err() == Some(IntegrateError::LimitsIllDefined), !well);
    c.eq("inner-limits", it.double_integral(&f, &[tl, good]).err() == Some(IntegrateError::LimitsIllDefined), !well);
    let zero = IterativeSingle::<T>::from_parameters(0, m);
    c.eq("iterations-zero", zero.single_integral(&f, &tl).err(), Some(IntegrateError::IterationsZero));
    let zero = IterativeMulti::<T>::from_parameters(0, m);
    c.eq("iterations-zero", zero.single_partial_integral(&|_: &[T; 1]| T::ONE, 0, &tl, &[T::ONE]).err(), Some(IntegrateError::IterationsZero));
    let fam = c.us(0, 2);
    let n = c.us(1, 30);
    let ok = match fam {
        0 => l[0].is_finite() && l[1].is_finite() && l[0] < l[1],
        1 => l == [-inf, inf],
        _ => l == [0.0, inf],
    };
    let g = GaussianSingle::<T>::from_parameters(n, FAM[fam]).single_integral(&f, &tl);
    c.eq("gauss-limits", g.err() == Some(IntegrateError::LimitsIllDefined), !ok);
    let gm = GaussianMulti::<T>::from_parameters(n, FAM[fam]).single_partial_integral(&|_: &[T; 2]| T::ONE, 1, &tl, &[T::ONE; 2]);
    c.eq("gauss-limits", gm.err() == Some(IntegrateError::LimitsIllDefined), !ok);
    let bad = if c.p(0.5) { 0 } else { 31 + c.us(0, 100) };
    c.eq("gauss-order", GaussianSingle::<T>::from_parameters(bad, FAM[fam]).single_integral(&f, &good).err(), Some(IntegrateError::QuadratureOrderOutOfRange));
    c.eq("gauss-order", GaussianMulti::<T>::from_parameters(bad, FAM[fam]).single_partial_integral(&|_: &[T; 1]| T::ONE, 0, &good, &[T::ONE]).err(), Some(IntegrateError::QuadratureOrderOutOfRange));
    // Counts above the rounding cut-off are left alone.
    let big = 12001 + c.us(0, 50) as u64;
    c.eq("count-untouched", IterativeConfig::from_parameters(big, m).total_iterations, big);
}
fn main() {
    vmon::run("C08", |s| {
        s.rule("A case counts when a rule was run on an integrand that identifies each sample point and the result was compared with the documented weighted sum in double-double (or with the exact integral), or a refusal was checked; distinct = distinct rule, limits, integrand values.");
        s.assume("Quadrature tables are held to 7e-13 (weights) and 2e-14 (nodes) relative, the accuracy of the generator used for them.");
        s.monitor("tables", 2000, 4, tables);
        s.monitor("gauss-single", 60000, 20, |c| if c.p(0.3) { gauss_single::<f32>(c) } else { gauss_single::<f64>(c) });
        s.monitor("gauss-multi", 20000, 20, |c| match c.us(0, 4) {
            0 => gauss_multi::<1, 1, f64>(c),
            1 => gauss_multi::<3, 1, f64>(c),
            2 => gauss_multi::<3, 2, f64>(c),
            3 => gauss_multi::<4, 3, f64>(c),
            _ => gauss_multi::<3, 2, f32>(c),
        });
        s.monitor("iterative", 60000, 20, |c| if c.p(0.3) { iter_single::<f32>(c, false) } else { iter_single::<f64>(c, false) });
        s.monitor("iterative-long", 2000, 20, |c| if c.p(0.6) { iter_single::<f32>(c, true) } else { iter_single::<f64>(c, true) });
        s.monitor("iterative-vast", 10, 6, |c| if c.p(0.25) { vast::<f32>(c) } else { vast::<f64>(c) });
        s.monitor("iterative-multi", 20000, 20, |c| match c.us(0, 4) {
            0 => iter_multi::<1, 1, f64>(c),
            1 => iter_multi::<3, 1, f64>(c),
            2 => iter_multi::<3, 2, f64>(c),
            3 => iter_multi::<4, 3, f64>(c),
            _ => iter_multi::<3, 2, f32>(c),
        });
        s.monitor("truth", 60000, 20, |c| if c.p(0.25) { truth::<f32>(c) } else { truth::<f64>(c) });
        s.monitor("refusals", 60000, 20, |c| if c.p(0.3) { refusals::<f32>(c) } else { refusals::<f64>(c) });
        for (e, n) in [("quadrature table row set checked", 1000), ("gauss rule", 20000), ("gauss multi rule", 10000), ("composite rule", 20000), ("long sum judged", 500), ("vast sum judged", 6), ("composite multi rule", 10000), ("true integral", 20000), ("plane integral", 500), ("non-finite sample refused", 5000), ("ill-defined limits refused", 10000), ("well-defined limits accepted", 5000)] {
            s.require(e, n);
        }
    })
}
