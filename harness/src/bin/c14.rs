//! C14: real roots of polynomials.
use multicalc::error::PolynomialError as E;
use multicalc::polynomial::*;
use vmon::*;

type P<const N: usize, T> = Polynomial<N, T>;
fn ev(a: &[f64], x: f64) -> (f64, f64) {
    let (mut s, mut m) = (dd(0.0), 0.0);
    for k in (0..a.len()).rev() {
        s = s * dd(x) + dd(a[k]);
        m = m * x.abs() + a[k].abs();
    }
    (s.f(), m)
}
/// A polynomial with known roots: real ones and conjugate pairs re +- i im.
struct Made {
    real: Vec<f64>,
    pairs: Vec<(f64, f64)>,
    lead: f64,
    /// Smallest distance between any two (complex) roots, and the largest modulus.
    sep: f64,
    big: f64,
}
fn expand(m: &Made) -> Vec<DD> {
    let mut a = vec![dd(m.lead)];
    let mul = |a: &Vec<DD>, f: &[DD]| -> Vec<DD> {
        let mut r = vec![dd(0.0); a.len() + f.len() - 1];
        for (i, x) in a.iter().enumerate() {
            for (j, y) in f.iter().enumerate() {
                r[i + j] = r[i + j] + *x * *y;
            }
        }
        r
    };
    for r in &m.real {
        a = mul(&a, &[-dd(*r), dd(1.0)]);
    }
    for (re, im) in &m.pairs {
        a = mul(&a, &[dd(*re).sq() + dd(*im).sq(), -dd(*re).mulf(2.0), dd(1.0)]);
    }
    a
}
fn make<T: Fl>(c: &mut Case, n: usize, generic: bool) -> Made {
    let npairs = c.us(0, n / 2);
    let scale = if c.p(0.5) { 1.0 } else { c.lu(-3.0, 3.0) };
    let off = if c.p(0.5) { 0.0 } else { c.f(-3.0, 3.0) };
    let whole = !generic && c.p(0.25);
    let g = |c: &mut Case| {
        let v = if whole { c.int(-5, 5) as f64 } else if c.p(0.3) { c.ls(-3.0, 0.5) } else { c.f(-2.0, 2.0) };
        T::t((v + off) * scale).d()
    };
    let real: Vec<f64> = (0..n - 2 * npairs).map(|_| g(c)).collect();
    let pairs: Vec<(f64, f64)> = (0..npairs).map(|_| (g(c), T::t(scale * if whole { c.int(1, 4) as f64 } else { c.lu(-2.0, 0.5) }).d())).collect();
    let all: Vec<(f64, f64)> = real.iter().map(|r| (*r, 0.0)).chain(pairs.iter().flat_map(|(a, b)| [(*a, *b), (*a, -*b)])).collect();
    let mut sep = f64::INFINITY;
    for i in 0..all.len() {
        for j in 0..i {
            sep = sep.min((all[i].0 - all[j].0).hypot(all[i].1 - all[j].1));
        }
    }
    let big = all.iter().map(|(a, b)| a.hypot(*b)).fold(0.0, f64::max);
    let lead = T::t(if c.p(0.5) { 1.0 } else { c.ls(-3.0, 3.0) }).d();
    let mut m = Made { real, pairs, lead, sep, big };
    m.real.sort_by(f64::total_cmp);
    // The closed forms raise coefficients to powers that must stay in single precision's range.
    if T::F32 && (m.big > 200.0 || m.lead.abs() < 1e-2 || m.lead.abs() > 1e2) {
        c.discard();
    }
    m
}
/// Judges a returned root list for coefficients `a`.
fn closed<const N: usize, T: Fl>(c: &mut Case, r: Result<Vec<T>, E>, a: &[f64], m: &Made) {
    let n = a.len() - 1;
    let got: Vec<f64> = c.get("real-roots", r).iter().map(|v| v.d()).collect();
    c.ok(got.windows(2).all(|w| w[0] <= w[1]), "sorted", || format!("{got:?}"));
    c.ok(got.iter().all(|v| v.is_finite()), "finite", || format!("{got:?}"));
    c.ok(got.len() <= n && (n - got.len()) % 2 == 0 || (m.sep < 1e-2 * m.big), "parity", || format!("{} roots of degree {n}", got.len()));
    // Backward error on the scale of the largest root.
    let mag: f64 = a.iter().enumerate().map(|(k, v)| v.abs() * (m.big * 1.01).powi(k as i32)).sum();
    let back = if n == 4 { 10000.0 } else { 2000.0 } * T::EPS;
    // A cluster's parting is lost in rounding; the midpoint of a nearly touching pair still fits.
    let clustered = m.sep < m.big * 10.0 * back.powf(1.0 / n as f64);
    for x in &got {
        let (p, _) = ev(a, *x);
        c.ok(p.abs() <= if clustered { 100.0 } else { 1.0 } * back * mag, "residual", || format!("p({x:e}) = {p:e}, allowed {:e}; true roots {:?} {:?}", back * mag, m.real, m.pairs));
    }
    if clustered || m.sep < 1e-3 * m.big {
        c.hit("clustered roots judged by residual");
        return;
    }
    c.ok(got.len() == m.real.len(), "count", || format!("{got:?}, true {:?} and pairs {:?}", m.real, m.pairs));
    for (g, w) in got.iter().zip(&m.real) {
        // First-order condition: backward error over |p'|.
        let mut d = m.lead.abs();
        for q in &m.real {
            if q != w {
                d *= (q - w).abs();
            }
        }
        for (re, im) in &m.pairs {
            d *= (re - w).powi(2) + im * im;
        }
        let tol = 2.0 * back * mag / d;
        if tol < 0.1 * m.sep.min(m.big) {
            c.near("root", *g, *w, tol);
            c.hit("root located");
        }
    }
    if m.real.is_empty() {
        c.hit("no real roots confirmed");
    }
}
fn closed_any<T: Fl>(c: &mut Case, n: usize) {
    let m = make::<T>(c, n, false);
    let a: Vec<f64> = expand(&m).iter().map(|v| T::t(v.f()).d()).collect();
    c.note("roots", &(&m.real, &m.pairs, m.lead));
    c.note("coefficients", &a);
    let at: Vec<T> = a.iter().map(|v| T::t(*v)).collect();
    if a[n] == 0.0 || !a.iter().all(|v| v.is_finite()) {
        return c.discard();
    }
    match n {
        1 => {
            let r = P::<2, T>::new(at.clone().try_into().unwrap()).real_roots().map(|r| r.as_slice().to_vec());
            closed::<2, T>(c, r, &a, &m)
        }
        2 => {
            let r = P::<3, T>::new(at.clone().try_into().unwrap()).real_roots().map(|r| { assert_eq!((r.len(), r.is_empty()), (r.as_slice().len(), r.as_slice().is_empty())); r.as_slice().to_vec() });
            closed::<3, T>(c, r, &a, &m)
        }
        3 => {
            let r = P::<4, T>::new(at.clone().try_into().unwrap()).real_roots().map(|r| r.as_slice().to_vec());
            closed::<4, T>(c, r, &a, &m)
        }
        _ => {
            let r = P::<5, T>::new(at.clone().try_into().unwrap()).real_roots().map(|r| r.as_slice().to_vec());
            closed::<5, T>(c, r, &a, &m)
        }
    }
}
/// Repeated roots made exactly representable.
fn repeated(c: &mut Case) {
    let g = |c: &mut Case| c.int(-4, 4) as f64;
    let (r, s) = (g(c), g(c));
    let list: Vec<f64> = match c.us(0, 6) {
        0 => vec![r, r],
        1 => vec![r, r, s],
        2 => vec![r, r, r],
        3 => vec![r, r, s, s],
        4 => vec![r, r, r, s],
        5 => vec![r; 4],
        _ => vec![r, r, s, g(c)],
    };
    let n = list.len();
    let mut m = Made { real: list, pairs: vec![], lead: c.pick(&[1.0, -1.0, 2.0, 0.5]), sep: 0.0, big: 0.0 };
    m.real.sort_by(f64::total_cmp);
    m.big = m.real.iter().map(|v| v.abs()).fold(0.0, f64::max);
    let a: Vec<f64> = expand(&m).iter().map(|v| v.f()).collect();
    c.note("repeated", &(&m.real, &a));
    let got: Vec<f64> = match n {
        2 => P::<3, f64>::new(a.clone().try_into().unwrap()).real_roots().unwrap().as_slice().to_vec(),
        3 => P::<4, f64>::new(a.clone().try_into().unwrap()).real_roots().unwrap().as_slice().to_vec(),
        _ => c.get("quartic", P::<5, f64>::new(a.clone().try_into().unwrap()).real_roots()).as_slice().to_vec(),
    };
    if n == 2 {
        c.eq("double-root", got.clone(), m.real.clone());
        c.hit("repeated root reported with its multiplicity");
    }
    for x in &got {
        c.ok(m.real.iter().any(|r| (r - x).abs() <= 3e-3 * (1.0 + m.big)), "stray-root", || format!("{got:?} for {:?}", m.real));
    }
    c.ok(got.len() <= n, "too-many", || format!("{got:?}"));
    c.hit("repeated roots judged");
}
fn refused<T: Fl>(c: &mut Case) {
    let mut a: [f64; 5] = c.arr(|c| T::t(c.f(-2.0, 2.0)).d());
    let bad = c.us(0, 3);
    let n = c.us(1, 4);
    let want = match bad {
        0 => { a[n] = c.pick(&[0.0, -0.0]); Some(E::LeadingCoefficientZero) }
        1 => { a[n] = 0.0; let i = c.us(0, n - 1); a[i] = f64::NAN; Some(E::NonFinite) }
        _ => { let i = c.us(0, n); a[i] = c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]); Some(E::NonFinite) }
    };
    c.note("bad", &(n, a));
    let t = a.map(T::t);
    let got = match n {
        1 => P::<2, T>::new([t[0], t[1]]).real_roots().err(),
        2 => P::<3, T>::new([t[0], t[1], t[2]]).real_roots().err(),
        3 => P::<4, T>::new([t[0], t[1], t[2], t[3]]).real_roots().err(),
        _ => P::<5, T>::new(t).real_roots().err(),
    };
    c.eq("refused", got, want);
    c.hit("bad polynomial refused");
}
fn chain<const N: usize, T: Fl>(c: &mut Case) {
    let n = N - 1 - if c.p(0.2) && N > 3 { 1 } else { 0 };
    let m = make::<T>(c, n, true);
    let mut a: Vec<f64> = expand(&m).iter().map(|v| T::t(v.f()).d()).collect();
    a.resize(N, 0.0);
    c.note("roots", &(&m.real, &m.pairs, m.lead));
    let p = P::<N, T>::new(core::array::from_fn(|i| T::t(a[i])));
    if a[n] == 0.0 || !a.iter().all(|v| v.is_finite()) {
        return c.discard();
    }
    let bound = c.get("bound", p.cauchy_root_bound()).d();
    let mut w = 0.0f64;
    for k in 0..n {
        w = w.max((a[k] / a[n]).abs());
    }
    c.near("cauchy", bound, 1.0 + w, 4.0 * T::EPS * (1.0 + w));
    let amp = 1e5 * T::EPS * (n as f64).powi(2);
    c.ok(m.real.iter().all(|r| r.abs() <= bound * (1.0 + amp)), "bound-holds", || format!("a root outside {bound:e}"));
    // Counting is exact while the chain is well conditioned: well-separated roots.
    if !(m.sep > 0.15 * m.big && m.big > 0.0) || T::F32 && n > 4 || n > 7 {
        c.hit("ill-separated chain skipped");
        return;
    }
    let near_root = |x: f64| m.real.iter().any(|r| (r - x).abs() < 1e-2 * m.big);
    let pick = |c: &mut Case| loop {
        let x = T::t(c.f(-1.3, 1.3) * m.big).d();
        if !near_root(x) {
            break x;
        }
    };
    for _ in 0..3 {
        let (mut lo, mut hi) = (pick(c), pick(c));
        if lo > hi {
            std::mem::swap(&mut lo, &mut hi);
        }
        c.note("range", &(lo, hi));
        let want: Vec<f64> = m.real.iter().cloned().filter(|r| *r > lo && *r <= hi).collect();
        let n_ = c.get("count", p.count_real_roots(T::t(lo), T::t(hi)));
        c.eq("count", n_, want.len());
        let tol = T::t(m.big * c.lu(if T::F32 { -4.0 } else { -10.0 }, -2.0));
        let cap = if c.p(0.1) { c.us(0, 20) } else { 2000 };
        c.note("tolerance", &(tol, cap));
        match p.real_roots_in(T::t(lo), T::t(hi), tol, cap) {
            Ok(r) => {
                let g: Vec<f64> = r.as_slice().iter().map(|v| v.d()).collect();
                c.eq("found", g.len(), want.len());
                for (x, y) in g.iter().zip(&want) {
                    let slack = 1e4 * T::EPS * m.big * (m.big / m.sep).powi(n as i32 - 1);
                    c.near("isolated", *x, *y, 0.5 * tol.d() * (1.0 + 1e-3) + slack);
                }
                if !g.is_empty() {
                    c.hit("roots isolated");
                }
            }
            Err(e) => {
                c.eq("exhausted", e, E::DidNotConverge { steps: cap });
                let need = (want.len() as f64) * (((hi - lo) / tol.d()).log2() + 2.0).max(0.0);
                c.ok((cap as f64) < need, "gave-up-early", || format!("{cap} steps, {need} would do"));
                c.hit("halving budget exhausted");
            }
        }
    }
    c.hit("chain judged");
}
fn chain_edges(c: &mut Case) {
    // Whole-number roots: the range takes in its upper end, not its lower; repeats count once.
    let k = c.us(1, 4);
    let mut set: Vec<f64> = vec![];
    while set.len() < k {
        let v = c.int(-4, 4) as f64;
        if !set.contains(&v) {
            set.push(v);
        }
    }
    set.sort_by(f64::total_cmp);
    let real = set.clone();
    let m = Made { real: real.clone(), pairs: vec![], lead: c.pick(&[1.0, -2.0]), sep: 1.0, big: 4.0 };
    let mut a: Vec<f64> = expand(&m).iter().map(|v| v.f()).collect();
    a.resize(6, 0.0);
    let p = P::<6, f64>::new(a.try_into().unwrap());
    let (lo, hi) = (c.int(-10, 8) as f64 / 2.0, c.int(0, 12) as f64 / 2.0);
    let hi = lo + hi;
    c.note("whole", &(&real, lo, hi));
    let want: Vec<f64> = set.iter().cloned().filter(|r| *r > lo && *r <= hi).collect();
    let n = c.get("count", p.count_real_roots(lo, hi));
    c.eq("half-open-count", n, want.len());
    let r = c.get("isolate", p.real_roots_in(lo, hi, 1e-9, 2000));
    c.eq("half-open-roots", r.len(), want.len());
    for (x, y) in r.as_slice().iter().zip(&want) {
        c.near("half-open-root", *x, *y, 1e-9);
    }
    c.hit("half-open range judged");
    // Refusals.
    let bad = [p.real_roots_in(lo, hi, 0.0, 10).err(), p.real_roots_in(lo, hi, -1e-3, 10).err(), p.real_roots_in(hi + 1.0, lo, 1e-3, 10).err(), p.real_roots_in(f64::NAN, hi, 1e-3, 10).err(), p.real_roots_in(lo, f64::INFINITY, 1e-3, 10).err(), p.real_roots_in(lo, hi, f64::NAN, 10).err()];
    c.eq("bad-range", bad, [Some(E::ToleranceNotPositive), Some(E::ToleranceNotPositive), Some(E::RangeReversed), Some(E::NonFinite), Some(E::NonFinite), Some(E::NonFinite)]);
    let z = P::<4, f64>::zeros();
    c.eq("zero-polynomial", [z.count_real_roots(lo, hi).err(), z.real_roots_in(lo, hi, 0.1, 10).err(), z.cauchy_root_bound().err()], [Some(E::LeadingCoefficientZero); 3]);
    let z = P::<4, f64>::new([1.0, f64::NAN, 0.0, 1.0]);
    c.eq("nan-polynomial", [z.count_real_roots(lo, hi).err(), z.real_roots_in(lo, hi, 0.1, 10).err(), z.cauchy_root_bound().err()], [Some(E::NonFinite); 3]);
}
/// The listed instances of the recorded finding on repeated roots (see DESIGN.md).
fn repeated_range(c: &mut Case) {
    let k = c.us(0, 3);
    if k == 3 {
        return c.ok(P::<3, f64>::new([-1.0, 0.0, 1.0]).count_real_roots(-2.0, 2.0) == Ok(2), "simple-roots", || "x^2 - 1".into());
    }
    if k == 2 {
        // Roots 0.2, 0.3, 0.4 and 0.3 +- 0.1i: square-free, but the chain should drop two degrees
        // and rounding leaves a speck there instead.
        let p = P::<6, f64>::new([-0.002400000000000001, 0.04040000000000002, -0.2700000000000001, 0.9000000000000002, -1.5000000000000002, 1.0]);
        c.ok(p.count_real_roots(-0.1, 0.5) == Ok(3), "symmetric-root-count", || format!("{:?}", p.count_real_roots(-0.1, 0.5)));
    } else if k == 0 {
        // (x + 3)(x + 1)^2 on (-2, -0.5] holds -1 alone.
        let p = P::<4, f64>::new([3.0, 7.0, 5.0, 1.0]);
        c.ok(p.count_real_roots(-2.0, -0.5) == Ok(1), "repeated-root-count", || format!("{:?}", p.count_real_roots(-2.0, -0.5)));
    } else {
        // x^2 (x - 1) on (-1, 1] holds 0 and 1.
        let p = P::<4, f64>::new([0.0, 0.0, -1.0, 1.0]);
        let r = p.real_roots_in(-1.0, 1.0, 1e-9, 2000).map(|r| r.as_slice().to_vec());
        c.ok(r.as_ref().is_ok_and(|r| r.len() == 2 && r[0].abs() < 1e-6 && (r[1] - 1.0).abs() < 1e-6), "repeated-root-halved", || format!("{r:?}"));
    }
}
fn main() {
    vmon::run("C14", |s| {
        s.rule("A case counts when the roots returned for a polynomial with known roots were judged; distinct = distinct polynomials.");
        s.assume("Coefficients are expanded from the known roots in double-double and rounded once; separated roots are held to the first-order effect of a small backward error, clusters to the residual.");
        s.monitor("linear", 20000, 20, |c| if c.p(0.3) { closed_any::<f32>(c, 1) } else { closed_any::<f64>(c, 1) });
        s.monitor("quadratic", 60000, 20, |c| if c.p(0.3) { closed_any::<f32>(c, 2) } else { closed_any::<f64>(c, 2) });
        s.monitor("cubic", 100000, 20, |c| if c.p(0.3) { closed_any::<f32>(c, 3) } else { closed_any::<f64>(c, 3) });
        s.monitor("quartic", 100000, 20, |c| if c.p(0.3) { closed_any::<f32>(c, 4) } else { closed_any::<f64>(c, 4) });
        s.monitor("repeated", 20000, 20, repeated);
        s.monitor("refused", 10000, 20, |c| if c.p(0.3) { refused::<f32>(c) } else { refused::<f64>(c) });
        s.monitor("chain", 60000, 20, |c| match c.us(0, 4) {
            0 => chain::<3, f64>(c),
            1 => chain::<4, f64>(c),
            2 => chain::<6, f64>(c),
            3 => chain::<8, f64>(c),
            _ => chain::<5, f32>(c),
        });
        s.monitor("chain-large", 1500, 20, |c| match c.us(0, 2) {
            0 => chain::<10, f64>(c),
            1 => chain::<14, f64>(c),
            _ => chain::<20, f64>(c),
        });
        s.monitor("edges", 30000, 20, chain_edges);
        s.monitor("repeated-range", 50, 1, repeated_range);
        for (e, n) in [("root located", 100000), ("no real roots confirmed", 10000), ("clustered roots judged by residual", 5000), ("repeated roots judged", 10000), ("bad polynomial refused", 5000), ("chain judged", 5000), ("roots isolated", 5000), ("halving budget exhausted", 200), ("half-open range judged", 10000)] {
            s.require(e, n);
        }
    })
}
