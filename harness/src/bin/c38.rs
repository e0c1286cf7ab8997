//! C38: the same computation on every scalar, every time.
use vmon::api::*;
use vmon::dd::{DD, dd};
use vmon::probe::Probe;
use vmon::*;

type List = Vec<(&'static str, Scenario)>;
fn run(f: Scenario, seed: u64, style: Style, target: u32, delta: f64) -> Box<Sim> {
    let mut s = Box::new(Sim::new(seed, style));
    s.target = target;
    s.delta = delta;
    f(&mut s);
    s
}
fn style(c: &mut Case) -> Style {
    match c.us(0, 7) {
        0 | 1 => Style::Tame,
        2 | 3 => Style::Smooth,
        4 => Style::Wide,
        5 => Style::Hostile(20),
        6 => Style::Hostile(150),
        _ => Style::Hostile(600),
    }
}
/// A scalar of the user's own that computes as `f64` does gets `f64`'s results, bit for bit; and so does
/// a second run, straight away, and one on another thread.
fn again(c: &mut Case, plain: &List, probe: &List) {
    let k = c.us(0, plain.len() - 1);
    let seed = c.u64();
    let st = style(c);
    let name = plain[k].0;
    c.note("program", &name);
    c.note("seed", &(seed, st));
    let a = run(plain[k].1, seed, st, 0, 0.0);
    let p = run(probe[k].1, seed, st, 0, 0.0);
    c.ok(a.hash == p.hash && a.n == p.n, &format!("own-scalar-{name}"), || differ(&a, &p));
    let other = c.us(0, plain.len() - 1);
    run(plain[other].1, seed ^ 1, st, 0, 0.0);
    let b = run(plain[k].1, seed, st, 0, 0.0);
    c.ok(a.hash == b.hash && a.n == b.n, &format!("repeat-{name}"), || differ(&a, &b));
    c.hits("outputs equal bit for bit", 2 * a.n as u64);
    if c.p(0.02) {
        let f = plain[k].1;
        let b = std::thread::scope(|s| s.spawn(|| run(f, seed, st, 0, 0.0)).join());
        match b {
            Ok(b) => c.ok(a.hash == b.hash, &format!("thread-{name}"), || differ(&a, &b)),
            Err(p) => std::panic::resume_unwind(p),
        }
        c.hit("runs repeated on another thread");
    }
}
fn differ(a: &Sim, b: &Sim) -> String {
    for i in 0..a.n.min(b.n).min(LOG) {
        if a.log[i].to_bits() != b.log[i].to_bits() && !(a.log[i].is_nan() && b.log[i].is_nan()) {
            return format!("output {i}: {:e} against {:e}", b.log[i], a.log[i]);
        }
    }
    format!("{} outputs against {}", b.n, a.n)
}
/// Programs whose number of steps, or a count they report, legitimately hangs on the precision.
const COUNTED: [&str; 29] = [
    "lyap", "ricc", "structured", "diff_fd", "extended_fd", "bisect", "brent", "newton", "newton_system", "lm", "gn", "rk45", "rk45_stiff", "rk45_grid", "poly_roots",
    "poly_roots_in", "jacobian", "ik", "ik_multi", "ik_seeded", "path", "random", "particle_weights", "snap", "grid_fixed", "savgol", "cascade", "biquad", "multi",
];
/// How many roundings of `f64` the outputs of a program have picked up, from its run in twice the
/// precision; None when the two took different branches or the outputs are hardly determined.
fn conditioning(a: &Sim, d: &Sim) -> Option<f64> {
    if a.n != d.n {
        return None;
    }
    let mut k = 1f64;
    for j in 0..a.n.min(LOG) {
        let (x, y) = (a.log[j], d.log[j]);
        if x.is_finite() != y.is_finite() || a.errs[j] || d.errs[j] {
            return None;
        }
        if x.is_finite() {
            k = k.max((x - y).abs() / (f64::EPSILON * x.abs().max(1.0)));
        }
    }
    (k <= 3e4).then_some(k)
}
fn agree(c: &mut Case, name: &str, a: &Sim, o: &Sim, eps: f64, kappa: f64, what: &str) -> bool {
    if a.n != o.n || o.errs[..o.n.min(LOG)].contains(&true) {
        return false;
    }
    for j in 0..a.n.min(LOG) {
        let (x, y) = (a.log[j], o.log[j]);
        if x.is_nan() && y.is_nan() || x == y {
            continue;
        }
        let tol = 3000.0 * eps * kappa * x.abs().max(1.0);
        c.ok((x - y).abs() <= tol, &format!("{what}-{name}"), || format!("output {j}: {y:e} against {x:e}, tolerance {tol:e}"));
    }
    true
}
/// Single precision, and the value carried by an autodiff scalar, come out as double precision does, to
/// rounding.
fn precision(c: &mut Case, ls: &[(usize, &'static str)], plain: &List, single: &List, double: &List, dual: &List) {
    let (k, name) = ls[c.us(0, ls.len() - 1)];
    let seed = c.u64();
    c.note("program", &name);
    c.note("seed", &seed);
    let st = Style::Smooth;
    let a = run(plain[k].1, seed, st, 0, 0.0);
    let d = run(double[k].1, seed, st, 0, 0.0);
    let Some(kappa) = conditioning(&a, &d) else {
        c.hit("programs too sensitive to compare");
        c.discard()
    };
    let o = run(dual[k].1, seed, st, 0, 0.0);
    if agree(c, name, &a, &o, f64::EPSILON, kappa, "dual-value") {
        c.hits("autodiff values compared", a.n as u64);
    }
    // Beyond this the errors of single precision are no longer small next to the numbers they act on, or
    // squares and products on the way leave its range.
    if kappa < 30.0 && a.values().iter().all(|v| v.abs() < 1e9) {
        let o = run(single[k].1, seed, st, 0, 0.0);
        if agree(c, name, &a, &o, f32::EPSILON as f64, kappa, "single") {
            c.hits("single precision values compared", a.n as u64);
        }
    }
}
/// Iterations and differences: the slope of what they return is not the slope of what they seek.
const SLOPELESS: [&str; 14] = [
    "diff_fd", "extended_fd", "bisect", "brent", "newton", "newton_system", "poly_roots_in", "lm", "gn", "ik", "ik_multi", "ik_seeded", "integ_multi", "structured",
];
/// A derivative fed in comes out as the derivative of the result: nothing on the way drops it.
fn slopes(c: &mut Case, ls: &[(usize, &'static str)], double: &List, dual: &List) {
    let (k, name) = ls[c.us(0, ls.len() - 1)];
    let seed = c.u64();
    let st = Style::Smooth;
    let a = run(double[k].1, seed, st, 0, 0.0);
    if a.drawn == 0 {
        c.discard()
    }
    let t = 1 + (c.u64() % a.drawn as u64) as u32;
    c.note("program", &name);
    c.note("seed", &(seed, t));
    take_singular();
    let o = run(dual[k].1, seed, st, t, 1.0);
    let singular = take_singular();
    let h = 1e-9;
    let near: Vec<Box<Sim>> = [h, -h, 0.5 * h, -0.5 * h].iter().map(|d| run(double[k].1, seed, st, t, *d)).collect();
    if near.iter().any(|s| s.n != o.n) {
        c.hit("programs that branch at the point");
        c.discard()
    }
    // Past this, cancellation on the way takes the digits the comparison needs.
    if (0..o.n.min(LOG)).any(|j| !o.errs[j] && o.log[j].abs() > 1e9) {
        c.hit("programs with huge outputs");
        c.discard()
    }
    let mut some = false;
    for j in 0..o.n.min(LOG) {
        let g = |i: usize| DD::new(near[i].log[j], near[i].log2[j]);
        let d1 = ((g(0) - g(1)) / dd(2.0 * h)).f();
        let d2 = ((g(2) - g(3)) / dd(h)).f();
        if !d1.is_finite() || !d2.is_finite() || o.errs[j] {
            continue;
        }
        let scale = d1.abs().max(d2.abs()).max(o.log[j].abs()).max(1.0);
        // Not smooth here, or on another branch than its neighbours.
        let size = o.log[j].abs().max(1.0);
        if d1.abs() * h > 1e-4 * size || (d1 - d2).abs() > 1e-9 * scale || (o.log[j] - 0.5 * (near[0].log[j] + near[1].log[j])).abs() > 1e-6 * scale {
            c.hit("outputs not smooth at the point");
            continue;
        }
        let s = o.log2[j];
        if s.is_nan() && singular > 0 {
            c.hit("slopes asked for where a function has none");
            continue;
        }
        let want = d2 + (d2 - d1) / 3.0;
        c.ok((s - want).abs() <= 1e-6 * scale, &format!("slope-{name}"), || format!("output {j} (value {:e}): slope {s:e} against {want:e}", o.log[j]));
        c.hit("slopes compared");
        if want.abs() > 1e-6 * scale {
            c.hit("slopes not zero");
            some = true;
        }
    }
    if some {
        c.hit("programs whose outputs depend on the input");
    }
}
fn main() {
    vmon::run("C38", |s| {
        s.rule("A case counts when a short program over one corner of the public API was run on two or more scalars (or twice) from the same inputs and every output compared: bit for bit between f64, a user-defined scalar computing as f64 does, and a repeat; within rounding between f64, f32 and the autodiff value; and, for slopes, against differences taken in double-double arithmetic; distinct = distinct programs, inputs and varied inputs.");
        s.assume("Values are compared across precisions only for programs that report no iteration counts, on inputs where double precision itself is good to about eleven digits; slopes only for programs that do not iterate to a tolerance, and only for outputs smooth at the point.");
        let (plain, single, probe, double, dual, ddual) = (all::<f64>(), all::<f32>(), all::<Probe>(), all::<DD>(), all::<Du<f64>>(), all::<Du<DD>>());
        let pick = |not: &[&str]| plain.iter().enumerate().filter(|(_, p)| !not.contains(&p.0)).map(|(i, p)| (i, p.0)).collect::<Vec<_>>();
        let (even, smooth) = (pick(&COUNTED), pick(&SLOPELESS));
        s.monitor("again", 400000, 20, |c| again(c, &plain, &probe));
        s.monitor("precision", 100000, 20, |c| precision(c, &even, &plain, &single, &double, &dual));
        s.monitor("slopes", 100000, 20, |c| slopes(c, &smooth, &double, &ddual));
        for (e, n) in [
            ("outputs equal bit for bit", 10000000),
            ("runs repeated on another thread", 2000),
            ("autodiff values compared", 500000),
            ("single precision values compared", 500000),
            ("slopes compared", 500000),
            ("slopes not zero", 50000),
            ("programs whose outputs depend on the input", 20000),
        ] {
            s.require(e, n);
        }
    });
}
