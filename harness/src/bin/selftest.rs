//! Self-test of the oracle arithmetic against identities (run by setup_cmd).
use multicalc::Numeric;
use vmon::dd::dd;
use vmon::*;
fn main() {
    run("SELF", |s| {
        s.monitor("dd.elementary", 2000, 10, |c| {
            let x = c.f(-20.0, 20.0);
            let d = dd(x);
            let e = d.exp_();
            c.near("ln exp", (e.ln_() - d).f(), 0.0, 1e-29 * x.abs().max(1.0));
            let (sn, cs) = d.sincos();
            c.near("sin2+cos2", (sn * sn + cs * cs - dd(1.0)).f(), 0.0, 1e-30);
            c.near("sin", sn.f(), x.sin(), 3e-16);
            c.near("cos", cs.f(), x.cos(), 3e-16);
            let th = c.f(-3.1, 3.1);
            let (s2, c2) = dd(th).sincos();
            c.near("atan2", (DD::atan2_(s2, c2) - dd(th)).f(), 0.0, 1e-29);
            let p = c.lu(-10.0, 10.0);
            c.near("sqrt", ((dd(p).sqr().sq() - dd(p)) / dd(p)).f(), 0.0, 1e-30);
            c.near("cbrt", ((Numeric::cbrt(dd(p)).powi_(3) - dd(p)) / dd(p)).f(), 0.0, 1e-29);
            c.near("expm1", ((dd(x * 0.01).expm1_() + dd(1.0)) / dd(x * 0.01).exp_() - dd(1.0)).f(), 0.0, 1e-30);
            let q = c.f(-0.9, 3.0);
            c.near("ln1p", (dd(q).ln1p_().exp_() - dd(1.0) - dd(q)).f(), 0.0, 1e-29);
            c.near("tanh", Numeric::tanh(d).f(), x.tanh(), 4e-16);
            let a = c.f(-0.99, 0.99);
            c.near("asin", (Numeric::asin(dd(a)).sincos().0 - dd(a)).f(), 0.0, 1e-29);
        });
        s.monitor("rm.solve", 300, 10, |c| {
            let n = c.us(1, 7);
            let a = RM::from_fn(n, n, |_, _| c.f(-2.0, 2.0));
            let x = RM::from_fn(n, 1, |_, _| c.f(-2.0, 2.0));
            let b = a.mul(&x);
            if let Some(y) = a.solve(&b) {
                let sv = a.sing();
                let k = sv[0] / sv[n - 1];
                c.near("solve", y.sub(&x).norm(), 0.0, 1e-28 * k * 100.0);
                let d = a.det().f().abs();
                let pr: f64 = sv.iter().product();
                c.rel("det=prod sing", d, pr, 1e-12, 0.0);
                let g = a.t().mul(&a).sym_eig();
                c.rel("eig of gram", g[0].sqrt(), sv[0], 1e-13, 0.0);
            }
        });
    })
}
