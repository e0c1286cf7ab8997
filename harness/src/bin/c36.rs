//! C36: every call ends within a bounded amount of work.
use vmon::api::*;
use vmon::probe::{self, Probe};
use vmon::*;

/// Scalar operations each program may take: eight times the most seen over 140 000 runs of it.
const BUDGET: [(&str, u64); 109] = [
    ("views", 4000), ("algebra", 4000), ("square2", 4000), ("square3", 4000), ("square4", 6800), ("square5", 9300),
    ("square1", 4000), ("chol", 4000), ("qr_tall", 4300), ("qr_damped", 8300), ("svd_tall", 180000), ("svd_square", 430000),
    ("eig3", 5500), ("eig5", 37000), ("expm3", 460000), ("expm5", 2100000), ("lyap", 120000), ("ricc", 300000),
    ("disc", 1600000), ("vectors", 4000), ("odd_sizes", 27000), ("structured", 2700000), ("numeric", 4000), ("duals", 18000),
    ("hypers", 14000), ("jets", 34000), ("diff_auto", 18000), ("diff_fd", 22000), ("jac_hess", 27000), ("fields", 23000),
    ("approx", 5600), ("approx_quad", 14000), ("integ_iter", 12000), ("integ_gauss", 26000), ("integ_multi", 94000), ("line", 350000),
    ("flux", 330000), ("bisect", 41000), ("brent", 160000), ("newton", 330000), ("newton_system", 1100000), ("lm", 13000000),
    ("gn", 280000), ("rk4", 57000), ("rk45", 750000), ("rk45_stiff", 280000), ("rk45_grid", 370000), ("poly", 4000),
    ("poly_build", 21000), ("poly_roots", 4000), ("poly_roots_in", 200000), ("poly_ops", 4000), ("piecewise", 15000), ("multivariate", 4000),
    ("quat", 4000), ("quat_build", 4000), ("so2", 4000), ("se2", 4000), ("so3", 11000), ("se3", 47000),
    ("spatial_vectors", 5000), ("inertia", 9000), ("free_joint", 4000), ("rigid", 31000), ("mixer", 160000), ("mixer_any", 210000),
    ("lag", 4000), ("attitude_map", 19000), ("tree_build", 5600), ("tree_fk", 32000), ("jacobian", 2600000), ("ik", 12000000),
    ("ik_multi", 16000000), ("ik_seeded", 14000000), ("collide", 54000), ("primitives", 4900), ("base", 4000), ("unicycle", 4000),
    ("scan", 4000), ("grid_fixed", 69000), ("beams", 22000), ("biquad", 4000), ("cascade", 4000), ("multi", 4000),
    ("conditioning", 4000), ("one_pole", 4000), ("savgol", 27000), ("windows", 4000), ("pid", 4000), ("lqr", 320000),
    ("pursuit", 4000), ("attitude", 4600), ("thrust", 4000), ("profile", 4000), ("profile_sync", 5200), ("path", 7300),
    ("snap", 190000), ("random", 4000), ("kalman", 17000), ("extended", 50000), ("extended_fd", 43000), ("unscented", 49000),
    ("models", 4000), ("nominal", 4000), ("eskf", 340000), ("eskf_runs", 2500000), ("mahony", 12000), ("madgwick", 12000),
    ("particle_weights", 4200),
];
const WORST: u64 = 20_000_000;

fn budget(name: &str) -> u64 {
    BUDGET.iter().find(|b| b.0 == name).map(|b| b.1).unwrap_or(WORST)
}
fn one(c: &mut Case, list: &[(&'static str, Scenario)], style: Style) {
    let k = c.us(0, list.len() - 1);
    let seed = c.u64();
    let (name, f) = list[k];
    c.note("program", &name);
    c.note("seed", &(seed, style));
    let mut sim = Box::new(Sim::new(seed, style));
    let limit = budget(name);
    probe::reset_ops(limit);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut sim)));
    let spent = probe::ops();
    probe::reset_ops(u64::MAX);
    if let Err(p) = r {
        if p.is::<probe::BudgetExceeded>() {
            c.fail(name, format!("still going after {spent} scalar operations (budget {limit})"))
        }
        std::panic::resume_unwind(p)
    }
    c.ok(spent <= limit, name, || format!("{spent} operations, budget {limit}"));
    c.hits("scalar operations counted", spent);
    if spent * 64 >= limit {
        c.hit("programs near the most work seen");
    }
    c.hit("programs ended in bounded work");
}
/// The counter sees an endless loop.
fn control(c: &mut Case) {
    let n = c.us(1000, 100000) as u64;
    c.note("limit", &n);
    probe::reset_ops(n);
    let r = std::panic::catch_unwind(|| {
        let mut x = Probe(1.0);
        loop {
            x = x * Probe(0.5);
            if x.0 > 2.0 {
                break x.0;
            }
        }
    });
    probe::reset_ops(u64::MAX);
    c.ok(r.is_err_and(|p| p.downcast_ref::<probe::BudgetExceeded>().is_some_and(|b| b.0 == n + 1)), "control", String::new);
    c.hit("endless loops stopped");
}
fn main() {
    vmon::run("C36", |s| {
        s.rule("A case counts when a short program over one corner of the public API ran to its end on the counting scalar within its budget of scalar operations; distinct = distinct programs and inputs. Work is judged on operations counted, never on time (a call that stops touching scalars altogether is stopped by a 180 s watchdog).");
        s.assume("A program's budget is eight times the most work any of 140 000 earlier runs of it took, so a loop that lost its cap is seen and a constant-factor change is not.");
        let list = all::<Probe>();
        s.monitor("ordinary", 200000, 20, |c| {
            let st = if c.p(0.3) { Style::Smooth } else { Style::Tame };
            one(c, &list, st)
        });
        s.monitor("wide", 200000, 20, |c| one(c, &list, Style::Wide));
        s.monitor("hostile", 400000, 20, |c| {
            let h = c.pick(&[3u16, 10, 20, 50, 150, 400, 600, 1000]);
            one(c, &list, Style::Hostile(h))
        });
        s.monitor("control", 200, 4, control);
        for (e, n) in [("programs ended in bounded work", 500000), ("scalar operations counted", 100000000), ("programs near the most work seen", 1000), ("endless loops stopped", 100)] {
            s.require(e, n);
        }
    });
}
