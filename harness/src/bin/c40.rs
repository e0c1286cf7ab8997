//! C40: an unset option means its documented default, and each setting changes only what it names.
use multicalc::mapping::*;
use multicalc::motion::*;
use multicalc::control::*;
use multicalc::estimation::*;
use multicalc::kinematics::*;
use multicalc::linear_algebra::*;
use multicalc::numerical_derivative::*;
use multicalc::numerical_integration::*;
use multicalc::plant::*;
use multicalc::scalar::Numeric;
use multicalc::spatial::*;
use multicalc::*;
use std::cell::Cell;
use std::fmt::Debug;
use vmon::*;

/// One setting: its name, the value its documentation gives it when nobody sets it, what to set it to.
struct Knob {
    name: &'static str,
    unset: Unset,
    draw: fn(&mut Case) -> f64,
}
#[derive(Clone, Copy, PartialEq)]
enum Unset {
    /// The documentation states the value.
    Is(f64),
    /// The documentation says nothing: the setting is always set here.
    Unsaid,
    /// There is no way back: the setting is either made once or not at all.
    Once,
}
use Unset::*;
fn knob(name: &'static str, unset: Unset, draw: fn(&mut Case) -> f64) -> Knob {
    Knob { name, unset, draw }
}
#[derive(Clone, Copy)]
enum Mode {
    /// Set in any order, repeatedly, or not at all: only the last value of each counts.
    Order,
    /// Does this setting make any difference?
    Matters(usize),
}
/// Returns whether the two objects compared behaved differently (in `Matters` mode).
fn object<X>(c: &mut Case, mode: Mode, knobs: &[Knob], make: &dyn Fn() -> X, set: &dyn Fn(X, usize, f64) -> X, run: &dyn Fn(X) -> String) -> bool {
    let n = knobs.len();
    // The value of each, and whether it is set at all.
    let mut values: Vec<Option<f64>> = vec![];
    for k in knobs {
        let leave = c.p(0.45);
        let v = (k.draw)(c);
        values.push(match k.unset {
            Unsaid => Some(v),
            _ if leave => None,
            _ => Some(v),
        });
    }
    let build = |values: &[Option<f64>]| {
        let mut x = make();
        for (i, v) in values.iter().enumerate() {
            if let Some(v) = v {
                x = set(x, i, *v);
            }
        }
        x
    };
    if let Mode::Matters(k) = mode {
        let mut other = values.clone();
        other[k] = match (knobs[k].unset, c.p(0.5)) {
            (Is(v), true) => Some(v),
            (Once, _) => if values[k].is_some() { None } else { Some((knobs[k].draw)(c)) },
            _ => Some((knobs[k].draw)(c)),
        };
        return run(build(&values)) != run(build(&other));
    }
    let plain = run(build(&values));
    // The same settings, in a shuffled order, each after decoys that it overrides, the unset ones set to what
    // the documentation says.
    let mut queue: Vec<Vec<f64>> = vec![];
    for (k, v) in knobs.iter().zip(&values) {
        let mut q = vec![];
        if k.unset != Once {
            for _ in 0..c.us(0, 2) {
                q.push((k.draw)(c));
            }
        }
        match (v, k.unset) {
            (Some(v), _) => q.push(*v),
            (None, Is(v)) => {
                if !q.is_empty() || c.p(0.7) {
                    q.push(v);
                    c.hit("settings made to their documented default");
                }
            }
            _ => {}
        }
        q.reverse();
        queue.push(q);
    }
    let mut said = vec![];
    let mut x = make();
    while queue.iter().any(|q| !q.is_empty()) {
        let i = c.us(0, n - 1);
        if let Some(v) = queue[i].pop() {
            said.push((knobs[i].name, v));
            x = set(x, i, v);
        }
    }
    let shuffled = run(x);
    c.note("set", &knobs.iter().map(|k| k.name).zip(&values).collect::<Vec<_>>());
    c.note("in order", &said);
    c.ok(plain == shuffled, "settings", || format!("the same settings behave differently:\n {plain}\n {shuffled}"));
    c.hits("settings made", said.len() as u64);
    c.hit("objects compared");
    false
}
fn show<T: Debug>(t: T) -> String {
    format!("{t:?}")
}
fn tol(c: &mut Case) -> f64 {
    c.lu(-15.0, -2.0)
}
fn count(c: &mut Case) -> f64 {
    c.us(0, 12) as f64
}
fn flag(c: &mut Case) -> f64 {
    f64::from(u8::from(c.p(0.5)))
}
fn pos(c: &mut Case) -> f64 {
    c.lu(-2.0, 0.48)
}
fn small(c: &mut Case) -> f64 {
    c.f(-2.0, 2.0)
}

fn rk45(c: &mut Case, m: Mode) -> bool {
    let (a, b, end): (f64, f64, f64) = (c.f(0.1, 4.0), c.f(-1.0, 1.0), c.f(0.5, 4.0));
    let y0 = [c.f(-2.0, 2.0), c.f(-2.0, 2.0)];
    let knobs = [
        knob("rtol", Is(1e-6), |c| c.lu(-9.0, -2.0)),
        knob("atol", Is(1e-9), |c| c.lu(-10.0, -2.0)),
        knob("first_step", Is(0.0), |c| c.lu(-4.0, -0.3)),
        knob("min_step", Is(0.0), |c| c.lu(-5.0, -0.3)),
        knob("max_step", Is(f64::INFINITY), |c| c.lu(-2.0, 0.0)),
        knob("max_steps", Is(100_000.0), |c| c.us(0, 60) as f64),
    ];
    object(
        c,
        m,
        &knobs,
        &Rk45::<f64>::default,
        &|x, i, v| match i {
            0 => x.with_rtol(v),
            1 => x.with_atol(v),
            2 => x.with_first_step(v),
            3 => x.with_min_step(v),
            4 => x.with_max_step(v),
            _ => x.with_max_steps(v as usize),
        },
        &|x| {
            let calls = Cell::new(0u64);
            let f = |t: f64, y: &Vector<2, f64>| {
                calls.set(calls.get() + 1);
                Vector::new([y[1], a * (1.0 - y[0] * y[0]) * y[1] - y[0] + b * t.sin()])
            };
            let r = x.solve(&f, 0.0, &Vector::new(y0), end);
            show((r, calls.get()))
        },
    )
}
fn bracketed(c: &mut Case, m: Mode, brent: bool) -> bool {
    let (a, b): (f64, f64) = (c.f(-0.9, 0.9), c.f(0.1, 3.0));
    #[derive(Clone, Copy)]
    struct P(f64, f64);
    impl multicalc::scalar::ScalarFn for P {
        fn eval<S: Numeric>(&self, x: S) -> S {
            let d = x - S::from_f64(self.0);
            (d * S::from_f64(self.1)).exp() - S::ONE + d * S::from_f64(0.3)
        }
    }
    let p = P(a, b);
    // The two tolerances' starting values are not documented.
    let knobs = [knob("xtol", Unsaid, tol), knob("ftol", Unsaid, tol), knob("max_iterations", Unsaid, |c| c.us(0, 80) as f64)];
    if brent {
        object(c, m, &knobs, &Brent::<f64>::default, &|x, i, v| match i {
            0 => x.with_xtol(v),
            1 => x.with_ftol(v),
            _ => x.with_max_iterations(v as usize),
        }, &|x| show(x.solve(&p, -1.0, 2.0)))
    } else {
        object(c, m, &knobs, &Bisection::<f64>::default, &|x, i, v| match i {
            0 => x.with_xtol(v),
            1 => x.with_ftol(v),
            _ => x.with_max_iterations(v as usize),
        }, &|x| show(x.solve(&p, -1.0, 2.0)))
    }
}
fn bisection(c: &mut Case, m: Mode) -> bool {
    bracketed(c, m, false)
}
fn brent(c: &mut Case, m: Mode) -> bool {
    bracketed(c, m, true)
}
const TOL: f64 = 30.0 * f64::EPSILON;
fn newton(c: &mut Case, m: Mode) -> bool {
    let x0 = c.f(-4.0, 4.0);
    let f = scalar_fn!(|x| x.atan() * S::from_f64(2.0) + x * x * x * S::from_f64(0.01) + x * S::from_f64(0.001) - S::from_f64(0.3));
    let knobs = [knob("xtol", Is(TOL), tol), knob("ftol", Is(TOL), tol), knob("max_iterations", Is(100.0), count), knob("backtracking", Is(0.0), flag)];
    object(c, m, &knobs, &|| if x0 > 0.0 { Newton::<AutoDiffSingle>::new() } else { Newton::default() }, &|x, i, v| match i {
        0 => x.with_xtol(v),
        1 => x.with_ftol(v),
        2 => x.with_max_iterations(v as usize),
        _ => x.with_backtracking(v != 0.0),
    }, &|x| show(x.solve(&f, x0)))
}
fn newton_system(c: &mut Case, m: Mode) -> bool {
    let x0: [f64; 2] = [c.f(-3.0, 3.0), c.f(-3.0, 3.0)];
    let f = scalar_fn_vec!(|v: &[f64; 2]| [v[0].atan() + v[1] * S::from_f64(0.2) - S::from_f64(0.4), v[1] * v[1] * v[1] + v[1] - v[0] * S::from_f64(0.3)]);
    let knobs = [knob("xtol", Is(TOL), tol), knob("ftol", Is(TOL), tol), knob("max_iterations", Is(100.0), count), knob("backtracking", Is(0.0), flag)];
    object(c, m, &knobs, &|| if x0[0] > 0.0 { NewtonSystem::<AutoDiffMulti>::new() } else { NewtonSystem::default() }, &|x, i, v| match i {
        0 => x.with_xtol(v),
        1 => x.with_ftol(v),
        2 => x.with_max_iterations(v as usize),
        _ => x.with_backtracking(v != 0.0),
    }, &|x| show(x.solve(&f, &x0)))
}
fn gauss_newton(c: &mut Case, m: Mode) -> bool {
    let x0: [f64; 2] = [c.f(-3.0, 3.0), c.f(-3.0, 3.0)];
    let f = scalar_fn_vec!(|v: &[f64; 2]| [v[0].atan() * S::from_f64(2.0) + v[1] * S::from_f64(0.2) - S::from_f64(0.4), v[1] * v[1] + v[1] - v[0] * S::from_f64(0.3), v[0] * v[1] + S::from_f64(0.1)]);
    let knobs = [knob("ftol", Is(TOL), tol), knob("xtol", Is(TOL), tol), knob("gtol", Is(TOL), tol), knob("patience", Is(100.0), count), knob("backtracking", Is(0.0), flag)];
    object(c, m, &knobs, &|| if x0[0] > 0.0 { GaussNewton::<AutoDiffMulti>::new() } else { GaussNewton::default() }, &|x, i, v| match i {
        0 => x.with_ftol(v),
        1 => x.with_xtol(v),
        2 => x.with_gtol(v),
        3 => x.with_patience(v as usize),
        _ => x.with_backtracking(v != 0.0),
    }, &|x| show(x.minimize(&f, &x0)))
}
fn lm(c: &mut Case, m: Mode) -> bool {
    let x0: [f64; 2] = [c.f(-3.0, 3.0), c.f(-3.0, 3.0)];
    let f = scalar_fn_vec!(|v: &[f64; 2]| [(v[1] - v[0] * v[0]) * S::from_f64(10.0), S::ONE - v[0], v[0] * v[1] * S::from_f64(0.1)]);
    let knobs = [
        knob("ftol", Is(TOL), tol),
        knob("xtol", Is(TOL), tol),
        knob("gtol", Is(TOL), tol),
        knob("stepbound", Is(100.0), |c| c.lu(-3.0, 1.0)),
        knob("patience", Is(100.0), |c| c.us(0, 20) as f64),
        knob("scale_diag", Is(1.0), flag),
    ];
    object(c, m, &knobs, &|| if x0[0] > 0.0 { LevenbergMarquardt::<AutoDiffMulti>::new() } else { LevenbergMarquardt::default() }, &|x, i, v| match i {
        0 => x.with_ftol(v),
        1 => x.with_xtol(v),
        2 => x.with_gtol(v),
        3 => x.with_stepbound(v),
        4 => x.with_patience(v as usize),
        _ => x.with_scale_diag(v != 0.0),
    }, &|x| show(x.minimize(&f, &x0)))
}
fn arm(c: &mut Case) -> KinematicTree<4, 4, f64> {
    let mut t = KinematicTree::<4, 4, f64>::new();
    for i in 0..4 {
        let axis = if i % 2 == 0 { [0.0, 0.0, 1.0] } else { [c.f(0.1, 1.0), 1.0, 0.0] };
        let o = SE3::from_parts(SO3::exp(Vector::new(c.arr(|c| c.f(-0.3, 0.3)))), Vector::new([c.f(0.2, 0.6), 0.1, c.f(-0.1, 0.1)]));
        let mut j = Joint::revolute(Vector::new(axis), o);
        if c.p(0.5) {
            j = j.with_limits(c.f(-1.5, -0.2), c.f(0.2, 1.5));
        }
        let p = if i == 0 { JointParent::World } else { JointParent::Joint(i - 1) };
        let r = t.push(j, p);
        c.get("joint", r);
    }
    t
}
fn ik_set(x: InverseKinematics<4, f64>, i: usize, v: f64) -> InverseKinematics<4, f64> {
    match i {
        0 => x.with_position_tolerance(v),
        1 => x.with_orientation_tolerance(v),
        2 => x.with_maximum_iterations(v as usize),
        3 => x.with_singular_value_threshold(v),
        4 => x.with_maximum_damping(v),
        5 => x.with_maximum_step_norm(v),
        6 => x.with_minimum_step_norm(v),
        7 => x.with_respect_limits(v != 0.0),
        8 => x.with_joint_weights(Vector::new([v, 1.0, 1.0, 1.0])),
        9 => x.with_secondary_objective(match v as i32 {
            0 => SecondaryObjective::None,
            1 => SecondaryObjective::JointLimitMargin,
            _ => SecondaryObjective::PreferredPosture(Vector::new([0.3, -0.2, 0.1, v - 1.5])),
        }),
        _ => x.with_secondary_gain(v),
    }
}
fn ik_knobs() -> Vec<Knob> {
    vec![
        knob("position_tolerance", Is(1e-6), |c| c.lu(-7.0, -0.52)),
        knob("orientation_tolerance", Is(1e-6), |c| c.lu(-7.0, -0.52)),
        knob("maximum_iterations", Is(100.0), |c| c.us(0, 30) as f64),
        knob("singular_value_threshold", Is(1e-3), |c| c.lu(-2.0, 0.0)),
        knob("maximum_damping", Is(1e-2), |c| c.lu(-1.52, 0.0)),
        knob("maximum_step_norm", Is(0.2), |c| c.lu(-2.0, 0.3)),
        knob("minimum_step_norm", Unsaid, |c| c.lu(-12.0, -1.0)),
        knob("respect_limits", Is(1.0), flag),
        knob("joint_weights", Is(1.0), |c| c.lu(-1.0, 1.0)),
        knob("secondary_objective", Is(0.0), |c| c.us(0, 3) as f64),
        knob("secondary_gain", Unsaid, |c| c.lu(-2.0, 0.0)),
    ]
}
fn ik(c: &mut Case, m: Mode) -> bool {
    let t = arm(c);
    let pose = SE3::from_parts(SO3::exp(Vector::new(c.arr(|c| c.f(-1.0, 1.0)))), Vector::new(c.arr(|c| c.f(-1.0, 1.0))));
    let seed = Vector::new(c.arr(|c| c.f(-0.5, 0.5)));
    // Four joints reach few poses: aim at one they do reach, as a rule.
    let goal = Vector::new(c.arr(|c| c.f(-0.5, 0.5)));
    let reached = t.forward_kinematics(&goal).ok().and_then(|r| r.pose(3));
    let pose = if c.p(0.7) { reached.unwrap_or(pose) } else { pose };
    // The damping ramp only shows near a singularity, so start some straight.
    let seed = if c.p(0.4) { Vector::zeros() } else { seed };
    object(c, m, &ik_knobs(), &InverseKinematics::<4, f64>::new, &ik_set, &|x| show(x.solve(&t, 3, pose, &seed)))
}
fn multi(c: &mut Case, m: Mode) -> bool {
    let mut t = arm(c);
    if c.p(0.5) {
        t = KinematicTree::new();
        for i in 0..4usize {
            let o = SE3::from_parts(SO3::identity(), Vector::new([0.4, 0.05, 0.02 * i as f64]));
            let j = Joint::revolute(Vector::new(if i % 2 == 0 { [0.0, 0.0, 1.0] } else { [0.0, 1.0, 0.0] }), o);
            let r = t.push(j, if i == 0 { JointParent::World } else { JointParent::Joint(i - 1) });
            c.get("joint", r);
        }
    }
    let goal = Vector::new(c.arr(|c| c.f(-1.0, 1.0)));
    let r = t.forward_kinematics(&goal);
    let pose = r.ok().and_then(|r| r.pose(3)).unwrap_or(SE3::identity());
    let seed = Vector::new(c.arr(|c| c.f(-1.0, 1.0)));
    let k = c.u64();
    let knobs = [
        knob("distinct_threshold", Is(1e-3), |c| c.lu(-4.0, 0.6)),
        knob("jitter_span", Is(std::f64::consts::PI), |c| c.lu(-1.3, 0.78)),
        knob("solver", Is(100.0), |c| c.us(0, 60) as f64),
    ];
    object(
        c,
        m,
        &knobs,
        &MultiStartInverseKinematics::<4, 4, f64>::new,
        &|x, i, v| match i {
            0 => x.with_distinct_threshold(v),
            1 => x.with_jitter_span(v),
            // A loose one stops at poses of its own, so that the starts end far apart.
            _ if v as usize % 2 == 1 => x.with_solver(InverseKinematics::new().with_maximum_iterations(v as usize).with_position_tolerance(0.2).with_orientation_tolerance(0.3)),
            _ => x.with_solver(InverseKinematics::new().with_maximum_iterations(v as usize)),
        },
        &|x| {
            let mut g = Pcg32::<f64>::new(k);
            match x.solve_seeded(&t, 3, pose, &seed, &mut g, 4) {
                Ok(r) => show((r.solutions(), r.attempts())),
                Err(e) => show(e),
            }
        },
    )
}
fn gap(c: &mut Case, m: Mode) -> bool {
    let (fov, range, chassis, free, speed) = (c.f(1.0, 6.0), c.f(3.0, 8.0), c.f(0.1, 0.6), c.f(0.5, 2.5), c.f(0.2, 2.0));
    let scan: [f64; 24] = c.arr(|c| if c.p(0.3) { c.f(0.05, 1.0) } else { c.f(0.5, 9.0) });
    let goal = c.f(-2.0, 2.0);
    let base = FollowTheGap::<24, f64>::try_new(fov, range, chassis, free, speed);
    let base = c.get("gap follower", base);
    let knobs = [
        knob("steering_gain", Is(1.5), |c| c.f(0.1, 4.0)),
        knob("goal_bias", Is(0.5), |c| c.f(0.0, 5.0)),
        knob("frontal_half_angle", Is(-1.0), |c| c.f(0.01, 0.9)),
        knob("speed_scaling", Is(-1.0), |c| c.f(0.0, 1.0)),
    ];
    object(
        c,
        m,
        &knobs,
        &|| base.clone(),
        &|x, i, v| {
            let r = match i {
                0 => x.with_steering_gain(v),
                1 => x.with_goal_bias(v),
                2 => x.with_frontal_half_angle(if v < 0.0 { fov / 4.0 } else { v * fov / 2.0 }),
                _ => {
                    if v < 0.0 {
                        x.with_speed_scaling(chassis * 0.5, range)
                    } else {
                        x.with_speed_scaling(v * 0.3 * range, (0.5 + 0.5 * v) * range)
                    }
                }
            };
            r.unwrap_or_else(|e| panic!("setting {i} to {v}: {e:?}"))
        },
        &|x| show(x.compute(&scan, goal)),
    )
}
fn particles(c: &mut Case, m: Mode) -> bool {
    let n = c.us(2, 30);
    let seed = c.u64();
    let zs: [f64; 3] = c.arr(|c| c.f(-2.0, 2.0));
    let schemes = [ResamplingScheme::Systematic, ResamplingScheme::Stratified, ResamplingScheme::Multinomial, ResamplingScheme::Residual];
    let process = scalar_fn_vec!(|v: &[f64; 2]| [v[0] + v[1] * S::from_f64(0.1), v[1]]);
    let measure = scalar_fn_vec!(|v: &[f64; 2]| [v[0]]);
    let l = GaussianLikelihood::new(Matrix::<1, 1, f64>::identity() * 0.3);
    let l = c.get("likelihood", l);
    let knobs = [
        knob("resampling", Is(0.0), |c| c.us(0, 3) as f64),
        knob("resample_threshold", Is(0.5), |c| c.f(0.0, 1.2)),
        knob("roughening", Is(0.0), |c| c.f(0.01, 0.5)),
    ];
    object(
        c,
        m,
        &knobs,
        &|| ParticleFilter::<2, 1, f64>::new(n, Vector::zeros(), Matrix::identity(), Matrix::identity() * 0.1, seed).unwrap_or_else(|e| panic!("{e:?}")),
        &|x, i, v| match i {
            0 => x.with_resampling(schemes[v as usize]),
            1 => x.with_resample_threshold(v * n as f64),
            _ => x.with_roughening(v),
        },
        &|mut x| {
            let mut out = vec![];
            for z in zs {
                let a = x.predict(&process);
                let b = x.update(&measure, &l, Vector::new([z]));
                out.push(show((a, b, x.particles(), x.weights())));
            }
            out.join("\n")
        },
    )
}
fn ukf(c: &mut Case, m: Mode) -> bool {
    let zs: [f64; 3] = c.arr(|c| c.f(-2.0, 2.0));
    let q = if c.p(0.5) { 0.05 } else { 0.0 };
    let p0 = c.lu(-2.0, 0.0);
    let process = scalar_fn_vec!(|v: &[f64; 2]| [v[0] + v[1].sin() * S::from_f64(0.5), v[1] * S::from_f64(0.95) + v[0] * v[0] * S::from_f64(0.01)]);
    let measure = scalar_fn_vec!(|v: &[f64; 2]| [v[0] + v[1] * v[1] * S::from_f64(0.2)]);
    let knobs = [knob("scaling", Is(-1.0), |c| c.f(0.05, 1.0)), knob("regularization", Is(0.0), |c| c.lu(-9.0, -2.0))];
    object(
        c,
        m,
        &knobs,
        &|| UnscentedKalmanFilter::<2, 1, f64>::new(Vector::new([0.4, -0.3]), Matrix::identity() * p0, Matrix::identity() * q, Matrix::identity() * 0.3),
        &|x, i, v| match i {
            0 if v < 0.0 => x.with_scaling(1e-3, 2.0, 0.0),
            0 => x.with_scaling(v, 1.0 + v, 0.5 * v),
            _ => x.with_regularization(v),
        }
        .unwrap_or_else(|e| panic!("setting {i} to {v}: {e:?}")),
        &|mut x| {
            let mut out = vec![];
            for z in zs {
                let a = x.predict(&process);
                let b = x.update(&measure, Vector::new([z]));
                out.push(show((a, b, x.state(), x.covariance())));
            }
            out.join("\n")
        },
    )
}
fn form(v: f64) -> CovarianceUpdate {
    if v == 0.0 { CovarianceUpdate::Joseph } else { CovarianceUpdate::Naive }
}
fn kalman(c: &mut Case, m: Mode) -> bool {
    let zs: [f64; 3] = c.arr(|c| c.f(-2.0, 2.0));
    let (a, r) = (c.f(0.5, 1.2), c.lu(-2.0, 0.48));
    let knobs = [knob("covariance_update", Is(0.0), flag)];
    let transition = Matrix::new([[a, 0.1], [0.05, 1.0]]);
    object(
        c,
        m,
        &knobs,
        &|| KalmanFilter::<2, 1, f64>::new(Vector::new([0.4, -0.3]), Matrix::identity() * 0.7, KalmanModel { state_transition: transition, measurement_model: Matrix::new([[1.0, 0.3]]), process_noise: Matrix::identity() * 0.01, measurement_noise: Matrix::identity() * r }),
        &|x, _, v| x.with_covariance_update(form(v)),
        &|mut x| {
            let mut out = vec![];
            for z in zs {
                let a = x.predict();
                let b = x.update(Vector::new([z]));
                out.push(show((a, b, x.state(), x.covariance())));
            }
            out.join("\n")
        },
    )
}
fn extended(c: &mut Case, m: Mode) -> bool {
    let zs: [f64; 3] = c.arr(|c| c.f(-2.0, 2.0));
    let r = c.lu(-2.0, 0.48);
    let process = scalar_fn_vec!(|v: &[f64; 2]| [v[0] + v[1].sin() * S::from_f64(0.5), v[1] * S::from_f64(0.95)]);
    let measure = scalar_fn_vec!(|v: &[f64; 2]| [v[0] + v[1] * v[1] * S::from_f64(0.2)]);
    let knobs = [knob("covariance_update", Is(0.0), flag)];
    object(
        c,
        m,
        &knobs,
        &|| ExtendedKalmanFilter::<2, 1, f64>::new(Vector::new([0.4, -0.3]), Matrix::identity() * 0.7, Matrix::identity() * 0.01, Matrix::identity() * r),
        &|x, _, v| x.with_covariance_update(form(v)),
        &|mut x| {
            let mut out = vec![];
            for z in zs {
                let a = x.predict(&process);
                let b = x.update(&measure, Vector::new([z]));
                out.push(show((a, b, x.state(), x.covariance())));
            }
            out.join("\n")
        },
    )
}
struct Height;
impl NominalStateFn<2> for Height {
    fn eval<S: Numeric>(&self, s: &NominalState<S>) -> [S; 2] {
        let p = s.position();
        [p[2] + p[0] * p[1] * S::from_f64(0.1), s.velocity()[0]]
    }
}
fn error_state(c: &mut Case, m: Mode) -> bool {
    let zs: [[f64; 2]; 3] = std::array::from_fn(|_| c.arr(|c| c.f(-1.0, 1.0)));
    let w: [[f64; 3]; 3] = std::array::from_fn(|_| c.arr(|c| c.f(-1.0, 1.0)));
    let d: [f64; 15] = c.arr(|c| c.lu(-2.0, 0.0));
    let noise = ImuNoise { gyroscope_noise_density: 0.01, accelerometer_noise_density: 0.1, gyroscope_bias_random_walk: 1e-3, accelerometer_bias_random_walk: 1e-2 };
    let knobs = [knob("covariance_update", Is(0.0), flag), knob("gravity", Is(-9.81), |c| c.f(-12.0, 3.0))];
    object(
        c,
        m,
        &knobs,
        &|| ErrorStateKalmanFilter::<2, f64>::new(NominalState::at_rest(SO3::exp(Vector::new(w[0]))), Matrix::from_diagonal(d), noise, Matrix::identity() * 0.2),
        &|x, i, v| if i == 0 { x.with_covariance_update(form(v)) } else { x.with_gravity(Vector::new([0.0, 0.0, v])) },
        &|mut x| {
            let mut out = vec![];
            for k in 0..3 {
                let a = x.predict(Vector::new(w[k]), Vector::new(w[2 - k]) * 5.0, 0.05);
                let b = x.update(&Height, Vector::new(zs[k]));
                out.push(show((a, b, x.nominal_state(), x.covariance())));
            }
            out.join("\n")
        },
    )
}
fn directions(v: f64) -> (Vector<3, f64>, Vector<3, f64>) {
    (Vector::new([v, 0.3 * v, 1.0]), Vector::new([1.0, -v, 0.2 * v]))
}
fn mahony(c: &mut Case, m: Mode) -> bool {
    let w: [[f64; 3]; 4] = std::array::from_fn(|_| c.arr(|c| c.f(-1.0, 1.0)));
    let compass = c.p(0.5);
    let knobs = [knob("proportional_gain", Is(1.0), pos), knob("integral_gain", Is(0.1), pos), knob("reference_directions", Is(0.0), small)];
    object(
        c,
        m,
        &knobs,
        &|| MahonyFilter::<f64>::new(SO3::exp(Vector::new(w[3]))),
        &|x, i, v| match i {
            0 => x.with_proportional_gain(v),
            1 => x.with_integral_gain(v),
            _ => {
                let (u, n) = directions(v);
                x.with_reference_directions(u, n)
            }
        },
        &|mut x| {
            let a = x.step(Vector::new(w[0]), Vector::new(w[1]), compass.then(|| Vector::new(w[2])), 0.02);
            let b = x.step(Vector::new(w[1]), Vector::new(w[1]), compass.then(|| Vector::new(w[2])), 0.02);
            show((a, b, x.orientation(), x.gyroscope_bias()))
        },
    )
}
fn madgwick(c: &mut Case, m: Mode) -> bool {
    let w: [[f64; 3]; 4] = std::array::from_fn(|_| c.arr(|c| c.f(-1.0, 1.0)));
    let compass = c.p(0.5);
    let knobs = [knob("correction_gain", Is(0.1), pos), knob("bias_gain", Is(0.01), pos), knob("reference_directions", Is(0.0), small)];
    object(
        c,
        m,
        &knobs,
        &|| MadgwickFilter::<f64>::new(SO3::exp(Vector::new(w[3]))),
        &|x, i, v| match i {
            0 => x.with_correction_gain(v),
            1 => x.with_bias_gain(v),
            _ => {
                let (u, n) = directions(v);
                x.with_reference_directions(u, n)
            }
        },
        &|mut x| {
            let a = x.step(Vector::new(w[0]), Vector::new(w[1]), compass.then(|| Vector::new(w[2])), 0.02);
            let b = x.step(Vector::new(w[1]), Vector::new(w[1]), compass.then(|| Vector::new(w[2])), 0.02);
            show((a, b, x.orientation(), x.gyroscope_bias()))
        },
    )
}
fn profile(c: &mut Case, m: Mode) -> bool {
    let jerk = if c.p(0.6) { Some(c.lu(-1.0, 1.0)) } else { None };
    let limits = ProfileLimits::try_new(c.lu(-1.0, 0.48), c.lu(-1.0, 0.48), jerk);
    let limits = c.get("limits", limits);
    let d = c.ls(0.01, 20.0);
    let knobs = [knob("strategy", Is(0.0), |c| c.us(0, 2) as f64)];
    object(
        c,
        m,
        &knobs,
        &|| MotionProfilePlanner::new(limits),
        &|x, _, v| x.with_strategy([ProfileStrategy::Automatic, ProfileStrategy::Trapezoidal, ProfileStrategy::JerkLimited][v as usize]),
        &|x| show((x.plan(d).map(|p| (p.duration(), p.phase_durations())), x.limits())),
    )
}
fn path(c: &mut Case, m: Mode) -> bool {
    let n = c.us(2, 6);
    let pts: Vec<Vector<2, f64>> = (0..n).map(|_| Vector::new(c.arr(|c| c.f(-3.0, 3.0)))).collect();
    let (s, l) = (c.f(0.0, 10.0), c.f(0.0, 20.0));
    let q = Vector::new(c.arr(|c| c.f(-3.0, 3.0)));
    let knobs = [knob("end_of_path", Is(0.0), flag)];
    object(
        c,
        m,
        &knobs,
        &|| PolylinePath::<6, 2, f64>::try_from_points(&pts).unwrap_or_else(|e| panic!("{e:?}")),
        &|x, _, v| x.with_end_of_path(if v == 0.0 { EndOfPath::Stop } else { EndOfPath::Loop }),
        &|x| show((x.lookahead_point(s, l), x.closest_point(q), x.total_arc_length(), x.len())),
    )
}
fn snap(c: &mut Case, m: Mode) -> bool {
    let w: [Vector<2, f64>; 3] = std::array::from_fn(|_| Vector::new(c.arr(|c| c.f(-2.0, 2.0))));
    let d: [f64; 2] = c.arr(|c| c.f(0.4, 2.0));
    let t = c.f(0.05, 0.75) * (d[0] + d[1]);
    let ends = |v: f64| BoundaryDerivatives { velocity: Vector::new([v, -v]), acceleration: Vector::new([0.5 * v, v]), jerk: Vector::new([-v, 0.2 * v]) };
    let knobs = [knob("start", Is(0.0), small), knob("end", Is(0.0), small)];
    object(
        c,
        m,
        &knobs,
        &MinimumSnapPlanner::<3, 6, 2, f64>::new,
        &|x, i, v| if i == 0 { x.with_start(ends(v)) } else { x.with_end(ends(v)) },
        &|x| match x.plan(&w, &d) {
            // A standstill may be spelled with zeros of either sign.
            Ok(p) => show(p.evaluate_with_derivatives::<5>(t).map(|v| v.map(|v| v.into_array().map(|x| x + 0.0)))),
            Err(e) => show(e),
        },
    )
}
fn lag(c: &mut Case, m: Mode) -> bool {
    let (k, h) = (c.lu(-2.0, 0.0), c.lu(-3.0, -1.0));
    let u: [f64; 2] = c.arr(|c| c.f(0.0, 5.0));
    let knobs = [knob("thrusts", Is(0.0), small)];
    let base = RotorLag::<2, f64>::new(k, h);
    let base = c.get("rotor lag", base);
    object(c, m, &knobs, &|| base, &|x, _, v| x.with_thrusts(Vector::new([v, 2.0 * v])), &|mut x| show((x.stepped(Vector::new(u)), x.stepped(Vector::new(u)))))
}
fn scan(c: &mut Case, m: Mode) -> bool {
    let (fov, range) = (c.f(0.5, 6.0), c.f(1.0, 8.0));
    let readings: [f64; 5] = c.arr(|c| c.f(-1.0, 9.0));
    let base = ScanGeometry::<5, f64>::try_new(fov, range);
    let base = c.get("scan", base);
    let knobs = [knob("minimum_range", Is(0.0), |c| c.f(0.0, 0.95))];
    object(
        c,
        m,
        &knobs,
        &|| base,
        &|x, _, v| x.with_minimum_range(v * range).unwrap_or_else(|e| panic!("{e:?}")),
        &|x| show((x.minimum_range() + 0.0, x.maximum_range(), x.field_of_view(), readings)),
    )
}
fn pid(c: &mut Case, m: Mode) -> bool {
    let g: [f64; 3] = c.arr(|c| c.f(0.0, 5.0));
    let readings: [f64; 6] = c.arr(|c| c.f(-3.0, 3.0));
    let knobs = [knob("output_limits", Is(f64::INFINITY), |c| c.f(0.0, 6.0)), knob("derivative_filter", Is(1.0), |c| c.f(0.0, 1.0))];
    object(
        c,
        m,
        &knobs,
        &|| Pid::<f64>::new(g[0], g[1], g[2], 0.05).unwrap_or_else(|e| panic!("{e:?}")),
        &|x, i, v| if i == 0 { x.with_output_limits(-v, v) } else { x.with_derivative_filter(v) }.unwrap_or_else(|e| panic!("{e:?}")),
        &|mut x| show(readings.map(|r| (x.update(0.5, r), x.integral()))),
    )
}
fn joint(c: &mut Case, m: Mode) -> bool {
    let kind = c.us(0, 3);
    let o = SE3::from_parts(SO3::exp(Vector::new(c.arr(|c| c.f(-1.0, 1.0)))), Vector::new(c.arr(|c| c.f(-1.0, 1.0))));
    let axis = Vector::new(c.unit3());
    let knobs = [
        knob("anchor", Is(0.0), small),
        knob("zero_offset", Is(0.0), small),
        knob("limits", Once, pos),
        knob("armature", Is(0.0), pos),
        knob("damping", Is(0.0), pos),
        knob("friction_loss", Is(0.0), pos),
    ];
    object(
        c,
        m,
        &knobs,
        &|| match kind {
            0 => Joint::revolute(axis, o),
            1 => Joint::prismatic(axis, o),
            2 => Joint::continuous(axis, o),
            _ => Joint::default(),
        },
        &|x, i, v| match i {
            0 => x.with_anchor(Vector::new([v, 2.0 * v, 3.0 * v])),
            1 => x.with_zero_offset(v),
            2 => x.with_limits(-v, 2.0 * v),
            3 => x.with_armature(v),
            4 => x.with_damping(v),
            _ => x.with_friction_loss(v),
        },
        &|x| show((x.kind(), x.axis(), x.anchor(), x.origin(), x.zero_offset(), x.limits(), x.armature(), x.damping(), x.friction_loss())),
    )
}
fn approximator(c: &mut Case, m: Mode) -> bool {
    let p: [f64; 2] = c.arr(|c| c.f(-2.0, 2.0));
    let pts: [[f64; 2]; 9] = std::array::from_fn(|_| c.arr(|c| c.ls(1e-3, 30.0)));
    let f = scalar_fn_vec!(|v: &[f64; 2]| [v[0]]);
    let _ = f;
    struct F;
    impl multicalc::scalar::ScalarFnN<2> for F {
        fn eval<S: Numeric>(&self, v: &[S; 2]) -> S {
            v[0].sin() * v[1] + v[1] * v[1] * v[0] * S::from_f64(0.3)
        }
    }
    let knobs = [knob("kahan_summation", Once, flag)];
    if c.p(0.5) {
        object(c, m, &knobs, &LinearApproximator::<AutoDiffMulti>::default, &|x, _, _| x.with_kahan_summation(), &|x| {
            show(x.approximate(&F, &p).map(|a| (a.intercept(), *a.coefficients(), a.prediction_metrics(&pts, &F).root_mean_squared_error)))
        })
    } else {
        object(c, m, &knobs, &QuadraticApproximator::<AutoDiffMulti>::default, &|x, _, _| x.with_kahan_summation(), &|x| {
            show(x.approximate(&F, &p).map(|a| (*a.gradient(), *a.hessian(), a.prediction_metrics(&pts, &F).root_mean_squared_error)))
        })
    }
}
fn c_rule(n: usize) -> IterativeMethod {
    [IterativeMethod::Booles, IterativeMethod::Simpsons, IterativeMethod::Trapezoidal][n]
}
fn iterative(c: &mut Case, m: Mode) -> bool {
    let (a, b) = (c.f(-2.0, 0.0), c.f(0.1, 3.0));
    let k = c.f(0.5, 5.0);
    let knobs = [knob("kahan_summation", Once, flag)];
    if c.p(0.5) {
        let lim = [[a, b], [a - 1.0, b + 1.0]];
        let small = |n: usize| c_rule(n);
        let (n, rule) = (c.us(5, 60) as u64, small(c.us(0, 2)));
        return object(c, m, &knobs, &|| IterativeMulti::<f64>::from_parameters(n, rule), &|x, _, _| x.with_kahan_summation(), &|x| {
            show((x.single_partial_integral(&|v: &[f64; 2]| (k * v[0]).sin() + v[1] * 0.1, 0, &[a, b], &[0.3, 0.7]), x.double_partial_integral(&|v: &[f64; 2]| (k * v[0]).sin() * v[1].cos() + 0.1, [0, 1], &lim, &[0.3, 0.7])))
        });
    }
    object(c, m, &knobs, &IterativeSingle::<f64>::default, &|x, _, _| x.with_kahan_summation(), &|x| show(x.single_integral(&|t: f64| (k * t).sin() + t * t * 0.1, &[a, b])))
}

type Object = (&'static str, fn(&mut Case, Mode) -> bool, usize);
const OBJECTS: &[Object] = &[
    ("rk45", rk45, 6),
    ("bisection", bisection, 3),
    ("brent", brent, 3),
    ("newton", newton, 4),
    ("newton system", newton_system, 4),
    ("gauss-newton", gauss_newton, 5),
    ("levenberg-marquardt", lm, 6),
    ("inverse kinematics", ik, 11),
    ("multi-start", multi, 3),
    ("gap follower", gap, 4),
    ("particle filter", particles, 3),
    ("unscented filter", ukf, 2),
    ("kalman filter", kalman, 1),
    ("extended filter", extended, 1),
    ("error-state filter", error_state, 2),
    ("mahony", mahony, 3),
    ("madgwick", madgwick, 3),
    ("profile planner", profile, 1),
    ("path", path, 1),
    ("snap planner", snap, 2),
    ("rotor lag", lag, 1),
    ("scan", scan, 1),
    ("pid", pid, 2),
    ("joint", joint, 6),
    ("approximator", approximator, 1),
    ("integrator", iterative, 1),
];
fn order(c: &mut Case) {
    let k = c.us(0, OBJECTS.len() - 1);
    let (name, f, _) = OBJECTS[k];
    c.note("object", &name);
    f(c, Mode::Order);
    c.hit(name);
}
/// Every setting shows: over many workloads some two of its values make a difference.
fn matters(c: &mut Case) {
    let k = c.us(0, OBJECTS.len() - 1);
    let (name, f, n) = OBJECTS[k];
    let knob = c.us(0, n - 1);
    c.note("setting", &(name, knob));
    for tried in 0..3000 {
        if f(c, Mode::Matters(knob)) {
            c.hit("settings seen to matter");
            c.hits("workloads tried for a difference", tried + 1);
            return;
        }
    }
    c.fail("matters", format!("setting {knob} of {name} made no difference in 3000 workloads"));
}
/// Defaults that are whole values, not settings.
fn values(c: &mut Case) {
    let k = c.us(0, 9);
    c.note("kind", &k);
    let (lo, hi): (f64, f64) = (c.f(-2.0, 0.0), c.f(0.1, 2.0));
    let x: [f64; 3] = c.arr(|c| c.f(-2.0, 2.0));
    match k {
        0 => {
            let f = |t: f64| (t * x[0]).exp() + x[1] * t;
            let a = IterativeSingle::<f64>::default().single_integral(&f, &[lo, hi]);
            let b = IterativeSingle::<f64>::from_parameters(120, IterativeMethod::Booles).single_integral(&f, &[lo, hi]);
            c.eq("integrator-default", a, b);
            let g = |v: &[f64; 2]| (v[0] * x[0]).exp() + x[1] * v[1];
            let a = IterativeMulti::<f64>::default().single_partial_integral(&g, 0, &[lo, hi], &[x[2], x[1]]);
            let b = IterativeMulti::<f64>::from_parameters(120, IterativeMethod::Booles).single_partial_integral(&g, 0, &[lo, hi], &[x[2], x[1]]);
            c.eq("integrator-default", a, b);
        }
        1 => {
            let f = |t: f64| (t * x[0]).exp() + x[1] * t;
            let a = GaussianSingle::<f64>::default().single_integral(&f, &[lo, hi]);
            let b = GaussianSingle::<f64>::from_parameters(4, GaussianQuadratureMethod::GaussLegendre).single_integral(&f, &[lo, hi]);
            c.eq("quadrature-default", a, b);
            let g = |v: &[f64; 2]| (v[0] * x[0]).exp() + x[1] * v[1];
            let a = GaussianMulti::<f64>::default().single_partial_integral(&g, 0, &[lo, hi], &[x[2], x[1]]);
            let b = GaussianMulti::<f64>::from_parameters(4, GaussianQuadratureMethod::GaussLegendre).single_partial_integral(&g, 0, &[lo, hi], &[x[2], x[1]]);
            c.eq("quadrature-default", a, b);
        }
        2 => {
            let f = scalar_fn!(|t| t.sin() * t);
            let h = FiniteDifferenceMode::Central.default_step_size::<f64>();
            let by = |n| FiniteDifferenceSingle::<f64>::from_parameters(h, FiniteDifferenceMode::Central, multicalc::numerical_derivative::DEFAULT_STEP_SIZE_MULTIPLIER).differentiate(n, &f, x[0]);
            for n in 1..=3 {
                let a = FiniteDifferenceSingle::<f64>::default().differentiate(n, &f, x[0]);
                let b = by(n);
                c.eq("difference-default", a, b);
            }
        }
        3 => {
            let p = SE3::from_parts(SO3::exp(Vector::new(x)), Vector::new([lo, hi, x[0]]));
            let q = SE2::from_parts(SO2::exp(x[0]), Vector::new([lo, hi]));
            // An identity changes nothing but the rounding of a renormalization.
            let same = |a: [f64; 3], b: [f64; 3]| a.iter().zip(b).all(|(a, b)| (a - b).abs() <= 1e-14 * (1.0 + b.abs()));
            for (name, d) in [("left", SE3::<f64>::default() * p), ("right", p * SE3::default())] {
                let v = Vector::new(x);
                c.ok(same(d.act(v).into_array(), p.act(v).into_array()), "pose-default", || format!("default pose on the {name}: {d:?}, {p:?}"));
            }
            let v = Vector::new([x[1], x[2]]);
            let (a, b) = ((SE2::<f64>::default() * q).act(v), q.act(v));
            c.ok((a - b).norm() <= 1e-14 * (1.0 + b.norm()), "pose-default", || format!("{a:?} {b:?}"));
            let r = SO3::<f64>::default() * SO3::exp(Vector::new(x));
            let v = Vector::new(x);
            c.ok(same(r.act(v).into_array(), SO3::exp(Vector::new(x)).act(v).into_array()), "pose-default", || format!("{r:?}"));
            c.near("angle-default", SO2::<f64>::default().log(), 0.0, 0.0);
            let t = Quaternion::<f64>::default();
            c.eq("quaternion-default", [t.w(), t.x(), t.y(), t.z()], [1.0, 0.0, 0.0, 0.0]);
            c.eq("twist-default", Twist::<f64>::default(), Twist::zeros());
            c.eq("wrench-default", Wrench::<f64>::default(), Wrench::zeros());
        }
        4 => {
            let d = InitialParticleCloud::<f64>::default();
            c.eq("cloud-default", (d.position_variance, d.heading_variance), (0.16, 4.0));
        }
        5 => {
            let p = Polynomial::<4, f64>::default();
            c.eq("polynomial-default", p.evaluate(x[0]), 0.0);
            let b = BoundaryDerivatives::<2, f64>::default();
            c.eq("boundary-default", [b.velocity, b.acceleration, b.jerk], [Vector::zeros(); 3]);
        }
        6 => {
            let seed = c.u64();
            let (mut a, mut b) = (Pcg32::<f64>::new(seed), Pcg32::<f64>::new(seed));
            for _ in 0..8 {
                let (p, q): (u32, u32) = (RandomSource::<f64>::next_u32(&mut a), RandomSource::<f64>::next_u32(&mut b));
                c.eq("generator-default", p, q);
            }
        }
        7 => {
            // The free functions of the derivative module are the exact backend.
            let f = scalar_fn!(|t| t.sin() * t + t * t * t);
            let a = AutoDiffSingle::<f64>::default();
            c.eq("derivative-default", derivative(&f, x[0]), a.first_derivative(&f, x[0]).unwrap_or(f64::NAN));
            c.eq("derivative-default", second_derivative(&f, x[0]), a.second_derivative(&f, x[0]).unwrap_or(f64::NAN));
        }
        8 => {
            let f = scalar_fn_vec!(|v: &[f64; 3]| [v[0] * v[1], v[2].sin() + v[0]]);
            let (a, b) = (Jacobian::<AutoDiffMulti>::default().evaluate(&f, &x), Jacobian::from_derivator(AutoDiffMulti::<f64>::new()).evaluate(&f, &x));
            c.eq("jacobian-default", a, b);
            let d = Jacobian::new().evaluate(&f, &x);
            c.eq("jacobian-default", d, b);
        }
        _ => {
            let r = RealRoots::<4, f64>::default();
            c.eq("roots-default", r.as_slice().len(), 0);
            c.eq("path-default", PolylinePath::<4, 2, f64>::default().len(), 0);
            c.eq("tree-default", KinematicTree::<4, 4, f64>::new().len(), 0);
        }
    }
    c.hit("default values compared");
}

fn main() {
    vmon::run("C40", |s| {
        s.rule("an object left alone behaves bit for bit as one told every documented default");
        s.rule("settings may be made in any order and repeatedly: only the last value of each counts, and none disturbs another");
        s.rule("every setting makes a difference to some workload");
        s.rule("default values are the documented ones: identity poses, zero twists, Boole with 120 intervals, Legendre with 4 nodes");
        s.assume("settings whose starting value the documentation does not state are always set here");
        s.monitor("order", 200_000, 20, order);
        s.monitor("matters", 3_000, 20, matters);
        s.monitor("values", 20_000, 10, values);
        for (n, _, _) in OBJECTS {
            s.require(n, 1000);
        }
        for (e, n) in [("objects compared", 100_000), ("settings made", 100_000), ("settings made to their documented default", 50_000), ("settings seen to matter", 1000), ("default values compared", 10_000)] {
            s.require(e, n);
        }
    });
}
