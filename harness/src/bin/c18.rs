//! C18: inverse kinematics, single- and multi-start.
use multicalc::error::KinematicsError as E;
use multicalc::kinematics::*;
use multicalc::random::*;
use multicalc::spatial::*;
use multicalc::Vector;
use vmon::robot::*;
use vmon::rot::*;
use vmon::*;
use InverseKinematicsTermination as Term;

const MS: usize = 6;
type Ik<T> = InverseKinematics<MC, T>;

/// Solver settings, mirrored.
#[derive(Clone, Debug)]
struct Set {
    ptol: f64,
    otol: f64,
    iters: usize,
    thr: f64,
    damp: f64,
    cap: f64,
    min: f64,
    limits: bool,
    w: [f64; MC],
    obj: usize,
    pref: [f64; MC],
    gain: f64,
}
fn solver<T: Fl>(s: &Set) -> Ik<T> {
    Ik::<T>::new()
        .with_position_tolerance(T::t(s.ptol))
        .with_orientation_tolerance(T::t(s.otol))
        .with_maximum_iterations(s.iters)
        .with_singular_value_threshold(T::t(s.thr))
        .with_maximum_damping(T::t(s.damp))
        .with_maximum_step_norm(T::t(s.cap))
        .with_minimum_step_norm(T::t(s.min))
        .with_respect_limits(s.limits)
        .with_joint_weights(va::<MC, T>(s.w))
        .with_secondary_objective(match s.obj {
            0 => SecondaryObjective::None,
            1 => SecondaryObjective::PreferredPosture(va::<MC, T>(s.pref)),
            _ => SecondaryObjective::JointLimitMargin,
        })
        .with_secondary_gain(T::t(s.gain))
}
fn settings<T: Fl>(c: &mut Case) -> Set {
    let mut s = Set {
        ptol: if T::F32 { 1e-4 } else { 1e-6 },
        otol: if T::F32 { 1e-4 } else { 1e-6 },
        iters: 100,
        thr: 1e-3,
        damp: 1e-2,
        cap: 0.2,
        min: 1e-12,
        limits: c.p(0.7),
        w: [1.0; MC],
        obj: 0,
        pref: [0.0; MC],
        gain: 0.1,
    };
    if c.p(0.4) {
        s.thr = c.lu(-3.0, 0.0);
        s.damp = c.lu(-3.0, 0.0);
    }
    if c.p(0.4) {
        s.cap = c.lu(-2.0, 1.0);
    }
    if c.p(0.4) {
        s.w = c.arr(|c| c.lu(-1.0, 1.0));
    }
    if c.p(0.4) {
        s.obj = c.us(1, 2);
        s.pref = c.arr(|c| c.f(-3.0, 3.0));
        s.gain = c.lu(-2.0, 0.3);
    }
    for v in [&mut s.ptol, &mut s.otol, &mut s.thr, &mut s.damp, &mut s.cap, &mut s.min, &mut s.gain] {
        *v = T::t(*v).d();
    }
    s.w = rt::<MC, T>(s.w);
    s.pref = rt::<MC, T>(s.pref);
    c.note("settings", &s);
    s
}
fn finite_config<T: Fl>(c: &mut Case, t: &RTree) -> [f64; MC] {
    let q = gen_config::<T>(c, t);
    q.map(|v| if v.is_finite() { v } else { 0.25 })
}
fn clampq(t: &RTree, s: &Set, q: &mut [f64; MC]) {
    if s.limits {
        for (i, j) in t.0.iter().enumerate() {
            if let (Some((l, u)), true) = (j.limits, j.kind != JointKind::Floating) {
                let k = t.qoff(i);
                q[k] = q[k].max(l).min(u);
            }
        }
    }
}
/// Body-frame error twist log(T⁻¹·target).
fn task_error(t: &RTree, q: &[f64], tool: usize, target: &Pose) -> [DD; 6] {
    let p = t.fk(&ddv(q))[tool];
    let (l, a) = plog(&p.inv().mul(target));
    [l[0], l[1], l[2], a[0], a[1], a[2]]
}
fn errs(e: &[DD; 6]) -> (f64, f64) {
    (vnorm([e[0], e[1], e[2]]).f(), vnorm([e[3], e[4], e[5]]).f())
}
fn target_of<T: Fl>(p: &Pose) -> (SE3<T>, Pose) {
    let q: [f64; 4] = p.q.map(|v| T::t(v.f()).d());
    let t: [f64; 3] = p.t.map(|v| T::t(v.f()).d());
    (SE3::from_parts(SO3::from_quaternion(Quaternion::from_array(q.map(T::t))), va::<3, T>(t)), Pose { q: qunit(q_of(q)), t: v_of(t) })
}
fn gen_target<T: Fl>(c: &mut Case, t: &RTree, q: &[f64; MC], tool: usize) -> (SE3<T>, Pose) {
    let p = match c.us(0, 3) {
        // nearby
        0 => {
            let p = t.fk(&ddv(q))[tool];
            let k = c.lu(-4.0, 0.0);
            let (l, a): ([f64; 3], [f64; 3]) = (c.arr(|c| k * c.f(-1.0, 1.0)), c.arr(|c| k * c.f(-1.0, 1.0)));
            p.mul(&pexp(v_of(l), v_of(a)))
        }
        // reachable
        1 | 2 => {
            let mut r = finite_config::<T>(c, t);
            for (i, j) in t.0.iter().enumerate() {
                if let (Some((l, u)), true) = (j.limits, j.kind != JointKind::Floating) {
                    let k = t.qoff(i);
                    r[k] = c.f(l, u);
                }
            }
            t.fk(&ddv(&r))[tool]
        }
        // anywhere, perhaps far out of reach
        _ => {
            let q = gen_rot(c);
            let k = c.lu(-1.0, 1.5);
            let x: [f64; 3] = c.arr(|c| k * c.f(-1.0, 1.0));
            Pose { q: qunit(q_of(q)), t: v_of(x) }
        }
    };
    let (s, p) = target_of::<T>(&p);
    c.note("target", &p);
    (s, p)
}
/// One damped least-squares step in velocity slots, and how well conditioned it is.
fn ref_step(t: &RTree, s: &Set, q: &[f64; MC], tool: usize, target: &Pose) -> Option<(Vec<DD>, f64)> {
    let dq = ddv(q);
    let j = want_jac(t, &dq, tool);
    let r = qmat(qconj(t.fk(&dq)[tool].q));
    let mut rot = RM::zeros(6, 6);
    for i in 0..3 {
        for k in 0..3 {
            *rot.at_mut(i, k) = r.at(i, k);
            *rot.at_mut(3 + i, 3 + k) = r.at(i, k);
        }
    }
    let j = rot.mul(&j);
    let e = task_error(t, q, tool, target);
    let mut ev = RM::zeros(6, 1);
    for k in 0..6 {
        *ev.at_mut(k, 0) = e[k];
    }
    let mut wt = RM::zeros(MC, 6);
    for i in 0..t.nv() {
        for k in 0..6 {
            *wt.at_mut(i, k) = j.at(k, i) / dd(s.w[i]);
        }
    }
    let base = j.mul(&wt);
    let sv = base.sing();
    let (hi, lo) = (sv.iter().cloned().fold(0.0f64, f64::max), sv.iter().cloned().fold(f64::MAX, f64::min));
    if hi < 1e-20 {
        return None;
    }
    let sm = dd(lo.max(0.0)).sqr();
    // Near the threshold the damping starts at zero, so which side it falls on does not matter.
    let l2 = if sm.f() >= s.thr { dd(0.0) } else { let k = sm / dd(s.thr); dd(s.damp) * dd(s.damp) * (dd(1.0) - k * k) };
    let mut a = base.clone();
    for k in 0..6 {
        *a.at_mut(k, k) = a.at(k, k) + l2;
    }
    let low = lo + l2.f();
    let cond = (hi + l2.f()) / low.max(1e-300);
    if cond > 1e9 {
        return None;
    }
    let inv = a.inv()?;
    let mut bias = RM::zeros(MC, 1);
    for (i, jt) in t.0.iter().enumerate() {
        if matches!(jt.kind, JointKind::Fixed | JointKind::Floating) {
            continue;
        }
        let (k, v) = (t.qoff(i), t.voff(i));
        let b = match s.obj {
            1 => {
                let d = dd(s.pref[k]) - dd(q[k]);
                if jt.kind == JointKind::Continuous {
                    let (sn, co) = d.sincos();
                    if co.f() < -0.9999 {
                        return None;
                    }
                    dd(s.gain) * DD::atan2_(sn, co)
                } else {
                    dd(s.gain) * d
                }
            }
            2 => match jt.limits {
                Some((l, u)) if u > l => dd(s.gain) * ((dd(l) + dd(u)) * dd(0.5) - dd(q[k])) / (dd(u) - dd(l)),
                _ => dd(0.0),
            },
            _ => dd(0.0),
        };
        *bias.at_mut(v, 0) = b;
    }
    let task = wt.mul(&inv.mul(&ev));
    let proj = wt.mul(&inv.mul(&j.mul(&bias)));
    let mut step: Vec<DD> = (0..MC).map(|v| task.at(v, 0) + bias.at(v, 0) - proj.at(v, 0)).collect();
    for (i, jt) in t.0.iter().enumerate() {
        if jt.kind == JointKind::Fixed {
            step[t.voff(i)] = dd(0.0);
        }
    }
    for v in t.nv()..MC {
        step[v] = dd(0.0);
    }
    let n2 = step.iter().fold(dd(0.0), |a, v| a + *v * *v);
    let n = n2.sqr();
    let mut cut = 1.0;
    if n.f() > s.cap {
        let k = dd(s.cap) / n;
        step.iter_mut().for_each(|v| *v = *v * k);
        cut = k.f();
    }
    // rounding of the damped solve, per unit of task error and bias
    let wn = wt.norm();
    let ramp = if l2.f() > 0.0 || sm.f() < s.thr * 1.01 { s.damp * s.damp * hi / (s.thr * s.thr) / low } else { 0.0 };
    let mut scale = (cond + ramp) * (wn / low) * (ev.norm() + j.norm() * bias.norm()) + bias.norm();
    // A capped step keeps only its direction.
    scale *= cut;
    Some((step, scale))
}
fn judge_report<T: Fl>(c: &mut Case, t: &RTree, s: &Set, r: &InverseKinematicsReport<MC, T>, tool: usize, target: &Pose) -> [f64; MC] {
    let q = r.joint_positions.as_array().map(|v| v.d());
    c.ok(q.iter().all(|v| v.is_finite()), "configuration is finite", || format!("{r:?}"));
    let e = task_error(t, &q, tool, target);
    let (p, o) = errs(&e);
    let big = 1.0 + t.reach(&q) + vnorm(target.t).f();
    // log near a half turn is sensitive; so is its translation coupling.
    let turn = (std::f64::consts::PI - o).max(1e-3);
    let tol = 60.0 * T::EPS * (big * 4.0 + ddq_sum(t, &q)) * (1.0 + 1.0 / turn);
    if std::f64::consts::PI - o > 1e-2 {
        c.near("reported position error is the returned configuration's", r.position_error.d(), p, tol * big);
        c.near("reported orientation error is the returned configuration's", r.orientation_error.d(), o, tol);
    }
    c.ok(r.iterations <= s.iters, "iterations within the budget", || format!("{} of {}", r.iterations, s.iters));
    let inside = r.position_error.d() <= s.ptol && r.orientation_error.d() <= s.otol;
    match r.termination {
        Term::Converged => c.ok(inside, "converged means both tolerances are met", || format!("{r:?}")),
        _ => c.ok(!inside, "any other ending means the target is unmet", || format!("{r:?} with tolerances {} {}", s.ptol, s.otol)),
    }
    if s.limits {
        for (i, j) in t.0.iter().enumerate() {
            if let (Some((l, u)), true) = (j.limits, j.kind != JointKind::Floating) {
                let v = q[t.qoff(i)];
                c.ok(v >= l && v <= u, "joint limits are respected", || format!("joint {i} at {v} outside [{l}, {u}]"));
            }
        }
    }
    if t.floating() {
        let n = qnorm([dd(q[3]), dd(q[4]), dd(q[5]), dd(q[6])]).f();
        c.ok(r.iterations == 0 || n > 1e-3, "floating orientation", || format!("{n}"));
    }
    q
}
fn ddq_sum(t: &RTree, q: &[f64]) -> f64 {
    let mut s = 0.0;
    for (i, j) in t.0.iter().enumerate() {
        if matches!(j.kind, JointKind::Revolute | JointKind::Continuous) {
            s += q[t.qoff(i)].abs() + j.zero.abs();
        }
    }
    s
}
fn model<T: Fl>(c: &mut Case) -> (RTree, Tree<T>, usize) {
    let mut t = gen_tree::<T>(c, MJ, 0.2);
    if c.p(0.6) {
        // a serial arm long enough to span the task
        t.0.clear();
        let n = c.us(6, MJ);
        let fl = c.p(0.15);
        for i in 0..n {
            let mut j = gen_joint::<T>(c, i, fl && i == 0);
            if j.kind == JointKind::Fixed && i + 1 < n {
                j.kind = JointKind::Revolute;
            }
            j.parent = if i == 0 { None } else { Some(i - 1) };
            t.0.push(j);
        }
        c.note("tree", &t);
    }
    let tree = build::<T>(c, &t);
    let tool = if c.p(0.7) { t.0.len() - 1 } else { c.us(0, t.0.len() - 1) };
    c.note("tool", &tool);
    (t, tree, tool)
}
/// One iteration is exactly one damped least-squares step, capped and clamped.
fn step<T: Fl>(c: &mut Case) {
    let (t, tree, tool) = model::<T>(c);
    let mut s = settings::<T>(c);
    s.iters = 1;
    let seed = finite_config::<T>(c, &t);
    let (tg, target) = gen_target::<T>(c, &t, &seed, tool);
    let r = solver::<T>(&s).solve(&tree, tool, tg, &va::<MC, T>(seed));
    let r = c.get("solve", r);
    let q = judge_report(c, &t, &s, &r, tool, &target);
    let mut start = seed;
    clampq(&t, &s, &mut start);
    let e0 = errs(&task_error(&t, &start, tool, &target));
    if std::f64::consts::PI - e0.1 < 1e-2 {
        c.discard();
    }
    let near = e0.0 <= s.ptol * 2.0 + 1e-12 && e0.1 <= s.otol * 2.0 + 1e-12;
    if near {
        c.hit("starts at the target");
        return;
    }
    let Some((st, scale)) = ref_step(&t, &s, &start, tool, &target) else {
        c.hit("too singular to judge the step");
        return;
    };
    // Floating part and the rest.
    let mut want = start.map(dd);
    let moved = t.nudge_all(&ddv(&start), &st);
    for k in 0..t.nq() {
        want[k] = moved[k];
    }
    let mut w = want.map(|v| v.f());
    clampq(&t, &s, &mut w);
    let big = 4.0 + 4.0 * t.reach(&start) + ddq_sum(&t, &start) + vnorm(target.t).f();
    let n: f64 = st.iter().map(|v| v.f() * v.f()).sum::<f64>().sqrt();
    let unit = 200.0 * T::EPS * big * scale;
    let tol = unit + 20.0 * T::EPS * big;
    if tol < 1e-2 {
        let qn = if t.floating() { qunit([dd(w[3]), dd(w[4]), dd(w[5]), dd(w[6])]).map(|v| v.f()) } else { [0.0; 4] };
        // Not arriving, the solver keeps the nearer of the start and the step.
        let here = (e0.0 * e0.0 + e0.1 * e0.1).sqrt();
        let stalled = r.termination == Term::Stalled || (q[..t.nq()] == start[..t.nq()]);
        if stalled && r.termination != Term::Stalled {
            let e = errs(&task_error(&t, &w, tool, &target));
            let there = (e.0 * e.0 + e.1 * e.1).sqrt();
            c.ok(there >= here * (1.0 - 1e-6) - 1e3 * tol, "a step that helps is kept", || format!("stayed at error {here:e} though the step leads to {there:e}"));
            c.hit("step made it worse");
        }
        for k in 0..t.nq() {
            let mut g = q[k];
            let mut x = w[k];
            if stalled {
                x = start[k];
            }
            if t.floating() && (3..7).contains(&k) && !stalled {
                let sg: f64 = (0..4).map(|m| q[3 + m] * qn[m]).sum();
                x = qn[k - 3] * sg.signum();
                g = q[k];
            }
            c.ok((g - x).abs() <= tol, "one iteration takes the damped least-squares step", || format!("slot {k}: moved to {g}, the step leads to {x} (tolerance {tol:e}); seed {start:?}"));
        }
        c.hit("step compared");
        if n >= s.cap * 0.999 {
            c.hit("capped step");
        }
        if s.obj > 0 {
            c.hit("secondary objective");
        }
    }
    for k in t.nq()..MC {
        c.ok(q[k] == start[k], "slots past the model are left alone", || format!("slot {k}"));
    }
    for (i, j) in t.0.iter().enumerate() {
        if j.kind == JointKind::Fixed {
            c.ok(q[t.qoff(i)] == start[t.qoff(i)], "fixed joints are left alone", || format!("joint {i}"));
        }
    }
}
/// Several iterations are the same steps one after another, and the report matches the path.
fn path<T: Fl>(c: &mut Case) {
    let (t, tree, tool) = model::<T>(c);
    let mut s = settings::<T>(c);
    s.iters = if c.p(0.15) { c.us(0, 1) } else { c.us(2, 30) };
    if c.p(0.3) {
        s.min = T::t(c.lu(-4.0, -1.0)).d();
    }
    let seed = finite_config::<T>(c, &t);
    let (tg, target) = gen_target::<T>(c, &t, &seed, tool);
    let r = solver::<T>(&s).solve(&tree, tool, tg, &va::<MC, T>(seed));
    let r = c.get("solve", r);
    judge_report(c, &t, &s, &r, tool, &target);
    // The same solve with smaller budgets: never worse for being given more, and stopping for good once it stops.
    let size = |r: &InverseKinematicsReport<MC, T>| (r.position_error.d().powi(2) + r.orientation_error.d().powi(2)).sqrt();
    let mut first = seed;
    clampq(&t, &s, &mut first);
    let e = errs(&task_error(&t, &first, tool, &target));
    let mut low = (e.0 * e.0 + e.1 * e.1).sqrt();
    let slack = 1e3 * T::EPS * (1.0 + t.reach(&first) + vnorm(target.t).f()) * (1.0 + 1.0 / (std::f64::consts::PI - e.1).max(1e-3));
    let mut done: Option<InverseKinematicsReport<MC, T>> = None;
    let mut one: Option<InverseKinematicsReport<MC, T>> = None;
    for k in 0..=s.iters {
        let mut sk = s.clone();
        sk.iters = k;
        let rk = solver::<T>(&sk).solve(&tree, tool, tg, &va::<MC, T>(seed));
        let rk = c.get("smaller budget", rk);
        c.ok(size(&rk) <= low + slack, "the best configuration found is the one returned", || format!("budget {k}: error {:e}, but {low:e} was reached with less ({:?})", size(&rk), rk.termination));
        low = low.min(size(&rk));
        if let Some(d) = &done {
            c.ok(d.joint_positions == rk.joint_positions && d.termination == rk.termination, "more budget does not change a finished solve", || format!("{d:?} vs {rk:?}"));
        } else if rk.termination != Term::IterationBudget {
            done = Some(rk);
        } else {
            c.eq("a solve that ran out used its whole budget", rk.iterations, k);
        }
        if k == 1 {
            one = Some(rk);
        }
        if k == s.iters {
            c.ok(rk.joint_positions == r.joint_positions && rk.termination == r.termination && rk.iterations == r.iterations, "solving again gives the same answer", || "".into());
        }
    }
    // Taking the first step by hand and solving on from there is the same solve.
    if let (Some(o), true) = (one, s.iters > 1) {
        if o.termination == Term::IterationBudget && o.joint_positions.as_array().map(|v| v.d()) != first {
            let mut sk = s.clone();
            sk.iters = s.iters - 1;
            let rest = solver::<T>(&sk).solve(&tree, tool, tg, &o.joint_positions);
            let rest = c.get("the rest of the way", rest);
            c.ok(rest.joint_positions == r.joint_positions && rest.termination == r.termination, "solving on from the first step is the same solve", || format!("{rest:?} vs {r:?}"));
            c.hit("resumed");
        }
    }
    c.hit(match r.termination {
        Term::Converged => "converged",
        Term::Stalled => "stalled",
        _ => "budget spent",
    });
}
/// Close to a well-conditioned reachable target, the default solver gets there.
fn reach<T: Fl>(c: &mut Case) {
    let n = c.us(6, MJ);
    let mut t = RTree::default();
    for i in 0..n {
        let mut j = gen_joint::<T>(c, i, false);
        if j.kind == JointKind::Fixed {
            j.kind = JointKind::Revolute;
        }
        j.limits = None;
        j.parent = if i == 0 { None } else { Some(i - 1) };
        t.0.push(j);
    }
    c.note("tree", &t);
    let tree = build::<T>(c, &t);
    let tool = n - 1;
    let goal = rt::<MC, T>(c.arr(|c| c.f(-3.0, 3.0)));
    let p = t.fk(&ddv(&goal))[tool];
    let (tg, target) = target_of::<T>(&p);
    let sv = want_jac(&t, &ddv(&goal), tool).t().sing();
    let mut sv: Vec<f64> = sv;
    sv.sort_by(|a, b| b.total_cmp(a));
    let (hi, lo) = (sv[0], sv[5]);
    if lo < 0.05 {
        c.discard();
    }
    // Newton's basin: joint offset well under sigma_min over curvature.
    let curv = t.reach(&goal) * n as f64;
    let d = c.f(0.0, 0.25) * lo / curv / (hi / lo).max(1.0);
    let u = c.arr::<MC>(|c| c.normal());
    let un = nrm(&u);
    let seed: [f64; MC] = rt::<MC, T>(core::array::from_fn(|k| goal[k] + d * u[k] / un));
    c.note("goal, seed", &(goal, seed));
    let tol = if T::F32 { 3e-4 } else { 1e-6 };
    let ik = Ik::<T>::new().with_position_tolerance(T::t(tol)).with_orientation_tolerance(T::t(tol));
    let r = ik.solve(&tree, tool, tg, &va::<MC, T>(seed));
    let r = c.get("solve", r);
    c.eq("a target beside the seed is reached", r.termination, Term::Converged);
    let s = Set { ptol: tol, otol: tol, iters: 100, thr: 1e-3, damp: 1e-2, cap: 0.2, min: 1e-12, limits: true, w: [1.0; MC], obj: 0, pref: [0.0; MC], gain: 0.1 };
    let s = Set { ptol: T::t(s.ptol).d(), otol: T::t(s.otol).d(), ..s };
    judge_report(c, &t, &s, &r, tool, &target);
    c.ok(r.iterations <= 12, "in a few iterations", || format!("{}", r.iterations));
    c.hit("reached");
}
fn refusals<T: Fl>(c: &mut Case) {
    let (t, tree, tool) = model::<T>(c);
    let mut s = settings::<T>(c);
    s.iters = c.us(0, 3);
    let mut seed = finite_config::<T>(c, &t);
    let (mut tg, _) = gen_target::<T>(c, &t, &seed, tool);
    let bad = c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    let mut tool = tool;
    let want = match c.us(0, 3) {
        0 => {
            tool = t.0.len() + c.us(0, 3);
            E::ToolIndexOutOfRange
        }
        1 => {
            let k = c.us(0, t.nq() - 1);
            seed[k] = bad;
            E::NonFinite
        }
        2 => {
            let k = c.us(0, 2);
            let mut x = tg.translation().as_array().map(|v| v.d());
            if c.p(0.5) {
                x[k] = bad;
                tg = SE3::from_parts(tg.rotation(), va::<3, T>(x));
            } else {
                let mut q = tg.rotation().quaternion().as_array();
                q[k] = T::t(bad);
                tg = SE3::from_parts(SO3::from_quaternion(Quaternion::from_array(q)), tg.translation());
            }
            E::NonFinite
        }
        _ => {
            let k = c.us(0, t.nv() - 1);
            s.w[k] = -c.pick(&[0.0, 1.0, 1e-9]);
            E::NonPositiveWeight
        }
    };
    let r = solver::<T>(&s).solve(&tree, tool, tg, &va::<MC, T>(seed));
    c.eq("unusable input is refused", r.err(), Some(want));
    c.hit("refused");
}
fn multi<T: Fl + RandomScalar>(c: &mut Case) {
    let (t, tree, tool) = model::<T>(c);
    let mut s = settings::<T>(c);
    s.iters = c.us(5, 60);
    if c.p(0.5) {
        s.ptol = T::t(c.lu(-4.0, -0.5)).d();
        s.otol = T::t(c.lu(-4.0, -0.3)).d();
    }
    let thr = T::t(if c.p(0.5) { 1e-3 } else { c.lu(-3.0, 1.0) }).d();
    let span = T::t(c.f(0.0, 4.0)).d();
    let base = finite_config::<T>(c, &t);
    let (tg, target) = gen_target::<T>(c, &t, &base, tool);
    let ms = MultiStartInverseKinematics::<MS, MC, T>::new().with_solver(solver::<T>(&s)).with_distinct_threshold(T::t(thr)).with_jitter_span(T::t(span));
    let n = c.us(0, MS);
    let seeded = c.p(0.5);
    let seed0 = c.u64();
    let (rep, seeds): (MultiStartReport<MS, MC, T>, Vec<[f64; MC]>) = if seeded {
        let mut src = Pcg32::<T>::new(seed0);
        let rep = ms.solve_seeded(&tree, tool, tg, &va::<MC, T>(base), &mut src, n);
        let rep = c.get("multi-start", rep);
        let mut again = Pcg32::<T>::new(seed0);
        let mut seeds = vec![];
        for k in 0..n {
            let mut q = base;
            if k > 0 {
                for (i, j) in t.0.iter().enumerate() {
                    if matches!(j.kind, JointKind::Fixed | JointKind::Floating) {
                        continue;
                    }
                    let u: T = RandomSource::<T>::next_unit(&mut again);
                    let o = t.qoff(i);
                    let v = match j.limits {
                        Some((l, h)) => T::t(l) + u * (T::t(h) - T::t(l)),
                        None => T::t(q[o]) + (u * T::TWO - T::ONE) * T::t(span),
                    };
                    q[o] = v.d();
                    if let Some((l, h)) = j.limits {
                        c.ok(q[o] >= l - 4.0 * T::EPS * (1.0 + l.abs()) && q[o] <= h + 4.0 * T::EPS * (1.0 + h.abs()), "jitter inside the limits", || format!("{}", q[o]));
                    }
                }
            }
            seeds.push(q);
        }
        c.hit("jittered starts");
        (rep, seeds)
    } else {
        let seeds: Vec<[f64; MC]> = (0..n).map(|k| if k > 0 && c.p(0.3) { base } else { finite_config::<T>(c, &t) }).collect();
        let v: Vec<Vector<MC, T>> = seeds.iter().map(|q| va::<MC, T>(*q)).collect();
        let rep = ms.solve_from_seeds(&tree, tool, tg, &v);
        (c.get("multi-start", rep), seeds)
    };
    c.eq("every start counts", rep.attempts(), n);
    // The same starts by hand.
    let ik = solver::<T>(&s);
    let mut keep: Vec<[f64; MC]> = vec![];
    let mut unsure = false;
    for q in &seeds {
        let r = ik.solve(&tree, tool, tg, &va::<MC, T>(*q)).unwrap();
        if r.termination != Term::Converged {
            continue;
        }
        let f = r.joint_positions.as_array().map(|v| v.d());
        let dist: Vec<f64> = keep.iter().map(|k| tree.configuration_distance(&va::<MC, T>(*k), &va::<MC, T>(f)).d()).collect();
        // jittered readings rebuilt here may differ by rounding; near-ties are not judged
        if dist.iter().any(|d| (d - thr).abs() < 1e-3 * thr) {
            unsure = true;
        }
        if dist.iter().all(|d| *d >= thr) {
            keep.push(f);
        }
    }
    for r in rep.solutions() {
        c.eq("kept solutions converged", r.termination, Term::Converged);
        judge_report(c, &t, &s, r, tool, &target);
    }
    let got: Vec<[f64; MC]> = rep.solutions().iter().map(|r| r.joint_positions.as_array().map(|v| v.d())).collect();
    for i in 0..got.len() {
        for k in 0..i {
            let d = tree.configuration_distance(&va::<MC, T>(got[i]), &va::<MC, T>(got[k])).d();
            c.ok(d >= thr, "kept solutions are distinct", || format!("{i} and {k} are {d:e} apart, threshold {thr:e}"));
        }
    }
    c.eq("count", (rep.len(), rep.is_empty()), (got.len(), got.is_empty()));
    if !unsure {
        c.eq("number of distinct branches kept", got.len(), keep.len());
        for (g, w) in got.iter().zip(&keep) {
            for k in 0..MC {
                c.near("branches in the order of their seeds", g[k], w[k], 1e-3);
            }
        }
        if keep.len() > 1 {
            c.hit("several branches");
        }
        if keep.len() < seeds.len() && !keep.is_empty() {
            c.hit("dropped starts");
        }
    }
    let refq = finite_config::<T>(c, &t);
    let cl = rep.closest_to(&tree, &va::<MC, T>(refq));
    c.eq("closest of none is none", cl.is_none(), got.is_empty());
    if let Some(b) = cl {
        let d = |q: &Vector<MC, T>| tree.configuration_distance(q, &va::<MC, T>(refq)).d();
        let m = rep.solutions().iter().map(|r| d(&r.joint_positions)).fold(f64::MAX, f64::min);
        c.near("closest", d(&b.joint_positions), m, 0.0);
    }
    let over: Vec<Vector<MC, T>> = (0..MS + 1).map(|_| va::<MC, T>(base)).collect();
    c.eq("too many seeds", ms.solve_from_seeds(&tree, tool, tg, &over).err(), Some(E::StartCapacityExceeded));
    let mut src = Pcg32::<T>::new(1);
    c.eq("too many starts", ms.solve_seeded(&tree, tool, tg, &va::<MC, T>(base), &mut src, MS + 1).err(), Some(E::StartCapacityExceeded));
}
fn main() {
    vmon::run("C18", |s| {
        s.rule("one iteration is compared with the damped least-squares step redone in double-double; longer solves with the same solver stepped one iteration at a time; every report with the pose of the configuration it returns");
        s.monitor("step", 12000, 15, |c| if c.p(0.3) { step::<f32>(c) } else { step::<f64>(c) });
        s.monitor("path", 5000, 15, |c| if c.p(0.3) { path::<f32>(c) } else { path::<f64>(c) });
        s.monitor("reach", 10000, 15, |c| if c.p(0.3) { reach::<f32>(c) } else { reach::<f64>(c) });
        s.monitor("refusals", 4000, 15, |c| if c.p(0.3) { refusals::<f32>(c) } else { refusals::<f64>(c) });
        s.monitor("multi_start", 2000, 15, |c| if c.p(0.3) { multi::<f32>(c) } else { multi::<f64>(c) });
        s.require("step compared", 1000);
        s.require("capped step", 200);
        s.require("secondary objective", 200);
        s.require("converged", 100);
        s.require("stalled", 20);
        s.require("budget spent", 100);
        s.require("reached", 500);
        s.require("resumed", 200);
        s.require("jittered starts", 200);
        s.require("several branches", 20);
        s.require("dropped starts", 50);
    })
}
