//! C17: kinematic trees — model building, forward kinematics, Jacobians and their inverses.
use multicalc::error::KinematicsError as E;
use multicalc::kinematics::*;
use multicalc::spatial::*;
use vmon::robot::*;
use vmon::rot::*;
use vmon::*;

fn building<T: Fl>(c: &mut Case) {
    let mut t = Tree::<T>::new();
    let mut m = RTree::default();
    c.eq("capacity", Tree::<T>::CAPACITY, MJ);
    let steps = c.us(1, 14);
    let fl = c.p(0.4);
    let mut refused = 0;
    for s in 0..steps {
        let i = m.0.len();
        let mut j = gen_joint::<T>(c, i, fl && i == 0);
        let mut errs: Vec<E> = vec![];
        let mut joint = joint_of::<T>(&j);
        let mut extra = None;
        if c.p(0.4) {
            let bad = c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
            match c.us(0, 12) {
                0 => {
                    let k = c.us(0, 2);
                    j.axis[k] = bad;
                }
                1 => {
                    let k = c.us(0, 2);
                    j.anchor[k] = bad;
                }
                2 => {
                    let k = c.us(0, 3);
                    j.oq[k] = bad;
                }
                3 => {
                    let k = c.us(0, 2);
                    j.ot[k] = bad;
                }
                4 => j.zero = bad,
                5 => j.limits = Some(if c.p(0.5) { (bad, 1.0) } else { (0.0, bad) }),
                6 => j.limits = Some((1.0, -1.0)),
                7 => j.parent = Some(i + c.us(0, 3)),
                8 => j.axis = [0.0; 3],
                9 => j.kind = JointKind::Floating,
                10 => extra = Some((c.us(0, 2), bad)),
                11 => {
                    j.kind = JointKind::Continuous;
                    j.limits = Some((-1.0, 1.0));
                }
                _ => j.parent = Some(usize::MAX),
            }
            joint = joint_of::<T>(&j);
            match extra {
                Some((0, b)) => joint = joint.with_armature(T::t(b)),
                Some((1, b)) => joint = joint.with_damping(T::t(b)),
                Some((_, b)) => joint = joint.with_friction_loss(T::t(b)),
                None => {}
            }
        }
        let spins = matches!(j.kind, JointKind::Revolute | JointKind::Prismatic | JointKind::Continuous);
        let shape_axis = !matches!(j.kind, JointKind::Fixed | JointKind::Floating);
        let ax_used = if shape_axis { j.axis } else { [1.0, 0.0, 0.0] };
        let fin = ax_used.iter().chain(&j.anchor).chain(&j.oq).chain(&j.ot).all(|v| T::t(*v).d().is_finite()) && j.zero.is_finite() && extra.is_none();
        if !fin {
            errs.push(E::NonFinite);
        }
        if let Some((l, u)) = j.limits {
            if !l.is_finite() || !u.is_finite() {
                errs.push(E::NonFinite);
            }
            if l > u {
                errs.push(E::LimitsReversed);
            }
            if j.kind == JointKind::Continuous {
                errs.push(E::ContinuousJointHasLimits);
            }
        }
        if spins && ax_used.iter().all(|v| *v == 0.0) {
            errs.push(E::AxisHasNoDirection);
        }
        if j.parent.is_some_and(|p| p >= i) {
            errs.push(E::ParentOutOfOrder);
        }
        if j.kind == JointKind::Floating && (i != 0 || j.parent.is_some()) {
            errs.push(E::FloatingJointNotAtRoot);
        }
        if i == MJ {
            errs.push(E::CapacityExceeded);
        }
        let width = if j.kind == JointKind::Floating { 7 } else { 1 };
        if m.nq() + width > MC {
            errs.push(E::ConfigurationCapacityExceeded);
        }
        let before = format!("{t:?}");
        let r = t.push(joint, parent_of(&j));
        match r {
            Ok(()) => {
                c.ok(errs.is_empty(), "only sound joints are accepted", || format!("step {s}: {j:?} accepted, should be refused with one of {errs:?}"));
                m.0.push(j);
                c.hit("joint accepted");
            }
            Err(e) => {
                c.ok(errs.contains(&e), "refusal names a real reason", || format!("step {s}: {j:?} refused with {e:?}, real reasons {errs:?}"));
                c.eq("a refused joint leaves the model unchanged", format!("{t:?}"), before);
                refused += 1;
                c.hit("joint refused");
            }
        }
        c.eq("len", t.len(), m.0.len());
        c.eq("is_empty", t.is_empty(), m.0.is_empty());
        c.eq("floating base", t.has_floating_base(), m.floating());
        c.eq("configuration length", t.config_len(), m.nq());
        c.eq("velocity length", t.velocity_len(), m.nv());
        let mut seen = 0;
        for k in 0..=m.0.len() + 1 {
            let live = k < m.0.len();
            c.eq("configuration offset", t.config_offset(k), live.then(|| m.qoff(k)));
            c.eq("velocity offset", t.velocity_offset(k), live.then(|| m.voff(k)));
            c.eq("parent", t.parent(k), live.then(|| parent_of(&m.0[k])));
            match t.joint(k) {
                None => c.ok(!live, "joint", || format!("joint {k} missing")),
                Some(g) => {
                    c.ok(live, "joint", || format!("joint {k} past the end"));
                    c.eq("kind", g.kind(), m.0[k].kind);
                    let want = joint_of::<T>(&m.0[k]);
                    c.ok(g.origin() == want.origin() && g.anchor() == want.anchor() && g.zero_offset() == want.zero_offset() && g.limits() == want.limits(), "joint is kept as given", || format!("{g:?} vs {want:?}"));
                    if !matches!(g.kind(), JointKind::Fixed | JointKind::Floating) {
                        let a = g.axis().as_array().map(|v| v.d());
                        let n = vnorm(v_of(m.0[k].axis)).f();
                        for r in 0..3 {
                            c.near("axis is the unit direction given", a[r], m.0[k].axis[r] / n, 4.0 * T::EPS);
                        }
                    }
                    seen += 1;
                }
            }
        }
        c.eq("every joint is there", seen, m.0.len());
    }
    let j: Vec<Joint<T>> = m.0.iter().map(joint_of::<T>).collect();
    let p: Vec<JointParent> = m.0.iter().map(parent_of).collect();
    if refused == 0 {
        let r = c_get(c, Tree::<T>::try_from_joints(&j, &p));
        c.ok(r == t, "built at once or one by one, the same model", || format!("{r:?} vs {t:?}"));
    }
    if !p.is_empty() {
        c.eq("counts must match", Tree::<T>::try_from_joints(&j, &p[1..]).err(), Some(E::JointCountMismatch));
    }
}
fn c_get<A, B: core::fmt::Debug>(c: &mut Case, r: Result<A, B>) -> A {
    c.get("refused", r)
}
fn pose_gap<T: Fl>(g: SE3<T>, w: &Pose) -> (f64, f64) {
    let q = q_of(g.rotation().quaternion().as_array().map(|v| v.d()));
    let t = v_of(g.translation().as_array().map(|v| v.d()));
    let n = (qnorm(q).f() - 1.0).abs();
    (qangle(qunit(q), w.q).max(n), vnorm(vsub(t, w.t)).f())
}
fn turn_scale(t: &RTree, q: &[f64]) -> f64 {
    let mut s = 4.0;
    for (i, j) in t.0.iter().enumerate() {
        if matches!(j.kind, JointKind::Revolute | JointKind::Continuous) {
            s += 2.0 + 2.0 * (q[t.qoff(i)].abs() + j.zero.abs());
        } else {
            s += 3.0;
        }
    }
    s
}
fn fk<T: Fl>(c: &mut Case) {
    let t = gen_tree::<T>(c, MJ, 0.3);
    let tree = build::<T>(c, &t);
    let q = gen_config::<T>(c, &t);
    let s = tree.forward_kinematics(&va::<MC, T>(q));
    let s = c.get("forward kinematics", s);
    let want = t.fk(&ddv(&q));
    c.eq("state length", (s.len(), s.is_empty(), s.poses().len()), (t.0.len(), false, t.0.len()));
    let (e, r) = (T::EPS * turn_scale(&t, &q), t.reach(&q));
    for i in 0..t.0.len() {
        let p = s.pose(i);
        let p = c.some("pose", p);
        let (a, d) = pose_gap(p, &want[i]);
        c.ok(a <= 2.0 * e && d <= 2.0 * e * r, "every frame is the composition of the transforms above it", || format!("joint {i}: off by {a:e} rad, {d:e} m (tolerance {:e}, {:e})\ngot {p:?}\nwant {:?}", 2.0 * e, 2.0 * e * r, want[i]));
        c.ok(s.poses()[i] == p, "poses slice", || "pose(i) and poses()[i] differ".into());
    }
    c.ok(s.pose(t.0.len()).is_none() && s.pose(usize::MAX).is_none(), "no pose past the model", || "".into());
    // readings
    let i = c.us(0, t.0.len() - 1);
    let bad = c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    let mut b = q;
    let k = t.qoff(i) + if t.0[i].kind == JointKind::Floating { c.us(0, 6) } else { 0 };
    b[k] = bad;
    let r = tree.forward_kinematics(&va::<MC, T>(b));
    if t.0[i].kind == JointKind::Fixed {
        c.ok(r.is_ok(), "a fixed joint's slot is never read", || format!("{r:?}"));
    } else {
        c.eq("non-finite readings are refused", r.err(), Some(E::NonFinite));
        c.hit("non-finite reading");
    }
    if t.floating() {
        let mut b = q;
        b[3..7].fill(0.0);
        c.eq("no orientation is refused", tree.forward_kinematics(&va::<MC, T>(b)).err(), Some(E::OrientationHasNoDirection));
        c.hit("floating base");
    }
}
fn well<T: Fl>(j: &RM) -> f64 {
    let mut s = 1.0f64;
    for v in j.fs() {
        s = s.max(v.abs());
    }
    s
}
fn want_jac(t: &RTree, q: &[f64], tool: usize) -> RM {
    let q = ddv(q);
    let mut anc = vec![false; t.0.len()];
    let mut k = Some(tool);
    while let Some(i) = k {
        anc[i] = true;
        k = t.0[i].parent;
    }
    let mut m = RM::zeros(6, MC);
    for v in 0..t.nv() {
        let i = if t.floating() { if v < 6 { 0 } else { v - 5 } } else { v };
        if anc[i] {
            let col = t.column(&q, tool, v);
            for r in 0..6 {
                *m.at_mut(r, v) = col[r];
            }
        }
    }
    m
}
fn jacobian<T: Fl>(c: &mut Case) {
    let t = gen_tree::<T>(c, MJ, 0.35);
    let tree = build::<T>(c, &t);
    let q = gen_config::<T>(c, &t);
    let tool = c.us(0, t.0.len() - 1);
    c.note("tool", &tool);
    let want = want_jac(&t, &q, tool);
    let qv = va::<MC, T>(q);
    let w = tree.geometric_jacobian_at(&qv, tool, JacobianFrame::World);
    let w = c.get("world Jacobian", w);
    let s = tree.forward_kinematics(&qv).unwrap();
    let b = tree.geometric_jacobian(&s, tool, JacobianFrame::Body);
    let b = c.get("body Jacobian", b);
    c.eq("shape", (w.columns(), w.is_empty(), w.frame(), b.frame()), (t.nv(), t.nv() == 0, JacobianFrame::World, JacobianFrame::Body));
    let (e, r) = (T::EPS * turn_scale(&t, &q), t.reach(&q));
    let rot = qconj(t.fk(&ddv(&q))[tool].q);
    let (wm, bm) = (w.matrix(), b.matrix());
    for v in 0..MC {
        let lin = [want.at(0, v), want.at(1, v), want.at(2, v)];
        let ang = [want.at(3, v), want.at(4, v), want.at(5, v)];
        let (bl, ba) = (qrot(rot, lin), qrot(rot, ang));
        for k in 0..3 {
            for (tag, g, wnt, tol) in [
                ("world linear column", wm[(k, v)], lin[k], 4.0 * e * r),
                ("world angular column", wm[(3 + k, v)], ang[k], 4.0 * e),
                ("body linear column", bm[(k, v)], bl[k], 4.0 * e * r),
                ("body angular column", bm[(3 + k, v)], ba[k], 4.0 * e),
            ] {
                c.ok((dd(g.d()) - wnt).f().abs() <= tol, tag, || format!("slot {v} row {k}: got {}, the tool really moves at {} (tolerance {tol:e})", g.d(), wnt.f()));
            }
        }
        let col = w.column(v);
        if v < t.nv() {
            let col = c.some("column", col);
            c.ok((0..6).all(|k| col.as_array()[k] == wm[(k, v)]), "column is the matrix's", || "".into());
        } else {
            c.ok(col.is_none(), "no column past the model", || "".into());
            c.ok((0..6).all(|k| wm[(k, v)].d() == 0.0), "slots past the model stay zero", || "".into());
        }
    }
    // Twist of a joint-rate vector.
    let qd = rt::<MC, T>(c.arr(|c| c.f(-2.0, 2.0)));
    let tw = w.tool_twist(&va::<MC, T>(qd)).as_array().map(|v| v.d());
    let ex = want.mul(&RM::col(&qd));
    for k in 0..6 {
        let tol = 64.0 * e * r * MC as f64;
        c.near("tool twist", tw[k], ex.f(k, 0), tol);
    }
    c.eq("tool out of range", tree.geometric_jacobian(&s, t.0.len(), JacobianFrame::World).err(), Some(E::ToolIndexOutOfRange));
    let mut other = t.clone();
    if other.0.len() < MJ && c.p(0.5) {
        let j = gen_joint::<T>(c, other.0.len(), false);
        other.0.push(j);
    } else {
        other.0.pop();
    }
    let o = build::<T>(c, &other);
    if !other.0.is_empty() {
        let k = tool.min(other.0.len() - 1);
        c.eq("state of another model", o.geometric_jacobian(&s, k, JacobianFrame::World).err(), Some(E::StateShapeMismatch));
        c.hit("mismatched state");
    }
    if t.floating() {
        c.hit("floating Jacobian");
    }
    let z = well::<T>(&want);
    c.ok(z.is_finite(), "finite", || "".into());
}
fn inverses<T: Fl>(c: &mut Case) {
    let t = gen_tree::<T>(c, MJ, 0.4);
    let tree = build::<T>(c, &t);
    let q = gen_config::<T>(c, &t);
    let tool = t.0.len() - 1;
    let frame = c.pick(&[JacobianFrame::World, JacobianFrame::Body]);
    let r = tree.geometric_jacobian_at(&va::<MC, T>(q), tool, frame);
    let j = c.get("Jacobian", r);
    let jr = RM::of(&j.matrix());
    let sv = {
        let mut s = jr.t().sing();
        s.sort_by(|a, b| b.total_cmp(a));
        s.truncate(6);
        s.resize(6, 0.0);
        s
    };
    let e = T::EPS;
    let top = sv[0].max(1e-30);
    c.note("singular values", &sv);
    let s = j.smallest_singular_value();
    let s = c.get("smallest singular value", s).d();
    // Worked out from the Gram matrix: the square is right to rounding of the largest square.
    c.ok((s * s - sv[5] * sv[5]).abs() <= 100.0 * e * top * top, "smallest singular value", || format!("got {s:e}, really {:e} (largest {top:e})", sv[5]));
    // Classification.
    let gap = sv[4] * sv[4] - sv[5] * sv[5];
    for th in [sv[5] * 2.0 + 1e-3 * top, sv[5] * 0.5, 0.0] {
        let k = j.classify_singularity(T::t(th));
        let k = c.get("classification", k);
        let slack = 100.0 * e * top * top;
        if th * th + slack < sv[5] * sv[5] || th == 0.0 {
            c.eq("far from singular", k, SingularityKind::None);
            c.hit("not singular");
        } else if th * th > sv[5] * sv[5] + slack && gap > 1e-4 * top * top && (!T::F32 || gap > 3e-2 * top * top) {
            let u = small_dir(&jr);
            let (l, a) = (u[0] * u[0] + u[1] * u[1] + u[2] * u[2], u[3] * u[3] + u[4] * u[4] + u[5] * u[5]);
            let f = l / (l + a);
            let m = 0.01 + 100.0 * e * top * top / gap;
            if (f - 2.0 / 3.0).abs() > m && (f - 1.0 / 3.0).abs() > m {
                let want = if f > 2.0 / 3.0 {
                    SingularityKind::Positional
                } else if f < 1.0 / 3.0 {
                    SingularityKind::Rotational
                } else {
                    SingularityKind::Mixed
                };
                c.eq("which half of the lost direction dominates", k, want);
                c.hit(match want {
                    SingularityKind::Positional => "positional",
                    SingularityKind::Rotational => "rotational",
                    _ => "mixed",
                });
            }
        }
    }
    // Damped, weighted inverse.
    let wts = rt::<MC, T>(if c.p(0.3) { [1.0; MC] } else { c.arr(|c| c.lu(-1.0, 1.0)) });
    let mut w = wts;
    for k in t.nv()..MC {
        w[k] = if c.p(0.5) { -1.0 } else { 0.0 };
    }
    let lam = T::t(if c.p(0.3) { 0.0 } else { c.lu(-2.0, 0.5) }).d();
    let x = j.damped_pseudo_inverse(&va::<MC, T>(w), T::t(lam));
    let x = RM::of(&c.get("damped inverse", x));
    let mut wt = RM::zeros(MC, 6);
    for i in 0..t.nv() {
        for k in 0..6 {
            *wt.at_mut(i, k) = jr.at(k, i) / dd(w[i]);
        }
    }
    let gram = jr.mul(&wt);
    let lam2 = T::t(lam) * T::t(lam);
    let a = gram.add(&RM::eye(6).scale(lam2.d()));
    let gs = a.sing();
    let (g0, g5) = (gs.iter().cloned().fold(0.0f64, f64::max), gs.iter().cloned().fold(f64::MAX, f64::min));
    let cond = g0 / g5.max(1e-300);
    if cond < 1e-3 / e && g0 > 0.0 {
        let want = wt.mul(&a.inv().unwrap());
        let tol = 400.0 * e * cond * wt.norm() / g5;
        c.ok(x.sub(&want).maxabs() <= tol, "weighted damped inverse", || format!("off by {:e} (tolerance {tol:e}), cond {cond:e}\ngot {:?}\nwant {:?}", x.sub(&want).maxabs(), x.fs(), want.fs()));
        let p = j.null_space_projector(&va::<MC, T>(w), T::t(lam));
        let p = RM::of(&c.get("null-space projector", p));
        let wp = RM::eye(MC).sub(&want.mul(&jr));
        c.ok(p.sub(&wp).maxabs() <= tol * 4.0 * (1.0 + jr.norm()) + 10.0 * e, "null-space projector", || format!("off by {:e}", p.sub(&wp).maxabs()));
        if lam == 0.0 {
            let jp = jr.mul(&p);
            c.ok(jp.maxabs() <= 8.0 * (tol * (1.0 + jr.norm()) + 10.0 * e) * (1.0 + jr.norm()), "motion in the null space leaves the tool still", || format!("{:e}", jp.maxabs()));
            c.hit("undamped inverse, full rank");
        } else {
            c.hit("damped inverse");
        }
    } else if lam == 0.0 {
        c.hit("undamped inverse, rank short");
        // Whatever the rank, the pseudo-inverse reproduces reachable twists.
        let back = jr.mul(&x).mul(&jr);
        let lo = { let mut g = gram.sing(); g.sort_by(|a, b| b.total_cmp(a)); g };
        let clear = lo.iter().all(|v| *v > 1e-5 * g0 || *v < 1e-20 * g0);
        if clear && !T::F32 {
            let k = back.sub(&jr).maxabs();
            c.ok(k <= 1e-7 * (1.0 + jr.norm()), "reachable twists are reproduced", || format!("off by {k:e}"));
            // ...and asks for no motion towards the ones it cannot reach.
            let rank = lo.iter().filter(|v| **v > 1e-5 * g0).count();
            let floor = lo[..rank].last().copied().unwrap_or(0.0);
            if rank > 0 {
                let sh = gram.add(&RM::eye(6).scale(1e-14 * g0));
                let far = sh.inv().unwrap().scale(1e-14 * g0);
                let n = x.mul(&far).norm();
                c.ok(n * floor.sqrt() <= 1e-4, "no motion towards unreachable twists", || format!("{n:e} floor {floor:e} sv {lo:?}"));
                c.hit("rank-short inverse");
            }
        }
    }
    let bad = if c.p(0.5) { 0.0 } else { -c.lu(-3.0, 1.0) };
    if t.nv() > 0 {
        let k = c.us(0, t.nv() - 1);
        let mut w2 = w;
        w2[k] = bad;
        c.eq("weights must be positive", j.damped_pseudo_inverse(&va::<MC, T>(w2), T::t(lam)).err(), Some(E::NonPositiveWeight));
        c.eq("weights must be positive", j.null_space_projector(&va::<MC, T>(w2), T::t(lam)).err(), Some(E::NonPositiveWeight));
    }
}
/// Unit vector of the smallest eigenvalue of J Jᵀ.
fn small_dir(j: &RM) -> Vec<f64> {
    let g = j.mul(&j.t());
    let lo = { let mut s = g.sym_eig(); s.sort_by(|a, b| a.total_cmp(b)); s[0] };
    let top = g.norm();
    let sh = g.sub(&RM::eye(6).scale(lo - 1e-9 * top));
    let inv = sh.inv().unwrap();
    let mut v = RM::col(&[0.3, 0.5, -0.7, 0.2, -0.4, 0.6]);
    for _ in 0..200 {
        v = inv.mul(&v);
        let n = v.norm();
        v = v.scale(1.0 / n);
    }
    v.fs()
}
fn distance<T: Fl>(c: &mut Case) {
    let t = gen_tree::<T>(c, MJ, 0.35);
    let tree = build::<T>(c, &t);
    let (a, mut b) = (gen_config::<T>(c, &t), gen_config::<T>(c, &t));
    if c.p(0.3) {
        // the same place told differently
        b = a;
        for (i, j) in t.0.iter().enumerate() {
            let k = t.qoff(i);
            match j.kind {
                JointKind::Continuous => b[k] += c.int(-3, 3) as f64 * 2.0 * std::f64::consts::PI,
                JointKind::Floating => {
                    let s = -c.lu(-1.0, 1.0);
                    for v in &mut b[3..7] {
                        *v *= s;
                    }
                }
                _ => {}
            }
        }
        b = rt::<MC, T>(b);
        c.hit("same place, other reading");
    }
    let mut sum = dd(0.0);
    let mut size = 1.0f64;
    for (i, j) in t.0.iter().enumerate() {
        let k = t.qoff(i);
        match j.kind {
            JointKind::Fixed => {}
            JointKind::Revolute | JointKind::Prismatic => {
                let d = dd(a[k]) - dd(b[k]);
                sum += d * d;
                size = size.max(a[k].abs() + b[k].abs());
            }
            JointKind::Continuous => {
                let (s, co) = (dd(a[k]) - dd(b[k])).sincos();
                let d = DD::atan2_(s, co);
                sum += d * d;
                size = size.max(a[k].abs() + b[k].abs());
            }
            JointKind::Floating => {
                let p = vsub([dd(a[0]), dd(a[1]), dd(a[2])], [dd(b[0]), dd(b[1]), dd(b[2])]);
                sum += vdot(p, p);
                let qa = qunit([dd(a[3]), dd(a[4]), dd(a[5]), dd(a[6])]);
                let qb = qunit([dd(b[3]), dd(b[4]), dd(b[5]), dd(b[6])]);
                let l = qlog(qmul(qconj(qa), qb));
                sum += vdot(l, l);
                size = size.max(8.0);
            }
        }
    }
    let want = sum.sqr().f();
    let g = tree.configuration_distance(&va::<MC, T>(a), &va::<MC, T>(b)).d();
    let h = tree.configuration_distance(&va::<MC, T>(b), &va::<MC, T>(a)).d();
    let tol = 30.0 * T::EPS * size * MC as f64;
    c.near("distance between configurations", g, want, tol);
    c.near("distance is symmetric", g, h, tol);
    c.near("distance to itself", tree.configuration_distance(&va::<MC, T>(a), &va::<MC, T>(a)).d(), 0.0, tol);
}
fn main() {
    vmon::run("C17", |s| {
        s.rule("every joint frame, Jacobian column, inverse and distance is compared with the same tree worked out in double-double");
        s.assume("joint displacements up to 30 rad or m, link lengths about 1");
        s.monitor("building", 4000, 20, |c| {
            if c.p(0.3) { building::<f32>(c) } else { building::<f64>(c) }
        });
        s.monitor("forward", 20000, 20, |c| {
            if c.p(0.3) { fk::<f32>(c) } else { fk::<f64>(c) }
        });
        s.monitor("jacobian", 12000, 15, |c| {
            if c.p(0.3) { jacobian::<f32>(c) } else { jacobian::<f64>(c) }
        });
        s.monitor("inverses", 12000, 15, |c| {
            if c.p(0.3) { inverses::<f32>(c) } else { inverses::<f64>(c) }
        });
        s.monitor("distance", 20000, 20, |c| {
            if c.p(0.3) { distance::<f32>(c) } else { distance::<f64>(c) }
        });
        s.require("joint accepted", 1000);
        s.require("joint refused", 500);
        s.require("floating base", 200);
        s.require("floating Jacobian", 200);
        s.require("mismatched state", 200);
        s.require("damped inverse", 200);
        s.require("undamped inverse, full rank", 50);
        s.require("positional", 10);
        s.require("rotational", 10);
        s.require("mixed", 5);
        s.require("rank-short inverse", 50);
        s.require("same place, other reading", 100);
    })
}
