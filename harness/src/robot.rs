//! Reference kinematic trees in double-double, and generators for them.
use crate::ctx::Case;
use crate::dd::{DD, dd};
use crate::fl::Fl;
use crate::rot::*;
use multicalc::kinematics::*;
use multicalc::spatial::*;
use multicalc::{Vector};

pub const MJ: usize = 8;
pub const MC: usize = 14;
pub type Tree<T> = KinematicTree<MJ, MC, T>;

#[derive(Clone, Copy, Debug)]
pub struct RJ {
    pub kind: JointKind,
    pub axis: [f64; 3],
    pub anchor: [f64; 3],
    pub oq: [f64; 4],
    pub ot: [f64; 3],
    pub zero: f64,
    pub limits: Option<(f64, f64)>,
    pub parent: Option<usize>,
}
pub fn rt<const N: usize, T: Fl>(a: [f64; N]) -> [f64; N] {
    a.map(|v| T::t(v).d())
}
pub fn va<const N: usize, T: Fl>(a: [f64; N]) -> Vector<N, T> {
    Vector::new(a.map(T::t))
}
pub fn joint_of<T: Fl>(j: &RJ) -> Joint<T> {
    let o = SE3::from_parts(SO3::from_quaternion(Quaternion::from_array(j.oq.map(T::t))), va::<3, T>(j.ot));
    let a = va::<3, T>(j.axis);
    let mut r = match j.kind {
        JointKind::Revolute => Joint::revolute(a, o),
        JointKind::Continuous => Joint::continuous(a, o),
        JointKind::Prismatic => Joint::prismatic(a, o),
        JointKind::Fixed => Joint::fixed(o),
        JointKind::Floating => Joint::floating(o),
    };
    r = r.with_anchor(va::<3, T>(j.anchor)).with_zero_offset(T::t(j.zero));
    if let Some((l, u)) = j.limits {
        r = r.with_limits(T::t(l), T::t(u));
    }
    r
}
pub fn parent_of(j: &RJ) -> JointParent {
    j.parent.map_or(JointParent::World, JointParent::Joint)
}
/// A valid joint; `first` allows a floating one.
pub fn gen_joint<T: Fl>(c: &mut Case, i: usize, floating: bool) -> RJ {
    let kind = if floating {
        JointKind::Floating
    } else {
        c.pick(&[JointKind::Revolute, JointKind::Revolute, JointKind::Prismatic, JointKind::Continuous, JointKind::Fixed])
    };
    let mut axis = if c.p(0.5) {
        let k = c.us(0, 2);
        let s = c.sign();
        core::array::from_fn(|r| if r == k { s } else { 0.0 })
    } else {
        c.unit3()
    };
    if c.p(0.2) {
        let k = c.lu(-3.0, 3.0);
        axis = axis.map(|v| v * k);
    }
    let anchor = if c.p(0.3) { c.arr(|c| c.f(-1.0, 1.0)) } else { [0.0; 3] };
    let oq = if c.p(0.4) { [1.0, 0.0, 0.0, 0.0] } else { gen_rot(c) };
    let ot = if c.p(0.15) { [0.0; 3] } else { c.arr(|c| c.f(-1.0, 1.0)) };
    let zero = if c.p(0.25) { c.f(-1.0, 1.0) } else { 0.0 };
    let limits = if kind != JointKind::Continuous && c.p(0.4) {
        let a = c.f(-3.0, 1.0);
        Some((a, a + if c.p(0.1) { 0.0 } else { c.f(0.1, 4.0) }))
    } else {
        None
    };
    let limits = limits.map(|(a, b)| (T::t(a).d(), T::t(b).d()));
    let parent = if i == 0 || (!floating && c.p(0.08)) {
        None
    } else if c.p(0.7) {
        Some(i - 1)
    } else {
        Some(c.us(0, i - 1))
    };
    RJ { kind, axis: rt::<3, T>(axis), anchor: rt::<3, T>(anchor), oq: rt::<4, T>(oq), ot: rt::<3, T>(ot), zero: T::t(zero).d(), limits, parent }
}
#[derive(Clone, Debug, Default)]
pub struct RTree(pub Vec<RJ>);
impl RTree {
    pub fn floating(&self) -> bool {
        self.0.first().is_some_and(|j| j.kind == JointKind::Floating)
    }
    pub fn nq(&self) -> usize {
        self.0.len() + if self.floating() { 6 } else { 0 }
    }
    pub fn nv(&self) -> usize {
        self.0.len() + if self.floating() { 5 } else { 0 }
    }
    pub fn qoff(&self, i: usize) -> usize {
        if self.floating() && i > 0 { i + 6 } else { i }
    }
    pub fn voff(&self, i: usize) -> usize {
        if self.floating() && i > 0 { i + 5 } else { i }
    }
    /// World pose of every joint frame.
    pub fn fk(&self, q: &[DD]) -> Vec<Pose> {
        let mut out: Vec<Pose> = vec![];
        for (i, j) in self.0.iter().enumerate() {
            let base = j.parent.map_or(Pose::id(), |p| out[p]);
            let o = Pose { q: qunit(q_of(j.oq)), t: v_of(j.ot) };
            let k = self.qoff(i);
            let ax = v_of(j.axis);
            let n = vnorm(ax);
            let local = match j.kind {
                JointKind::Revolute | JointKind::Continuous => {
                    let a = vscale(ax, (q[k] - dd(j.zero)) / n);
                    let r = qexp(a);
                    let p = v_of(j.anchor);
                    Pose { q: r, t: vsub(p, qrot(r, p)) }
                }
                JointKind::Prismatic => Pose { q: qid(), t: vscale(ax, (q[k] - dd(j.zero)) / n) },
                JointKind::Fixed => Pose::id(),
                JointKind::Floating => Pose { q: qunit([q[3], q[4], q[5], q[6]]), t: [q[0], q[1], q[2]] },
            };
            out.push(base.mul(&o).mul(&local));
        }
        out
    }
    /// The configuration moved along velocity slot `v` by `h`.
    pub fn nudge(&self, q: &[DD], v: usize, h: DD) -> Vec<DD> {
        let mut r = q.to_vec();
        if self.floating() && v < 6 {
            if v < 3 {
                r[v] += h;
            } else {
                let mut w = [dd(0.0); 3];
                w[v - 3] = h;
                let n = qmul(qunit([q[3], q[4], q[5], q[6]]), qexp(w));
                r[3..7].copy_from_slice(&n);
            }
        } else {
            let i = if self.floating() { v - 5 } else { v };
            r[self.qoff(i)] += h;
        }
        r
    }
    /// The configuration moved along a whole velocity vector.
    pub fn nudge_all(&self, q: &[DD], st: &[DD]) -> Vec<DD> {
        let mut r = q.to_vec();
        let mut i0 = 0;
        if self.floating() {
            for k in 0..3 {
                r[k] += st[k];
            }
            let n = qmul(qunit([q[3], q[4], q[5], q[6]]), qexp([st[3], st[4], st[5]]));
            r[3..7].copy_from_slice(&n);
            i0 = 1;
        }
        for i in i0..self.0.len() {
            r[self.qoff(i)] += st[self.voff(i)];
        }
        r
    }
    /// World [linear; angular] twist of the tool per unit rate of velocity slot `v`.
    pub fn column(&self, q: &[DD], tool: usize, v: usize) -> [DD; 6] {
        let i = if self.floating() { if v < 6 { 0 } else { v - 5 } } else { v };
        if self.0[i].kind == JointKind::Fixed {
            return [dd(0.0); 6];
        }
        let h = dd(1e-9);
        let p = self.fk(&self.nudge(q, v, h))[tool];
        let m = self.fk(&self.nudge(q, v, -h))[tool];
        let lin = vscale(vsub(p.t, m.t), dd(1.0) / (h + h));
        let ang = vscale(qlog(qmul(p.q, qconj(m.q))), dd(1.0) / (h + h));
        [lin[0], lin[1], lin[2], ang[0], ang[1], ang[2]]
    }
    /// How far things reach: bounds every frame's distance from the world origin.
    pub fn reach(&self, q: &[f64]) -> f64 {
        let mut s = 1.0;
        for (i, j) in self.0.iter().enumerate() {
            s += nrm3(j.ot) + 2.0 * nrm3(j.anchor);
            match j.kind {
                JointKind::Prismatic => s += (q[self.qoff(i)] - j.zero).abs() + j.zero.abs(),
                JointKind::Floating => s += nrm3([q[0], q[1], q[2]]),
                _ => {}
            }
        }
        s
    }
}
pub fn nrm3(a: [f64; 3]) -> f64 {
    (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]).sqrt()
}
pub fn gen_tree<T: Fl>(c: &mut Case, max: usize, pf: f64) -> RTree {
    let n = c.us(1, max);
    let fl = c.p(pf);
    let mut t = RTree::default();
    for i in 0..n {
        let j = gen_joint::<T>(c, i, fl && i == 0);
        t.0.push(j);
    }
    c.note("tree", &t);
    t
}
pub fn build<T: Fl>(c: &mut Case, t: &RTree) -> Tree<T> {
    let j: Vec<Joint<T>> = t.0.iter().map(joint_of::<T>).collect();
    let p: Vec<JointParent> = t.0.iter().map(parent_of).collect();
    let r = Tree::<T>::try_from_joints(&j, &p);
    c.get("a sound model is accepted", r)
}
/// A configuration, in the scalar's own precision; slots past the model hold junk that must not matter.
pub fn gen_config<T: Fl>(c: &mut Case, t: &RTree) -> [f64; MC] {
    let mut q = [0.0; MC];
    for (i, j) in t.0.iter().enumerate() {
        let k = t.qoff(i);
        match j.kind {
            JointKind::Floating => {
                let p = c.arr::<3>(|c| c.f(-2.0, 2.0));
                q[..3].copy_from_slice(&p);
                let mut r = gen_rot(c);
                if c.p(0.3) {
                    let s = c.lu(-2.0, 2.0);
                    r = r.map(|v| v * s);
                }
                q[3..7].copy_from_slice(&r);
            }
            JointKind::Fixed => q[k] = if c.p(0.1) { f64::NAN } else { c.f(-1.0, 1.0) },
            _ => {
                q[k] = match c.us(0, 6) {
                    0 => j.zero,
                    1 => c.ls(-9.0, -1.0),
                    2 => c.sign() * std::f64::consts::PI + j.zero,
                    3 => c.f(-30.0, 30.0),
                    _ => c.f(-3.0, 3.0),
                }
            }
        }
    }
    for k in t.nq()..MC {
        q[k] = if c.p(0.2) { f64::NAN } else { c.f(-1.0, 1.0) };
    }
    let q = rt::<MC, T>(q);
    c.note("configuration", &q);
    q
}
pub fn ddv(q: &[f64]) -> Vec<DD> {
    q.iter().map(|v| dd(*v)).collect()
}
/// Reference world Jacobian of `tool`, 6 × MC.
pub fn want_jac(t: &RTree, q: &[DD], tool: usize) -> crate::rm::RM {
    let mut anc = vec![false; t.0.len()];
    let mut k = Some(tool);
    while let Some(i) = k {
        anc[i] = true;
        k = t.0[i].parent;
    }
    let mut m = crate::rm::RM::zeros(6, MC);
    for v in 0..t.nv() {
        let i = if t.floating() { if v < 6 { 0 } else { v - 5 } } else { v };
        if anc[i] {
            let col = t.column(q, tool, v);
            for r in 0..6 {
                *m.at_mut(r, v) = col[r];
            }
        }
    }
    m
}
