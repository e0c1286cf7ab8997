//! Reference rotations and rigid motions in double-double.
use crate::ctx::Case;
use crate::dd::{DD, dd};
use crate::rm::RM;

pub type Q = [DD; 4];
pub type V = [DD; 3];
pub fn q_of(a: [f64; 4]) -> Q {
    a.map(dd)
}
pub fn v_of(a: [f64; 3]) -> V {
    a.map(dd)
}
pub fn qid() -> Q {
    [dd(1.0), dd(0.0), dd(0.0), dd(0.0)]
}
/// Hamilton product, scalar first.
pub fn qmul(a: Q, b: Q) -> Q {
    [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ]
}
pub fn qconj(a: Q) -> Q {
    [a[0], -a[1], -a[2], -a[3]]
}
pub fn qneg(a: Q) -> Q {
    a.map(|v| -v)
}
pub fn qnorm(a: Q) -> DD {
    let m = a.iter().fold(0.0f64, |m, v| m.max(v.f().abs()));
    if m == 0.0 {
        return dd(0.0);
    }
    let b = a.map(|v| v / dd(m));
    (b[0] * b[0] + b[1] * b[1] + b[2] * b[2] + b[3] * b[3]).sqr() * dd(m)
}
pub fn qunit(a: Q) -> Q {
    let n = qnorm(a);
    a.map(|v| v / n)
}
pub fn vdot(a: V, b: V) -> DD {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn vcross(a: V, b: V) -> V {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn vadd(a: V, b: V) -> V {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn vsub(a: V, b: V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn vscale(a: V, k: DD) -> V {
    a.map(|v| v * k)
}
pub fn vnorm(a: V) -> DD {
    qnorm([dd(0.0), a[0], a[1], a[2]])
}
pub fn vf(a: V) -> [f64; 3] {
    a.map(|v| v.f())
}
/// Unit quaternion of a rotation vector.
pub fn qexp(v: V) -> Q {
    let t = vnorm(v);
    if t.f() == 0.0 {
        return [dd(1.0), v[0] * dd(0.5), v[1] * dd(0.5), v[2] * dd(0.5)];
    }
    let (s, c) = (t * dd(0.5)).sincos();
    let k = s / t;
    [c, v[0] * k, v[1] * k, v[2] * k]
}
/// Shortest rotation vector of a unit quaternion.
pub fn qlog(q: Q) -> V {
    let q = if q[0].f() < 0.0 { qneg(q) } else { q };
    let v = [q[1], q[2], q[3]];
    let n = vnorm(v);
    if n.f() == 0.0 {
        return [dd(0.0); 3];
    }
    let k = DD::atan2_(n, q[0]) * dd(2.0) / n;
    vscale(v, k)
}
pub fn qrot(q: Q, p: V) -> V {
    let r = qmul(qmul(q, [dd(0.0), p[0], p[1], p[2]]), qconj(q));
    [r[1], r[2], r[3]]
}
pub fn qmat(q: Q) -> RM {
    let cols: Vec<V> = (0..3).map(|k| qrot(q, core::array::from_fn(|i| dd(if i == k { 1.0 } else { 0.0 })))).collect();
    let mut m = RM::zeros(3, 3);
    for k in 0..3 {
        for i in 0..3 {
            *m.at_mut(i, k) = cols[k][i];
        }
    }
    m
}
/// Rotation angle between two unit quaternions.
pub fn qangle(a: Q, b: Q) -> f64 {
    vnorm(qlog(qmul(qconj(a), b))).f()
}
pub fn hat3(v: V) -> RM {
    let z = dd(0.0);
    let d = [[z, -v[2], v[1]], [v[2], z, -v[0]], [-v[1], v[0], z]];
    let mut m = RM::zeros(3, 3);
    for i in 0..3 {
        for j in 0..3 {
            *m.at_mut(i, j) = d[i][j];
        }
    }
    m
}
/// A rigid motion.
#[derive(Clone, Copy, Debug)]
pub struct Pose {
    pub q: Q,
    pub t: V,
}
impl Pose {
    pub fn id() -> Pose {
        Pose { q: qid(), t: [dd(0.0); 3] }
    }
    pub fn mul(&self, o: &Pose) -> Pose {
        Pose { q: qmul(self.q, o.q), t: vadd(self.t, qrot(self.q, o.t)) }
    }
    pub fn inv(&self) -> Pose {
        let q = qconj(self.q);
        Pose { q, t: vscale(qrot(q, self.t), dd(-1.0)) }
    }
    pub fn act(&self, p: V) -> V {
        vadd(self.t, qrot(self.q, p))
    }
    pub fn mat(&self) -> RM {
        let r = qmat(self.q);
        let mut m = RM::eye(4);
        for i in 0..3 {
            for j in 0..3 {
                *m.at_mut(i, j) = r.at(i, j);
            }
            *m.at_mut(i, 3) = self.t[i];
        }
        m
    }
    /// Adjoint on [linear; angular] twists.
    pub fn adj(&self) -> RM {
        let r = qmat(self.q);
        let tr = hat3(self.t).mul(&r);
        let mut m = RM::zeros(6, 6);
        for i in 0..3 {
            for j in 0..3 {
                *m.at_mut(i, j) = r.at(i, j);
                *m.at_mut(3 + i, 3 + j) = r.at(i, j);
                *m.at_mut(i, 3 + j) = tr.at(i, j);
            }
        }
        m
    }
}
/// A random rotation: uniform, axis-aligned, tiny, or near a half turn.
pub fn gen_rot(c: &mut Case) -> [f64; 4] {
    match c.us(0, 9) {
        0 => {
            let i = c.us(0, 3);
            core::array::from_fn(|k| if k == i { 1.0 } else { 0.0 })
        }
        1 => {
            let u = c.unit3();
            let a = c.lu(-10.0, -1.0);
            let q = qexp(v_of(u.map(|x| x * a)));
            q.map(|v| v.f())
        }
        2 => {
            let u = c.unit3();
            let a = std::f64::consts::PI - c.sign() * c.lu(-12.0, -2.0);
            let q = qexp(v_of(u.map(|x| x * a)));
            q.map(|v| v.f())
        }
        3 => {
            let i = c.us(0, 2);
            let a = c.f(-3.2, 3.2);
            let q = qexp(core::array::from_fn(|k| dd(if k == i { a } else { 0.0 })));
            q.map(|v| v.f())
        }
        _ => c.unit4(),
    }
}
/// Sum of A^k/(k+1)!, the left Jacobian of a Lie algebra element with adjoint A.
pub fn phi1(a: &RM) -> RM {
    let n = a.r;
    let (mut term, mut sum) = (RM::eye(n), RM::eye(n));
    for k in 1..80 {
        term = term.mul(a);
        for v in term.d.iter_mut() {
            *v = *v / dd((k + 1) as f64);
        }
        sum = sum.add(&term);
    }
    sum
}
/// se(3) adjoint of a [linear; angular] twist.
pub fn ad6(lin: V, ang: V) -> RM {
    let (w, v) = (hat3(ang), hat3(lin));
    let mut m = RM::zeros(6, 6);
    for i in 0..3 {
        for j in 0..3 {
            *m.at_mut(i, j) = w.at(i, j);
            *m.at_mut(3 + i, 3 + j) = w.at(i, j);
            *m.at_mut(i, 3 + j) = v.at(i, j);
        }
    }
    m
}
pub fn mv3(m: &RM, v: V) -> V {
    core::array::from_fn(|i| m.at(i, 0) * v[0] + m.at(i, 1) * v[1] + m.at(i, 2) * v[2])
}
/// SE(3) exponential of a [linear; angular] twist.
pub fn pexp(lin: V, ang: V) -> Pose {
    Pose { q: qexp(ang), t: mv3(&phi1(&hat3(ang)), lin) }
}
/// The twist of a rigid motion, shortest rotation.
pub fn plog(p: &Pose) -> (V, V) {
    let w = qlog(p.q);
    let j = phi1(&hat3(w));
    let b = RM { r: 3, c: 1, d: p.t.to_vec() };
    let x = j.solve(&b).expect("left Jacobian is invertible within half a turn");
    ([x.at(0, 0), x.at(1, 0), x.at(2, 0)], w)
}
