//! C25: paths, minimum-snap trajectories and motion profiles.
use multicalc::Vector;
use multicalc::error::MotionError as E;
use multicalc::motion::*;
use vmon::robot::*;
use vmon::*;

// ---- polyline paths ----
fn pts<const D: usize, T: Fl>(c: &mut Case, n: usize) -> Vec<[f64; D]> {
    let s = c.lu(-2.0, 3.0);
    let grid = c.p(0.2);
    let mut v: Vec<[f64; D]> = vec![];
    for i in 0..n {
        if i > 0 && c.p(0.12) {
            let j = if c.p(0.7) { i - 1 } else { c.us(0, i - 1) };
            let w = v[j];
            v.push(w);
        } else if grid {
            v.push(rt::<D, T>(core::array::from_fn(|_| c.int(-3, 3) as f64)));
        } else if i > 1 && c.p(0.1) {
            // doubling back along the last leg
            let (a, b) = (v[i - 2], v[i - 1]);
            let k = c.f(0.1, 1.5);
            v.push(rt::<D, T>(core::array::from_fn(|d| b[d] + (a[d] - b[d]) * k)));
        } else {
            v.push(rt::<D, T>(core::array::from_fn(|_| c.f(-s, s))));
        }
    }
    v
}
fn dist(a: &[DD], b: &[DD]) -> DD {
    a.iter().zip(b).fold(dd(0.0), |s, (x, y)| s + (*x - *y) * (*x - *y)).sqr()
}
fn ddv<const D: usize>(a: [f64; D]) -> Vec<DD> {
    a.iter().map(|v| dd(*v)).collect()
}
fn path<const M: usize, const D: usize, T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let n = c.us(0, M + 1);
    let v = pts::<D, T>(c, n);
    c.note("waypoints", &v);
    let tv: Vec<Vector<D, T>> = v.iter().map(|p| va(*p)).collect();
    let mut bad = tv.clone();
    if n > 0 && c.p(0.1) {
        let (i, j) = (c.us(0, n - 1), c.us(0, D - 1));
        bad[i][j] = T::t(c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]));
        let r = PolylinePath::<M, D, T>::try_from_points(&bad);
        c.eq("not finite", r.err(), Some(if n > M { E::CapacityExceeded } else { E::NonFinite }));
        if n <= M {
            let mut p = PolylinePath::<M, D, T>::new();
            for q in &bad[..i] {
                c.get("push", p.push(*q));
            }
            let before = p;
            c.eq("push not finite", p.push(bad[i]).err(), Some(E::NonFinite));
            c.ok(p == before, "a refused waypoint leaves the path alone", String::new);
        }
        c.hit("refused");
        return;
    }
    let r = PolylinePath::<M, D, T>::try_from_points(&tv);
    if n > M {
        c.eq("too many", r.err(), Some(E::CapacityExceeded));
        let mut p = c.get("full", PolylinePath::<M, D, T>::try_from_points(&tv[..M]));
        let before = p;
        c.eq("one too many", p.push(tv[M]).err(), Some(E::CapacityExceeded));
        c.ok(p == before, "a refused waypoint leaves the path alone", String::new);
        c.hit("refused");
        return;
    }
    let p = c.get("path", r);
    let mut q = PolylinePath::<M, D, T>::default();
    for x in &tv {
        c.get("push", q.push(*x));
    }
    c.ok(p == q, "pushed one at a time", || format!("{q:?}"));
    c.eq("size", (p.len(), p.is_empty(), p.waypoints() == &tv[..]), (n, n == 0, true));
    let mode = if c.p(0.5) { EndOfPath::Stop } else { EndOfPath::Loop };
    let p = if mode == EndOfPath::Loop || c.p(0.5) { p.with_end_of_path(mode) } else { p };
    if n == 0 {
        c.eq("nothing", p.closest_point(Vector::zeros()).err(), Some(E::PathTooShort));
        c.eq("nothing", p.lookahead_point(T::ONE, T::ONE).err(), Some(E::PathTooShort));
        c.eq("nothing", p.total_arc_length().d(), 0.0);
        return;
    }
    let w: Vec<Vec<DD>> = v.iter().map(|p| ddv(*p)).collect();
    let legs: Vec<DD> = w.windows(2).map(|x| dist(&x[0], &x[1])).collect();
    let mut cum = vec![dd(0.0)];
    for l in &legs {
        cum.push(cum[cum.len() - 1] + *l);
    }
    let total = cum[n - 1].f();
    let size = v.iter().flatten().fold(1e-3f64, |m, x| m.max(x.abs()));
    let ltol = 8.0 * e * (n as f64) * (total + size);
    c.near("total length", p.total_arc_length().d(), total, 8.0 * e * n as f64 * total);
    let at = |s: f64| -> Vec<DD> {
        // the point at arc length s in [0, total]
        for (i, l) in legs.iter().enumerate() {
            if l.f() > 0.0 && cum[i + 1].f() >= s {
                let k = ((dd(s) - cum[i]) / *l).max_(dd(0.0));
                return (0..D).map(|d| w[i][d] + (w[i + 1][d] - w[i][d]) * k).collect();
            }
        }
        w[n - 1].clone()
    };
    // Projection.
    for _ in 0..3 {
        let x = if c.p(0.4) {
            let s = c.unit() * total;
            let y = at(s);
            rt::<D, T>(core::array::from_fn(|d| y[d].f() + c.f(-0.1, 0.1) * size))
        } else {
            rt::<D, T>(core::array::from_fn(|_| c.f(-2.0, 2.0) * size))
        };
        c.note("query", &x);
        let xq = ddv(x);
        let near = |i: usize| -> (Vec<DD>, DD, DD) {
            let l2 = legs[i] * legs[i];
            let k = if l2.f() > 0.0 {
                let dot = (0..D).fold(dd(0.0), |s, d| s + (xq[d] - w[i][d]) * (w[i + 1][d] - w[i][d]));
                (dot / l2).max_(dd(0.0)).min_(dd(1.0))
            } else {
                dd(0.0)
            };
            let y: Vec<DD> = (0..D).map(|d| w[i][d] + (w[i + 1][d] - w[i][d]) * k).collect();
            let r = dist(&y, &xq);
            (y, cum[i] + legs[i] * k, r)
        };
        let g = c.get("closest", p.closest_point(va(x)));
        let gp: Vec<DD> = g.point().into_array().iter().map(|v| dd(v.d())).collect();
        let tol = 32.0 * e * (size * 3.0);
        let best = if n == 1 { dist(&w[0], &xq) } else { (0..n - 1).map(|i| near(i).2).fold(dd(f64::INFINITY), |a, b| a.min_(b)) };
        c.near("distance", g.distance().d(), best.f(), tol);
        c.near("the point really is that far", dist(&gp, &xq).f(), g.distance().d(), tol);
        let i = g.segment_index();
        c.ok(if n == 1 { i == 0 } else { i < n - 1 }, "segment", || format!("{i}"));
        if n > 1 {
            let (y, s, r) = near(i);
            c.near("on that segment", r.f(), best.f(), 2.0 * tol);
            c.near("where on it", dist(&y, &gp).f(), 0.0, 2.0 * tol);
            c.near("arc length", g.arc_length().d(), s.f(), ltol + 4.0 * tol);
            // Equally close points: the first along the path.
            if let Some(j) = (0..i).find(|j| near(*j).2.f() < g.distance().d() - 3.0 * tol) {
                c.fail("a closer segment", format!("{j}"));
            }
        } else {
            c.eq("arc length of a point", g.arc_length().d(), 0.0);
        }
        c.hit("projections");
    }
    // Looking ahead.
    for _ in 0..4 {
        let from = T::t(match c.us(0, 5) {
            0 => 0.0,
            1 => total * c.f(-1.0, 3.0),
            2 if n > 1 => { let i = c.us(0, n - 1); cum[i].f() }
            _ => total * c.unit(),
        });
        let ahead = T::t(match c.us(0, 4) {
            0 => 0.0,
            1 => -total * c.unit(),
            2 => total * c.f(0.0, 4.0),
            _ => total * c.unit() * 0.3,
        });
        c.note("from, ahead, mode", &(from, ahead, mode));
        let g = c.get("ahead", p.lookahead_point(from, ahead));
        let gp: Vec<DD> = g.into_array().iter().map(|v| dd(v.d())).collect();
        let s = from.d() + ahead.d();
        let want = match mode {
            EndOfPath::Stop => s.max(0.0).min(total),
            EndOfPath::Loop => if total > 0.0 { s - total * (s / total).floor() } else { 0.0 },
        };
        let tol = 4.0 * ltol + 16.0 * e * (s.abs() + total);
        let off = dist(&at(want.min(total)), &gp).f();
        // At the seam either end is right.
        let seam = mode == EndOfPath::Loop && (want < tol || want > total - tol);
        let off = if seam { off.min(dist(&w[0], &gp).f()).min(dist(&w[n - 1], &gp).f()) } else { off };
        c.ok(off <= tol, "point ahead", || format!("{:?} off by {off:e}, tolerance {tol:e}", gp.iter().map(|v| v.f()).collect::<Vec<_>>()));
        if s < 0.0 && n > 1 {
            c.hit("before the start");
        }
        if s > total && n > 1 {
            c.hit("past the end");
        }
        c.hit("looked ahead");
    }
}

// ---- minimum snap ----
fn fall(k: usize, o: usize) -> f64 {
    (0..o).fold(1.0, |a, i| a * (k as f64 - i as f64))
}
/// The whole problem at once: ends and waypoints given, orders one to six joined at every waypoint.
fn snap_ref(w: &[Vec<f64>], tt: &[f64], b0: &[Vec<f64>], b1: &[Vec<f64>], dim: usize) -> Option<RM> {
    let s = tt.len();
    let n = 8 * s;
    let mut a = RM::zeros(n, n);
    let mut r = RM::zeros(n, dim);
    let mut row = 0;
    for i in 0..s {
        *a.at_mut(row, 8 * i) = dd(1.0);
        for d in 0..dim {
            *r.at_mut(row, d) = dd(w[i][d]);
        }
        row += 1;
        for k in 0..8 {
            *a.at_mut(row, 8 * i + k) = dd(1.0);
        }
        for d in 0..dim {
            *r.at_mut(row, d) = dd(w[i + 1][d]);
        }
        row += 1;
    }
    for o in 1..4 {
        *a.at_mut(row, o) = dd(fall(o, o));
        for d in 0..dim {
            *r.at_mut(row, d) = dd(b0[o - 1][d]) * dd(tt[0]).powi_(o as i32);
        }
        row += 1;
        for k in o..8 {
            *a.at_mut(row, 8 * (s - 1) + k) = dd(fall(k, o));
        }
        for d in 0..dim {
            *r.at_mut(row, d) = dd(b1[o - 1][d]) * dd(tt[s - 1]).powi_(o as i32);
        }
        row += 1;
    }
    for i in 0..s - 1 {
        for o in 1..7 {
            for k in o..8 {
                *a.at_mut(row, 8 * i + k) = dd(fall(k, o));
            }
            *a.at_mut(row, 8 * (i + 1) + o) = -(dd(tt[i]) / dd(tt[i + 1])).powi_(o as i32) * dd(fall(o, o));
            row += 1;
        }
    }
    a.solve(&r)
}
fn snap<const S: usize, const FREE: usize, const D: usize, T: Fl>(c: &mut Case) {
    let s = c.us(1, S);
    let k = c.lu(-1.0, 2.0);
    let w: Vec<Vec<f64>> = (0..=s).map(|_| rt::<D, T>(core::array::from_fn(|_| c.f(-k, k))).to_vec()).collect();
    let base = if T::F32 { c.lu(-1.5, 1.5) } else { c.lu(-3.0, 3.0) };
    let even = c.p(0.3);
    let tt: Vec<f64> = (0..s).map(|_| T::t(if even { base } else { base * if T::F32 { c.f(0.6, 1.6) } else { c.lu(-0.5, 0.5) } }).d()).collect();
    let mut b = [vec![vec![0.0; D]; 3], vec![vec![0.0; D]; 3]];
    let moving = c.p(0.6);
    if moving {
        for e in &mut b {
            for (o, x) in e.iter_mut().enumerate() {
                if c.p(0.7) {
                    *x = rt::<D, T>(core::array::from_fn(|_| c.f(-k, k) / base.powi(o as i32 + 1))).to_vec();
                }
            }
        }
    }
    c.note("waypoints, durations, ends", &(&w, &tt, &b));
    let vec = |x: &[f64]| Vector::<D, T>::from_fn(|d| T::t(x[d]));
    let bd = |e: &Vec<Vec<f64>>| BoundaryDerivatives { velocity: vec(&e[0]), acceleration: vec(&e[1]), jerk: vec(&e[2]) };
    let mut pl = MinimumSnapPlanner::<S, FREE, D, T>::new();
    if moving {
        pl = pl.with_start(bd(&b[0])).with_end(bd(&b[1]));
    }
    let wv: Vec<Vector<D, T>> = w.iter().map(|x| vec(x)).collect();
    let tv: Vec<T> = tt.iter().map(|x| T::t(*x)).collect();
    let g = c.get("plan", pl.plan(&wv, &tv));
    c.eq("pieces", g.piece_count(), s);
    let best = match snap_ref(&w, &tt, &b[0], &b[1], D) {
        Some(r) => r,
        None => c.discard(),
    };
    let e = T::EPS;
    let slack = if T::F32 { 2e3 } else { 2e5 } * s as f64 * e;
    let mut cf = RM::zeros(8 * s, D);
    for i in 0..s {
        c.same_bits("span", g.span(i).unwrap().d(), tt[i]);
        for d in 0..D {
            let q = c.some("piece", g.piece_polynomial(i, d).copied());
            for (k, v) in q.coefficients().iter().enumerate() {
                *cf.at_mut(8 * i + k, d) = dd(v.d());
            }
        }
    }
    let deriv = |m: &RM, i: usize, d: usize, o: usize, u: f64| -> f64 {
        let mut x = dd(0.0);
        for k in (o..8).rev() {
            x = x * dd(u) + m.at(8 * i + k, d) * dd(fall(k, o));
        }
        (x / dd(tt[i]).powi_(o as i32)).f()
    };
    // The largest number in play for each order, over the whole path.
    let mut big = [1e-30f64; 8];
    let tmin = tt.iter().copied().fold(f64::INFINITY, f64::min);
    for i in 0..s {
        for d in 0..D {
            for k in 0..8 {
                for o in 0..=k {
                    big[o] = big[o].max(best.at(8 * i + k, d).f().abs() * fall(k, o) / tt[i].powi(o as i32));
                }
            }
        }
    }
    let worst = (0..7).map(|o| big[o] * tmin.powi(o as i32)).fold(0.0, f64::max);
    let tol = |o: usize| slack * worst.max(big[0]) / tmin.powi(o as i32);
    let exact = 64.0 * e * big[0];
    for i in 0..s {
        for d in 0..D {
            c.near("leaves its waypoint", deriv(&cf, i, d, 0, 0.0), w[i][d], exact);
            c.near("meets its waypoint", deriv(&cf, i, d, 0, 1.0), w[i + 1][d], 8.0 * exact);
            if i + 1 < s {
                for o in 0..4 {
                    c.near("smooth join", deriv(&cf, i, d, o, 1.0), deriv(&cf, i + 1, d, o, 0.0), tol(o));
                }
            }
            for o in 0..3 {
                for u in [0.0, c.unit(), 1.0] {
                    c.near("the smoothest path", deriv(&cf, i, d, o, u), deriv(&best, i, d, o, u), tol(o));
                }
            }
        }
    }
    for d in 0..D {
        for o in 1..4 {
            c.near("sets off as told", deriv(&cf, 0, d, o, 0.0), b[0][o - 1][d], tol(o));
            c.near("arrives as told", deriv(&cf, s - 1, d, o, 1.0), b[1][o - 1][d], tol(o));
        }
        // What it was to keep small.
        let cost = |m: &RM| -> f64 {
            let mut j = dd(0.0);
            for i in 0..s {
                let q: Vec<DD> = (4..8).map(|k| m.at(8 * i + k, d) * dd(fall(k, 4))).collect();
                let mut x = dd(0.0);
                for a in 0..4 {
                    for b in 0..4 {
                        x = x + q[a] * q[b] / dd((a + b + 1) as f64);
                    }
                }
                j = j + x / dd(tt[i]).powi_(7);
            }
            j.f()
        };
        let (j, jb) = (cost(&cf), cost(&best));
        c.near("total snap", j, jb, slack * 16.0 * (jb + worst * worst / tmin.powi(7)));
    }
    c.hit("trajectories");
    if s > 1 {
        c.hit("joined trajectories");
    }
    let total: f64 = tt.iter().sum();
    c.near("length in time", g.total_span().d(), total, 4.0 * e * s as f64 * total);
}
fn snap_refused<T: Fl>(c: &mut Case) {
    let n = c.us(2, 4);
    let mut w: Vec<Vector<2, T>> = (0..n).map(|i| va::<2, T>([i as f64, c.f(-1.0, 1.0)])).collect();
    let mut t: Vec<T> = (1..n).map(|_| T::t(c.f(0.5, 2.0))).collect();
    let bad = T::t(c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]));
    let z = T::t(c.pick(&[0.0, -0.0, -1.0, f64::NAN, f64::INFINITY]));
    let p = MinimumSnapPlanner::<3, 6, 2, T>::default();
    let mut out = vec![T::ZERO; n - 1];
    match c.us(0, 7) {
        0 => {
            c.eq("too short", p.plan(&w[..1], &[]).err(), Some(E::PathTooShort));
            c.eq("too short", p.plan(&[], &t).err(), Some(E::PathTooShort));
            c.eq("too short", durations_from_average_speed(&w[..1], T::ONE, &mut []).err(), Some(E::PathTooShort));
        }
        1 => {
            while w.len() < 5 {
                w.push(va::<2, T>([9.0, 9.0]));
            }
            c.eq("too many", p.plan(&w, &[T::ONE; 4]).err(), Some(E::CapacityExceeded));
        }
        2 => {
            if c.p(0.5) { t.push(T::ONE) } else { t.pop().unwrap(); }
            c.eq("times do not match", p.plan(&w, &t).err(), Some(E::SegmentCountMismatch));
            c.eq("times do not match", durations_from_average_speed(&w, T::ONE, &mut t).err(), Some(E::SegmentCountMismatch));
        }
        3 => {
            let i = c.us(0, n - 2);
            t[i] = z;
            c.eq("duration", p.plan(&w, &t).err(), Some(E::DurationNotPositive));
            c.eq("speed", durations_from_average_speed(&w, z, &mut out).err(), Some(E::DurationNotPositive));
        }
        4 => {
            let (i, j) = (c.us(0, n - 1), c.us(0, 1));
            w[i][j] = bad;
            c.eq("waypoint", p.plan(&w, &t).err(), Some(E::NonFinite));
            c.eq("waypoint", durations_from_average_speed(&w, T::ONE, &mut out).err(), Some(E::NonFinite));
        }
        5 => {
            let mut b = BoundaryDerivatives::<2, T>::default();
            let j = c.us(0, 1);
            match c.us(0, 2) {
                0 => b.velocity[j] = bad,
                1 => b.acceleration[j] = bad,
                _ => b.jerk[j] = bad,
            }
            let q = if c.p(0.5) { p.with_start(b) } else { p.with_end(b) };
            c.eq("end motion", q.plan(&w, &t).err(), Some(E::NonFinite));
        }
        6 => {
            if n == 4 {
                c.eq("workspace", MinimumSnapPlanner::<3, 5, 2, T>::new().plan(&w, &t).err(), Some(E::WorkspaceTooSmall));
            }
            c.ok(p.plan(&w, &t).is_ok(), "workspace fits", String::new);
            // one segment needs none
            c.ok(MinimumSnapPlanner::<3, 0, 2, T>::new().plan(&w[..2], &t[..1]).is_ok(), "no workspace needed", String::new);
        }
        _ => {
            let i = c.us(0, n - 2);
            w[i + 1] = w[i];
            c.eq("standing still", durations_from_average_speed(&w, T::ONE, &mut out).err(), Some(E::DurationNotPositive));
            w[i + 1] = va::<2, T>([50.0, 60.0]);
            let v = T::t(c.lu(-2.0, 2.0));
            c.get("durations", durations_from_average_speed(&w, v, &mut out));
            for (k, o) in out.iter().enumerate() {
                let (a, b) = (w[k].into_array(), w[k + 1].into_array());
                let l = dist(&[dd(a[0].d()), dd(a[1].d())], &[dd(b[0].d()), dd(b[1].d())]).f();
                c.near("duration", o.d(), l / v.d(), 8.0 * T::EPS * l / v.d());
            }
        }
    }
    c.hit("judged");
}

// ---- motion profiles ----
struct Best {
    v: f64,
    ramp: f64,
    cruise: f64,
    total: f64,
}
/// The fastest rest-to-rest move, from the distance a ramp to each speed takes.
fn fastest(d: f64, v: f64, a: f64, j: Option<f64>) -> Best {
    let ramp = |s: DD| -> DD {
        match j {
            None => s / dd(a),
            Some(j) if (s * dd(j)).f() >= a * a => s / dd(a) + dd(a) / dd(j),
            Some(j) => (s / dd(j)).sqr() * dd(2.0),
        }
    };
    let dv = dd(v);
    let (s, cruise) = if (dv * ramp(dv)).f() <= d {
        (dv, (dd(d) - dv * ramp(dv)) / dv)
    } else {
        let (mut lo, mut hi) = (dd(0.0), dv);
        for _ in 0..110 {
            let m = (lo + hi) * dd(0.5);
            if ((m * ramp(m)) - dd(d)).f() < 0.0 { lo = m } else { hi = m }
        }
        (hi, dd(0.0))
    };
    let r = ramp(s);
    Best { v: s.f(), ramp: r.f(), cruise: cruise.f(), total: (r * dd(2.0) + cruise).f() }
}
fn lims<T: Fl>(c: &mut Case) -> (f64, f64, Option<f64>) {
    let w = if T::F32 { 1.5 } else { 3.0 };
    let v = T::t(c.lu(-w, w)).d();
    let a = T::t(c.lu(-w, w)).d();
    let j = if c.p(0.65) { Some(T::t(c.lu(-w, w)).d()) } else { None };
    if c.p(0.2) {
        let k = c.pick(&[1.0, 0.5, 2.0]);
        return (k, c.pick(&[1.0, 0.5, 2.0]), j.map(|_| k));
    }
    (v, a, j)
}
/// How far the limits make the move worth: spread over every shape of profile.
fn length<T: Fl>(c: &mut Case, v: f64, a: f64, j: Option<f64>) -> f64 {
    let s = match c.us(0, 3) {
        0 => v * v / a,
        1 => j.map_or(v * v / a, |j| 2.0 * a.powi(3) / (j * j)),
        2 => j.map_or(v, |j| v * (v / a + a / j)),
        _ => 1.0,
    };
    let k = if c.p(0.2) { 1.0 } else { c.lu(-2.0, 2.0) };
    T::t(c.sign() * s * k).d()
}
fn plan<T: Fl>(c: &mut Case) -> (MotionProfile<T>, f64, f64, f64, Option<f64>) {
    let (v, a, j) = lims::<T>(c);
    let l = c.get("limits", ProfileLimits::try_new(T::t(v), T::t(a), j.map(T::t)));
    c.eq("limits kept", (l.speed().d(), l.acceleration().d(), l.jerk().map(|x| x.d())), (v, a, j));
    let d = length::<T>(c, v, a, j);
    let st = if j.is_some() { c.pick(&[ProfileStrategy::Automatic, ProfileStrategy::JerkLimited, ProfileStrategy::Trapezoidal]) } else { c.pick(&[ProfileStrategy::Automatic, ProfileStrategy::Trapezoidal]) };
    c.note("speed, acceleration, jerk, distance, shape", &(v, a, j, d, st));
    let mut pl = MotionProfilePlanner::new(l);
    c.eq("shape by default", pl.strategy(), ProfileStrategy::Automatic);
    if st != ProfileStrategy::Automatic {
        pl = pl.with_strategy(st);
    }
    c.eq("planner's settings", (pl.limits() == l, pl.strategy()), (true, st));
    let m = c.get("plan", pl.plan(T::t(d)));
    (m, d, v, a, if st == ProfileStrategy::Trapezoidal { None } else { j })
}
fn profile<T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let (m, d, v, a, j) = plan::<T>(c);
    let b = fastest(d.abs(), v, a, j);
    let sg = d.signum();
    let dur = m.duration().d();
    c.near("as fast as can be", dur, b.total, 64.0 * e * b.total);
    c.near("gets there", m.distance().d(), d, 64.0 * e * d.abs());
    c.near("peak speed", m.peak_speed().d(), sg * b.v, 64.0 * e * b.v);
    let ph = m.phase_durations().map(|x| x.d());
    let jt = match j {
        None => 0.0,
        Some(j) => (b.v / j).sqrt().min(a / j),
    };
    let hold = (b.ramp - 2.0 * jt).max(0.0);
    let want = [jt, hold, jt, b.cruise, jt, hold, jt];
    for i in 0..7 {
        c.near("phase", ph[i], want[i], 256.0 * e * b.total);
        c.ok(ph[i] >= 0.0, "phase not negative", || format!("{ph:?}"));
    }
    c.hit(match (j.is_some(), hold > 1e-3 * b.total, b.cruise > 1e-3 * b.total) {
        (false, _, false) => "triangles",
        (false, _, true) => "trapezoids",
        (true, false, false) => "s-curves short of both limits",
        (true, true, false) => "s-curves at the acceleration limit",
        (true, false, true) => "s-curves at the speed limit",
        (true, true, true) => "full s-curves",
    });
    let stretch = c.p(0.4);
    let k = if stretch { c.lu(0.0, 1.0) } else { 1.0 };
    let (m, dur) = if stretch {
        let to = T::t(dur * k);
        let s = m.stretched_to(to);
        c.eq("lasts as long as asked", s.duration().d(), to.d().max(dur));
        c.same_bits("same distance", s.distance().d(), m.distance().d());
        for bad in [dur * 0.5, dur, 0.0, -1.0, f64::NAN, f64::INFINITY] {
            c.ok(m.stretched_to(T::t(bad)) == m, "not stretched", || format!("to {bad}"));
        }
        c.hit("stretched");
        (s, s.duration().d())
    } else {
        (m, dur)
    };
    let k = if stretch { dur / b.total } else { 1.0 };
    let (vm, am, jm) = (b.v / k, a / k / k, j.map_or(0.0, |j| j / k.powi(3)));
    let ap = j.map_or(a, |j| j * jt) / k / k;
    let (tp, tv, ta) = (256.0 * e * d.abs(), 256.0 * e * vm, 256.0 * e * am);
    // A reading at a time, from the phases.
    let edges: Vec<f64> = m.phase_durations().iter().scan(0.0, |s, x| { *s += x.d(); Some(*s) }).collect();
    let (jw, aw) = if j.is_some() { ([1.0, 0.0, -1.0, 0.0, -1.0, 0.0, 1.0], [0.0, 1.0, 1.0, 0.0, 0.0, -1.0, -1.0]) } else { ([0.0; 7], [0.0, 1.0, 0.0, 0.0, 0.0, -1.0, 0.0]) };
    let truth = |t: f64| -> [f64; 4] {
        let (mut p, mut u, mut s) = (dd(0.0), dd(0.0), dd(0.0));
        for i in 0..7 {
            let dt = dd(want[i] * k);
            let h = (dd(t) - s).max_(dd(0.0)).min_(dt);
            let (jj, aa) = (dd(jw[i] * jm), dd(aw[i] * ap));
            let (pp, uu, a2) = (p + u * h + aa * h * h * dd(0.5) + jj * h * h * h / dd(6.0), u + aa * h + jj * h * h * dd(0.5), aa + jj * h);
            if t < (s + dt).f() {
                return [pp.f() * sg, uu.f() * sg, a2.f() * sg, jj.f() * sg];
            }
            p = pp;
            u = uu;
            s = s + dt;
        }
        [p.f() * sg, 0.0, 0.0, 0.0]
    };
    let mut last = (-1.0f64, 0.0f64);
    let mut times: Vec<f64> = (0..8).map(|_| c.unit() * dur).collect();
    times.extend([0.0, dur, -1.0, dur * 1.5, dur * (1.0 + 4.0 * e)]);
    times.extend(edges.iter().copied());
    times.sort_by(|x, y| x.total_cmp(y));
    for t in times {
        let t = T::t(t);
        let s = c.get("state", m.state_at(t));
        let (p, u, x, jj) = (s.position.d(), s.velocity.d(), s.acceleration.d(), s.jerk.d());
        c.note("time, state", &(t, p, u, x, jj));
        let t = t.d();
        if t >= dur {
            c.eq("at rest on target", (p, u, x, jj), (m.distance().d(), 0.0, 0.0, 0.0));
            c.hit("finished");
            continue;
        }
        let t = t.max(0.0);
        let w = truth(t);
        c.near("position", p, w[0], tp);
        c.near("velocity", u, w[1], tv + 32.0 * e * ap * dur);
        c.ok(u.abs() <= vm * (1.0 + 256.0 * e) && x.abs() <= am * (1.0 + 256.0 * e) && jj.abs() <= jm * (1.0 + 256.0 * e), "inside the limits", || format!("{u} {x} {jj} of {vm} {am} {jm}"));
        c.ok(u * sg >= -256.0 * e * (vm + ap * dur), "never backs up", || format!("{u}"));
        c.ok(p * sg >= last.1 - tp, "always onward", || format!("{p} after {last:?}"));
        last = (t, p * sg);
        // Acceleration and jerk away from the joins, where rounding picks the side.
        if edges.iter().chain(&[0.0]).all(|x| (x - t).abs() > 128.0 * e * dur) {
            c.near("acceleration", x, w[2], ta + 64.0 * e * jm * dur);
            c.near("jerk", jj, w[3], 256.0 * e * jm);
        } else if t == 0.0 {
            // Read as commanded from here on.
            c.near("sets off", x, if j.is_some() { 0.0 } else { sg * ap }, ta);
            c.near("sets off", jj, sg * jm, 256.0 * e * jm);
        }
        c.hit("states");
    }
    // Mirrored exactly.
    let l = ProfileLimits::try_new(T::t(v), T::t(a), j.map(T::t)).unwrap();
    let pl = MotionProfilePlanner::new(l);
    let (x, y) = (pl.plan(T::t(d)).unwrap(), pl.plan(T::t(-d)).unwrap());
    let t = T::t(c.unit() * x.duration().d());
    let (sx, sy) = (x.state_at(t).unwrap(), y.state_at(t).unwrap());
    c.eq("mirrored", (x.duration().d(), x.distance().d(), sx.position.d(), sx.velocity.d(), sx.acceleration.d(), sx.jerk.d()), (y.duration().d(), -y.distance().d(), -sy.position.d(), -sy.velocity.d(), -sy.acceleration.d(), -sy.jerk.d()));
}
fn synced<const N: usize, T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let mut ms = [MotionProfilePlanner::new(ProfileLimits::try_new(T::ONE, T::ONE, None).unwrap()).plan(T::ZERO).unwrap(); N];
    let mut alone = [0.0; N];
    for i in 0..N {
        if c.p(0.85) {
            ms[i] = plan::<T>(c).0;
        } else {
            c.hit("axes standing still");
        }
        alone[i] = ms[i].duration().d();
    }
    let slow = alone.iter().copied().fold(0.0, f64::max);
    let (s, want) = if c.p(0.5) {
        (SynchronizedProfile::from_profiles(ms), slow)
    } else {
        let bad = T::t(c.pick(&[0.0, -0.0, -1.0, f64::NAN, f64::INFINITY]));
        c.eq("duration", SynchronizedProfile::try_from_profiles_over(ms, bad).err(), Some(E::DurationNotPositive));
        let d = T::t((slow + 1e-3) * c.lu(-1.0, 1.0));
        (c.get("paced", SynchronizedProfile::try_from_profiles_over(ms, d)), d.d().max(slow))
    };
    c.near("together", s.duration().d(), want, 0.0);
    c.eq("no such axis", s.axis(N).is_none(), true);
    for i in 0..N {
        let a = c.some("axis", s.axis(i).copied());
        if alone[i] > 0.0 {
            c.eq("every axis as long", a.duration().d(), want);
        }
        c.ok(a == ms[i].stretched_to(s.duration()), "stretched axis", || format!("{a:?}"));
    }
    for _ in 0..4 {
        let u = if c.p(0.2) { 1.0 } else { c.f(-0.1, 1.2) };
        let g = c.get("state", s.state_at(T::t(want * u)));
        for i in 0..N {
            let q = s.axis(i).unwrap().state_at(T::t(want * u)).unwrap();
            c.eq("axis state", (g.position[i].d(), g.velocity[i].d(), g.acceleration[i].d(), g.jerk[i].d()), (q.position.d(), q.velocity.d(), q.acceleration.d(), q.jerk.d()));
            if u >= 1.0 {
                c.eq("all there at once", (g.position[i].d(), g.velocity[i].d(), g.acceleration[i].d(), g.jerk[i].d()), (ms[i].distance().d(), 0.0, 0.0, 0.0));
            } else if alone[i] > 0.0 {
                // The same place along the way as its own profile at the same share of its time.
                let o = ms[i].state_at(T::t(alone[i] * u.max(0.0))).unwrap();
                c.near("same way there", q.position.d(), o.position.d(), 1024.0 * e * ms[i].distance().d().abs());
                let mut amax = 0.0f64;
                let mut t0 = 0.0;
                for h in ms[i].phase_durations() {
                    for k in [0.01, 0.5, 0.99] {
                        amax = amax.max(ms[i].state_at(T::t(t0 + h.d() * k)).unwrap().acceleration.d().abs());
                    }
                    t0 += h.d();
                }
                c.near("slower", q.velocity.d(), o.velocity.d() * alone[i] / want, 2048.0 * e * ms[i].distance().d().abs() / want + 512.0 * e * alone[i] / want * (ms[i].peak_speed().d().abs() * 8.0 + amax * alone[i]));
            }
        }
        c.hit("synchronized states");
    }
    c.eq("time", s.state_at(T::t(f64::NAN)).err(), Some(E::NonFinite));
}
fn profile_refused<T: Fl>(c: &mut Case) {
    let mut a = [1.0, 2.0, 3.0];
    let w = c.us(0, 2);
    let z = c.pick(&[0.0, -0.0, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    a[w] = z;
    c.eq("limits", ProfileLimits::try_new(T::t(a[0]), T::t(a[1]), Some(T::t(a[2]))).err(), Some(E::LimitNotPositive));
    if w < 2 {
        c.eq("limits", ProfileLimits::try_new(T::t(a[0]), T::t(a[1]), None).err(), Some(E::LimitNotPositive));
    }
    let l = ProfileLimits::try_new(T::ONE, T::ONE, None).unwrap();
    let p = MotionProfilePlanner::new(l).with_strategy(ProfileStrategy::JerkLimited);
    c.eq("no jerk limit", p.plan(T::ONE).err(), Some(E::JerkLimitRequired));
    let bad = T::t(c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]));
    c.eq("distance", p.plan(bad).err(), Some(E::NonFinite));
    c.eq("distance", MotionProfilePlanner::new(l).plan(bad).err(), Some(E::NonFinite));
    let m = MotionProfilePlanner::new(l).plan(T::t(c.pick(&[0.0, -0.0]))).unwrap();
    c.eq("nothing to do", (m.duration().d(), m.distance().d(), m.peak_speed().d()), (0.0, 0.0, 0.0));
    let t = T::t(c.f(-1.0, 1.0));
    let z = m.state_at(t).unwrap();
    c.eq("nothing to do", (z.position.d(), z.velocity.d(), z.acceleration.d(), z.jerk.d()), (0.0, 0.0, 0.0, 0.0));
    c.eq("time", m.state_at(bad).err(), Some(E::NonFinite));
    c.hit("judged");
}

fn main() {
    vmon::run("C25", |s| {
        s.rule("case: one path with its queries, one planned trajectory, one motion profile or set of profiles");
        s.assume("minimum-snap durations within a factor of ten of one another in f64 and of two and a half in f32; profile limits within six decades in f64, three in f32");
        macro_rules! both {
            ($n:literal, $q:expr, $f:expr, $g:expr) => {
                s.monitor($n, $q, 20, |c| if c.p(0.35) { $f(c) } else { $g(c) })
            };
        }
        both!("path-2", 150000, path::<8, 2, f32>, path::<8, 2, f64>);
        both!("path-3", 100000, path::<5, 3, f32>, path::<5, 3, f64>);
        both!("path-1", 40000, path::<2, 1, f32>, path::<2, 1, f64>);
        both!("snap-3", 6000, snap::<3, 6, 3, f32>, snap::<3, 6, 3, f64>);
        both!("snap-5", 1500, snap::<5, 15, 2, f32>, snap::<5, 15, 2, f64>);
        both!("snap-refused", 20000, snap_refused::<f32>, snap_refused::<f64>);
        both!("profile", 200000, profile::<f32>, profile::<f64>);
        both!("synced-3", 50000, synced::<3, f32>, synced::<3, f64>);
        both!("synced-7", 20000, synced::<7, f32>, synced::<7, f64>);
        both!("profile-refused", 15000, profile_refused::<f32>, profile_refused::<f64>);
        for (e, n) in [
            ("projections", 50000),
            ("looked ahead", 50000),
            ("before the start", 2000),
            ("past the end", 5000),
            ("joined trajectories", 500),
            ("triangles", 1000),
            ("trapezoids", 1000),
            ("s-curves short of both limits", 500),
            ("s-curves at the acceleration limit", 300),
            ("s-curves at the speed limit", 500),
            ("full s-curves", 300),
            ("stretched", 5000),
            ("finished", 20000),
            ("axes standing still", 1000),
            ("synchronized states", 20000),
        ] {
            s.require(e, n);
        }
    });
}
