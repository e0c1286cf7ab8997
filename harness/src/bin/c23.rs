//! C23: occupancy maps, ray casting, drawing and scan geometry.
use multicalc::error::MappingError as E;
use multicalc::mapping::*;
use vmon::robot::rt;
use vmon::*;

/// A map of the harness's own, so the trait's own methods are judged without the library's storage.
struct Own<T> {
    c: usize,
    r: usize,
    res: T,
    o: [T; 2],
    cells: Vec<bool>,
}
impl<T: Fl> OccupancyMap<T> for Own<T> {
    fn columns(&self) -> usize {
        self.c
    }
    fn rows(&self) -> usize {
        self.r
    }
    fn resolution(&self) -> T {
        self.res
    }
    fn origin(&self) -> [T; 2] {
        self.o
    }
    fn is_occupied(&self, row: usize, column: usize) -> bool {
        row < self.r && column < self.c && self.cells[row * self.c + column]
    }
}
impl<T: Fl> MutableOccupancyMap<T> for Own<T> {
    fn set_cell(&mut self, row: usize, column: usize, occupied: bool) {
        if row < self.r && column < self.c {
            self.cells[row * self.c + column] = occupied;
        }
    }
    fn clear(&mut self) {
        self.cells.fill(false);
    }
}
/// Size, cell and corner.
#[derive(Clone, Copy, Debug)]
struct Geo {
    c: usize,
    r: usize,
    res: f64,
    o: [f64; 2],
}
impl Geo {
    fn high(&self) -> [f64; 2] {
        [self.o[0] + self.c as f64 * self.res, self.o[1] + self.r as f64 * self.res]
    }
    fn size(&self) -> f64 {
        self.o[0].abs() + self.o[1].abs() + (self.c + self.r) as f64 * self.res
    }
}
fn geo<T: Fl>(c: &mut Case, most: usize) -> Geo {
    let res = T::t(match c.us(0, 3) {
        0 => 1.0,
        1 => 0.05,
        2 => c.lu(-3.0, 2.0),
        _ => c.f(0.05, 2.0),
    })
    .d();
    let k = if T::F32 { 1.0 } else { c.pick(&[1.0, 1.0, 100.0]) };
    let o = rt::<2, T>(if c.p(0.3) { [0.0; 2] } else { [res * k * c.f(-30.0, 30.0), res * k * c.f(-30.0, 30.0)] });
    let g = Geo { c: c.us(1, most), r: c.us(1, most), res, o };
    c.note("map", &g);
    g
}
fn grid<T: Fl>(c: &mut Case, g: Geo) -> DynamicOccupancyGrid<T> {
    let m = DynamicOccupancyGrid::try_new(g.c, g.r, T::t(g.res), g.o.map(T::t));
    c.get("map accepted", m)
}
fn own<T: Fl>(g: Geo) -> Own<T> {
    Own { c: g.c, r: g.r, res: T::t(g.res), o: g.o.map(T::t), cells: vec![false; g.c * g.r] }
}
/// Which cells a point may belong to, given it may be off by `d` on each axis; `None` for off the map.
fn cells_near(g: &Geo, p: [f64; 2], d: f64) -> Vec<Option<(usize, usize)>> {
    let idx = |axis: usize, n: usize| -> Vec<Option<usize>> {
        let mut v = vec![];
        for s in [-d, 0.0, d] {
            let x = ((dd(p[axis]) + dd(s) - dd(g.o[axis])) / dd(g.res)).f().floor();
            let i = if x >= 0.0 && x < n as f64 { Some(x as usize) } else { None };
            if !v.contains(&i) {
                v.push(i);
            }
        }
        v
    };
    let mut out = vec![];
    for a in idx(1, g.r) {
        for b in idx(0, g.c) {
            out.push(match (a, b) {
                (Some(a), Some(b)) => Some((a, b)),
                _ => None,
            });
        }
    }
    out
}
fn storage<T: Fl>(c: &mut Case) {
    let g = geo::<T>(c, 12);
    let mut m = grid::<T>(c, g);
    let mut w = own::<T>(g);
    c.eq("kept", (m.columns(), m.rows(), m.resolution().d(), m.origin().map(|v| v.d())), (g.c, g.r, g.res, g.o));
    let far = [0, 1, g.c, g.r, g.c.wrapping_sub(1), g.c * g.r, usize::MAX, usize::MAX / 2];
    for step in 0..c.us(1, 40) {
        let (a, b) = if c.p(0.7) { (c.us(0, g.r), c.us(0, g.c)) } else { (c.pick(&far), c.pick(&far)) };
        match c.us(0, 9) {
            0 => {
                m.clear();
                w.clear();
            }
            1..=3 => {
                let k = 1.2 * (g.c.max(g.r) as f64) * g.res;
                let p = rt::<2, T>([g.o[0] + c.f(-0.1, 1.0) * k, g.o[1] + c.f(-0.1, 1.0) * k]);
                let tol = 4.0 * T::EPS * (g.size() + p[0].abs() + p[1].abs());
                let can = cells_near(&g, p, tol);
                let got = m.cell_of(p.map(T::t));
                c.ok(can.contains(&got), "cell-of", || format!("{p:?}: got {got:?}, want one of {can:?}"));
                if let [only] = can[..] {
                    c.eq("cell-of", got, only);
                }
                m.occupy_point(p.map(T::t));
                if let Some((a, b)) = got {
                    w.set_cell(a, b, true);
                }
            }
            4 => {
                let z = c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
                let p = if c.p(0.5) { [z, g.o[1]] } else { [g.o[0], z] };
                c.note("lost point", &p);
                c.eq("not-a-place", m.cell_of(p.map(T::t)), None);
                m.occupy_point(p.map(T::t));
            }
            _ => {
                let v = c.p(0.7);
                m.set_cell(a, b, v);
                w.set_cell(a, b, v);
            }
        }
        let _ = step;
    }
    for a in 0..g.r + 1 {
        for b in 0..g.c + 1 {
            c.eq("cell", m.is_occupied(a, b), w.is_occupied(a, b));
        }
    }
    let (fr, fc) = (c.pick(&[usize::MAX, g.r]), c.pick(&[usize::MAX, 0]));
    c.eq("off-map", m.is_occupied(fr, fc), false);
    c.hit("storage judged");
    // What cannot be built.
    let bad = c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    let (want, got) = match c.us(0, 5) {
        0 => (E::EmptyGrid, DynamicOccupancyGrid::try_new(0, c.us(0, 9), T::t(g.res), m.origin())),
        1 => (E::EmptyGrid, DynamicOccupancyGrid::try_new(c.us(0, 9), 0, T::t(g.res), m.origin())),
        2 => (E::GridTooLarge, DynamicOccupancyGrid::try_new(usize::MAX, c.us(2, 9), T::t(g.res), m.origin())),
        3 => (E::NonFinite, DynamicOccupancyGrid::try_new(g.c, g.r, T::t(bad), m.origin())),
        4 => { let mut o = m.origin(); o[c.us(0, 1)] = T::t(bad); (E::NonFinite, DynamicOccupancyGrid::try_new(g.c, g.r, T::t(g.res), o)) }
        _ => (E::NonPositiveResolution, DynamicOccupancyGrid::try_new(g.c, g.r, T::t(c.pick(&[0.0, -0.0, -1.0])), m.origin())),
    };
    c.eq("refused", got.err(), Some(want));
}
/// Where a beam first meets a box grown by `d` on every side.
fn slab(o: [f64; 2], u: [DD; 2], lo: [DD; 2], hi: [DD; 2], d: f64) -> Option<(f64, f64)> {
    let (mut near, mut far) = (f64::NEG_INFINITY, f64::INFINITY);
    for i in 0..2 {
        let (l, h) = (lo[i] - dd(d), hi[i] + dd(d));
        if (h - l).f() < 0.0 {
            return None;
        }
        if u[i].f() == 0.0 {
            if (dd(o[i]) - l).f() < 0.0 || (h - dd(o[i])).f() < 0.0 {
                return None;
            }
        } else {
            let a = ((l - dd(o[i])) / u[i]).f();
            let b = ((h - dd(o[i])) / u[i]).f();
            near = near.max(a.min(b));
            far = far.min(a.max(b));
        }
    }
    if near > far || far < 0.0 { None } else { Some((near.max(0.0), far)) }
}
/// A beam straight along a row of a map whose every number is a small binary fraction: the
/// distance has no rounding in it, and a reach of exactly that distance just gets there.
fn exact_beam<T: Fl>(c: &mut Case) {
    let res = c.pick(&[0.25, 0.5, 1.0, 2.0]);
    let g = Geo { c: c.us(1, 40), r: c.us(1, 12), res, o: [c.int(-32, 32) as f64 / 4.0, c.int(-32, 32) as f64 / 4.0] };
    let mut m = grid::<T>(c, g);
    let (row, wall) = (c.us(0, g.r - 1), c.us(0, g.c - 1));
    m.set_cell(row, wall, true);
    let behind = c.us(0, g.c - 1);
    if behind > wall {
        m.set_cell(row, behind, true);
    }
    let at = g.o[0] + wall as f64 * res;
    // Off the map, on it, or in the wall itself.
    let from = match c.us(0, 3) {
        0 => g.o[0] - c.us(1, 64) as f64 / 8.0,
        1 => at + res * c.pick(&[0.25, 0.5, 0.75]),
        _ => at - c.us(1, 8 * wall + 8) as f64 * res / 8.0,
    };
    let far = (at - from).max(0.0);
    let y = g.o[1] + (row as f64 + c.pick(&[0.25, 0.5, 0.75])) * res;
    c.note("map, wall, start, distance", &(g, row, wall, from, far));
    let cast = |max: f64| m.cast_ray([T::t(from), T::t(y)], T::ZERO, T::t(max)).map(|v| v.d());
    let (just, short, long) = (cast(far), cast(far - 0.0625), cast(far + 0.0625));
    c.eq("a reach of just the distance", just, Some(far));
    c.eq("a longer reach", long, Some(far));
    if far > 0.0 {
        c.eq("too short a reach", short, None);
        c.hit("exact beam reach");
    } else {
        c.hit("beam from inside a wall, no reach");
    }
}
fn rays<T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let most = c.pick(&[3, 8, 25, 60]);
    let g = geo::<T>(c, most);
    let mut w = own::<T>(g);
    let mut m = grid::<T>(c, g);
    let density = c.pick(&[0.02, 0.1, 0.4, 1.0]);
    let mut full = vec![];
    for a in 0..g.r {
        for b in 0..g.c {
            if c.p(density) {
                w.set_cell(a, b, true);
                m.set_cell(a, b, true);
                full.push((a, b));
            }
        }
    }
    let h = g.high();
    for _ in 0..6 {
        let span = [h[0] - g.o[0], h[1] - g.o[1]];
        let s = rt::<2, T>(match c.us(0, 3) {
            0 => { let k = c.f(0.5, 20.0); [g.o[0] + span[0] * c.f(-k, k), g.o[1] + span[1] * c.f(-k, k)] }
            1 => [g.o[0] + g.res * c.us(0, g.c) as f64, g.o[1] + g.res * (c.us(0, g.r) as f64 + c.pick(&[0.0, 0.5]))],
            _ => [g.o[0] + span[0] * c.unit(), g.o[1] + span[1] * c.unit()],
        });
        let b = T::t(match c.us(0, 4) {
            0 => std::f64::consts::FRAC_PI_2 * c.int(-4, 4) as f64,
            1 => std::f64::consts::FRAC_PI_4 * c.int(-8, 8) as f64,
            2 => std::f64::consts::FRAC_PI_2 * c.int(-4, 4) as f64 + c.ls(-12.0, -2.0),
            _ => c.f(-7.0, 7.0),
        });
        let max = T::t(match c.us(0, 3) {
            0 => f64::INFINITY,
            1 => g.res * c.f(0.0, 10.0),
            2 => 0.0,
            _ => 3.0 * (span[0] + span[1]),
        });
        c.note("start, bearing, reach", &(s, b, max));
        // The beam the library can represent: its own cosine and sine, which are within rounding of the bearing's.
        let u = [dd(b.cos().d()), dd(b.sin().d())];
        let (sn, cs) = dd(b.d()).sincos();
        c.near("direction", ((u[0] - cs).f().abs()).max((u[1] - sn).f().abs()), 0.0, 2.0 * e * 1.01);
        let scale = g.size() + s[0].abs() + s[1].abs();
        let d = 8.0 * e * scale * (4 + g.c + g.r) as f64;
        let (mut low, mut high) = (f64::INFINITY, f64::INFINITY);
        for (a, k) in &full {
            let lo = [dd(g.o[0]) + dd(*k as f64) * dd(g.res), dd(g.o[1]) + dd(*a as f64) * dd(g.res)];
            let hi = [lo[0] + dd(g.res), lo[1] + dd(g.res)];
            if let Some((t, _)) = slab(s, u, lo, hi, d) {
                low = low.min(t);
            }
            if let Some((t, _)) = slab(s, u, lo, hi, -d) {
                high = high.min(t);
            }
        }
        let tol = 2.0 * d;
        let mx = max.d();
        let got = w.cast_ray(s.map(T::t), b, max).map(|v| v.d());
        c.eq("same-through-the-library's-grid", m.cast_ray(s.map(T::t), b, max).map(|v| v.d()), got);
        match got {
            None => {
                c.ok(high + tol > mx || high == f64::INFINITY, "missed", || format!("no hit, but a blocked cell is met by {high} within {mx}"));
                c.hit("beam that met nothing");
            }
            Some(x) => {
                c.ok(x >= low - tol && x <= high + tol && x <= mx && x >= 0.0, "hit", || format!("hit at {x}, true hit between {low} and {high}, reach {mx}"));
                c.hit("beam that met a wall");
                if x == 0.0 {
                    c.hit("beam from inside a wall");
                }
            }
        }
    }
    // Hostile beams end, without a panic.
    let hs = c.arr::<4>(|c| c.hostile());
    c.note("hostile", &hs);
    let _ = w.cast_ray([T::t(hs[0]), T::t(hs[1])], T::t(hs[2]), T::t(hs[3]));
    let _ = w.cell_of([T::t(hs[0]), T::t(hs[1])]);
}
/// Distance from a box to a segment, a cell's box first.
fn seg_meets_box(a: [f64; 2], b: [f64; 2], lo: [f64; 2], hi: [f64; 2], d: f64) -> bool {
    let u = [dd(b[0]) - dd(a[0]), dd(b[1]) - dd(a[1])];
    let (l, h) = (lo.map(dd), hi.map(dd));
    slab(a, u, l, h, d).is_some_and(|(t, _)| t <= 1.0)
}
fn cell_box(g: &Geo, a: usize, b: usize) -> ([f64; 2], [f64; 2]) {
    let lo = [g.o[0] + b as f64 * g.res, g.o[1] + a as f64 * g.res];
    (lo, [lo[0] + g.res, lo[1] + g.res])
}
fn lines<T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let g = geo::<T>(c, 25);
    let mut w = own::<T>(g);
    let h = g.high();
    let n = c.us(0, 5);
    let out = c.p(0.4);
    let k = if out { c.pick(&[1.0, 5.0, if T::F32 { 50.0 } else { 1e7 }]) } else { 0.0 };
    let pts: Vec<[f64; 2]> = (0..n).map(|_| rt::<2, T>([g.o[0] + (h[0] - g.o[0]) * c.f(-k, 1.0 + k), g.o[1] + (h[1] - g.o[1]) * c.f(-k, 1.0 + k)])).collect();
    let closed = c.p(0.5);
    c.note("points, closed", &(&pts, closed));
    let tp: Vec<[T; 2]> = pts.iter().map(|p| p.map(T::t)).collect();
    w.occupy_polyline(&tp, closed);
    let edges: Vec<([f64; 2], [f64; 2])> = (0..if closed { n } else { n.saturating_sub(1) }).map(|i| (pts[i], pts[(i + 1) % n])).collect();
    let far = pts.iter().fold(0.0f64, |m, p| m.max(p[0].abs()).max(p[1].abs()));
    let d = 16.0 * e * (g.size() + far);
    // Nothing is marked away from the lines.
    for a in 0..g.r {
        for b in 0..g.c {
            if w.is_occupied(a, b) {
                let (lo, hi) = cell_box(&g, a, b);
                c.ok(edges.iter().any(|(p, q)| seg_meets_box(*p, *q, lo, hi, d)), "stray", || format!("cell ({a}, {b}) is marked but no edge meets it"));
            }
        }
    }
    // A beam across any drawn edge, well inside the map, is stopped there.
    for (p, q) in &edges {
        let len = ((q[0] - p[0]).powi(2) + (q[1] - p[1]).powi(2)).sqrt();
        for _ in 0..4 {
            let t = c.unit();
            // On the map: clip by hand to a point of the edge inside it.
            let x = [p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])];
            let x = if k > 1.0 || x[0] < g.o[0] || x[1] < g.o[1] || x[0] > h[0] || x[1] > h[1] {
                // aim at the middle of the map and keep the crossing with the edge if there is one
                let u = [q[0] - p[0], q[1] - p[1]];
                match slab(*p, u.map(dd), g.o.map(dd), h.map(dd), -0.5 * g.res) {
                    Some((a, b)) if a <= 1.0 => {
                        let f = a + (b.min(1.0) - a) * c.unit();
                        [p[0] + f * u[0], p[1] + f * u[1]]
                    }
                    _ => continue,
                }
            } else {
                x
            };
            // Away from the ends of the edge the wall must be met.
            let end = ((x[0] - p[0]).hypot(x[1] - p[1])).min((x[0] - q[0]).hypot(x[1] - q[1]));
            if end < 3.0 * g.res || d > 0.01 * g.res {
                continue;
            }
            let dir = [(q[0] - p[0]) / len, (q[1] - p[1]) / len];
            let th = dir[1].atan2(dir[0]) + c.sign() * c.f(0.6, 2.5);
            let r = g.res * c.f(1.0, 6.0);
            let s = [x[0] - r * th.cos(), x[1] - r * th.sin()];
            // The far side must still be over the map, or the beam leaves before it gets there.
            let m = 2.5 * g.res;
            if [x[0] - m, s[0]].iter().any(|v| *v < g.o[0]) || [x[0] + m, s[0]].iter().any(|v| *v > h[0]) || x[0] - m < g.o[0] || x[0] + m > h[0] || x[1] - m < g.o[1] || x[1] + m > h[1] || s[1] < g.o[1] || s[1] > h[1] {
                continue;
            }
            c.note("beam", &(s, th, r));
            let got = w.cast_ray(rt::<2, T>(s).map(T::t), T::t(th), T::t(r + 3.0 * g.res));
            c.ok(got.is_some(), "gap", || format!("a beam from {s:?} bearing {th} slipped through the edge {p:?} - {q:?} at {x:?}"));
            c.hit("beam across a drawn wall");
        }
    }
    c.hit("polyline judged");
    // Points that are nowhere draw nothing and do not hang.
    let mut w = own::<T>(g);
    let z = c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    let p = g.o.map(T::t);
    let q = if c.p(0.5) { [T::t(z), p[1]] } else { [p[0], T::t(z)] };
    w.occupy_polyline(&[q, [T::t(z), T::t(z)]], closed);
    c.ok(w.cells.iter().all(|b| !b), "nowhere", || "cells were marked".into());
    w.occupy_polyline(&[p, q], closed);
    w.occupy_circle([T::t(z), T::t(0.0)], T::ONE);
    w.occupy_circle(p, T::t(z));
    let b = c.hostile();
    let hs = c.arr::<4>(|c| c.hostile());
    w.occupy_polyline(&[p, [T::t(b), T::t(hs[0])]], closed);
    w.occupy_circle([T::t(hs[1]), T::t(hs[2])], T::t(hs[3]));
    c.hit("hostile drawing ended");
}
fn circles<T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let g = geo::<T>(c, 40);
    let mut w = own::<T>(g);
    let h = g.high();
    let span = [h[0] - g.o[0], h[1] - g.o[1]];
    let big = c.p(0.4);
    let (ctr, r) = if big {
        // A rim far larger than the map, crossing it.
        let r = g.res * if T::F32 { c.lu(1.0, 3.7) } else { c.lu(1.0, 8.0) };
        let th = c.f(0.0, 6.3);
        let x = [g.o[0] + span[0] * c.f(0.2, 0.8), g.o[1] + span[1] * c.f(0.2, 0.8)];
        ([x[0] - r * th.cos(), x[1] - r * th.sin()], r)
    } else {
        let x = [g.o[0] + span[0] * c.f(0.0, 1.0), g.o[1] + span[1] * c.f(0.0, 1.0)];
        (x, if c.p(0.2) { g.res * c.f(0.0, 1.0) } else { 0.5 * span[0].min(span[1]) * c.unit() })
    };
    let ([cx, cy], [r]) = (rt::<2, T>(ctr), rt::<1, T>([r]));
    c.note("centre, radius", &(cx, cy, r));
    w.occupy_circle([T::t(cx), T::t(cy)], T::t(r));
    let d = 64.0 * e * (g.size() + cx.abs() + cy.abs() + r);
    if d > 0.05 * g.res {
        c.discard();
    }
    for a in 0..g.r {
        for b in 0..g.c {
            if w.is_occupied(a, b) {
                let (lo, hi) = cell_box(&g, a, b);
                let nx = cx.max(lo[0]).min(hi[0]) - cx;
                let ny = cy.max(lo[1]).min(hi[1]) - cy;
                let near = nx.hypot(ny);
                let fx = (lo[0] - cx).abs().max((hi[0] - cx).abs());
                let fy = (lo[1] - cy).abs().max((hi[1] - cy).abs());
                c.ok(near - d <= r && fx.hypot(fy) + d >= r, "stray", || format!("cell ({a}, {b}) is marked but the rim of radius {r} is {near} to {} away", fx.hypot(fy)));
            }
        }
    }
    c.hit("circle judged");
    // Every stretch of rim on the map is a wall: no beam crosses it.
    for _ in 0..6 {
        let th = c.f(0.0, 6.3);
        let th = if big { ((h[1] + g.o[1]) / 2.0 - cy + span[1] * c.f(-0.3, 0.3)).atan2((h[0] + g.o[0]) / 2.0 - cx + span[0] * c.f(-0.3, 0.3)) } else { th };
        let x = [cx + r * th.cos(), cy + r * th.sin()];
        let m = 2.5 * g.res;
        if x[0] - m < g.o[0] || x[0] + m > h[0] || x[1] - m < g.o[1] || x[1] + m > h[1] {
            continue;
        }
        // A point just inside the rim, looking out (or just outside, looking in).
        let b = th + c.f(-0.6, 0.6);
        let k = (g.res * c.f(1.5, 2.4)).min(r);
        let outward = r < 2.5 * g.res || c.p(0.5);
        let (s, b) = if outward {
            let s = [x[0] - k * b.cos(), x[1] - k * b.sin()];
            (s, b)
        } else {
            ([x[0] + k * b.cos(), x[1] + k * b.sin()], b + std::f64::consts::PI)
        };
        if outward && (s[0] - cx).hypot(s[1] - cy) > r {
            continue;
        }
        c.note("beam", &(s, b));
        let got = w.cast_ray(rt::<2, T>(s).map(T::t), T::t(b), T::t(k + 3.0 * g.res));
        c.ok(got.is_some(), "gap", || format!("a beam from {s:?} bearing {b} slipped through the rim at {x:?}"));
        c.hit("beam across a drawn rim");
        if r > 1000.0 * g.res {
            c.hit("beam across a very large rim");
        }
    }
}
fn scan<const N: usize, T: Fl>(c: &mut Case) {
    let e = T::EPS;
    let tau = T::TWO_PI.d();
    let fov = T::t(match c.us(0, 3) {
        0 => tau,
        1 => c.pick(&[1.5707963, 3.1415926, 4.712389, 0.1, 1.0, 2.0, 3.0]),
        _ => c.f(1e-3, tau),
    });
    let max = T::t(c.lu(-2.0, 2.0));
    c.note("field of view, reach", &(fov, max));
    let s = c.get("scan", ScanGeometry::<N, T>::try_new(fov, max));
    c.eq("kept", (s.num_beams(), s.field_of_view().d(), s.minimum_range().d(), s.maximum_range().d()), (N, fov.d(), 0.0, max.d()));
    let inc = fov.d() / (N - 1) as f64;
    c.near("increment", s.angle_increment().d(), inc, 4.0 * e * inc);
    let mut last = f64::NEG_INFINITY;
    for i in 0..N {
        let a = s.beam_angle(i);
        let a = c.some("beam", a);
        c.near("beam-angle", a.d(), -fov.d() / 2.0 + inc * i as f64, 6.0 * e * fov.d());
        c.ok(a.d() > last, "beams-in-order", || format!("{i}"));
        last = a.d();
        if inc > 64.0 * e * fov.d() {
            c.eq("beam-of-its-own-angle", s.nearest_beam_index(a), Some(i));
        }
    }
    c.eq("no-such-beam", (s.beam_angle(N), s.beam_angle(usize::MAX)), (None, None));
    for _ in 0..8 {
        let a = T::t(c.f(-0.6, 0.6) * fov.d());
        let got = s.nearest_beam_index(a);
        let half = fov.d() / 2.0;
        if a.d().abs() > half * (1.0 + 8.0 * e) {
            c.eq("outside-the-arc", got, None);
        } else if a.d().abs() < half * (1.0 - 8.0 * e) {
            let i = c.some("nearest", got);
            let b = s.beam_angle(i).unwrap().d();
            c.ok(i < N && (b - a.d()).abs() <= inc * 0.5 + 8.0 * e * fov.d(), "nearest", || format!("{a:?} → beam {i} at {b}"));
        }
    }
    c.eq("nowhere", (s.nearest_beam_index(T::NAN), s.nearest_beam_index(T::INFINITY)), (None, None));
    let min = T::t(max.d() * c.f(0.0, 0.99));
    let m = c.get("minimum", s.with_minimum_range(min));
    for r in [min, max, T::t(max.d() * c.f(-0.2, 1.3)), T::NAN, T::INFINITY, T::NEG_INFINITY] {
        c.eq("valid-range", m.range_is_valid(r), r.d().is_finite() && r.d() >= min.d() && r.d() <= max.d());
    }
    c.eq("bad-minimum", (s.with_minimum_range(T::t(f64::NAN)).err(), s.with_minimum_range(max).err(), s.with_minimum_range(T::t(-1e-9)).err()), (Some(E::NonFinite), Some(E::InvalidRangeLimits), Some(E::InvalidRangeLimits)));
    let bad = c.pick(&[f64::NAN, f64::INFINITY]);
    let (nf, nr) = (c.pick(&[0.0, -0.0, -1.0, 6.4]), c.pick(&[0.0, -0.0, -1.0]));
    c.eq("refused", (
        ScanGeometry::<N, T>::try_new(T::t(bad), max).err(),
        ScanGeometry::<N, T>::try_new(fov, T::t(bad)).err(),
        ScanGeometry::<N, T>::try_new(T::t(nf), max).err(),
        ScanGeometry::<N, T>::try_new(fov, T::t(nr)).err(),
        ScanGeometry::<1, T>::try_new(fov, max).err(),
        ScanGeometry::<0, T>::try_new(fov, max).err(),
    ), (Some(E::NonFinite), Some(E::NonFinite), Some(E::InvalidFieldOfView), Some(E::NonPositiveRange), Some(E::TooFewBeams), Some(E::TooFewBeams)));
    c.hit("scan judged");
}
fn main() {
    vmon::run("C23", |s| {
        s.rule("A case counts when stored cells, a beam, a drawn line or rim, or a scan's beams were judged against exact box crossings in double-double; distinct = distinct maps and inputs.");
        s.assume("A beam within rounding of a cell's edge may be judged to meet it or not; points within rounding of a cell edge may belong to either cell.");
        macro_rules! both {
            ($n:literal, $q:expr, $f:expr, $g:expr) => {
                s.monitor($n, $q, 20, |c| if c.p(0.35) { $f(c) } else { $g(c) })
            };
        }
        both!("storage", 20000, storage::<f32>, storage::<f64>);
        both!("rays", 15000, rays::<f32>, rays::<f64>);
        both!("exact-beams", 10000, exact_beam::<f32>, exact_beam::<f64>);
        both!("lines", 20000, lines::<f32>, lines::<f64>);
        both!("circles", 15000, circles::<f32>, circles::<f64>);
        both!("scan-2", 4000, scan::<2, f32>, scan::<2, f64>);
        both!("scan-7", 8000, scan::<7, f32>, scan::<7, f64>);
        both!("scan-60", 3000, scan::<60, f32>, scan::<60, f64>);
        both!("scan-361", 1000, scan::<361, f32>, scan::<361, f64>);
        for (e, n) in [("storage judged", 10000), ("beam that met a wall", 20000), ("beam that met nothing", 5000), ("beam from inside a wall", 1000), ("beam across a drawn wall", 2000), ("polyline judged", 10000), ("hostile drawing ended", 10000), ("beam across a drawn rim", 5000), ("beam across a very large rim", 200), ("circle judged", 5000), ("scan judged", 10000), ("exact beam reach", 4000), ("beam from inside a wall, no reach", 1000)] {
            s.require(e, n);
        }
    })
}
