//! Robot model documents: a small tree of elements, writers, generators and an
//! independent reading of what MJCF and URDF documents mean.
use crate::ctx::Case;
use crate::dd::{DD, dd};
use crate::rm::RM;
use crate::rot::*;
use std::collections::BTreeMap;

/// One element: attributes in order, children in order.
#[derive(Clone, Debug, PartialEq)]
pub struct El {
    pub tag: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<El>,
}
pub fn el(tag: &str) -> El {
    El { tag: tag.into(), attrs: vec![], kids: vec![] }
}
impl El {
    pub fn a(mut self, k: &str, v: impl Into<String>) -> El {
        self.set(k, v);
        self
    }
    pub fn k(mut self, e: El) -> El {
        self.kids.push(e);
        self
    }
    pub fn set(&mut self, k: &str, v: impl Into<String>) {
        self.attrs.retain(|(n, _)| n != k);
        self.attrs.push((k.into(), v.into()));
    }
    pub fn unset(&mut self, k: &str) {
        self.attrs.retain(|(n, _)| n != k);
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|(n, _)| n == k).map(|(_, v)| v.as_str())
    }
    pub fn nums(&self, k: &str) -> Option<Vec<f64>> {
        self.get(k).map(|t| t.split_whitespace().map(|w| w.parse().unwrap()).collect())
    }
    pub fn all<'a>(&'a self, tag: &'a str) -> impl Iterator<Item = &'a El> + 'a {
        self.kids.iter().filter(move |e| e.tag == tag)
    }
    pub fn first(&self, tag: &str) -> Option<&El> {
        self.kids.iter().find(|e| e.tag == tag)
    }
    /// Every element, itself first, by path of child positions.
    pub fn paths(&self) -> Vec<Vec<usize>> {
        let mut out = vec![vec![]];
        for (i, k) in self.kids.iter().enumerate() {
            for mut p in k.paths() {
                p.insert(0, i);
                out.push(p);
            }
        }
        out
    }
    pub fn at(&self, p: &[usize]) -> &El {
        p.iter().fold(self, |e, i| &e.kids[*i])
    }
    pub fn at_mut(&mut self, p: &[usize]) -> &mut El {
        p.iter().fold(self, |e, i| &mut e.kids[*i])
    }
}

/// Text of a number, in one of the ways people write them. Reads back as `v`.
pub fn num(c: &mut Case, v: f64) -> String {
    match c.us(0, 5) {
        0 => format!("{v:e}"),
        1 if v >= 0.0 => format!("+{v}"),
        2 if v == v.trunc() && v.abs() < 1e9 => format!("{v:.0}."),
        3 => format!("{v:E}"),
        _ => format!("{v}"),
    }
}
pub fn list(c: &mut Case, v: &[f64]) -> String {
    let mut s = String::new();
    if c.p(0.1) {
        s.push(' ');
    }
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            let gap = c.pick(&[" ", " ", " ", "  ", "\t", "\n"]);
            s += gap;
        }
        s += &num(c, *x);
    }
    if c.p(0.1) {
        s.push(' ');
    }
    s
}
fn escape(c: &mut Case, t: &str, quote: char, out: &mut String) {
    for ch in t.chars() {
        match ch {
            '&' => *out += "&amp;",
            '<' => *out += "&lt;",
            '\n' | '\r' | '\t' if t.chars().any(|c| c.is_alphabetic()) => *out += &format!("&#{};", ch as u32),
            _ if ch == quote => *out += if quote == '"' { "&quot;" } else { "&apos;" },
            _ if ch.is_alphanumeric() && c.p(0.004) => *out += &format!("&#x{:x};", ch as u32),
            _ => out.push(ch),
        }
    }
}
/// The document as text, with the freedom XML gives.
pub fn write(c: &mut Case, e: &El, plain: bool, out: &mut String) {
    let gap = |c: &mut Case| if plain { "" } else { c.pick(&["", "", "\n", "  ", "\n\t", "<!-- <body> -->", "<?x y?>", "text", "\u{e9}"]) };
    *out += "<";
    *out += &e.tag;
    for (k, v) in &e.attrs {
        let quote = if !plain && c.p(0.3) { '\'' } else { '"' };
        *out += if !plain && c.p(0.1) { "\n  " } else { " " };
        *out += k;
        *out += if !plain && c.p(0.05) { " = " } else { "=" };
        out.push(quote);
        escape(c, v, quote, out);
        out.push(quote);
    }
    if e.kids.is_empty() && (plain || c.p(0.8)) {
        *out += "/>";
        return;
    }
    *out += ">";
    for k in &e.kids {
        let g = gap(c);
        *out += g;
        write(c, k, plain, out);
    }
    let g = gap(c);
    *out += g;
    *out += "</";
    *out += &e.tag;
    *out += ">";
}
pub fn text(c: &mut Case, e: &El) -> String {
    let mut s = String::new();
    let plain = c.p(0.3);
    if !plain {
        let head = c.pick(&["", "<?xml version=\"1.0\"?>\n", "<!-- a model -->\n", "\u{feff}"]);
        s += head;
    }
    write(c, e, plain, &mut s);
    s
}

// ---------------------------------------------------------------- what a document means

#[derive(Clone, Debug)]
pub struct Jnt {
    pub name: String,
    pub kind: &'static str,
    pub axis: [f64; 3],
    pub anchor: [f64; 3],
    pub limits: Option<(DD, DD)>,
    pub zero: DD,
    pub armature: f64,
    pub damping: f64,
    pub friction: f64,
    pub spring_ref: DD,
    pub stiffness: f64,
    pub mimic: Option<(String, f64, f64)>,
}
#[derive(Clone, Debug)]
pub struct Mass {
    pub mass: DD,
    pub com: V,
    /// About the balance point, body axes.
    pub tensor: RM,
    /// How far its parts reach, for rounding.
    pub size: f64,
}
#[derive(Clone, Debug)]
pub struct Bod {
    pub name: String,
    pub parent: Option<usize>,
    pub q: Q,
    pub t: [f64; 3],
    pub inertia: Option<Mass>,
    pub joint: Option<Jnt>,
}
#[derive(Clone, Debug)]
pub struct Model {
    pub name: String,
    pub bodies: Vec<Bod>,
    pub floating: bool,
    pub ignored: Vec<String>,
}

fn v3(v: Option<Vec<f64>>, d: [f64; 3]) -> [f64; 3] {
    v.map_or(d, |v| [v[0], v[1], v[2]])
}
fn q4(v: Option<Vec<f64>>) -> Q {
    qunit(v.map_or(qid(), |v| q_of([v[0], v[1], v[2], v[3]])))
}
/// `R diag R^T` with R the rotation of `q`.
fn turned(q: Q, m: &RM) -> RM {
    let r = qmat(q);
    r.mul(m).mul(&r.t())
}
fn mat3(f: impl Fn(usize, usize) -> DD) -> RM {
    let mut m = RM::zeros(3, 3);
    for i in 0..3 {
        for j in 0..3 {
            *m.at_mut(i, j) = f(i, j);
        }
    }
    m
}
fn diag3(v: [DD; 3]) -> RM {
    mat3( |i, j| if i == j { v[i] } else { dd(0.0) })
}
fn shift(mass: DD, o: V) -> RM {
    let s = vdot(o, o);
    mat3( |i, j| mass * ((if i == j { s } else { dd(0.0) }) - o[i] * o[j]))
}
/// Tensor of a round bar about the unit line `n`: `along` about it, `across` any other way.
fn round(n: V, along: DD, across: DD) -> RM {
    mat3( |i, j| (if i == j { across } else { dd(0.0) }) + (along - across) * n[i] * n[j])
}

/// What MJCF says each class sets: root under "main", nested ones flattened.
type Classes = BTreeMap<(String, &'static str), BTreeMap<String, String>>;
fn over(base: &BTreeMap<String, String>, e: &El) -> BTreeMap<String, String> {
    let mut m = base.clone();
    for (k, v) in &e.attrs {
        if k != "class" && k != "name" {
            m.insert(k.clone(), v.clone());
        }
    }
    m
}
fn classes(root: &El) -> Classes {
    fn go(e: &El, top: bool, from: [BTreeMap<String, String>; 2], out: &mut Classes) {
        let [mut g, mut j] = from;
        for x in e.all("geom") {
            g = over(&g, x);
        }
        for x in e.all("joint") {
            j = over(&j, x);
        }
        let mut names: Vec<String> = e.get("class").map(String::from).into_iter().collect();
        if top {
            names.push("main".into());
        }
        for n in names {
            out.insert((n.clone(), "geom"), g.clone());
            out.insert((n, "joint"), j.clone());
        }
        for n in e.all("default") {
            go(n, false, [g.clone(), j.clone()], out);
        }
    }
    let mut out = Classes::new();
    out.insert(("main".into(), "geom"), BTreeMap::new());
    out.insert(("main".into(), "joint"), BTreeMap::new());
    for d in root.all("default") {
        let from = ["geom", "joint"].map(|k| out[&("main".to_string(), k)].clone());
        go(d, true, from, &mut out);
    }
    out
}
fn nums(m: &BTreeMap<String, String>, k: &str) -> Option<Vec<f64>> {
    m.get(k).map(|t| t.split_whitespace().map(|w| w.parse().unwrap()).collect())
}
fn one(m: &BTreeMap<String, String>, k: &str) -> Option<f64> {
    nums(m, k).map(|v| v[0])
}

/// Mass, balance point, tensor about it, of one shape; None when it weighs nothing.
fn shape(m: &BTreeMap<String, String>) -> Option<(DD, V, RM, f64)> {
    if one(m, "mass") == Some(0.0) {
        return None;
    }
    let kind = m.get("type").map_or("sphere", |s| s.as_str());
    let size = nums(m, "size").unwrap_or_default();
    let s: Vec<DD> = size.iter().map(|x| dd(*x)).collect();
    let ends = nums(m, "fromto");
    let pi = DD::PI_;
    let (q, mut center) = (q4(nums(m, "quat")), v_of(v3(nums(m, "pos"), [0.0; 3])));
    let mut n = qrot(q, v_of([0.0, 0.0, 1.0]));
    let mut half = *s.get(1).unwrap_or(&dd(0.0));
    if let Some(f) = &ends {
        let (a, b) = (v_of([f[0], f[1], f[2]]), v_of([f[3], f[4], f[5]]));
        let d = vsub(b, a);
        half = vnorm(d) * dd(0.5);
        n = vscale(d, dd(1.0) / vnorm(d));
        center = vscale(vadd(a, b), dd(0.5));
    }
    let volume = match kind {
        "sphere" => s[0] * s[0] * s[0] * pi * dd(4.0) / dd(3.0),
        "ellipsoid" => s[0] * s[1] * s[2] * pi * dd(4.0) / dd(3.0),
        "box" => s[0] * s[1] * s[2] * dd(8.0),
        "cylinder" => s[0].sq() * half * pi * dd(2.0),
        "capsule" => s[0].sq() * half * pi * dd(2.0) + s[0] * s[0] * s[0] * pi * dd(4.0) / dd(3.0),
        _ => unreachable!(),
    };
    let mass = one(m, "mass").map_or(dd(one(m, "density").unwrap_or(1000.0)) * volume, dd);
    if mass.f() == 0.0 {
        return None;
    }
    let t = match kind {
        "sphere" => diag3([mass * s[0].sq() * dd(2.0) / dd(5.0); 3]),
        "ellipsoid" | "box" => {
            let k = if kind == "box" { dd(3.0) } else { dd(5.0) };
            let p = |i: usize, j: usize| mass * (s[i].sq() + s[j].sq()) / k;
            turned(q, &diag3([p(1, 2), p(0, 2), p(0, 1)]))
        }
        "cylinder" => round(n, mass * s[0].sq() / dd(2.0), mass * (dd(3.0) * s[0].sq() + dd(4.0) * half.sq()) / dd(12.0)),
        _ => {
            // Half a ball at each end, balancing 3/8 of the radius beyond the flat face.
            let (bar, ball) = (s[0].sq() * half * pi * dd(2.0) / volume * mass, s[0] * s[0] * s[0] * pi * dd(4.0) / dd(3.0) / volume * mass);
            let r2 = s[0].sq();
            let off = half + s[0] * dd(3.0) / dd(8.0);
            let about_own = r2 * dd(2.0) / dd(5.0) - (s[0] * dd(3.0) / dd(8.0)).sq();
            round(n, bar * r2 / dd(2.0) + ball * r2 * dd(2.0) / dd(5.0), bar * (dd(3.0) * r2 + dd(4.0) * half.sq()) / dd(12.0) + ball * (about_own + off.sq()))
        }
    };
    let reach = size.iter().fold(half.f(), |m, x| m.max(x.abs()));
    Some((mass, center, t, reach + vnorm(center).f()))
}

pub fn mjcf(root: &El) -> Model {
    let cl = classes(root);
    let (mut degrees, mut auto, mut from_geom) = (true, true, "auto".to_string());
    for e in root.all("compiler") {
        degrees = e.get("angle").map_or(degrees, |a| a == "degree");
        auto = e.get("autolimits").map_or(auto, |a| a == "true");
        from_geom = e.get("inertiafromgeom").map_or(from_geom, |a| a.into());
    }
    let mut m = Model { name: root.get("model").unwrap_or("model").into(), bodies: vec![], floating: false, ignored: vec![] };
    fn tops<'a>(e: &'a El, out: &mut Vec<&'a El>) {
        for k in &e.kids {
            match k.tag.as_str() {
                "body" => out.push(k),
                "worldbody" => tops(k, out),
                _ => {}
            }
        }
    }
    let mut top = vec![];
    for w in root.all("worldbody") {
        tops(w, &mut top);
    }
    struct World<'a> {
        cl: &'a Classes,
        degrees: bool,
        auto: bool,
        from_geom: &'a str,
    }
    fn go(w: &World, e: &El, parent: Option<usize>, class: Option<&str>, m: &mut Model) {
        let class = e.get("childclass").or(class);
        let name = e.get("name").unwrap_or("body").to_string();
        let resolve = |x: &El, k: &'static str| {
            let n = x.get("class").or(class).unwrap_or("main");
            over(&w.cl[&(n.to_string(), k)], x)
        };
        let mut joint = None;
        for j in e.kids.iter().filter(|k| k.tag == "joint" || k.tag == "freejoint") {
            let s = resolve(j, "joint");
            if j.tag == "freejoint" || j.get("type") == Some("free") {
                m.floating = true;
                joint = Some(Jnt { name: name.clone(), kind: "Floating", axis: [1.0, 0.0, 0.0], anchor: [0.0; 3], limits: None, zero: dd(0.0), armature: 0.0, damping: 0.0, friction: 0.0, spring_ref: dd(0.0), stiffness: 0.0, mimic: None });
                continue;
            }
            let hinge = s.get("type").is_none_or(|t| t == "hinge");
            let turn = |x: f64| if hinge && w.degrees { dd(x) * DD::PI_ / dd(180.0) } else { dd(x) };
            let range = nums(&s, "range").map(|r| (turn(r[0]), turn(r[1])));
            let limits = match s.get("limited").map_or("auto", |x| x.as_str()) {
                "false" => None,
                "true" => range,
                _ => range.filter(|_| w.auto),
            };
            let ax = v_of(v3(nums(&s, "axis"), [0.0, 0.0, 1.0]));
            joint = Some(Jnt {
                name: j.get("name").unwrap_or("joint").into(),
                kind: if !hinge { "Prismatic" } else if limits.is_some() { "Revolute" } else { "Continuous" },
                axis: vf(vscale(ax, dd(1.0) / vnorm(ax))),
                anchor: v3(nums(&s, "pos"), [0.0; 3]),
                limits,
                zero: turn(one(&s, "ref").unwrap_or(0.0)),
                armature: one(&s, "armature").unwrap_or(0.0),
                damping: one(&s, "damping").unwrap_or(0.0),
                friction: one(&s, "frictionloss").unwrap_or(0.0),
                spring_ref: turn(one(&s, "springref").unwrap_or(0.0)),
                stiffness: one(&s, "stiffness").unwrap_or(0.0),
                mimic: None,
            });
        }
        let stated = e.first("inertial").filter(|_| w.from_geom != "true");
        let inertia = match stated {
            Some(i) => {
                let mass = dd(i.nums("mass").unwrap()[0]);
                let com = v_of(v3(i.nums("pos"), [0.0; 3]));
                let tensor = match i.nums("fullinertia") {
                    Some(f) => mat3( |r, c| dd([[f[0], f[3], f[4]], [f[3], f[1], f[5]], [f[4], f[5], f[2]]][r][c])),
                    None => {
                        let d = i.nums("diaginertia").unwrap();
                        turned(q4(i.nums("quat")), &diag3([dd(d[0]), dd(d[1]), dd(d[2])]))
                    }
                };
                Mass { mass, com, tensor, size: 0.0 }
            }
            None => {
                let parts: Vec<_> = e.all("geom").filter_map(|g| shape(&resolve(g, "geom"))).collect();
                let mass = parts.iter().fold(dd(0.0), |s, p| s + p.0);
                let com = parts.iter().fold(v_of([0.0; 3]), |s, p| vadd(s, vscale(p.1, p.0 / mass)));
                let tensor = parts.iter().fold(RM::zeros(3, 3), |s, p| s.add(&p.2).add(&shift(p.0, vsub(p.1, com))));
                Mass { mass, com, tensor, size: parts.iter().fold(0.0, |m, p| m.max(p.3)) }
            }
        };
        let index = m.bodies.len();
        m.bodies.push(Bod { name, parent, q: q4(e.nums("quat")), t: v3(e.nums("pos"), [0.0; 3]), inertia: Some(inertia), joint });
        for k in e.all("body") {
            go(w, k, Some(index), class, m);
        }
    }
    let w = World { cl: &cl, degrees, auto, from_geom: &from_geom };
    for b in top {
        go(&w, b, None, None, &mut m);
    }
    m.ignored = ignored(root, &["compiler", "default", "worldbody"]);
    m
}
fn ignored(root: &El, read: &[&str]) -> Vec<String> {
    let s: std::collections::BTreeSet<String> = root.kids.iter().map(|k| k.tag.clone()).filter(|t| !read.contains(&t.as_str())).collect();
    s.into_iter().collect()
}
fn rpy(v: [f64; 3]) -> Q {
    let turn = |axis: usize, a: f64| {
        let mut w = [0.0; 3];
        w[axis] = a;
        qexp(v_of(w))
    };
    qmul(qmul(turn(2, v[2]), turn(1, v[1])), turn(0, v[0]))
}
pub fn urdf(root: &El) -> Model {
    let origin = |e: &El| e.first("origin").map_or(([0.0; 3], qid()), |o| (v3(o.nums("xyz"), [0.0; 3]), rpy(v3(o.nums("rpy"), [0.0; 3]))));
    let mut m = Model { name: root.get("name").unwrap_or("model").into(), bodies: vec![], floating: false, ignored: ignored(root, &["link", "joint"]) };
    let child = |j: &El| j.first("child").unwrap().get("link").unwrap().to_string();
    let top = root.all("link").map(|l| l.get("name").unwrap_or("link")).find(|l| !root.all("joint").any(|j| child(j) == *l)).unwrap().to_string();
    let mut todo: Vec<(String, Option<usize>, Option<&El>)> = vec![(top, None, None)];
    while let Some((name, parent, via)) = todo.pop() {
        let link = root.all("link").find(|l| l.get("name").unwrap_or("link") == name).unwrap();
        let inertia = link.first("inertial").map(|i| {
            let (com, q) = origin(i);
            let n = i.first("inertia").unwrap();
            let g = |k: &str| dd(n.nums(k).unwrap()[0]);
            let t = [[g("ixx"), g("ixy"), g("ixz")], [g("ixy"), g("iyy"), g("iyz")], [g("ixz"), g("iyz"), g("izz")]];
            Mass { mass: dd(i.first("mass").unwrap().nums("value").unwrap()[0]), com: v_of(com), tensor: turned(q, &mat3( |r, c| t[r][c])), size: 0.0 }
        });
        let (t, q) = via.map_or(([0.0; 3], qid()), |j| origin(j));
        let joint = via.filter(|j| j.get("type") != Some("fixed")).map(|j| {
            let a = v_of(v3(j.first("axis").and_then(|a| a.nums("xyz")), [1.0, 0.0, 0.0]));
            let one = |tag: &str, k: &str, d: f64| j.first(tag).and_then(|e| e.nums(k)).map_or(d, |v| v[0]);
            let kind = match j.get("type").unwrap() {
                "revolute" => "Revolute",
                "continuous" => "Continuous",
                _ => "Prismatic",
            };
            Jnt {
                name: j.get("name").unwrap_or("joint").into(),
                kind,
                axis: vf(vscale(a, dd(1.0) / vnorm(a))),
                anchor: [0.0; 3],
                limits: (kind != "Continuous").then(|| (dd(one("limit", "lower", 0.0)), dd(one("limit", "upper", 0.0)))),
                zero: dd(0.0),
                armature: 0.0,
                damping: one("dynamics", "damping", 0.0),
                friction: one("dynamics", "friction", 0.0),
                spring_ref: dd(0.0),
                stiffness: 0.0,
                mimic: j.first("mimic").map(|e| (e.get("joint").unwrap().to_string(), one("mimic", "multiplier", 1.0), one("mimic", "offset", 0.0))),
            }
        });
        let index = m.bodies.len();
        m.bodies.push(Bod { name: name.clone(), parent, q, t, inertia, joint });
        let outgoing: Vec<&El> = root.all("joint").filter(|j| j.first("parent").unwrap().get("link") == Some(&name)).collect();
        for j in outgoing.into_iter().rev() {
            todo.push((child(j), Some(index), Some(j)));
        }
    }
    m
}

// ---------------------------------------------------------------- generated documents

pub fn value(c: &mut Case) -> f64 {
    match c.us(0, 7) {
        0 => 0.0,
        1 => c.int(-3, 3) as f64,
        2 => c.int(-200, 200) as f64 / 100.0,
        3 => c.ls(-8.0, 4.0),
        _ => c.f(-2.0, 2.0),
    }
}
fn positive(c: &mut Case) -> f64 {
    match c.us(0, 4) {
        0 => c.us(1, 9) as f64,
        1 => c.us(1, 300) as f64 / 100.0,
        2 => c.lu(-4.0, 6.0),
        _ => c.f(0.01, 2.0),
    }
}
pub fn label(c: &mut Case, stem: &str, k: usize) -> String {
    let dressing = c.pick(&["", "", "", "_", " a", "é", "<&>", "'\"", "\n// ", "/*", "{}"]);
    format!("{stem}{k}{dressing}")
}
fn quat(c: &mut Case) -> Vec<f64> {
    let k = c.pick(&[1.0, 1.0, 2.5, 1e-3, 300.0]);
    match c.us(0, 3) {
        0 => vec![0.7071068, 0.0, 0.7071068, 0.0],
        _ => gen_rot(c).iter().map(|x| x * k).collect(),
    }
}
fn axis(c: &mut Case) -> Vec<f64> {
    let s = c.pick(&[1.0, 1.0, -1.0, 0.1, 7.0]);
    if c.p(0.5) {
        let k = c.us(0, 2);
        (0..3).map(|i| if i == k { s } else { 0.0 }).collect()
    } else {
        c.unit3().iter().map(|x| x * s).collect()
    }
}
fn moments(c: &mut Case) -> [f64; 3] {
    let s = c.pick(&[1.0, 1e-4, 1e3, 1e6]);
    // Three masses on the axes make any physical triple.
    let m = [c.f(0.1, 1.0), c.f(0.1, 1.0), c.f(0.05, 1.0)].map(|x| x * s);
    [m[1] + m[2], m[0] + m[2], m[0] + m[1]]
}
/// A symmetric, physical tensor with small or large coupling: xx yy zz xy xz yz.
fn full(c: &mut Case) -> [f64; 6] {
    let d = moments(c);
    let q = if c.p(0.5) { gen_rot(c) } else { let s = c.lu(-7.0, -1.0); let u = c.unit3(); [1.0, u[0] * s, u[1] * s, u[2] * s] };
    let t = turned(qunit(q_of(q)), &diag3(d.map(dd)));
    [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)].map(|(i, j)| t.f(i, j))
}
/// Settings for a shape that weighs something, all on the element.
fn geom(c: &mut Case) -> El {
    let kind = c.pick(&["sphere", "ellipsoid", "box", "cylinder", "capsule", "capsule"]);
    let mut e = el("geom");
    if kind != "sphere" || c.p(0.7) {
        e.set("type", kind);
    }
    let n = match kind {
        "sphere" => 1,
        "ellipsoid" | "box" => 3,
        _ => 2,
    };
    let k = c.lu(-2.0, 0.5);
    let mut size = c.vecf(n, |c| k * c.f(0.05, 1.0));
    let ended = n == 2 && c.p(0.4);
    if ended {
        let a = c.arr::<3>(|c| c.f(-1.0, 1.0));
        let mut b = c.arr::<3>(|c| c.f(-1.0, 1.0));
        if c.p(0.3) {
            // Straight up or down.
            b = [a[0], a[1], a[2] + c.ls(-3.0, 0.0)];
        }
        let f: Vec<f64> = a.iter().chain(&b).copied().collect();
        let t = list(c, &f);
        e.set("fromto", t);
        if c.p(0.6) {
            size.truncate(1);
        }
    } else if c.p(0.7) {
        let p = c.vecf(3, value);
        let t = list(c, &p);
        e.set("pos", t);
    }
    let t = list(c, &size);
    e.set("size", t);
    if c.p(0.5) {
        let q = quat(c);
        let t = list(c, &q);
        e.set("quat", t);
    }
    match c.us(0, 3) {
        0 => {
            let v = positive(c);
            let t = num(c, v);
            e.set("mass", t);
        }
        1 => {
            let v = c.lu(0.0, 4.0);
            let t = num(c, v);
            e.set("density", t);
        }
        2 if c.p(0.1) => e.set("mass", "0"),
        _ => {}
    }
    e
}
fn joint(c: &mut Case) -> El {
    let mut e = el("joint");
    if c.p(0.6) {
        let k = c.pick(&["hinge", "hinge", "slide"]);
        e.set("type", k);
    }
    if c.p(0.7) {
        let a = axis(c);
        let t = list(c, &a);
        e.set("axis", t);
    }
    if c.p(0.4) {
        let p = c.vecf(3, value);
        let t = list(c, &p);
        e.set("pos", t);
    }
    if c.p(0.5) {
        let (a, b) = (value(c) * 30.0, value(c) * 30.0);
        let t = list(c, &[a.min(b), a.max(b)]);
        e.set("range", t);
    }
    for k in ["armature", "damping", "frictionloss", "ref", "springref", "stiffness"] {
        if c.p(0.25) {
            let v = if k == "ref" || k == "springref" { value(c) } else { positive(c) };
            let t = num(c, v);
            e.set(k, t);
        }
    }
    e
}
/// A document the reader should take, spread over classes and repeated sections.
pub fn gen_mjcf(c: &mut Case) -> El {
    gen_mjcf_with(c, true)
}
/// As `gen_mjcf`, with default classes or without any.
pub fn gen_mjcf_with(c: &mut Case, with_classes: bool) -> El {
    let mut root = el("mujoco");
    if c.p(0.7) {
        let n = label(c, "robot", 0);
        root.set("model", n);
    }
    let n = if c.p(0.05) { c.us(8, 30) } else { c.us(1, 8) };
    let mode = c.pick(&["auto", "auto", "auto", "true", "false"]);
    let mut comp = el("compiler");
    if mode != "auto" || c.p(0.2) {
        comp.set("inertiafromgeom", mode);
    }
    if c.p(0.5) {
        let a = c.pick(&["degree", "radian", "radian"]);
        comp.set("angle", a);
    }
    let auto = !c.p(0.2);
    if !auto || c.p(0.3) {
        comp.set("autolimits", if auto { "true" } else { "false" });
    }
    // Settings that do nothing.
    for (k, v) in [("settotalmass", "-1"), ("boundmass", "0"), ("balanceinertia", "false"), ("meshdir", "assets"), ("coordinate", "local")] {
        if c.p(0.08) {
            comp.set(k, v);
        }
    }
    // Bodies first, every setting on its own element.
    let mut bodies: Vec<El> = vec![];
    let mut parents: Vec<Option<usize>> = vec![];
    for i in 0..n {
        let mut b = el("body");
        if c.p(0.9) {
            let t = if i > 0 && c.p(0.03) { bodies[0].get("name").unwrap_or("body").to_string() } else { label(c, "b", i) };
            b.set("name", t);
        }
        if c.p(0.8) {
            let p = c.vecf(3, value);
            let t = list(c, &p);
            b.set("pos", t);
        }
        if c.p(0.5) {
            let q = quat(c);
            let t = list(c, &q);
            b.set("quat", t);
        }
        let parent = if i == 0 || c.p(0.08) { None } else if c.p(0.5) { Some(i - 1) } else { Some(c.us(0, i - 1)) };
        match c.us(0, 9) {
            0 if parent.is_none() => b.kids.push(if c.p(0.5) { el("freejoint") } else { el("joint").a("type", "free") }),
            0 | 1 => {}
            _ => {
                let mut j = joint(c);
                if c.p(0.8) {
                    let t = label(c, "j", i);
                    j.set("name", t);
                }
                if !auto || c.p(0.2) {
                    let has = j.get("range").is_some();
                    let t = if has && c.p(0.6) { "true" } else { "false" };
                    j.set("limited", t);
                }
                b.kids.push(j);
            }
        }
        let stated = match mode {
            "false" => true,
            "true" => c.p(0.5),
            _ => c.p(0.5),
        };
        if stated {
            let mut e = el("inertial");
            let v = positive(c);
            let t = num(c, v);
            e.set("mass", t);
            if c.p(0.7) {
                let p = c.vecf(3, value);
                let t = list(c, &p);
                e.set("pos", t);
            }
            if c.p(0.5) {
                let d = moments(c);
                let t = list(c, &d);
                e.set("diaginertia", t);
                if c.p(0.6) {
                    let q = if c.p(0.5) { quat(c) } else { let s = c.lu(-7.0, -1.0); let u = c.unit3(); vec![1.0, u[0] * s, u[1] * s, u[2] * s] };
                    let t = list(c, &q);
                    e.set("quat", t);
                }
            } else {
                let f = full(c);
                let t = list(c, &f);
                e.set("fullinertia", t);
            }
            b.kids.push(e);
        }
        if !stated || mode == "true" {
            for k in 0..c.us(1, 3) {
                let mut g = geom(c);
                if k == 0 && g.get("mass") == Some("0") {
                    g.unset("mass");
                }
                b.kids.push(g);
            }
            if c.p(0.1) {
                // Weightless, so of any form at all.
                b.kids.push(el("geom").a("type", "mesh").a("mesh", "shell").a("mass", "0"));
            }
        } else if c.p(0.3) {
            // Not asked for, so not read: shapes are not the source of this body's mass.
            b.kids.push(el("geom").a("type", "mesh").a("mesh", "shell"));
        }
        for k in ["site", "camera", "light"] {
            if c.p(0.1) {
                b.kids.push(el(k).a("name", k));
            }
        }
        let order = c.perm(b.kids.len());
        b.kids = order.iter().map(|i| b.kids[*i].clone()).collect();
        bodies.push(b);
        parents.push(parent);
    }
    let mut built: Vec<Option<El>> = bodies.into_iter().map(Some).collect();
    let mut world = el("worldbody");
    for i in (0..n).rev() {
        let b = built[i].take().unwrap();
        match parents[i] {
            Some(p) => {
                let at = built[p].as_ref().unwrap().kids.len();
                let at = if c.p(0.3) { c.us(0, at) } else { 0 };
                built[p].as_mut().unwrap().kids.insert(at, b);
            }
            None => world.kids.insert(0, b),
        }
    }
    if c.p(0.3) {
        world.kids.insert(0, el("geom").a("type", "plane").a("size", "0 0 1"));
        world.kids.push(el("light").a("pos", "0 0 3"));
    }
    let mut sections = vec![];
    if !comp.attrs.is_empty() || c.p(0.3) {
        // In one piece or several.
        let mut parts = vec![el("compiler")];
        for (k, v) in comp.attrs {
            if c.p(0.25) {
                parts.push(el("compiler"));
            }
            let k2 = k.clone();
            parts.last_mut().unwrap().set(&k2, v.clone());
            if c.p(0.1) && k == "angle" {
                // An earlier word that a later one overrules.
                parts[0].set("angle", "degree");
                parts.push(el("compiler").a("angle", v));
            }
        }
        sections.extend(parts);
    }
    let defaults = if with_classes { spread(c, &mut world, auto) } else { vec![] };
    sections.extend(defaults);
    for k in ["actuator", "asset", "sensor", "keyframe", "option", "visual", "contact"] {
        if c.p(0.12) {
            sections.push(el(k).k(el("x")));
        }
    }
    // The world in one piece or two.
    if world.kids.len() > 1 && c.p(0.3) {
        let k = c.us(1, world.kids.len() - 1);
        let rest = world.kids.split_off(k);
        if c.p(0.4) {
            let mut inner = el("worldbody");
            inner.kids = rest;
            world.kids.push(inner);
            sections.push(world);
        } else {
            sections.push(world);
            let mut w = el("worldbody");
            w.kids = rest;
            sections.push(w);
        }
    } else {
        sections.push(world);
    }
    // Repeats keep their order; the kinds of section may come in any.
    for _ in 0..c.us(0, 4) {
        let i = c.us(0, sections.len() - 1);
        if i > 0 && sections[i].tag != sections[i - 1].tag {
            sections.swap(i, i - 1);
        }
    }
    root.kids = sections;
    root
}
/// Adds classes that say things too, and hands elements over to them. Whatever comes out is
/// still a good document; what it means is for `mjcf` to say.
fn spread(c: &mut Case, world: &mut El, auto: bool) -> Vec<El> {
    if c.p(0.3) {
        return vec![];
    }
    fn settings(c: &mut Case, d: &mut El, auto: bool) {
        if c.p(0.6) {
            let mut g = el("geom");
            for (k, p) in [("density", 0.5), ("mass", 0.15), ("type", 0.0), ("quat", 0.2)] {
                if c.p(p) {
                    let t = match k {
                        "density" => { let v = c.lu(0.0, 4.0); num(c, v) }
                        "mass" => { let v = positive(c); num(c, v) }
                        _ => { let q = quat(c); list(c, &q) }
                    };
                    g.set(k, t);
                }
            }
            if c.p(0.3) {
                g.set("group", "2");
            }
            d.kids.push(g);
        }
        if c.p(0.6) {
            let mut j = joint(c);
            if c.p(0.7) {
                j.unset("type");
            }
            if c.p(0.6) {
                j.unset("range");
            }
            // A range stated here is there for everyone below, so this may be too.
            if c.p(0.5) {
                let t = if j.get("range").is_some() && c.p(0.6) { "true" } else if auto && c.p(0.3) { "auto" } else { "false" };
                j.set("limited", t);
            }
            d.kids.push(j);
        }
    }
    fn block(c: &mut Case, depth: usize, names: &mut Vec<String>, auto: bool) -> El {
        let mut d = el("default");
        if depth > 0 {
            let n = format!("class {}", names.len());
            d.set("class", n.clone());
            names.push(n);
        }
        settings(c, &mut d, auto);
        if depth < 4 {
            for _ in 0..c.us(0, if depth == 0 { 3 } else { 1 }) {
                let n = block(c, depth + 1, names, auto);
                let at = c.us(0, d.kids.len());
                d.kids.insert(at, n);
            }
        }
        d
    }
    let mut names = vec![];
    let mut out = vec![];
    for k in 0..c.us(1, 2) {
        let mut d = block(c, 0, &mut names, auto);
        if c.p(0.25) {
            d.set("class", if k == 0 { "main" } else { "top" });
            if k == 1 {
                names.push("top".into());
            }
        }
        out.push(d);
    }
    names.push("main".into());
    fn assign(c: &mut Case, e: &mut El, names: &[String], auto: bool, shapes: &mut Vec<El>) {
        match e.tag.as_str() {
            "body" if c.p(0.4) => {
                let n = c.pick(names);
                e.set("childclass", n);
            }
            "geom" | "joint" if e.get("type") != Some("free") && c.p(0.35) => {
                let n = c.pick(names);
                e.set("class", n);
            }
            _ => {}
        }
        // What the class says is often left to it.
        if e.tag == "geom" && e.get("density").is_some() && c.p(0.5) {
            e.unset("density");
        }
        if e.tag == "joint" && c.p(0.4) {
            for k in ["axis", "damping", "armature", "range"] {
                if c.p(0.5) && e.get("limited") != Some("true") {
                    e.unset(k);
                }
            }
        }
        if e.tag == "joint" && auto && e.get("type") != Some("free") && c.p(0.4) {
            e.unset("limited");
        }
        // A shape handed to a class of its own, in whole or part; what stays behind overrules
        // whatever the class says of it.
        if e.tag == "geom" && !matches!(e.get("type"), Some("mesh" | "plane")) && c.p(0.2) {
            let mut g = el("geom");
            for k in ["type", "size", "pos", "fromto", "quat"] {
                let Some(t) = e.get(k).map(String::from) else { continue };
                match c.us(0, 3) {
                    0 | 1 => {
                        g.set(k, t);
                        e.unset(k);
                    }
                    2 => {
                        let other = match k {
                            "type" => c.pick(&["box", "sphere", "capsule", "mesh"]).to_string(),
                            "size" => "0.5 0.25 7".into(),
                            "pos" => "3 4 5".into(),
                            "fromto" => "0 0 0 1 2 3".into(),
                            _ => "0 0 1 0".into(),
                        };
                        g.set(k, other);
                    }
                    _ => {}
                }
            }
            let n = format!("shape {}", shapes.len());
            e.set("class", n.clone());
            shapes.push(el("default").a("class", n).k(g));
        }
        for k in e.kids.iter_mut() {
            assign(c, k, names, auto, shapes);
        }
    }
    let mut shapes = vec![];
    assign(c, world, &names, auto, &mut shapes);
    for s in shapes {
        let d = c.us(0, out.len() - 1);
        let at = c.us(0, out[d].kids.len());
        out[d].kids.insert(at, s);
    }
    out
}
pub fn gen_urdf(c: &mut Case) -> El {
    let n = if c.p(0.05) { c.us(10, 30) } else { c.us(1, 9) };
    let origin = |c: &mut Case| {
        let mut o = el("origin");
        if c.p(0.9) {
            let p = c.vecf(3, value);
            let t = list(c, &p);
            o.set("xyz", t);
        }
        if c.p(0.7) {
            let p = if c.p(0.4) { c.vecf(3, |c| core::f64::consts::FRAC_PI_2 * c.int(-4, 4) as f64) } else { c.vecf(3, |c| c.f(-4.0, 4.0)) };
            let t = list(c, &p);
            o.set("rpy", t);
        }
        o
    };
    let mut links = vec![];
    let mut joints: Vec<El> = vec![];
    let names: Vec<String> = (0..n).map(|i| label(c, "link", i)).collect();
    for i in 0..n {
        let mut l = el("link").a("name", names[i].clone());
        if c.p(0.6) {
            let mut e = el("inertial");
            if c.p(0.7) {
                let o = origin(c);
                e.kids.push(o);
            }
            let v = positive(c);
            let t = num(c, v);
            e.kids.push(el("mass").a("value", t));
            let f = full(c);
            let mut m = el("inertia");
            for (k, v) in ["ixx", "iyy", "izz", "ixy", "ixz", "iyz"].iter().zip(f) {
                let t = num(c, v);
                m.set(k, t);
            }
            e.kids.push(m);
            l.kids.push(e);
        }
        for k in ["visual", "collision"] {
            if c.p(0.2) {
                let o = origin(c);
                l.kids.push(el(k).k(o).k(el("geometry").k(el("sphere").a("radius", "1"))));
            }
        }
        links.push(l);
        if i == 0 {
            continue;
        }
        let p = if c.p(0.5) { i - 1 } else { c.us(0, i - 1) };
        let kind = c.pick(&["revolute", "continuous", "prismatic", "fixed"]);
        let mut j = el("joint");
        if c.p(0.95) {
            let t = label(c, "joint", i);
            j.set("name", t);
        }
        j.set("type", kind);
        j.kids.push(el("parent").a("link", names[p].clone()));
        j.kids.push(el("child").a("link", names[i].clone()));
        if c.p(0.8) {
            let o = origin(c);
            j.kids.push(o);
        }
        if c.p(0.7) {
            let a = axis(c);
            let t = list(c, &a);
            j.kids.push(if c.p(0.95) { el("axis").a("xyz", t) } else { el("axis") });
        }
        if kind != "fixed" || c.p(0.1) {
            let (a, b) = (value(c), value(c));
            let (a, b) = (num(c, a.min(b)), num(c, a.max(b)));
            if kind != "continuous" || c.p(0.5) {
                j.kids.push(el("limit").a("lower", a).a("upper", b).a("effort", "1").a("velocity", "2"));
            }
            if c.p(0.4) {
                let mut d = el("dynamics");
                for k in ["damping", "friction"] {
                    if c.p(0.7) {
                        let v = positive(c);
                        let t = num(c, v);
                        d.set(k, t);
                    }
                }
                j.kids.push(d);
            }
            if c.p(0.08) {
                let mut e = el("mimic").a("joint", if i > 1 { label(c, "joint", 1) } else { "other".into() });
                for k in ["multiplier", "offset"] {
                    if c.p(0.5) {
                        let v = value(c);
                        let t = num(c, v);
                        e.set(k, t);
                    }
                }
                j.kids.push(e);
            }
            if c.p(0.1) {
                j.kids.push(el("safety_controller").a("soft_lower_limit", "-0.1"));
            }
        }
        let order = c.perm(j.kids.len());
        j.kids = order.iter().map(|i| j.kids[*i].clone()).collect();
        joints.push(j);
    }
    let mut root = el("robot");
    if c.p(0.8) {
        let t = label(c, "robot", 0);
        root.set("name", t);
    }
    let mut all: Vec<El> = links.into_iter().chain(joints).collect();
    for k in ["transmission", "gazebo", "material", "gazebo"] {
        if c.p(0.15) {
            all.push(el(k).k(el("link").a("name", "not a link")));
        }
    }
    let order = c.perm(all.len());
    root.kids = order.iter().map(|i| all[*i].clone()).collect();
    root
}
