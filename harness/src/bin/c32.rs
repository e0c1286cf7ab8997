//! C32: what a robot model file says is what loads, or a named refusal.
use multicalc::Vector;
use multicalc::error::SpatialError as SE;
use multicalc::kinematics::*;
use multicalc_robot_model::{ModelError as E, ModelFormat, RobotModel, load_path, load_str, mjcf as mj, urdf as ur};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use vmon::model::*;
use vmon::rot::*;
use vmon::*;

const EPS: f64 = f64::EPSILON;
const N: usize = 64;

fn doc(c: &mut Case) -> (El, Model, bool) {
    let u = c.p(0.45);
    let d = if u { gen_urdf(c) } else { gen_mjcf(c) };
    let m = if u { urdf(&d) } else { mjcf(&d) };
    (d, m, u)
}
/// The loaded model against the reading of the document.
fn same(c: &mut Case, g: &RobotModel, w: &Model, u: bool) {
    c.eq("model name", g.name(), w.name.as_str());
    c.eq("format", g.format(), if u { ModelFormat::Urdf } else { ModelFormat::Mjcf });
    c.eq("floating base", g.has_floating_base(), w.floating);
    c.eq("ignored", g.ignored().to_vec(), w.ignored.clone());
    c.eq("body count", (g.body_count(), g.bodies().len()), (w.bodies.len(), w.bodies.len()));
    c.eq("movable joints", g.movable_joint_count(), w.bodies.iter().filter(|b| b.joint.is_some()).count());
    c.ok(g.body(w.bodies.len()).is_none(), "body past the end", String::new);
    for (i, b) in w.bodies.iter().enumerate() {
        let x = g.body(i).unwrap();
        let at = |t: &str| format!("{t} of body {i}");
        c.eq(&at("name"), x.name(), b.name.as_str());
        c.eq(&at("parent"), x.parent(), b.parent);
        let first = w.bodies.iter().position(|o| o.name == b.name).unwrap();
        c.ok(g.body_named(&b.name).is_some_and(|f| core::ptr::eq(f, &g.bodies()[first])), "first body of a name", || b.name.clone());
        let p = x.pose();
        for k in 0..3 {
            c.same_bits(&at("position"), p.translation()[k] + 0.0, b.t[k] + 0.0);
        }
        let q = q_of(p.rotation().quaternion().as_array());
        let d = qmul(qconj(b.q), q);
        for k in 1..4 {
            c.near(&at("turn"), d[k].f(), 0.0, 6.0 * EPS);
        }
        c.near(&at("turn"), d[0].f().abs(), 1.0, 6.0 * EPS);
        match (&b.inertia, x.inertia()) {
            (None, None) => c.hit("body without mass properties"),
            (Some(m), Some(s)) => {
                c.rel(&at("mass"), s.mass(), m.mass.f(), 40.0 * EPS, 0.0);
                for k in 0..3 {
                    c.near(&at("balance point"), s.center_of_mass()[k], m.com[k].f(), 40.0 * EPS * m.size + EPS * m.com[k].f().abs());
                }
                let t = s.rotational_inertia();
                let size = m.tensor.maxabs() + m.mass.f() * m.size * m.size;
                for r in 0..3 {
                    for k in 0..3 {
                        c.near(&at("inertia"), t[(r, k)], m.tensor.f(r, k), 60.0 * EPS * size);
                    }
                }
            }
            (a, b) => c.fail("mass properties", format!("body {i}: want {a:?}, got {b:?}")),
        }
        match (&b.joint, x.joint()) {
            (None, None) => {}
            (Some(j), Some(y)) => joint(c, i, j, y),
            (a, b) => c.fail("joint", format!("body {i}: want {a:?}, got {b:?}")),
        }
    }
}
fn joint(c: &mut Case, i: usize, j: &Jnt, y: &multicalc_robot_model::JointDescription) {
    let at = |t: &str| format!("{t} of the joint of body {i}");
    c.eq(&at("name"), y.name(), j.name.as_str());
    c.eq(&at("kind"), format!("{:?}", y.kind()).as_str(), j.kind);
    for k in 0..3 {
        c.near(&at("axis"), y.axis()[k], j.axis[k], 4.0 * EPS);
        c.same_bits(&at("anchor"), y.anchor()[k] + 0.0, j.anchor[k] + 0.0);
    }
    match (y.limits(), j.limits) {
        (None, None) => c.hit("unbounded"),
        (Some((a, b)), Some((l, u))) => {
            c.rel(&at("lower limit"), a, l.f(), 4.0 * EPS, 0.0);
            c.rel(&at("upper limit"), b, u.f(), 4.0 * EPS, 0.0);
            c.hit("bounded");
        }
        (a, b) => c.fail("limits", format!("{}: got {a:?}, want {b:?}", at("limits"))),
    }
    c.rel(&at("zero"), y.zero_offset(), j.zero.f(), 4.0 * EPS, 0.0);
    c.rel(&at("spring rest"), y.spring_reference(), j.spring_ref.f(), 4.0 * EPS, 0.0);
    c.same_bits(&at("armature"), y.armature() + 0.0, j.armature + 0.0);
    c.same_bits(&at("damping"), y.damping() + 0.0, j.damping + 0.0);
    c.same_bits(&at("friction"), y.friction_loss() + 0.0, j.friction + 0.0);
    c.same_bits(&at("stiffness"), y.spring_stiffness() + 0.0, j.stiffness + 0.0);
    match (y.mimic(), &j.mimic) {
        (None, None) => {}
        (Some(m), Some((n, k, o))) => {
            c.eq(&at("mimic"), m.joint(), n.as_str());
            c.same_bits(&at("multiplier"), m.multiplier() + 0.0, *k + 0.0);
            c.same_bits(&at("offset"), m.offset() + 0.0, *o + 0.0);
            c.hit("mimic joint");
        }
        (a, b) => c.fail("mimic", format!("{}: got {a:?}, want {b:?}", at("mimic"))),
    }
    c.hit("joint read");
}
fn reading(c: &mut Case) {
    let (d, w, u) = doc(c);
    let t = text(c, &d);
    c.note("text", &t);
    let g = c.get("a good document loads", load_str(&t));
    same(c, &g, &w, u);
    let again = if u { ur::load_str(&t) } else { mj::load_str(&t) };
    c.ok(again == Ok(g), "the reader itself agrees", String::new);
    c.hit(if u { "urdf" } else { "mjcf" });
    if d.kids.iter().any(|k| k.tag == "default") {
        c.hit("default classes");
    }
    if d.kids.iter().filter(|k| k.tag == "worldbody").count() > 1 {
        c.hit("several worlds");
    }
    if d.kids.iter().filter(|k| k.tag == "compiler").count() > 1 {
        c.hit("several compilers");
    }
}
fn swap(e: &mut El) {
    if let Some(t) = e.get("range").map(String::from) {
        let w: Vec<&str> = t.split_ascii_whitespace().collect();
        e.set("range", format!("{} {}", w[1], w[0]));
    }
    if e.tag == "limit" {
        let (a, b) = (e.get("lower").map(String::from), e.get("upper").map(String::from));
        if let (Some(a), Some(b)) = (a, b) {
            e.set("lower", b);
            e.set("upper", a);
        }
    }
    for k in e.kids.iter_mut() {
        swap(k);
    }
}
/// Travel limits written the wrong way round: read as written, and no tree is made of them.
fn reversed(c: &mut Case) {
    let (mut d, _, u) = doc(c);
    swap(&mut d);
    let w = if u { urdf(&d) } else { mjcf(&d) };
    let t = text(c, &d);
    c.note("text", &t);
    let g = c.get("a good document loads", load_str(&t));
    same(c, &g, &w, u);
    let back = |b: &Bod| b.joint.as_ref().and_then(|j| j.limits).is_some_and(|(l, h)| l.f() > h.f());
    let free_later = w.bodies[1..].iter().any(|b| b.joint.as_ref().is_some_and(|j| j.kind == "Floating"));
    if w.bodies.iter().any(back) && !free_later {
        let want = w.bodies.iter().find_map(mimic).unwrap_or(E::Kinematics(multicalc::error::KinematicsError::LimitsReversed));
        c.eq("a tree with reversed limits", g.kinematic_tree::<N, N>().err(), Some(want));
        c.hit("reversed limits");
    }
}
/// The wrong reader for the root.
fn wrong_root(c: &mut Case) {
    let mut d = gen_urdf(c);
    d.tag = c.pick(&["mujoco", "Robot", "model", "sdf"]).to_string();
    let t = text(c, &d);
    let want = Some(E::UnexpectedRootElement { found: d.tag.clone() });
    c.eq("urdf reader", ur::load_str(&t).err(), want.clone());
    if d.tag != "mujoco" {
        c.eq("by root", load_str(&t).err(), want);
    }
    c.hit("wrong root");
}

// ---- trees ----
fn tree(c: &mut Case) {
    let (d, w, u) = doc(c);
    let t = text(c, &d);
    c.note("text", &t);
    let g = c.get("a good document loads", load_str(&t));
    let all: Vec<usize> = (0..w.bodies.len()).collect();
    check_tree(c, &w, u, &all, g.kinematic_tree::<N, N>());
    if w.bodies.len() > 3 {
        c.eq("too small a tree", g.kinematic_tree::<3, N>().err(), match w.bodies.iter().find_map(|b| mimic(b)) {
            Some(e) => Some(e),
            None => Some(E::TreeCapacityExceeded { needed: w.bodies.len(), capacity: 3 }),
        });
        c.hit("tree too small");
    }
    let tip = c.us(0, w.bodies.len() - 1);
    let tip = w.bodies.iter().position(|b| b.name == w.bodies[tip].name).unwrap();
    let mut chain = vec![tip];
    while let Some(p) = w.bodies[chain[0]].parent {
        chain.insert(0, p);
    }
    c.eq("path", g.path_to(&w.bodies[tip].name), Ok(chain.clone()));
    check_tree(c, &w, u, &chain, g.kinematic_tree_to::<N, N>(&w.bodies[tip].name));
    if chain.len() > 2 {
        let r = g.kinematic_tree_to::<2, N>(&w.bodies[tip].name);
        c.eq("too small a chain", r.err(), chain.iter().find_map(|i| mimic(&w.bodies[*i])).or(Some(E::TreeCapacityExceeded { needed: chain.len(), capacity: 2 })));
    }
    let none = E::UnknownBody { name: "no such body".into() };
    c.eq("unknown body", g.kinematic_tree_to::<N, N>("no such body").err(), Some(none.clone()));
    c.eq("path to an unknown body", g.path_to("no such body").err(), Some(none));
}
fn mimic(b: &Bod) -> Option<E> {
    let j = b.joint.as_ref()?;
    j.mimic.as_ref().map(|m| E::MimicJointInTree { joint: j.name.clone(), follows: m.0.clone() })
}
fn check_tree(c: &mut Case, w: &Model, u: bool, slots: &[usize], got: Result<KinematicTree<N, N, f64>, E>) {
    if let Some(e) = slots.iter().find_map(|i| mimic(&w.bodies[*i])) {
        c.eq("mimic joints do not fit a tree", got.err(), Some(e));
        c.hit("mimic refused");
        return;
    }
    let floats = |i: usize| w.bodies[i].joint.as_ref().is_some_and(|j| j.kind == "Floating");
    if slots[1..].iter().any(|i| floats(*i)) {
        c.eq("a free body beside others", got.err(), Some(E::Kinematics(multicalc::error::KinematicsError::FloatingJointNotAtRoot)));
        c.hit("free body in a later slot");
        return;
    }
    let t = c.get("tree", got);
    c.eq("slots", t.len(), slots.len());
    c.eq("floating", t.has_floating_base(), floats(slots[0]));
    for (k, i) in slots.iter().enumerate() {
        let b = &w.bodies[*i];
        let x = t.joint(k).unwrap();
        let up = b.parent.map_or(JointParent::World, |p| JointParent::Joint(slots.iter().position(|s| *s == p).unwrap()));
        c.eq("slot parent", t.parent(k), Some(up));
        let Some(j) = &b.joint else {
            c.eq("weld", x.kind(), JointKind::Fixed);
            continue;
        };
        c.eq("slot kind", format!("{:?}", x.kind()).as_str(), j.kind);
        if j.kind == "Floating" {
            continue;
        }
        match (x.limits(), j.limits) {
            (None, None) => {}
            (Some((a, b)), Some((l, u))) => {
                c.rel("slot lower limit", a, l.f(), 4.0 * EPS, 0.0);
                c.rel("slot upper limit", b, u.f(), 4.0 * EPS, 0.0);
            }
            (a, b) => c.fail("slot limits", format!("{a:?} {b:?}")),
        }
        c.rel("slot zero", x.zero_offset(), j.zero.f(), 4.0 * EPS, 0.0);
        c.same_bits("slot armature", x.armature() + 0.0, j.armature + 0.0);
        c.same_bits("slot damping", x.damping() + 0.0, j.damping + 0.0);
        c.same_bits("slot friction", x.friction_loss() + 0.0, j.friction + 0.0);
        c.hit("slot checked");
    }
    // Where everything is, from the file's own numbers.
    let q: Vec<f64> = (0..N).map(|_| c.f(-3.0, 3.0)).collect();
    let q: [f64; N] = core::array::from_fn(|i| q[i]);
    let st = c.get("forward kinematics", t.forward_kinematics(&Vector::new(q)));
    let mut at = 0;
    let mut poses: Vec<(Pose, f64, f64)> = vec![];
    for (k, i) in slots.iter().enumerate() {
        let b = &w.bodies[*i];
        // How far off rounding may leave the facing and the place, in ulps.
        let (up, mut turn_off, mut place_off) = b.parent.map_or((Pose::id(), 4.0, 1.0), |p| poses[slots.iter().position(|s| *s == p).unwrap()].clone());
        let origin = Pose { q: b.q, t: v_of(b.t) };
        let place = match &b.joint {
            None => {
                at += 1;
                origin
            }
            Some(j) if j.kind == "Floating" => {
                at += 7;
                place_off += 10.0;
                Pose { q: qunit(q_of([q[3], q[4], q[5], q[6]])), t: v_of([q[0], q[1], q[2]]) }
            }
            Some(j) => {
                let v = dd(q[at]) - j.zero;
                at += 1;
                let a = vscale(v_of(j.axis), v);
                let lever = j.anchor.iter().fold(0.0, |s: f64, x| s + x.abs());
                let reading = q[at - 1].abs() + j.zero.f().abs();
                if j.kind == "Prismatic" {
                    place_off += (turn_off + 8.0) * v.f().abs() + 4.0 * reading;
                    origin.mul(&Pose { q: qid(), t: a })
                } else {
                    place_off += (turn_off + 4.0 * reading + 8.0) * 2.0 * lever;
                    turn_off += 4.0 * reading + 8.0;
                    let r = qexp(a);
                    let p = v_of(j.anchor);
                    origin.mul(&Pose { q: r, t: vsub(p, qrot(r, p)) })
                }
            }
        };
        let before = turn_off + 8.0;
        place_off += before * b.t.iter().fold(0.0, |s: f64, x| s + x.abs()) + vnorm(up.t).f();
        turn_off += 8.0;
        let pose = up.mul(&place);
        let g = st.pose(k).unwrap();
        let tol = 4.0 * EPS * place_off;
        for r in 0..3 {
            c.near("place of a body", g.translation()[r], pose.t[r].f(), tol);
        }
        let diff = qmul(qconj(pose.q), q_of(g.rotation().quaternion().as_array()));
        for r in 1..4 {
            c.near("facing of a body", diff[r].f(), 0.0, 4.0 * EPS * turn_off);
        }
        poses.push((pose, turn_off, place_off));
        c.hit("body placed");
    }
    c.eq("configuration entries", t.config_len(), at);
    c.hit(if u { "urdf tree" } else { "mjcf tree" });
}

// ---- files ----
static DIRS: AtomicU64 = AtomicU64::new(0);
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let p = std::env::temp_dir().join(format!("vmon-c32-{}-{}", std::process::id(), DIRS.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    fn put(&self, name: &str, text: &str) -> PathBuf {
        let p = self.0.join(name);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(&p, text).unwrap();
        p
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// Moves runs of children out to files of their own, from the leaves up. `dir` is where the file
/// holding `e` lies; returns how deep the files go below it.
fn cut(c: &mut Case, s: &Scratch, dir: &str, e: &mut El, room: usize, count: &mut usize) -> usize {
    let mut deepest = 0;
    if room == 0 || *count > 12 {
        return 0;
    }
    // A run of children leaves for a file of its own.
    let take = !e.kids.is_empty() && c.p(if e.tag == "mujoco" { 0.8 } else if e.tag == "worldbody" { 0.5 } else { 0.15 });
    let run = take.then(|| {
        let a = c.us(0, e.kids.len() - 1);
        (a, c.us(a + 1, e.kids.len()))
    });
    for i in 0..e.kids.len() {
        let outside = run.is_none_or(|(a, b)| i < a || i >= b);
        if outside {
            let mut k = e.kids[i].clone();
            deepest = deepest.max(cut(c, s, dir, &mut k, room, count));
            e.kids[i] = k;
        }
    }
    if let Some((a, b)) = run {
        *count += 1;
        let name = format!("{}part{}.xml", c.pick(&["", "", "sub/", "a b/", "../"]), count);
        // One step up is only there to take from a folder below.
        let name = if dir.is_empty() { name.replace("../", "") } else { name };
        let at = normal(dir, &name);
        let mut part = el(c.pick(&["mujoco", "mujocoinclude", "x"]));
        part.kids = e.kids.splice(a..b, [el("include").a("file", name)]).collect();
        let inner = at.rsplit_once('/').map_or(String::new(), |p| p.0.to_string());
        deepest = deepest.max(1 + cut(c, s, &inner, &mut part, room - 1, count));
        let t = text(c, &part);
        s.put(&at, &t);
    }
    deepest
}
fn normal(dir: &str, name: &str) -> String {
    let mut parts: Vec<&str> = dir.split('/').filter(|p| !p.is_empty()).collect();
    for p in name.split('/') {
        if p == ".." {
            parts.pop();
        } else {
            parts.push(p);
        }
    }
    parts.join("/")
}
fn files(c: &mut Case) {
    let s = Scratch::new();
    if c.p(0.15) {
        let d = gen_urdf(c);
        let t = text(c, &d);
        let name = c.pick(&["r.urdf", "r.URDF", "r.x.Urdf"]);
        let p = s.put(name, &t);
        c.ok(load_path(&p) == load_str(&t), "a urdf file reads as its text", String::new);
        c.ok(ur::load_path(&p) == load_str(&t), "through its own reader too", String::new);
        c.hit("urdf file");
        return;
    }
    let d = gen_mjcf(c);
    let whole = text(c, &d);
    let want = c.get("a good document loads", load_str(&whole));
    let name = c.pick(&["m.xml", "m.mjcf", "m", "urdf"]);
    let p = s.put(name, &whole);
    c.ok(load_path(&p).as_ref() == Ok(&want), "a file reads as its text", String::new);
    let mut parts = d.clone();
    let mut count = 0;
    let room = c.pick(&[1, 2, 8]);
    let deep = cut(c, &s, "", &mut parts, room, &mut count);
    if count == 0 {
        return;
    }
    let t = text(c, &parts);
    c.note("main file", &t);
    c.note("whole", &whole);
    let p = s.put("main.xml", &t);
    let g = c.get("files in parts load", load_path(&p));
    c.ok(g == want, "in parts as in one piece", || format!("got {g:?}\nwant {want:?}"));
    c.ok(mj::load_path(&p).as_ref() == Ok(&want), "through its own reader too", String::new);
    c.eq("as text it has nowhere to look", load_str(&t).err(), Some(E::IncludeNeedsFile));
    c.hits("file spliced", count as u64);
    if deep > 1 {
        c.hit("files within files");
    }
}
fn bad_files(c: &mut Case) {
    let s = Scratch::new();
    let body = "<body name='b'><inertial mass='1' diaginertia='1 1 1'/></body>";
    match c.us(0, 6) {
        // A straight run of files, to the last allowed and one beyond.
        0 => {
            let n = c.us(1, 11);
            for i in 0..n {
                s.put(&format!("f{i}.xml"), &format!("<mujoco><include file='f{}.xml'/></mujoco>", i + 1));
            }
            s.put(&format!("f{n}.xml"), &format!("<mujoco><worldbody>{body}</worldbody></mujoco>"));
            let r = load_path(&s.0.join("f0.xml"));
            if n <= 8 {
                c.eq("run of files", r.map(|m| m.body_count()), Ok(1));
                c.hit("run of files");
            } else {
                c.eq("too long a run of files", r.err(), Some(E::IncludeTooDeep { depth: 9 }));
                c.hit("too long a run");
            }
        }
        // Round and round.
        1 => {
            let n = c.us(1, 4);
            for i in 0..n {
                s.put(&format!("f{i}.xml"), &format!("<mujoco><include file='f{}.xml'/><worldbody>{body}</worldbody></mujoco>", (i + 1) % n));
            }
            c.eq("files in a ring", load_path(&s.0.join("f0.xml")).err(), Some(E::IncludeTooDeep { depth: 9 }));
            c.hit("ring of files");
        }
        2 => {
            let p = s.put("f.xml", "<mujoco><include file='gone.xml'/></mujoco>");
            c.ok(matches!(load_path(&p), Err(E::FileRead(_))), "a part that is not there", String::new);
            let ext = c.pick(&["xml", "urdf"]);
            c.ok(matches!(load_path(&s.0.join("gone").with_extension(ext)), Err(E::FileRead(_))), "a file that is not there", String::new);
            c.ok(matches!(load_path(Path::new("")), Err(E::FileRead(_))), "no file at all", String::new);
            c.ok(matches!(load_path(&s.0), Err(E::FileRead(_))), "a folder", String::new);
            c.hit("missing file");
        }
        3 => {
            s.put("part.xml", c.pick(&["<mujoco><body></mujoco>", "", "body", "<mujoco/><mujoco/>"]));
            let p = s.put("f.xml", "<mujoco><include file='part.xml'/></mujoco>");
            c.ok(matches!(load_path(&p), Err(E::Xml(_))), "a broken part", || format!("{:?}", load_path(&p)));
            c.hit("broken part");
        }
        6 => {
            // A part's place holds nothing else.
            s.put("a.xml", &format!("<mujoco><worldbody>{body}</worldbody></mujoco>"));
            s.put("b.xml", "<mujoco/>");
            let inner = c.pick(&["<include file='b.xml'/>", "<include file='a.xml'/>", "<worldbody/>", "<compiler angle='radian'/>", " <option/> ", "<x><include file='b.xml'/></x>"]);
            let p = s.put("f.xml", &format!("<mujoco><include file='a.xml'>{inner}</include></mujoco>"));
            c.ok(matches!(load_path(&p), Err(E::Xml(_))), "a place for a part that holds more", || format!("{:?}", load_path(&p)));
            let p = s.put("g.xml", "<mujoco><include file='a.xml'> <!-- nothing --> </include></mujoco>");
            c.eq("a place for a part with a remark", load_path(&p).map(|m| m.body_count()), Ok(1));
            c.hit("nested part");
        }
        4 => {
            let p = s.put("f.xml", "<mujoco><include/></mujoco>");
            c.eq("no name for the part", load_path(&p).err(), Some(E::BadAttribute { element: "include".into(), attribute: "file".into(), value: String::new() }));
            let p = s.put("g.urdf", "<mujoco/>");
            c.eq("the ending picks the reader", load_path(&p).err(), Some(E::UnexpectedRootElement { found: "mujoco".into() }));
        }
        _ => {
            let p = s.put("f.xml", "");
            std::fs::write(&p, [b'<', 0xff, 0xfe, b'>']).unwrap();
            c.ok(matches!(load_path(&p), Err(E::FileRead(_))), "not text", String::new);
            c.hit("not text");
        }
    }
}

// ---- refusals ----
fn bad(element: &str, attribute: &str, value: &str) -> E {
    E::BadAttribute { element: element.into(), attribute: attribute.into(), value: value.into() }
}
const JUNK: [&str; 8] = ["abc", "1,2,3", "1 2 x", "0x10", "1e", "--1", "1 2 3 4 5 6 7", "one"];
fn mjcf_fault(c: &mut Case) {
    let mut d = gen_mjcf_with(c, false);
    let w = mjcf(&d);
    let mode = d.all("compiler").filter_map(|e| e.get("inertiafromgeom")).last().unwrap_or("auto").to_string();
    let auto = d.all("compiler").filter_map(|e| e.get("autolimits")).last() != Some("false");
    let paths: Vec<Vec<usize>> = d.paths();
    let bodies: Vec<Vec<usize>> = paths.iter().filter(|p| d.at(p).tag == "body").cloned().collect();
    let at = c.pick(&bodies);
    let name = d.at(&at).get("name").unwrap_or("body").to_string();
    let top = d.at(&at[..at.len() - 1]).tag != "body";
    let b = d.at_mut(&at);
    let stated = b.first("inertial").is_some() && mode != "true";
    let has_joint = b.first("joint").is_some_and(|j| j.get("type") != Some("free"));
    let mut world_kid: Option<El> = None;
    let mut section: Option<El> = None;
    fn find<'a>(b: &'a mut El, tag: &str) -> &'a mut El {
        b.kids.iter_mut().find(|k| k.tag == tag).unwrap()
    }
    // A shape that counts, for the faults shapes can have.
    fn weighs(b: &mut El) -> &mut El {
        b.kids.iter_mut().find(|k| k.tag == "geom" && k.get("mass") != Some("0")).unwrap()
    }
    let which = c.us(0, 33);
    let want: E = match which {
        0 => {
            let n = c.us(1, 3);
            for _ in 0..n {
                b.kids.push(el(c.pick(&["joint", "freejoint"])));
            }
            let count = b.kids.iter().filter(|k| k.tag.ends_with("joint")).count();
            if count < 2 {
                c.discard();
            }
            E::MultipleJoints { body: name, count }
        }
        1 => {
            b.kids.retain(|k| !k.tag.ends_with("joint"));
            let t = c.pick(&["ball", "planar", "Hinge", ""]);
            b.kids.push(el("joint").a("type", t));
            E::UnsupportedJoint { body: name, joint_type: t.into() }
        }
        2 if !top => {
            b.kids.retain(|k| !k.tag.ends_with("joint"));
            b.kids.push(if c.p(0.5) { el("freejoint") } else { el("joint").a("type", "free") });
            E::FreeJointNotAtRoot { body: name }
        }
        3 => {
            let k = c.pick(&["euler", "axisangle", "xyaxes", "zaxis"]);
            let (e, tag) = match c.us(0, 2) {
                1 if stated => (find(b, "inertial"), "inertial"),
                2 if !stated => (weighs(b), "geom"),
                _ => (b, "body"),
            };
            e.set(k, "0 0 1");
            E::UnsupportedOrientation { element: tag.into(), attribute: k.into() }
        }
        4 => {
            let k = c.pick(&["euler", "axisangle", "xyaxes", "zaxis"]);
            section = Some(el("default").k(el("geom").a(k, "0 0 1")));
            E::UnsupportedOrientation { element: "geom".into(), attribute: k.into() }
        }
        5 if has_joint => {
            let j = find(b, "joint");
            j.unset("range");
            j.set("limited", "true");
            E::LimitsNeedRange { body: name }
        }
        6 if has_joint && !auto => {
            let j = find(b, "joint");
            j.set("range", "0 1");
            j.unset("limited");
            if c.p(0.5) {
                j.set("limited", "auto");
            }
            E::LimitsNeedRange { body: name }
        }
        7 if has_joint => {
            let t = c.pick(&["maybe", "TRUE", "1", ""]);
            find(b, "joint").set("limited", t);
            bad("joint", "limited", t)
        }
        8 => {
            b.kids.retain(|k| k.tag != "inertial" && (mode == "false" || k.tag != "geom" || k.get("mass") == Some("0")));
            E::NoInertiaSource { body: name }
        }
        9 if !stated => {
            let t = c.pick(&["plane", "hfield", "sdf", "cone", "Sphere"]);
            weighs(b).set("type", t);
            E::UnsupportedGeomType { body: name, geom_type: t.into() }
        }
        10 if !stated => {
            let g = weighs(b);
            if c.p(0.5) {
                g.set("type", "mesh");
            }
            g.set("mesh", "shell");
            E::MeshInertiaUnsupported { body: name }
        }
        11 if !stated => {
            let g = weighs(b);
            let t = c.pick(&["box", "ellipsoid", "sphere"]);
            g.set("type", t);
            g.set("fromto", "0 0 0 0 0 1");
            E::UnsupportedFromTo { body: name, geom_type: t.into() }
        }
        12 if !stated => {
            let g = weighs(b);
            let t = c.pick(&["capsule", "cylinder"]);
            g.set("type", t);
            g.set("fromto", "0 0 0 0 0 1");
            g.set("pos", "0 0 0.5");
            E::ConflictingPlacement { body: name }
        }
        13 if !stated => {
            let g = weighs(b);
            let t = c.pick(&["capsule", "cylinder"]);
            g.set("type", t);
            g.unset("pos");
            g.set("fromto", "0.5 0 1 0.5 0 1");
            g.set("size", "0.1");
            bad("geom", "fromto", "0.5 0 1 0.5 0 1")
        }
        14 if !stated => {
            let g = weighs(b);
            let (t, s) = c.pick(&[
                ("sphere", "1 2"), ("sphere", "-1"), ("sphere", ""), ("box", "1 1"), ("box", "-1 -1 1"), ("box", "1"), ("ellipsoid", "1 2 3 4"),
                ("ellipsoid", "1 -2 3"), ("capsule", "-0.1 1"), ("capsule", "1"), ("cylinder", "1 -1"), ("cylinder", "1 1 1"), ("box", "nan 1 1"),
            ]);
            g.set("type", t);
            g.unset("fromto");
            g.set("size", s);
            bad("geom", "size", s)
        }
        15 if !stated => {
            let g = weighs(b);
            let (k, v) = c.pick(&[("mass", "-1"), ("density", "-2"), ("mass", "-1e-3"), ("mass", "NaN")]);
            g.unset("mass");
            g.unset("density");
            g.set(k, v);
            bad("geom", k, v)
        }
        16 => {
            // Text where numbers belong.
            let v = c.pick(&JUNK);
            let (tag, keys): (&str, &[&str]) = match c.us(0, 3) {
                1 if stated => ("inertial", &["mass", "pos", "diaginertia", "fullinertia"]),
                2 if !stated => ("geom", &["pos", "quat", "size", "mass", "density", "fromto"]),
                3 if has_joint => ("joint", &["axis", "pos", "range", "ref", "damping", "armature", "frictionloss", "springref", "stiffness"]),
                _ => ("body", &["pos", "quat"]),
            };
            let k = c.pick(keys);
            if v.starts_with("1 2 3 4 5 6 7") && k == "size" {
                c.discard();
            }
            let e = match tag {
                "body" => b,
                "geom" => weighs(b),
                _ => find(b, tag),
            };
            e.set(k, v);
            bad(tag, k, v)
        }
        17 => {
            b.set("quat", "0 0 0 0");
            bad("body", "quat", "0 0 0 0")
        }
        18 if has_joint => {
            find(b, "joint").set("axis", "0 0 0");
            bad("joint", "axis", "0 0 0")
        }
        19 => {
            // A class nobody wrote.
            if has_joint && c.p(0.5) {
                find(b, "joint").set("class", "nobody");
            } else if !stated {
                if c.p(0.5) { weighs(b).set("class", "nobody") } else { b.set("childclass", "nobody") }
            } else {
                c.discard()
            }
            E::UndefinedClass { name: "nobody".into() }
        }
        20 => {
            d.kids.retain(|k| k.tag != "worldbody");
            E::MissingWorldbody
        }
        21 => {
            for k in d.kids.iter_mut().filter(|k| k.tag == "worldbody") {
                k.kids.retain(|k| k.tag != "body" && k.tag != "worldbody");
            }
            E::NoBodies
        }
        22 => {
            let p = c.pick(&paths);
            d.at_mut(&p).kids.push(el("include").a("file", "x.xml"));
            E::IncludeNeedsFile
        }
        23 => {
            let t = c.pick(&["frame", "replicate", "composite", "flexcomp", "attach", "Body", "worldbody", "bodies"]);
            let e = if c.p(0.5) { el(t) } else { el(t).k(el("body")) };
            if c.p(0.5) && t != "worldbody" {
                world_kid = Some(e);
                E::UnsupportedElement { element: t.into(), parent: "worldbody".into() }
            } else {
                let k = c.us(0, b.kids.len());
                b.kids.insert(k, e);
                E::UnsupportedElement { element: t.into(), parent: "body".into() }
            }
        }
        24 => {
            let (k, v) = c.pick(&[
                ("settotalmass", "10"), ("boundmass", "1e-3"), ("boundinertia", "1e-9"), ("balanceinertia", "true"), ("inertiagrouprange", "0 3"), ("coordinate", "global"),
            ]);
            section = Some(el("compiler").a(k, v));
            E::UnsupportedAttribute { element: "compiler".into(), attribute: k.into(), value: v.into() }
        }
        25 => {
            let (k, v) = c.pick(&[("angle", "grad"), ("autolimits", "yes"), ("inertiafromgeom", "maybe"), ("settotalmass", "much"), ("angle", "")]);
            section = Some(el("compiler").a(k, v));
            bad("compiler", k, v)
        }
        26 if !stated => {
            weighs(b).set("shellinertia", "true");
            E::UnsupportedAttribute { element: "geom".into(), attribute: "shellinertia".into(), value: "true".into() }
        }
        27 if stated => {
            let i = find(b, "inertial");
            if i.get("fullinertia").is_some() && c.p(0.5) {
                i.set("diaginertia", "1 1 1");
                i.set("fullinertia", "1 1 1 0 0 0");
                bad("inertial", "fullinertia", "1 1 1 0 0 0")
            } else {
                i.unset("diaginertia");
                i.unset("fullinertia");
                bad("inertial", "fullinertia", "")
            }
        }
        28 if stated => {
            find(b, "inertial").unset("mass");
            bad("inertial", "mass", "")
        }
        29 if stated => {
            let i = find(b, "inertial");
            let (m, d, e) = c.pick(&[
                ("0", "1 1 1", SE::NonPositiveMass), ("-1", "1 1 1", SE::NonPositiveMass), ("1", "1 0 1", SE::NonPositiveInertia), ("1", "-1 -1 -1", SE::NonPositiveInertia), ("inf", "1 1 1", SE::NonFinite), ("1", "1 nan 1", SE::NonFinite),
            ]);
            i.set("mass", m);
            i.unset("fullinertia");
            i.unset("quat");
            i.set("diaginertia", d);
            E::Inertia(e)
        }
        30 => {
            let mut inner = el("default");
            if c.p(0.5) {
                inner = inner.k(el("geom").a("density", "1"));
            }
            let mut nest = el("default").a("class", "outer");
            nest = if c.p(0.5) { nest.k(el("default").a("class", "mid").k(inner)) } else { nest.k(inner) };
            section = Some(nest);
            bad("default", "class", "")
        }
        31 => {
            let k = c.us(0, 1);
            if k == 0 {
                section = Some(el("default").k(el("joint").a("axis", "0 1")));
                bad("joint", "axis", "0 1")
            } else {
                section = Some(el("default").k(el("default").a("class", "z").k(el("geom").a("density", "x"))));
                bad("geom", "density", "x")
            }
        }
        32 => {
            // Cut short.
            let t = text(c, &d);
            let t = t.trim_end();
            let stop = (0..c.us(1, t.len() - 1)).rev().find(|i| t.is_char_boundary(*i)).unwrap_or(0);
            let r = load_str(&t[..stop]);
            c.ok(matches!(r, Err(E::Xml(_))), "cut short", || format!("{r:?} of {}", &t[..stop]));
            c.hit("mjcf refusals");
            return;
        }
        33 => {
            section = Some(el("default").k(el("geom").a("shellinertia", "true")));
            E::UnsupportedAttribute { element: "geom".into(), attribute: "shellinertia".into(), value: "true".into() }
        }
        _ => c.discard(),
    };
    if let Some(k) = world_kid {
        let wb = d.kids.iter_mut().find(|k| k.tag == "worldbody").unwrap();
        let n = wb.kids.len();
        let i = c.us(0, n);
        wb.kids.insert(i, k);
    }
    if let Some(k) = section {
        let i = c.us(0, d.kids.len());
        d.kids.insert(i, k);
    }
    let t = text(c, &d);
    c.note("text", &t);
    c.note("fault", &which);
    c.note("bodies", &w.bodies.len());
    let r = load_str(&t);
    c.eq("refusal", r.err(), Some(want));
    c.hit("mjcf refusals");
}
fn urdf_fault(c: &mut Case) {
    let mut d = gen_urdf(c);
    let js: Vec<usize> = (0..d.kids.len()).filter(|i| d.kids[*i].tag == "joint").collect();
    let ls: Vec<usize> = (0..d.kids.len()).filter(|i| d.kids[*i].tag == "link").collect();
    let names: Vec<String> = ls.iter().map(|i| d.kids[*i].get("name").unwrap().to_string()).collect();
    let which = c.us(0, 16);
    let j = if js.is_empty() { None } else { Some(c.pick(&js)) };
    let jname = j.map(|j| d.kids[j].get("name").unwrap_or("joint").to_string());
    let jkind = j.map(|j| d.kids[j].get("type").unwrap().to_string()).unwrap_or_default();
    let child = j.map(|j| d.kids[j].first("child").unwrap().get("link").unwrap().to_string());
    fn sub<'a>(e: &'a mut El, tag: &str) -> Option<&'a mut El> {
        e.kids.iter_mut().find(|k| k.tag == tag)
    }
    let massy: Vec<usize> = ls.iter().copied().filter(|i| d.kids[*i].first("inertial").is_some()).collect();
    let m = if massy.is_empty() { None } else { Some(c.pick(&massy)) };
    let want = match (which, j, m) {
        (0, Some(j), _) => {
            let t = c.pick(&["planar", "ball", "Revolute", ""]);
            d.kids[j].set("type", t);
            E::UnsupportedJoint { body: child.unwrap(), joint_type: t.into() }
        }
        (1, Some(j), _) => {
            d.kids[j].set("type", "floating");
            E::FreeJointNotAtRoot { body: child.unwrap() }
        }
        (2, Some(j), _) if jkind == "revolute" || jkind == "prismatic" => {
            match c.us(0, 2) {
                0 => d.kids[j].kids.retain(|k| k.tag != "limit"),
                k => sub(&mut d.kids[j], "limit").unwrap().unset(["", "lower", "upper"][k]),
            }
            E::JointNeedsLimit { joint: jname.unwrap() }
        }
        (3, Some(j), _) => {
            let end = c.pick(&["parent", "child"]);
            sub(&mut d.kids[j], end).unwrap().set("link", "nowhere");
            E::UnknownLink { joint: jname.unwrap(), link: "nowhere".into() }
        }
        (4, Some(_), _) => {
            let from = c.pick(&names);
            let to = child.unwrap();
            let extra = el("joint").a("name", "zz").a("type", "fixed").k(el("parent").a("link", from)).k(el("child").a("link", to.clone()));
            let at = c.us(0, d.kids.len());
            d.kids.insert(at, extra);
            let mut joints = vec![jname.unwrap(), "zz".to_string()];
            joints.sort();
            E::LinkHasTwoParents { link: to, joints }
        }
        (5, ..) => {
            let top = urdf(&d).name;
            let _ = top;
            let root = urdf(&d).bodies[0].name.clone();
            d.kids.push(el("link").a("name", "loose"));
            if c.p(0.5) {
                d.kids.insert(0, el("link").a("name", "adrift"));
            }
            let mut all: Vec<String> = d.all("link").map(|l| l.get("name").unwrap().to_string()).filter(|n| *n == root || n == "loose" || n == "adrift").collect();
            all.sort();
            E::MultipleRootLinks { names: all }
        }
        (6, ..) => {
            let root = urdf(&d).bodies[0].name.clone();
            let from = c.pick(&names);
            d.kids.push(el("joint").a("name", "zz").a("type", "fixed").k(el("parent").a("link", from)).k(el("child").a("link", root)));
            E::MissingRootLink
        }
        (7, ..) => {
            d.kids.retain(|k| k.tag != "link" && k.tag != "joint");
            E::MissingRootLink
        }
        (8, ..) => {
            let n = c.us(1, 3);
            for i in 0..n {
                let l = el("link").a("name", format!("ring{i}"));
                let j = el("joint").a("name", format!("rj{i}")).a("type", "fixed").k(el("parent").a("link", format!("ring{i}"))).k(el("child").a("link", format!("ring{}", (i + 1) % n)));
                let (a, b) = (c.us(0, d.kids.len()), c.us(0, d.kids.len()));
                d.kids.insert(a, l);
                d.kids.insert(b, j);
            }
            let t = text(c, &d);
            let r = load_str(&t);
            c.ok(matches!(&r, Err(E::CyclicLinkage { link }) if link.starts_with("ring")), "a ring of links", || format!("{r:?}"));
            c.hit("urdf refusals");
            return;
        }
        (9, Some(j), _) if jkind != "fixed" => {
            d.kids[j].kids.retain(|k| k.tag != "axis");
            d.kids[j].kids.push(el("axis").a("xyz", "0 0 0"));
            bad("axis", "xyz", "0 0 0")
        }
        (10, _, Some(m)) => {
            let i = sub(&mut d.kids[m], "inertial").unwrap();
            let t = c.pick(&["mass", "inertia"]);
            i.kids.retain(|k| k.tag != t);
            bad("inertial", t, "")
        }
        (11, _, Some(m)) => {
            let i = sub(&mut d.kids[m], "inertial").unwrap();
            let k = c.pick(&["ixx", "ixy", "ixz", "iyy", "iyz", "izz"]);
            sub(i, "inertia").unwrap().unset(k);
            bad("inertia", k, "")
        }
        (12, _, Some(m)) => {
            let i = sub(&mut d.kids[m], "inertial").unwrap();
            let (v, e) = c.pick(&[("0", SE::NonPositiveMass), ("-2", SE::NonPositiveMass), ("inf", SE::NonFinite), ("NaN", SE::NonFinite)]);
            sub(i, "mass").unwrap().set("value", v);
            E::Inertia(e)
        }
        (13, j, m) => {
            let v = c.pick(&JUNK);
            match (c.us(0, 5), j, m) {
                (0, Some(j), _) => {
                    d.kids[j].kids.retain(|k| k.tag != "origin");
                    let k = c.pick(&["xyz", "rpy"]);
                    d.kids[j].kids.push(el("origin").a(k, v));
                    bad("origin", k, v)
                }
                (1, Some(j), _) if jkind != "fixed" => {
                    d.kids[j].kids.retain(|k| k.tag != "axis");
                    d.kids[j].kids.push(el("axis").a("xyz", v));
                    bad("axis", "xyz", v)
                }
                (2, Some(j), _) if jkind == "revolute" || jkind == "prismatic" => {
                    let k = c.pick(&["lower", "upper"]);
                    sub(&mut d.kids[j], "limit").unwrap().set(k, v);
                    bad("limit", k, v)
                }
                (3, Some(j), _) if jkind != "fixed" => {
                    d.kids[j].kids.retain(|k| k.tag != "dynamics");
                    let k = c.pick(&["damping", "friction"]);
                    d.kids[j].kids.push(el("dynamics").a(k, v));
                    bad("dynamics", k, v)
                }
                (4, _, Some(m)) => {
                    let i = sub(&mut d.kids[m], "inertial").unwrap();
                    sub(i, "mass").unwrap().set("value", v);
                    bad("mass", "value", v)
                }
                (5, Some(j), _) if jkind != "fixed" => {
                    d.kids[j].kids.retain(|k| k.tag != "mimic");
                    let k = c.pick(&["multiplier", "offset"]);
                    d.kids[j].kids.push(el("mimic").a("joint", "a").a(k, v));
                    bad("mimic", k, v)
                }
                _ => c.discard(),
            }
        }
        (14, Some(j), _) => {
            let k = c.pick(&["parent", "child"]);
            d.kids[j].kids.retain(|e| e.tag != k);
            if c.p(0.5) {
                d.kids[j].kids.push(el(k));
            }
            bad("joint", k, "")
        }
        (15, Some(j), _) if jkind != "fixed" => {
            d.kids[j].kids.retain(|k| k.tag != "mimic");
            d.kids[j].kids.push(el("mimic").a("multiplier", "1"));
            bad("mimic", "joint", "")
        }
        (16, ..) => {
            let t = text(c, &d);
            let t = t.trim_end();
            let stop = (0..c.us(1, t.len() - 1)).rev().find(|i| t.is_char_boundary(*i)).unwrap_or(0);
            let r = load_str(&t[..stop]);
            c.ok(matches!(r, Err(E::Xml(_))), "cut short", || format!("{r:?}"));
            c.hit("urdf refusals");
            return;
        }
        _ => c.discard(),
    };
    let t = text(c, &d);
    c.note("text", &t);
    c.note("fault", &which);
    let r = load_str(&t);
    c.eq("refusal", r.err(), Some(want));
    c.hit("urdf refusals");
}

fn main() {
    vmon::run("C32", |s| {
        s.rule("every generated document is read a second way, in double-double, and the loaded model compared with that reading field by field; documents with one planted fault must be refused by that fault's own error");
        s.assume("the second reading follows the MuJoCo and URDF documentation as this crate's README narrows it");
        s.monitor("reading", 40000, 20, reading);
        s.monitor("tree", 30000, 20, tree);
        s.monitor("reversed", 4000, 20, reversed);
        s.monitor("files", 6000, 10, files);
        s.monitor("bad files", 600, 10, bad_files);
        s.monitor("refused mjcf", 30000, 20, mjcf_fault);
        s.monitor("refused urdf", 20000, 20, urdf_fault);
        s.monitor("wrong root", 300, 10, wrong_root);
        for (e, n) in [
            ("mjcf", 1000), ("urdf", 1000), ("joint read", 4000), ("bounded", 1000), ("unbounded", 500), ("default classes", 500), ("several worlds", 100), ("several compilers", 60),
            ("body without mass properties", 500), ("mimic joint", 100), ("mimic refused", 50), ("free body in a later slot", 10), ("slot checked", 2000), ("body placed", 4000), ("tree too small", 300),
            ("file spliced", 1000), ("files within files", 100), ("urdf file", 100), ("ring of files", 20), ("too long a run", 10), ("mjcf refusals", 2000), ("urdf refusals", 1000), ("wrong root", 200), ("reversed limits", 500),
        ] {
            s.require(e, n);
        }
    })
}
