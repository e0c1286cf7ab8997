//! C33: no text, however broken, does more than be refused: no panic, no runaway, no half-read model.
use multicalc::kinematics::*;
use multicalc_robot_model::{GeneratedScalar, ModelError as E, RobotModel, RustSourceOptions, load_path, load_str, mjcf as mj, urdf as ur};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use vmon::model::*;
use vmon::*;

/// The models the repository ships, as further starting points.
fn corpus() -> &'static Vec<String> {
    static C: OnceLock<Vec<String>> = OnceLock::new();
    C.get_or_init(|| {
        let mut out = vec![];
        let mut dirs = vec![PathBuf::from("/repo/crates/multicalc-robot-model/tests/models")];
        while let Some(d) = dirs.pop() {
            let Ok(r) = std::fs::read_dir(&d) else { continue };
            let mut all: Vec<PathBuf> = r.filter_map(|e| e.ok()).map(|e| e.path()).collect();
            all.sort();
            for p in all {
                if p.is_dir() {
                    dirs.push(p);
                } else if let Ok(t) = std::fs::read_to_string(&p) {
                    if t.contains('<') && t.len() < 40_000 {
                        out.push(t);
                    }
                }
            }
        }
        out
    })
}
const TOKENS: [&str; 66] = [
    "<", ">", "/>", "</", "\"", "'", "&", "&amp;", "&#0;", "&#xFFFFFFFF;", "&lol;", "<!--", "-->", "<![CDATA[", "]]>", "<?xml version='1.0'?>", "<!DOCTYPE a [<!ENTITY b 'c'>]>", "xmlns='u'", "xmlns:a='u'", "a:", "\0", "\u{feff}", "\u{202e}", "nan", "inf", "-inf",
    "1e999", "-1e999", "1e-999", "0", "-0", "-1", "1e308", "5e-324", "9007199254740993", "<body>", "</body>", "<worldbody>", "</worldbody>", "<default>", "</default>", "<default class='a'>", "<joint/>", "<freejoint/>", "<geom/>", "<include file='a'/>", "class='a'", "childclass='a'",
    "class='main'", "type='free'", "type='mesh'", "quat='0 0 0 0'", "fromto='0 0 0 0 0 0'", "range='1 0'", "limited='true'", "<inertial mass='1'/>", "<link name='a'/>", "<joint><parent link='a'/><child link='a'/></joint>", "<limit/>", "<mimic joint='a'/>", "<mujoco>", "</mujoco>", "<robot>", "</robot>", " ", "\n",
];
fn hurt(c: &mut Case, t: &mut String) {
    fn at(c: &mut Case, t: &str) -> usize {
        let k = c.us(0, t.len());
        (0..=k).rev().find(|i| t.is_char_boundary(*i)).unwrap_or(0)
    }
    let n = c.pick(&[1, 1, 2, 5, 20]);
    for _ in 0..n {
        let (a, b) = (at(c, t), at(c, t));
        let (a, b) = (a.min(b), a.max(b));
        let short = (a..=(a + c.us(0, 12)).min(t.len())).rev().find(|i| t.is_char_boundary(*i)).unwrap_or(a);
        match c.us(0, 6) {
            0 => drop(t.drain(a..short)),
            1 => drop(t.drain(a..b)),
            2 if b - a < 20_000 && t.len() < 60_000 => {
                let s = t[a..b].to_string();
                let k = at(c, t);
                t.insert_str(k, &s);
            }
            3 => t.truncate(b),
            4 => {
                let w = c.pick(&TOKENS);
                t.replace_range(a..short, w);
            }
            5 => {
                let w = char::from_u32(c.us(0, 0x2ff) as u32).unwrap_or('?');
                t.insert(a, w);
            }
            _ => {
                let w = c.pick(&TOKENS);
                t.insert_str(a, w);
            }
        }
    }
}
/// Breaks the document but not its grammar.
fn twist(c: &mut Case, d: &mut El) {
    let n = c.pick(&[1, 1, 2, 4, 12]);
    for _ in 0..n {
        let paths = d.paths();
        let (p, q) = (c.pick(&paths), c.pick(&paths));
        let other = d.at(&q).clone();
        let e = d.at_mut(&p);
        match c.us(0, 10) {
            0 | 1 | 2 if !e.attrs.is_empty() => {
                let i = c.us(0, e.attrs.len() - 1);
                let words: Vec<&str> = e.attrs[i].1.split_whitespace().collect();
                let k = if words.is_empty() { 0 } else { c.us(0, words.len() - 1) };
                let w = c.pick(&["nan", "inf", "-inf", "1e999", "-1e999", "0", "-0", "-1", "1e308", "-1e308", "1e-320", "1e200", "1e150", "1e-200", "x", ""]);
                let mut words: Vec<String> = words.iter().map(|w| w.to_string()).collect();
                if words.is_empty() { words.push(w.into()) } else { words[k] = w.into() }
                e.attrs[i].1 = words.join(" ");
            }
            3 if !e.attrs.is_empty() => {
                let i = c.us(0, e.attrs.len() - 1);
                e.attrs.remove(i);
            }
            4 if !other.attrs.is_empty() => {
                let (k, v) = c.pick(&other.attrs);
                e.set(&k, v);
            }
            5 if paths.len() < 400 && other.paths().len() < 100 => {
                let i = c.us(0, e.kids.len());
                e.kids.insert(i, other);
            }
            6 if !e.kids.is_empty() => {
                let i = c.us(0, e.kids.len() - 1);
                e.kids.remove(i);
            }
            7 => e.tag = c.pick(&["body", "joint", "geom", "default", "worldbody", "inertial", "freejoint", "link", "parent", "child", "compiler", "mujoco", "robot", "site", "inertia", "mass", "origin", "x"]).into(),
            8 => {
                let (k, v) = c.pick(&[
                    ("class", "class 0"), ("class", ""), ("childclass", "main"), ("childclass", "?"), ("type", "free"), ("type", "floating"), ("type", "mesh"), ("type", "ball"), ("mass", "0"), ("quat", "0 0 0 0"), ("quat", "1e-200 0 0 0"), ("quat", "1e200 1e200 0 0"),
                    ("axis", "0 0 0"), ("axis", "1e-200 0 0"), ("axis", "1e300 1e300 1e300"), ("fromto", "0 0 0 0 0 0"), ("fromto", "0 0 0 1e-300 0 0"), ("fromto", "-1e308 0 0 1e308 0 0"), ("size", ""), ("size", "1e200 1e200 1e200"), ("size", "0 0 0"), ("size", "1e-200 1e-200 1e-200"),
                    ("range", "1 0"), ("range", "0 nan"), ("limited", "true"), ("angle", "radian"), ("inertiafromgeom", "true"), ("inertiafromgeom", "false"), ("name", ""), ("link", "link0"), ("diaginertia", "1 1 1e300"), ("fullinertia", "1 1 1 9 9 9"),
                ]);
                e.set(k, v);
            }
            9 => e.kids.reverse(),
            _ => {
                e.kids.extend(other.kids.iter().take(3).cloned());
            }
        }
    }
}
const N: usize = 48;
/// Everything that may be asked of what came back, good or bad.
fn sound(c: &mut Case, what: &str, r: &Result<RobotModel, E>) {
    let m = match r {
        Err(e) => {
            let s = format!("{e}");
            c.ok(!s.is_empty(), "a refusal says why", String::new);
            let _ = std::error::Error::source(e);
            c.hit(match e {
                E::Xml(_) => "not xml",
                E::BadAttribute { .. } => "bad attribute",
                E::Inertia(_) => "bad inertia",
                E::UnexpectedRootElement { .. } => "bad root",
                E::UnsupportedElement { .. } | E::UnsupportedAttribute { .. } | E::UnsupportedGeomType { .. } | E::UnsupportedJoint { .. } | E::UnsupportedFromTo { .. } | E::UnsupportedOrientation { .. } | E::MeshInertiaUnsupported { .. } => "unsupported",
                E::UnknownLink { .. } | E::MissingRootLink | E::MultipleRootLinks { .. } | E::LinkHasTwoParents { .. } | E::CyclicLinkage { .. } => "bad linkage",
                _ => "other refusal",
            });
            return;
        }
        Ok(m) => m,
    };
    c.hit("loaded");
    c.ok(!m.bodies().is_empty(), "a model has bodies", || what.into());
    c.eq("counts", m.body_count(), m.bodies().len());
    let mut floating = false;
    for (i, b) in m.bodies().iter().enumerate() {
        c.ok(b.parent().is_none_or(|p| p < i), "parents come first", || format!("{what}: body {i} under {:?}", b.parent()));
        if i == 0 {
            c.eq("the first body hangs off nothing", b.parent(), None);
        }
        let q = b.pose().rotation().quaternion().as_array();
        let n: f64 = q.iter().map(|x| x * x).sum();
        if n.is_finite() {
            c.near("turn is a turn", n, 1.0, 1e-14);
        }
        match b.inertia() {
            Some(s) => {
                c.ok(s.mass() > 0.0 && s.is_finite(), "mass is a mass", || format!("{what}: {s:?}"));
                let t = s.rotational_inertia();
                c.ok((0..3).all(|k| t[(k, k)] > 0.0), "inertia resists", || format!("{t:?}"));
            }
            None => c.ok(m.format() == multicalc_robot_model::ModelFormat::Urdf, "every MJCF body has mass", || format!("{what}: body {i}")),
        }
        if let Some(j) = b.joint() {
            floating |= j.kind() == JointKind::Floating;
            c.ok(j.kind() != JointKind::Floating || b.parent().is_none(), "free bodies are at the top", || format!("body {i}"));
            c.ok(j.kind() != JointKind::Continuous || j.limits().is_none(), "no limits on a continuous joint", String::new);
            let a: f64 = j.axis().as_array().iter().map(|x| x * x).sum();
            if a.is_finite() {
                c.near("axis is a direction", a, 1.0, 1e-14);
            }
            c.ok(j.kind() != JointKind::Fixed, "a weld has no joint", String::new);
        }
    }
    c.eq("floating base", m.has_floating_base(), floating);
    for w in m.ignored().windows(2) {
        c.ok(w[0] < w[1], "ignored is sorted", || format!("{:?}", m.ignored()));
    }
    // Trees and sources: built from sound numbers or refused.
    let k = c.us(0, m.body_count() - 1);
    let tip = m.bodies()[k].name().to_string();
    let path = c.get("path", m.path_to(&tip));
    c.ok(path.windows(2).all(|w| m.bodies()[w[1]].parent() == Some(w[0])), "path follows parents", || format!("{path:?}"));
    for t in [m.kinematic_tree::<N, N>(), m.kinematic_tree_to::<N, N>(&tip)] {
        let Ok(t) = t else {
            c.hit("tree refused");
            continue;
        };
        c.hit("tree built");
        for i in 0..t.len() {
            let j = t.joint(i).unwrap();
            let o = j.origin();
            let all = o.translation().as_array().iter().chain(&o.rotation().quaternion().as_array()).chain(j.axis().as_array()).chain(j.anchor().as_array()).chain(&[j.zero_offset(), j.armature(), j.damping(), j.friction_loss()]).all(|v| v.is_finite());
            c.ok(all, "a tree holds only numbers", || format!("{what}: slot {i} {j:?}"));
            if let Some((a, b)) = j.limits() {
                c.ok(a <= b, "limits in order", || format!("{a} {b}"));
            }
        }
        c.ok(t.forward_kinematics(&multicalc::Vector::new([0.0; N])).is_ok() || t.has_floating_base(), "a tree can be placed", String::new);
    }
    for s in [GeneratedScalar::F32, GeneratedScalar::F64] {
        let mut o = RustSourceOptions::new("f").with_scalar(s);
        if c.p(0.5) {
            o = o.with_tip(&tip);
        }
        if c.p(0.3) {
            let k = c.us(0, 20);
            o = o.with_capacity(k);
        }
        if c.p(0.3) {
            let k = c.us(0, 20);
            o = o.with_configuration_capacity(k);
        }
        match m.to_rust_source(&o) {
            Ok(t) => {
                let bad = t.lines().filter(|l| !l.trim_start().starts_with("//")).any(|l| l.contains("NaN") || l.contains("inf"));
                c.ok(!bad, "source holds only numbers", || t);
                c.hit("source written");
            }
            Err(_) => c.hit("source refused"),
        }
    }
}
fn all_readers(c: &mut Case, t: &str) {
    let a = load_str(t);
    sound(c, "load_str", &a);
    let again = load_str(t);
    c.ok(format!("{a:?}") == format!("{again:?}"), "the same text reads the same", || format!("{a:?} {again:?}"));
    let (x, y) = (mj::load_str(t), ur::load_str(t));
    sound(c, "mjcf", &x);
    sound(c, "urdf", &y);
    if a.is_ok() {
        let s = format!("{a:?}");
        c.ok(s == format!("{x:?}") || s == format!("{y:?}"), "one of the readers read it", String::new);
    }
}
fn start(c: &mut Case) -> String {
    if c.p(0.2) && !corpus().is_empty() {
        c.hit("shipped model");
        return c.pick(corpus());
    }
    let d = if c.p(0.5) { gen_mjcf(c) } else { gen_urdf(c) };
    text(c, &d)
}
fn broken(c: &mut Case) {
    let mut t = start(c);
    hurt(c, &mut t);
    c.note("text", &t);
    all_readers(c, &t);
}
fn twisted(c: &mut Case) {
    let mut d = if c.p(0.6) { gen_mjcf(c) } else { gen_urdf(c) };
    twist(c, &mut d);
    let t = text(c, &d);
    c.note("text", &t);
    all_readers(c, &t);
}
fn noise(c: &mut Case) {
    let n = c.us(0, 60);
    let mut t = String::new();
    let head = c.pick(&["", "<mujoco>", "<robot>", "<mujoco><worldbody><body>"]);
    t += head;
    for _ in 0..n {
        let w = c.pick(&TOKENS);
        t += w;
    }
    c.note("text", &t);
    all_readers(c, &t);
}
/// Things known to blow readers up.
fn bombs(c: &mut Case) {
    let k = c.us(2, 12);
    let mut t = String::from("<!DOCTYPE r [<!ENTITY e0 'ha'>");
    for i in 1..k {
        t += &format!("<!ENTITY e{i} '{}'>", format!("&e{};", i - 1).repeat(10));
    }
    let (tag, inner) = c.pick(&[("mujoco", "worldbody"), ("robot", "link")]);
    t += &format!("]><{tag}><{inner} name='&e{};'/></{tag}>", k - 1);
    c.note("text", &t);
    let t0 = std::time::Instant::now();
    all_readers(c, &t);
    // Very many of the same thing.
    let n = c.us(1000, 20_000);
    let (w, close) = c.pick(&[
        ("<mujoco><worldbody>§<site/>", "</worldbody></mujoco>"), ("<mujoco>§<compiler/>", "</mujoco>"), ("<mujoco>§<default/>", "</mujoco>"), ("<mujoco><worldbody/>§<a/>", "</mujoco>"), ("<robot>§<link name='a'/>", "</robot>"), ("<robot>§<joint/>", "</robot>"),
        ("<mujoco><worldbody><body>§<geom size='1'/>", "</body></worldbody></mujoco>"),
    ]);
    let (head, rep) = w.split_once('§').unwrap();
    let t = format!("{head}{}{close}", rep.repeat(n));
    all_readers(c, &t);
    c.ok(t0.elapsed().as_secs() < 60, "no runaway", || format!("{:?}", t0.elapsed()));
    c.hit("bomb");
}

// ---- depth: in a process of its own, since running out of stack cannot be caught ----
fn deep_text(kind: usize, n: usize) -> String {
    let body = "<inertial mass='1' diaginertia='1 1 1'/>";
    match kind {
        0 => format!("<mujoco><worldbody>{}{}</worldbody></mujoco>", format!("<body>{body}").repeat(n), "</body>".repeat(n)),
        1 => {
            let mut t = String::from("<mujoco>");
            for i in 0..n {
                t += &format!("<default class='c{i}'>");
            }
            t += &"</default>".repeat(n);
            t + &format!("<worldbody><body>{body}</body></worldbody></mujoco>")
        }
        2 => {
            let mut t = String::from("<robot><link name='l0'/>");
            for i in 1..n {
                t += &format!("<link name='l{i}'/><joint name='j{i}' type='fixed'><parent link='l{}'/><child link='l{i}'/></joint>", i - 1);
            }
            t + "</robot>"
        }
        3 => format!("<mujoco>{}<worldbody><body>{body}</body></worldbody></mujoco>", format!("{}{}", "<x>".repeat(n), "</x>".repeat(n))),
        4 => format!("<mujoco><worldbody>{}<body>{body}</body>{}</worldbody></mujoco>", "<worldbody>".repeat(n), "</worldbody>".repeat(n)),
        _ => format!("<robot>{}{}</robot>", "<link name='a'>".repeat(n), "</link>".repeat(n)),
    }
}
const KINDS: [&str; 6] = ["nested bodies", "nested default blocks", "a chain of links", "nested unread elements", "nested worlds", "nested links"];
fn deep_child(kind: usize, n: usize) {
    let t = deep_text(kind, n);
    let run = move || {
        let r = load_str(&t);
        let n = match &r {
            Ok(m) => {
                let tip = m.bodies().last().unwrap().name().to_string();
                let _ = m.path_to(&tip);
                let _ = m.kinematic_tree::<8, 8>();
                let _ = m.kinematic_tree_to::<8, 8>(&tip);
                let _ = m.to_rust_source(&RustSourceOptions::new("f").with_tip(&tip));
                let deep = m.clone();
                drop(deep);
                format!("ok {}", m.body_count())
            }
            Err(e) => format!("err {e:?}"),
        };
        println!("{n}");
    };
    std::thread::Builder::new().stack_size(2 << 20).spawn(run).unwrap().join().unwrap();
}
fn deep(c: &mut Case) {
    let kind = c.us(0, KINDS.len() - 1);
    let n = if kind == 2 || kind == 0 { c.pick(&[300, 3000, 6000]) } else { c.pick(&[300, 3000, 20_000]) };
    c.note("kind", &KINDS[kind]);
    c.note("depth", &n);
    let o = std::process::Command::new(std::env::current_exe().unwrap()).env("VMON_C33_DEEP", format!("{kind} {n}")).output().unwrap();
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    c.ok(o.status.success(), "deep text is read or refused", || format!("{} {n} deep: the reader died: {} {}", KINDS[kind], o.status, String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>()));
    let want = match kind {
        0 => format!("ok {n}"),
        2 => format!("ok {n}"),
        _ => "ok 1".into(),
    };
    // Depth is no reason for a refusal, short of the XML parser's own limit.
    c.ok(out.trim() == want || out.starts_with("err Xml"), "deep text reads whole", || format!("{} {n} deep: {out}", KINDS[kind]));
    c.hit("deep");
    if out.starts_with("ok") {
        c.hit("deep and read");
    }
}

// ---- broken files ----
static DIRS: AtomicU64 = AtomicU64::new(0);
struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn files(c: &mut Case) {
    let s = Scratch(std::env::temp_dir().join(format!("vmon-c33-{}-{}", std::process::id(), DIRS.fetch_add(1, Ordering::Relaxed))));
    std::fs::create_dir_all(&s.0).unwrap();
    let n = c.us(1, 4);
    let names: Vec<String> = (0..n).map(|i| format!("f{i}.xml")).collect();
    for (i, name) in names.iter().enumerate() {
        let mut d = gen_mjcf(c);
        // Includes at any place, of any file, inside anything.
        for _ in 0..c.us(if i == 0 { 1 } else { 0 }, 2) {
            let file = match c.us(0, 9) {
                0 => c.pick(&["", ".", "..", "gone", "f0.xml/", "/", "a\u{0}b", "\u{feff}", "f1.xml ", "////"]).to_string(),
                1 => "x".repeat(c.pick(&[300, 5000])),
                // Mostly forward, so that runs come to an end.
                _ => if i + 1 < n { names[c.us(i + 1, n - 1)].clone() } else { c.pick(&names) },
            };
            let paths = d.paths();
            let p = c.pick(&paths);
            let mut e = el("include");
            if c.p(0.95) {
                e.set("file", file);
            }
            match c.us(0, 5) {
                0 => e.kids.push(el("include").a("file", "f1.xml")),
                1 => e.kids.push(el("x")),
                _ => {}
            }
            let host = d.at_mut(&p);
            let k = c.us(0, host.kids.len());
            host.kids.insert(k, e);
        }
        if c.p(0.05) {
            d = el("include").a("file", c.pick(&names));
        }
        let mut t = text(c, &d);
        if c.p(0.2) {
            hurt(c, &mut t);
        }
        let mut b = t.into_bytes();
        if c.p(0.05) && !b.is_empty() {
            let k = c.us(0, b.len() - 1);
            b[k] = c.us(0, 255) as u8;
        }
        c.note(name, &String::from_utf8_lossy(&b).to_string());
        std::fs::write(s.0.join(name), b).unwrap();
    }
    let p = s.0.join("f0.xml");
    let (a, b) = (load_path(&p), load_path(&p));
    sound(c, "load_path", &a);
    c.ok(format!("{a:?}") == format!("{b:?}"), "the same file reads the same", String::new);
    let u = ur::load_path(&p);
    sound(c, "urdf::load_path", &u);
    c.hit("files");
    if a.is_ok() {
        c.hit("files loaded");
    }
}

fn main() {
    if let Ok(v) = std::env::var("VMON_C33_DEEP") {
        let p: Vec<usize> = v.split(' ').map(|w| w.parse().unwrap()).collect();
        deep_child(p[0], p[1]);
        return;
    }
    vmon::run("C33", |s| {
        s.rule("broken texts, twisted documents and hostile files are read by every reader: a panic, a dead process or a runaway is a violation, and whatever loads must satisfy the model's own invariants, tree and source included");
        s.monitor("broken", 150000, 20, broken);
        s.monitor("twisted", 200000, 20, twisted);
        s.monitor("noise", 100000, 20, noise);
        s.monitor("bombs", 60, 5, bombs);
        s.monitor("deep", 60, 3, deep);
        s.monitor("files", 30000, 10, files);
        for (e, n) in [
            ("loaded", 2000), ("not xml", 2000), ("bad attribute", 2000), ("bad inertia", 100), ("bad root", 500), ("unsupported", 300), ("bad linkage", 300), ("other refusal", 500), ("tree built", 1000), ("tree refused", 500), ("source written", 1000),
            ("source refused", 500), ("bomb", 40), ("deep", 40), ("deep and read", 20), ("files", 5000), ("files loaded", 300),
        ] {
            s.require(e, n);
        }
    })
}
