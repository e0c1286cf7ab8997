//! C34: Rust source written from a model compiles and builds the model's own tree.
use multicalc::error::KinematicsError as K;
use multicalc::kinematics::*;
use multicalc_robot_model::{GeneratedScalar, ModelError as E, RobotModel, RustSourceOptions, load_str};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::OnceLock;
use std::sync::atomic::{AtomicU64, Ordering};
use vmon::model::*;
use vmon::*;

const N: usize = 200;

// ---- what to write and what must come of it ----
#[derive(Clone, Debug)]
struct Order {
    name: String,
    f64: bool,
    capacity: usize,
    config: usize,
    tip: Option<String>,
    header: String,
    doc: String,
}
fn order(c: &mut Case, w: &Model) -> Order {
    let n = w.bodies.len();
    let size = |c: &mut Case| match c.us(0, 5) {
        0 => c.us(1, n + 2),
        1 => n,
        2 => n + c.us(0, 8),
        _ => 0,
    };
    let lines = ["", "", "from a file", "*/ /* \" ' \\", "é 漢字 ∂", "}{", "//! x", "#![no_std]", "[`nothing`] <b>", "\tindented"];
    Order {
        name: c.pick(&["tree", "build", "r#fn", "arm_7_dof", "_x", "t", "Robot", "ünï"]).into(),
        f64: c.p(0.5),
        capacity: size(c),
        config: size(c),
        tip: if c.p(0.35) { Some(if c.p(0.05) { "no such body".into() } else { c.pick(&w.bodies).name }) } else { None },
        header: c.pick(&lines).into(),
        doc: c.pick(&lines).into(),
    }
}
fn options(o: &Order) -> RustSourceOptions {
    let mut x = RustSourceOptions::new(&o.name);
    if o.f64 {
        x = x.with_scalar(GeneratedScalar::F64);
    }
    if let Some(t) = &o.tip {
        x = x.with_tip(t);
    }
    // Last said is what counts.
    x.with_capacity(7).with_configuration_capacity(3).with_capacity(o.capacity).with_configuration_capacity(o.config).with_header(&o.header).with_documentation(&o.doc)
}
fn kind(w: &Model, i: usize) -> &'static str {
    w.bodies[i].joint.as_ref().map_or("Fixed", |j| j.kind)
}
/// The slots and the two capacities, or the refusal.
fn want(w: &Model, o: &Order) -> Result<(Vec<usize>, usize, usize), E> {
    let slots: Vec<usize> = match &o.tip {
        None => (0..w.bodies.len()).collect(),
        Some(t) => {
            let mut at = w.bodies.iter().position(|b| b.name == *t).ok_or(E::UnknownBody { name: t.clone() })?;
            let mut s = vec![at];
            while let Some(p) = w.bodies[at].parent {
                s.insert(0, p);
                at = p;
            }
            s
        }
    };
    for i in &slots {
        if let Some(j) = &w.bodies[*i].joint {
            if let Some(m) = &j.mimic {
                return Err(E::MimicJointInTree { joint: j.name.clone(), follows: m.0.clone() });
            }
        }
    }
    let capacity = if o.capacity == 0 { slots.len() } else { o.capacity };
    if slots.len() > capacity {
        return Err(E::TreeCapacityExceeded { needed: slots.len(), capacity });
    }
    let config = if o.config == 0 { capacity + if w.floating { 6 } else { 0 } } else { o.config };
    let mut entries = 0;
    for (k, i) in slots.iter().enumerate() {
        let floating = kind(w, *i) == "Floating";
        if floating && k > 0 {
            return Err(E::Kinematics(K::FloatingJointNotAtRoot));
        }
        let b = &w.bodies[*i];
        let mut v: Vec<f64> = if floating { vec![] } else { b.t.to_vec() };
        if let Some(j) = b.joint.as_ref().filter(|_| !floating) {
            v.extend([j.zero.f(), j.armature, j.damping, j.friction]);
            if j.kind != "Prismatic" {
                v.extend(j.anchor);
            }
            if let Some((a, b)) = j.limits {
                v.extend([a.f(), b.f()]);
            }
        }
        if !o.f64 && v.iter().any(|x| !(*x as f32).is_finite()) {
            return Err(E::Kinematics(K::NonFinite));
        }
        entries += if floating { 7 } else { 1 };
    }
    if entries > config {
        return Err(E::Kinematics(K::ConfigurationCapacityExceeded));
    }
    Ok((slots, capacity, config))
}
/// A model with names and numbers that are awkward to write down.
fn model(c: &mut Case) -> (String, RobotModel, Model) {
    let u = c.p(0.4);
    let mut d = if u { gen_urdf(c) } else { gen_mjcf_with(c, false) };
    let big = c.p(0.25);
    let odd = c.p(0.4);
    let labels = ["a\nb", "a\rb", "\u{202e}evil", "\u{2028}x", "*/", "// }", "\"quote\"", "\\u{41}", "{}", "\u{0}", "\u{301}mark", "\u{feff}bom", "a\tb", "漢"];
    let paths = d.paths();
    let mut renamed = 0;
    for p in paths {
        let e = d.at_mut(&p);
        if big && matches!(e.tag.as_str(), "body" | "origin" | "joint" | "dynamics" | "limit") && c.p(0.3) {
            let k = match e.tag.as_str() {
                "dynamics" => c.pick(&["damping", "friction"]),
                "limit" => c.pick(&["lower", "upper"]),
                "joint" => c.pick(&["pos", "damping", "armature", "frictionloss", "ref", "range"]),
                _ => c.pick(&["pos", "xyz"]),
            };
            let fits = match k {
                "pos" => e.tag != "origin",
                "xyz" => e.tag == "origin",
                "range" => e.get("range").is_some(),
                "lower" | "upper" | "friction" => true,
                "damping" if e.tag == "dynamics" => true,
                _ => e.tag == "joint" && !u && e.get("type") != Some("free"),
            };
            if fits {
                let v: Vec<f64> = (0..match k { "pos" | "xyz" => 3, "range" => 2, _ => 1 }).map(|_| c.pick(&[1e39, 3.4e38, -3.5e38, 1e-46, 1e-39, 1e300, -0.0, 1.0, 16777217.0, 1e16, 0.1])).map(f64::abs).collect();
                // Limits the right way round, whatever the other one says.
                let v = match k {
                    "range" => vec![v[0].min(v[1]), v[0].max(v[1])],
                    "lower" => vec![-1e5 - v[0]],
                    "upper" => vec![1e5 + v[0]],
                    _ => v,
                };
                let t = list(c, &v);
                e.set(k, t);
            }
        }
        if odd && e.tag == "body" && c.p(0.5) {
            // No NUL in XML.
            let l = c.pick(&labels);
            if l != "\u{0}" {
                renamed += 1;
                e.set("name", format!("{l}{renamed}"));
            }
        }
    }
    if odd && u {
        for k in d.kids.iter_mut() {
            // One name throughout.
            rename(k, "link0", "a\r\n}b");
        }
    }
    let t = text(c, &d);
    let w = if u { urdf(&d) } else { mjcf(&d) };
    let m = c.get("a good document loads", load_str(&t));
    (t, m, w)
}
fn rename(e: &mut El, from: &str, to: &str) {
    for (_, v) in e.attrs.iter_mut() {
        if v == from {
            *v = to.into();
        }
    }
    for k in e.kids.iter_mut() {
        rename(k, from, to);
    }
}
fn refusals(c: &mut Case) {
    let (t, m, w) = model(c);
    let o = order(c, &w);
    c.note("text", &t);
    c.note("order", &o);
    let g = m.to_rust_source(&options(&o));
    match want(&w, &o) {
        Err(e) => {
            c.hit(match &e {
                E::UnknownBody { .. } => "no such tip",
                E::MimicJointInTree { .. } => "mimic",
                E::TreeCapacityExceeded { .. } => "too few slots",
                E::Kinematics(K::NonFinite) => "too big for f32",
                E::Kinematics(K::ConfigurationCapacityExceeded) => "too little configuration",
                _ => "free body in a later slot",
            });
            c.eq("refusal", g.err(), Some(e));
        }
        Ok(_) => {
            let g = c.get("source", g);
            c.eq("same source again", m.to_rust_source(&options(&o)), Ok(g.clone()));
            // Nothing but the few fixed lines and comments between the pushes.
            c.ok(!o.header.is_empty() == g.starts_with("// "), "header first", || g.clone());
            c.ok(!g.contains('\u{202e}'), "no turned text", || g.clone());
            c.hit("written");
        }
    }
}

// ---- compiling ----
static DIRS: AtomicU64 = AtomicU64::new(0);
struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn scratch() -> Scratch {
    let p = std::env::temp_dir().join(format!("vmon-c34-{}-{}", std::process::id(), DIRS.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&p).unwrap();
    Scratch(p)
}
/// The library built as a user would build it, and the folder of its dependencies.
fn library() -> &'static (PathBuf, PathBuf) {
    static L: OnceLock<(PathBuf, PathBuf)> = OnceLock::new();
    L.get_or_init(|| {
        let root = std::env::var("VMON_ROOT").unwrap_or("/verif".into());
        let manifest = std::fs::read_to_string(format!("{root}/harness/Cargo.toml")).unwrap();
        let line = manifest.lines().find(|l| l.starts_with("multicalc = ")).unwrap();
        let path = line.split('"').nth(1).unwrap().to_string();
        let s = scratch();
        std::fs::create_dir_all(s.0.join("src")).unwrap();
        std::fs::write(s.0.join("Cargo.toml"), format!("[package]\nname = \"user\"\nversion = \"0.1.0\"\nedition = \"2024\"\n[workspace]\n[dependencies]\nmulticalc = {{ path = \"{path}\" }}\n")).unwrap();
        std::fs::write(s.0.join("src/lib.rs"), "").unwrap();
        let o = Command::new("cargo").args(["build", "--offline", "--message-format=json", "--manifest-path"]).arg(s.0.join("Cargo.toml")).env("CARGO_TARGET_DIR", format!("{root}/target/c34")).output().expect("cargo runs");
        let out = String::from_utf8_lossy(&o.stdout);
        let lib = out.split('"').find(|w| w.ends_with(".rlib") && w.rsplit('/').next().is_some_and(|f| f.starts_with("libmulticalc-"))).unwrap_or_else(|| panic!("the library does not build: {}", String::from_utf8_lossy(&o.stderr)));
        let lib = PathBuf::from(lib);
        let deps = lib.parent().unwrap().to_path_buf();
        (lib, deps)
    })
}
const RUNNER: &str = r#"
use multicalc::kinematics::*;
macro_rules! show { ($name:ident, $t:ty) => {
    fn $name<const J: usize, const C: usize>(k: usize, build: fn() -> KinematicTree<J, C, $t>) {
        let Ok(tree) = std::panic::catch_unwind(build) else { println!("tree {k} panicked"); return };
        println!("tree {k} {} {} {}", tree.len(), tree.config_len(), tree.has_floating_base());
        for i in 0..tree.len() {
            let j = tree.joint(i).unwrap();
            let p = match tree.parent(i).unwrap() { JointParent::World => -1, JointParent::Joint(p) => p as i64 };
            print!("{:?} {p} {}", j.kind(), j.limits().is_some());
            let (a, b) = j.limits().unwrap_or((0.0, 0.0));
            let o = j.origin();
            for v in o.translation().as_array().iter().chain(&o.rotation().quaternion().as_array()).chain(j.axis().as_array()).chain(j.anchor().as_array()).chain(&[a, b, j.zero_offset(), j.armature(), j.damping(), j.friction_loss()]) {
                print!(" {:x}", v.to_bits());
            }
            println!();
        }
    }
} }
show!(show32, f32);
show!(show64, f64);
"#;
fn compile(dir: &Path, main: &Path, lib: &(PathBuf, PathBuf)) -> Result<PathBuf, String> {
    let exe = dir.join("run");
    let o = Command::new("rustc")
        .args(["--edition", "2024", "-Copt-level=0", "-Cdebuginfo=0", "-Ccodegen-units=4", "-Awarnings", "--error-format=short", "-o"])
        .arg(&exe)
        .arg(main)
        .arg("--extern")
        .arg(format!("multicalc={}", lib.0.display()))
        .arg("-L")
        .arg(format!("dependency={}", lib.1.display()))
        .output()
        .expect("rustc runs");
    if o.status.success() { Ok(exe) } else { Err(String::from_utf8_lossy(&o.stderr).to_string()) }
}
fn compiled(c: &mut Case) {
    let lib = library();
    let s = scratch();
    let (mut main, mut calls) = (String::new(), String::new());
    let mut made: Vec<(String, RobotModel, Model, Order, Vec<usize>, String)> = vec![];
    let batch = 40;
    while made.len() < batch {
        let (t, m, w) = model(c);
        if made.len() > 1 && w.bodies.len() > 12 && c.p(0.7) {
            continue;
        }
        for _ in 0..2 {
            let o = order(c, &w);
            let Ok((slots, cap, conf)) = want(&w, &o) else { continue };
            let k = made.len();
            let src = c.get("source", m.to_rust_source(&options(&o)));
            std::fs::write(s.0.join(format!("m{k}.rs")), &src).unwrap();
            let token = if o.f64 { "f64" } else { "f32" };
            let _ = writeln!(main, "mod m{k};");
            let _ = writeln!(calls, "    show{}::<{cap}, {conf}>({k}, m{k}::{} as fn() -> KinematicTree<{cap}, {conf}, {token}>);", &token[1..], o.name);
            made.push((t.clone(), m.clone(), w.clone(), o, slots, src));
        }
    }
    let path = s.0.join("main.rs");
    std::fs::write(&path, format!("{main}{RUNNER}fn main() {{\n    std::panic::set_hook(Box::new(|_| {{}}));\n{calls}}}\n")).unwrap();
    let exe = match compile(&s.0, &path, lib) {
        Ok(e) => e,
        Err(e) => {
            // Which one it was: the first whose file, or whose call, is named.
            let calls_from = main.lines().count() + RUNNER.lines().count() + 2;
            let bad = e
                .lines()
                .find_map(|l| {
                    let f = l.split(':').next()?.rsplit('/').next()?;
                    if f == "main.rs" {
                        let n: usize = l.split(':').nth(1)?.parse().ok()?;
                        return n.checked_sub(calls_from + 1).filter(|k| *k < made.len());
                    }
                    f.strip_prefix('m')?.strip_suffix(".rs")?.parse::<usize>().ok()
                })
                .unwrap_or(0);
            let x = &made[bad];
            c.note("text", &x.0);
            c.note("order", &x.3);
            c.note("source", &x.5);
            c.fail("source does not compile", e.chars().take(1200).collect::<String>());
        }
    };
    let o = Command::new(&exe).output().unwrap();
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    c.ok(o.status.success(), "the program runs", || format!("{} {}", o.status, String::from_utf8_lossy(&o.stderr)));
    let mut lines = out.lines();
    for (k, (t, m, w, o, slots, src)) in made.iter().enumerate() {
        c.note("text", t);
        c.note("order", o);
        c.note("source", src);
        let r = match &o.tip {
            Some(t) => m.kinematic_tree_to::<N, N>(t),
            None => m.kinematic_tree::<N, N>(),
        };
        let tree = c.get("the model's own tree", r);
        let head = lines.next().unwrap_or("nothing");
        c.eq("what was built", head, format!("tree {k} {} {} {}", tree.len(), tree.config_len(), tree.has_floating_base()).as_str());
        c.eq("slots", tree.len(), slots.len());
        let single = |v: f64| if o.f64 { v } else { v as f32 as f64 };
        let eps = if o.f64 { f64::EPSILON } else { f32::EPSILON as f64 };
        for i in 0..tree.len() {
            let j = tree.joint(i).unwrap();
            let p = match tree.parent(i).unwrap() {
                JointParent::World => -1,
                JointParent::Joint(p) => p as i64,
            };
            let l = lines.next().unwrap_or("").to_string();
            let f: Vec<&str> = l.split(' ').collect();
            c.eq("kind, parent, bounded", f[..3].join(" ").as_str(), format!("{:?} {p} {}", j.kind(), j.limits().is_some()).as_str());
            c.eq("kind from the file", format!("{:?}", j.kind()).as_str(), kind(w, slots[i]));
            let got: Vec<f64> = f[3..].iter().map(|h| if o.f64 { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { f32::from_bits(u32::from_str_radix(h, 16).unwrap()) as f64 }).collect();
            let (a, b) = j.limits().unwrap_or((0.0, 0.0));
            let og = j.origin();
            for (x, v) in got[..3].iter().zip(og.translation().as_array()) {
                c.same_bits("place", *x, single(*v));
            }
            for (x, v) in got[3..7].iter().zip(og.rotation().quaternion().as_array()) {
                c.near("turn", *x, v, 4.0 * eps);
            }
            if !matches!(j.kind(), JointKind::Fixed | JointKind::Floating) {
                for (x, v) in got[7..10].iter().zip(j.axis().as_array()) {
                    c.near("axis", *x, *v, 4.0 * eps);
                }
                if j.kind() != JointKind::Prismatic {
                    for (x, v) in got[10..13].iter().zip(j.anchor().as_array()) {
                        c.same_bits("anchor", *x, single(*v));
                    }
                }
                for (x, v) in got[13..].iter().zip([a, b, j.zero_offset(), j.armature(), j.damping(), j.friction_loss()]) {
                    c.same_bits("limits, zero and dynamics", *x, single(v));
                }
            }
            c.hit("slot compared");
        }
        c.hit(if o.f64 { "f64 source run" } else { "f32 source run" });
        if o.tip.is_some() {
            c.hit("chain source run");
        }
        if tree.has_floating_base() {
            c.hit("floating source run");
        }
    }
}
/// More bodies than anyone draws by hand.
fn large(c: &mut Case) {
    let lib = library();
    let s = scratch();
    let n = c.pick(&[127usize, 128, 129, 150, 199]);
    let free = c.p(0.5);
    let one = |i: usize| format!("<inertial mass='1' diaginertia='1 1 1'/>{}", if i == 0 && free { "<freejoint/>".into() } else { format!("<joint axis='0 {} 1' damping='{i}'/>", i % 3) });
    let mut t = String::from("<mujoco><worldbody>");
    let deep = c.p(0.5);
    t += &format!("<body name='b0'>{}", one(0));
    for i in 1..n {
        t += &format!("<body name='b{i}'>{}", one(i));
        if !deep {
            t += "</body>";
        }
    }
    t += &"</body>".repeat(if deep { n } else { 1 });
    t += "</worldbody></mujoco>";
    let m = c.get("loads", load_str(&t));
    c.eq("bodies", m.body_count(), n);
    let src = c.get("large source", m.to_rust_source(&RustSourceOptions::new("big")));
    std::fs::write(s.0.join("m0.rs"), &src).unwrap();
    let conf = n + if free { 6 } else { 0 };
    let path = s.0.join("main.rs");
    std::fs::write(&path, format!("mod m0;\n{RUNNER}fn main() {{ show32::<{n}, {conf}>(0, m0::big as fn() -> KinematicTree<{n}, {conf}, f32>); let _ = show64::<1, 1>; }}\n")).unwrap();
    let exe = match compile(&s.0, &path, lib) {
        Ok(e) => e,
        Err(e) => c.fail("source does not compile", e.chars().take(1200).collect::<String>()),
    };
    let o = Command::new(&exe).output().unwrap();
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    c.eq("what was built", out.lines().next().unwrap_or("nothing"), format!("tree 0 {n} {conf} {free}").as_str());
    c.eq("slots", out.lines().count(), n + 1);
    c.hit("large source run");
}

fn main() {
    vmon::run("C34", |s| {
        s.rule("generated source is compiled with rustc against the library as it stands and run; the tree it prints is compared number by number with the model's own, and every refusal with the one the request calls for");
        s.monitor("refusals", 20000, 20, refusals);
        s.monitor("compiled", 12, 12, compiled);
        s.monitor("large", 4, 5, large);
        for (e, n) in [
            ("written", 4000), ("no such tip", 50), ("mimic", 100), ("too few slots", 300), ("too big for f32", 100), ("too little configuration", 200), ("free body in a later slot", 20), ("slot compared", 600), ("f64 source run", 100), ("f32 source run", 100),
            ("chain source run", 50), ("floating source run", 10), ("large source run", 3),
        ] {
            s.require(e, n);
        }
    })
}
