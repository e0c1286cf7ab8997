F="crates/multicalc-robot-model/src/"
PROPS=[
dict(id="C32",title="Robot model files: what the file says is what loads, anything else is refused",
 st="For every MJCF or URDF document that loads, every body's place, turn, mass, centre, inertia, joint, limits, damping, friction and rotor figures are those the format defines for the file's text (units, angle sequences, default classes, shape masses, includes), and the kinematic tree built from it moves every body as the file says. A document that is malformed, uses something not read, or says impossible things is refused with the error that names the fault and its place, never loaded with a part silently dropped. Reading the same text twice, or from a file with its parts included, gives the same model.",
 q="all documents in both dialects: angle units, five ways of writing a turn, nested default classes, all shapes, fused inertias, several joints per body, free bodies, mimic and fixed joints, includes over several files, each known fault planted anywhere",
 why="Tests load a dozen files; dropped sections, wrong precedence of defaults and wrong frames show only in particular combinations.",
 files=[F+"lib.rs",F+"xml.rs",F+"mjcf/body.rs",F+"mjcf/defaults.rs",F+"mjcf/geometry.rs",F+"mjcf/joint.rs",F+"mjcf/compiler.rs",F+"mjcf/document.rs",F+"urdf/link.rs",F+"urdf/joint.rs",F+"urdf/tree.rs"],
 mech=[("defaults by class and childclass",F+"mjcf/defaults.rs"),("mass and inertia from shapes",F+"mjcf/geometry.rs"),("include splicing",F+"mjcf/document.rs"),("tree order from link and joint names",F+"urdf/tree.rs"),("tree building",F+"lib.rs")],
 note="Sampled: 120 thousand generated documents per quick run, read a second way by an independent reader. Eight defects repaired."),
dict(id="C33",title="No text makes the model readers panic, overflow the stack or run away",
 st="For every string given to the MJCF and URDF readers, including broken, truncated, hostile, deeply nested or enormous ones, and files that include each other, the outcome is a model or a typed error, within memory and time proportional to the text. Whatever loads is whole: its bodies are in parent-first order, and building a tree or writing Rust source from it also ends in a result or a typed error.",
 q="all texts: generated and shipped models with edits to names, numbers, structure and bytes, random mark-up, long chains, deep nesting, include cycles, huge numbers and names",
 why="Tests try a few bad files; a reader meets every possible broken file.",
 files=[F+"lib.rs",F+"xml.rs",F+"mjcf/document.rs",F+"mjcf/body.rs",F+"urdf/tree.rs",F+"error.rs"],
 mech=[("nesting and include limits",F+"mjcf/document.rs"),("typed errors",F+"error.rs")],
 note="Sampled: 480 thousand hostile texts per quick run, deep nesting in a child process with a small stack. Two defects repaired."),
dict(id="C34",title="Generated Rust source compiles and rebuilds the same robot, or is refused",
 st="For every model and options that the writer accepts, the source it writes is self-contained Rust that compiles without warnings and whose function returns a tree equal, joint by joint and number by number at the chosen precision, to the one the model itself builds, with the capacity, name, documentation and tip asked for. Options or models that cannot be written (bad names, too little room, numbers out of the precision's range, unknown tips) are refused with a typed error. Names and text from the model never become code.",
 q="all models of up to 200 bodies, both precisions, names with quotes, comments, line breaks and non-Latin letters, capacities too small to generous, tips, headers and documentation",
 why="Tests compile one fixed arm; what the writer emits for odd names, extreme numbers and tight capacities is never compiled.",
 files=[F+"codegen.rs",F+"lib.rs"],
 mech=[("source text for each joint and body",F+"codegen.rs"),("refusal of what cannot be written",F+"codegen.rs")],
 note="Sampled: 16 batches of generated sources compiled by rustc and run per quick run, 20 thousand refusals. Three defects repaired."),
]
