#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from meta/*.py entries (one dict per property)."""
import json, os, glob
root = os.path.dirname(os.path.abspath(__file__))
PROPS = []
NA = []
for f in sorted(glob.glob(root + "/meta/*.py")):
    ns = {}
    exec(open(f).read(), ns)
    PROPS += ns.get("PROPS", [])
    NA += ns.get("NA", [])
PROPS.sort(key=lambda p: p["id"])
with open(root + "/properties.jsonl", "w") as o:
    for p in PROPS:
        a = {"files": p["files"], "mechanism": [{"name": w, "where": x} for w, x in p["mech"]]}
        if "state" in p: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        o.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["st"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["q"]},
            "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
checks = []
for p in PROPS:
    if any(n["property"] == p["id"] for n in NA):
        continue
    assert os.path.exists(f"{root}/harness/src/bin/{p['id'].lower()}.rs"), p["id"]
    checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p.get("tech", "runtime monitoring: differential oracle over generated executions"),
        "level": "exploration", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "./check selftest", "checks": checks, "not_applicable": NA,
     "notes": "Every check is a runtime monitor over executions of the real library, built from /repo's working tree with debug assertions and overflow checks on; see DESIGN.md. No hooks in /repo were needed."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(root + "/MANIFEST.json", "a").write("\n")
print(len(PROPS), "properties,", len(checks), "checks")

# The per-property part of DESIGN.md, from the monitors themselves.
import re, ast
def strings(src, call):
    out = []
    for m in re.finditer(r'\b' + re.escape(call) + r'\(\s*(?:&format!\()?"((?:[^"\\]|\\.)*)"(?:\)?,\s*([0-9_]+))?', src):
        out.append((re.sub(r"\\\n\s*", "", m.group(1)), m.group(2)))
    return out
known = [l.rstrip("\n") for l in open(root + "/known_findings.tsv") if l.strip() and not l.startswith("#")]
parts = []
for p in PROPS:
    pid = p["id"]
    src = open(f"{root}/harness/src/bin/{pid.lower()}.rs").read()
    mons = strings(src, "s.monitor") + strings(src, "both!")
    parts.append(f"### {pid} — {p['title']}\n")
    tech = p.get("tech", "runtime monitoring: differential oracle over generated executions")
    parts.append(f"*Decided by* {tech}.")
    for t, _ in strings(src, "s.rule"):
        parts.append(f"*Oracle and coverage rule.* {t[0].upper() + t[1:]}")
    for t, _ in strings(src, "s.assume"):
        parts.append(f"*Bounds and assumptions.* {t[0].upper() + t[1:]}")
    if mons:
        parts.append("*Monitors (cases per quick run):* " + ", ".join(f"{n} ({q.replace('_', ' ')})" if q else n for n, q in mons) + ".")
    parts.append(f"*Why tests do not settle it.* {p['why']}")
    parts.append(f"*Reach.* {p['note']}")
    fixed = [l for l in known if l.startswith(f"fixed: property={pid} ")]
    open_ = [l.split("\t") for l in known if l.startswith(pid + "\t")]
    if fixed:
        parts.append("*Defects found and repaired:*\n" + "\n".join("- " + l.split(" ", 2)[2] for l in fixed))
    if open_:
        parts.append("*Known findings, recorded and not repaired:*\n" + "\n".join(f"- `{o[1]}` / `{o[2]}`: {o[3]}" for o in open_))
    parts.append("")
d = open(root + "/DESIGN.md").read()
a, b = "<!-- properties: generated by meta.py -->", "<!-- end of properties -->"
if a in d:
    d = d[:d.index(a)] + a + "\n\n" + "\n\n".join(x for x in parts) + "\n" + d[d.index(b):]
    open(root + "/DESIGN.md", "w").write(d)
