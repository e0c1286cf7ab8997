#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json. No check uses this."""
import json, pathlib
root = pathlib.Path(__file__).parent
rows = ["| change | property and check | what it needs to show |", "|---|---|---|"]
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| `{d.name}` | {m['property']} | {m['needs']} |")
p = root / "DESIGN.md"
s = p.read_text()
a, b = "<!-- seeded table -->", "<!-- end of seeded table -->"
p.write_text(s[: s.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n" + s[s.index(b):])
