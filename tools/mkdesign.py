#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md, the repairs and the planted bugs."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
out = [(root / "tools/design_head.md").read_text().rstrip("\n"), ""]
kf = json.loads((root / "known_findings.json").read_text())
out += ["## 5. Genuine defects found, all repaired", "",
        f"{len(kf['fixed'])} entries of `known_findings.json`, each with its `fix:` commit in /repo; the checks",
        "report them again if they return (they were found by the checks named).", ""]
by = {}
for f in kf["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", f)
    by.setdefault(m[1], []).append((m[2][:7], m[3]))
for p in sorted(by):
    out.append(f"* **{p}**")
    for h, t in by[p]:
        out.append(f"  * `{h}` {t}")
out += ["", "## 6. Planted bugs", "",
        "Each was written from a property's text and the code; `tools/plant.py` builds the change in a",
        "scratch tree, runs the existing tests and the demonstration with and without it, and `tools/catch.sh`",
        "runs the property's quick check against it.  \"first missed\" says what was added.", "",
        "| planted bug | what it needs | caught by |", "|---|---|---|"]
notes = json.loads((root / "tools/catches.json").read_text())
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    out.append(f"| {d.name}: {m['what_it_breaks']} | {m['needs']} | {notes.get(d.name, m['property'])} |")
out += ["", (root / "tools/design_tail.md").read_text().rstrip("\n"), ""]
(root / "DESIGN.md").write_text("\n".join(out))
