"""Rewrite the planted-bug table at the end of DESIGN.md from seeded/*/meta.json."""
import json
from pathlib import Path
V = Path(__file__).resolve().parent.parent
# missed when planted -> what the check gained
GAINED = {
    "C09-skip-suffix": "state names that contain one another, skip entries that are fragments",
    "C20-temp-tol": "small changes of the temperature increment in the histories",
    "C03-substring-count": "segment names that contain one another",
    "C04-float32": "tolerance scaled to double precision",
    "C27-combine-temp": "units metamorphic check (new property)",
    "C26-number-int": "integer and numpy scalars as dictionary values",
    "C26-dvlabel-alias": "several labels sharing a source",
    "C22-no-component-premium": "options that switch a term off",
    "C08-lift-off-friction": "the `motion` sub-check",
    "C20-toverc-sum": "redistribution steps in the histories",
    "C25-contour-back": "sheared meshes",
    "C23-viscosity-memo": "last step at the target with one input reordered",
    "C08-rotation-lift": "the `motion` sub-check",
}
ex = V / "tools" / "gained.json"
if ex.exists():
    GAINED.update(json.loads(ex.read_text()))
d = (V / "DESIGN.md").read_text()
head = d[:d.index("## Planted bugs")]
rows = ["| bug | needs | caught by | missed at first; the check gained |", "|---|---|---|---|"]
for m in sorted((V / "seeded").glob("*/meta.json")):
    j = json.loads(m.read_text())
    rows.append("| %s | %s | %s quick%s | %s |" % (m.parent.name, j["needs"].replace("|", "/"), j["property"], j.get("also", ""), GAINED.get(m.parent.name, "")))
head += """## Planted bugs

`tools/plant.py` makes, demonstrates and runs them (patched copies under /tmp/pw, removed afterwards). Each was
written from the property text and the code; every one listed passes the stable tests and is caught by the quick
check named.  `tools/mutate.py` complements them with random single-site mutants of the anchored files: every survivor was read
and is either equivalent or led to a stronger check.

"""
(V / "DESIGN.md").write_text(head + "\n".join(rows) + "\n")
