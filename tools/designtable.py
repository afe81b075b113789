#!/usr/bin/env python3
"""Development aid: rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, pathlib
R = pathlib.Path(__file__).resolve().parent.parent
d = R / "DESIGN.md"
s = d.read_text()
s = s[:s.index("## Planted bugs")]
missed = json.loads((R / "tools/missed.json").read_text()) if (R / "tools/missed.json").exists() else {}
rows = []
for m in sorted((R / "seeded").glob("*/meta.json")):
    j = json.loads(m.read_text())
    cell = lambda t: t.replace("|", "\\|").replace("\n", " ")
    rows.append(f"| {m.parent.name} | {cell(j['what_it_breaks'])} | {cell(j['needs'])} | {missed.get(m.parent.name, 'quick check of ' + j['property'])} |")
s += f"""## Planted bugs

{len(rows)} changes were written from the statements and the code, confirmed (they build, the 13 tests pass, the demonstration passes without
and fails with them) and kept in `seeded/`. `tools/seedtest.py --check` runs the check of each one's property against a patched copy.
Those that were missed at first led to stronger workloads (all flag combinations in C17, any byte in the texts of C23, lists
with field widths in C19, equality grids in C21/C22, exhaustive fixed32 sweeps in the quick runs of C06-C08).

| planted bug | what it breaks | needs | caught by |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
d.write_text(s)
