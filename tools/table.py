#!/usr/bin/env python3
"""Developer tool: rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob
import json
from pathlib import Path

root = Path(__file__).resolve().parent.parent
head = "| planted | check that catches it | what it breaks |\n|---|---|---|\n"
s = (root / "DESIGN.md").read_text()
s = s[:s.index(head)] + head
for m in sorted(glob.glob(str(root / "seeded/*/meta.json"))):
    j = json.load(open(m))
    s += "| %s | %s | %s |\n" % (Path(m).parent.name, j["property"], j["what_it_breaks"])
(root / "DESIGN.md").write_text(s)
