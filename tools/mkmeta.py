#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py (checks that exist only)."""
import json
import sys
from pathlib import Path

HERE = Path(__file__).resolve().parent
ROOT = HERE.parent
sys.path.insert(0, str(HERE))
from props import P  # noqa: E402

have = {f.stem.split("_")[0].upper() for f in (ROOT / "harness" / "checks").glob("c*_*.py")}
lines, checks = [], []
for p in P:
    if p["id"] not in have:
        continue
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
        "anchors": {"files": p["files"],
                    "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}))
    cmd = "bash run_check.sh " + p["id"]
    checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": "env VERIF_TIER=thorough " + cmd,
                   "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
missing = have - {p["id"] for p in P}
if missing:
    print("check modules without a property entry:", sorted(missing))
(ROOT / "properties.jsonl").write_text("\n".join(lines) + "\n")
(ROOT / "MANIFEST.json").write_text(json.dumps({
    "version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
    "notes": "All checks are generated-input searches (Hypothesis) against explicit oracles; see "
             "DESIGN.md. Replays are written to /verif/replays (git-ignored). Known findings: "
             "KNOWN_FINDINGS.txt."}, indent=1) + "\n")
print(len(checks), "checks")
