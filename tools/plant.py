#!/usr/bin/env python3
"""Developer tool (no check uses it): turn bug specifications into seeded/<id>/ and verify them.

usage: plant.py SPEC.py [ID ...]     SPEC defines BUGS = [dict(id, prop, edits=[(file, old, new)],
needs, breaks, demo="python source")].  Everything happens in a scratch copy of /repo."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# run with cwd = the repository; exit 0 on the right tree, nonzero with the bug
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg TZ=UTC PYTHONPATH="$PWD/src"
exec timeout 280 /opt/venv/bin/python "$D/demo.py"
"""


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def main():
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    want = sys.argv[2:]
    for b in m.BUGS:
        if want and b["id"] not in want:
            continue
        tmp = Path(tempfile.mkdtemp(prefix="plant_"))
        try:
            one(b, tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


def one(b, tmp):
    good, bad = tmp / "good", tmp / "bad"
    sh(["cp", "-a", "/repo", str(good)], "/")
    sh(["cp", "-a", "/repo", str(bad)], "/")
    for f, old, new in b["edits"]:
        p = bad / f
        s = p.read_bytes().decode()
        if b"\r\n" in p.read_bytes():
            old, new = (x.replace("\r\n", "\n").replace("\n", "\r\n") for x in (old, new))
        if s.count(old) != 1:
            print(b["id"], "EDIT: text occurs", s.count(old), "times in", f)
            return
        p.write_bytes(s.replace(old, new).encode())
    diff = subprocess.run(["git", "diff"], cwd=bad, capture_output=True).stdout
    d = tmp / b["id"]
    d.mkdir()
    (d / "patch.diff").write_bytes(diff)
    (d / "demo.sh").write_text(DEMO_SH)
    (d / "demo.py").write_text(b["demo"].lstrip("\n"))
    (d / "meta.json").write_text(json.dumps({"property": b["prop"], "needs": b["needs"],
                                             "what_it_breaks": b["breaks"]}, indent=1) + "\n")
    g = sh(["bash", str(d / "demo.sh")], good)
    x = sh(["bash", str(d / "demo.sh")], bad)
    msg = "demo good=%d bad=%d" % (g.returncode, x.returncode)
    if g.returncode != 0 or x.returncode == 0:
        print(b["id"], "DEMO WRONG", msg, g.stdout[-1500:], g.stderr[-3000:])
        return
    t = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--disable-warnings"], bad,
           {"PYTHONPATH": str(bad / "src"), "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg"})
    if t.returncode != 0:
        print(b["id"], "TESTS FAIL", t.stdout[-1500:])
        return
    c = sh(["bash", str(ROOT / "run_check.sh"), b["prop"]], ROOT,
           {"VERIF_REPO": str(bad), "VERIF_SEED": "1", "VERIF_TIER": "quick"})
    out = ROOT / "seeded" / b["id"]
    if out.exists():
        shutil.rmtree(out)
    shutil.copytree(d, out)
    line = [l for l in c.stdout.splitlines() if l.startswith(("VIOLATION", "  "))]
    print(b["id"], b["prop"], msg, "tests ok, check exit", c.returncode,
          "CAUGHT" if c.returncode == 1 else "MISSED " + c.stdout[-1500:] + c.stderr[-500:],
          " / ".join(line)[:400])


main()
