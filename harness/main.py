import base64
import importlib
import json
import os
import pickle
import sys
import traceback
import warnings
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE.parent / ".deps"))
sys.path.insert(0, str(HERE))
REPO = Path(os.environ.get("VERIF_REPO", "/repo")).resolve()
sys.path.insert(0, str(REPO / "src"))
warnings.simplefilter("ignore")


def record_lines(out):
    """append every executed line of the repository to out (tools/mutate.py uses it)"""
    mon = sys.monitoring
    fd = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    src = str(REPO / "src")

    def line(code, no):
        if code.co_filename.startswith(src):
            os.write(fd, ("%s:%d\n" % (code.co_filename[len(src) + 1:], no)).encode())
        return mon.DISABLE
    mon.use_tool_id(mon.COVERAGE_ID, "pbt")
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)


def main():
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--only", action="append")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1

    import pbt

    os.environ.setdefault("TZ", "UTC")
    if os.environ.get("PBT_COV"):
        record_lines(os.environ["PBT_COV"])
    files = sorted((HERE / "checks").glob(a.prop.lower() + "_*.py"))
    if len(files) != 1:
        print("no unique check module for", a.prop, files)
        return 3
    try:
        with pbt._silence():
            importlib.import_module("checks." + files[0].stem)
    except BaseException as e:
        traceback.print_exc()
        return 3
    for name in ("auv_nav", "oplab", "correct_images", "auv_cal"):
        m = sys.modules.get(name)
        if m is not None and not str(m.__file__).startswith(str(REPO)):
            print("harness error:", name, "imported from", m.__file__)
            return 3

    if a.replay:
        r = json.loads(Path(a.replay).read_text())
        case = pickle.loads(base64.b64decode(r["case_pickle_b64"]))
        s = [s for s in pbt.REGISTRY[a.prop] if s.name == r["check"]][0]
        try:
            pbt.run_case(s, case, pbt.Tracker())
        except pbt.Violation as e:
            traceback.print_exc()
            print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
            return 1
        print("replay passes")
        return 0

    known = []
    for key, fn in pbt.PROBES.get(a.prop, []):
        with pbt._silence():
            try:
                txt = fn()
            except Exception as e:
                txt = None
        if txt:
            known.append(txt)
            print("KNOWN-FINDING: property=%s %s" % (a.prop, txt))

    subs, results, violation, wall = pbt.run_property(a.prop, tier, seed, a.only)
    ev = pbt.write_evidence(a.prop, tier, seed, subs, results, violation, wall, known)
    for name, p in ev["coverage"]["sub_checks"].items():
        print(
            "%s/%s: %d cases, %d distinct non-trivial, %.1fs%s %s"
            % (a.prop, name, p["evaluations"], p["distinct_nontrivial"], p["wall_s"],
               " (time budget hit)" if p["time_budget_hit"] else "",
               json.dumps(p["classes"]) if a.v else "")
        )
    if violation:
        print("  check: %s" % violation["sub"])
        print("  " + violation["violation"][:2000])
        print("VIOLATION property=%s replay=%s" % (a.prop, violation["replay"]))
        return 1
    errors = [r for r in results if r.get("error")]
    if errors:
        print("harness error in", errors[0]["sub"])
        print(errors[0]["error"][-4000:])
        return 3
    print("OK property=%s wall=%.1fs" % (a.prop, wall))
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
