"""Small property-based-testing runner on top of Hypothesis.

A property (C01, C02, ...) is decided by one or more *sub-checks*.  A sub-check
is a Hypothesis strategy that builds plain, picklable cases, and a function
``fn(case, t)`` that runs the real code on a case and raises ``Violation`` when
the oracle disagrees.  Every sub-check runs in forked workers (sharded over
several derived seeds); all random choices derive from VERIF_SEED.
"""
import contextlib
import hashlib
import json
import os
import pickle
import base64
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo")).resolve()
SRC = REPO / "src"
CASE_LIMIT_S = int(os.environ.get("PBT_CASE_LIMIT", "150"))
SHRINK_LIMIT_S = 45


class Violation(AssertionError):
    """The code under test contradicts the oracle."""


class _Abort(BaseException):
    """Stop Hypothesis from the inside (time budget used up)."""


def fail(msg):
    raise Violation(msg)


def require(cond, msg="requirement failed"):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def close(a, b, rtol=1e-9, atol=1e-9):
    import math

    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def require_close(a, b, what="", rtol=1e-9, atol=1e-9):
    import numpy as np

    try:
        aa = np.asarray(a, dtype=float)
        bb = np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        raise Violation("%s: got %r, expected %r" % (what, a, b))
    if aa.shape != bb.shape:
        raise Violation("%s: shape %s, expected %s" % (what, aa.shape, bb.shape))
    ok = np.isclose(aa, bb, rtol=rtol, atol=atol, equal_nan=True)
    if not np.all(ok):
        raise Violation("%s: got %s, expected %s" % (what, short(a), short(b)))


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[: n // 2] + " ... " + s[-n // 3:]


def angdiff(a, b):
    """signed difference of two angles in degrees, in (-180, 180]"""
    d = (a - b) % 360.0
    return d - 360.0 if d > 180.0 else d


class Tracker:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial_hashes = set()
        self.labels = {}
        self.samples = []
        self._nt = False
        self._lab = set()
        self._dirs = []

    def begin(self):
        self._nt = False
        self._lab = set()

    # --- called from inside the sub-checks
    def nontrivial(self, cond=True, label=None):
        if cond:
            self._nt = True
            if label:
                self._lab.add(label)

    def label(self, name, cond=True):
        if cond:
            self._lab.add(name)

    def scratch(self):
        d = Path(tempfile.mkdtemp(prefix="pbt_", dir=os.environ.get("PBT_TMP")))
        self._dirs.append(d)
        return d

    # ---
    def cleanup(self):
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)
        self._dirs = []

    def end(self, case):
        self.evaluations += 1
        for lab in self._lab:
            self.labels[lab] = self.labels.get(lab, 0) + 1
        if self._nt:
            h = hashlib.sha1(pickle.dumps(case, protocol=4)).digest()[:10]
            if h not in self.nontrivial_hashes:
                self.nontrivial_hashes.add(h)
                n = len(self.nontrivial_hashes)
                if n <= 2 or (n in (50, 500) and len(self.samples) < 4):
                    self.samples.append(short(case, 500))


class Sub:
    def __init__(self, prop, name, strategy, fn, quick, thorough, rule, examples, shards,
                 max_s):
        self.prop = prop
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.examples = examples
        self.shards = shards
        self.max_s = max_s


REGISTRY = {}
PROBES = {}


def sub(prop, name, strategy, quick=400, thorough=None, rule="", examples=(), shards=None,
        max_s=120):
    def deco(fn):
        REGISTRY.setdefault(prop, []).append(
            Sub(prop, name, strategy, fn, quick, thorough or quick * 15, rule,
                list(examples), shards, max_s)
        )
        return fn

    return deco


def probe(prop, key):
    """A known finding: fn() returns a text if the listed defect still shows,
    None otherwise.  It never makes a check fail and hides nothing else."""

    def deco(fn):
        PROBES.setdefault(prop, []).append((key, fn))
        return fn

    return deco


# --------------------------------------------------------------------------
@contextlib.contextmanager
def _silence():
    if os.environ.get("PBT_DEBUG"):
        yield
        return
    sys.stdout.flush()
    sys.stderr.flush()
    so, se = os.dup(1), os.dup(2)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    try:
        yield
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(so, 1)
        os.dup2(se, 2)
        for f in (so, se, dn):
            os.close(f)


def _touches_repo(tb):
    src = str(SRC)
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(src):
            return True
        tb = tb.tb_next
    return False


def run_case(s, case, t):
    """Run one case; raises Violation (a finding) or another exception (harness
    error)."""
    import numpy as np

    t.begin()
    random.seed(12345)
    np.random.seed(12345)
    cwd = os.getcwd()
    try:
        s.fn(case, t)
    except Violation:
        raise
    except SystemExit as e:
        raise Violation("the program exited (code %r) on a valid case" % (e.code,)) from e
    except _Abort:
        raise
    except Exception as e:
        import hypothesis.errors as he

        if isinstance(e, (he.HypothesisException,)) or type(e).__module__.startswith(
            "hypothesis"
        ):
            raise
        if _touches_repo(e.__traceback__):
            last = traceback.extract_tb(e.__traceback__)
            where = [f for f in last if f.filename.startswith(str(SRC))][-1]
            raise Violation(
                "crash on a valid case: %s: %s at %s:%d"
                % (type(e).__name__, e, where.filename, where.lineno)
            ) from e
        if isinstance(e, (KeyError, IndexError, ValueError, TypeError, AttributeError,
                          FileNotFoundError)):
            # the oracle could not interpret what the code under test produced
            raise Violation("unexpected kind of output: %s: %s" % (type(e).__name__, e)) from e
        raise
    finally:
        os.chdir(cwd)
        t.cleanup()


def write_replay(s, case, message, tb=""):
    d = ROOT / "replays"
    d.mkdir(exist_ok=True)
    blob = pickle.dumps(case, protocol=4)
    h = hashlib.sha1(blob).hexdigest()[:10]
    p = d / ("%s-%s-%s.json" % (s.prop, s.name, h))
    p.write_text(
        json.dumps(
            {
                "property": s.prop,
                "check": s.name,
                "message": message,
                "case": short(case, 20000),
                "case_pickle_b64": base64.b64encode(blob).decode(),
                "traceback": tb,
                "how_to_replay": "bash /verif/run_check.sh %s --replay %s" % (s.prop, p),
            },
            indent=1,
        )
    )
    return str(p)


def _worker(s, n, seed, first, max_s, out):
    """Runs in a forked child: explore n cases with this seed."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    warnings.simplefilter("ignore")
    try:
        import cv2

        cv2.setNumThreads(1)
    except Exception:
        pass
    t = Tracker()
    state = {"best": None, "first_fail": None, "truncated": False, "ran": 0}
    t0 = time.time()
    res = {"sub": s.name, "seed": seed}

    def record(case, e):
        if state["first_fail"] is None:
            state["first_fail"] = time.time()
        state["best"] = (
            case,
            str(e),
            "".join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:],
        )

    current = {"case": None}

    def on_alarm(signum, frame):
        # a case that normally takes (milli)seconds did not come back
        case = current["case"]
        msg = "case did not terminate within %d s" % CASE_LIMIT_S
        best = state["best"]
        if best is not None:
            case, msg = best[0], best[1]
        path = write_replay(s, case, msg)
        with open(out, "wb") as f:
            pickle.dump(
                {**res, "violation": msg, "replay": path, "evaluations": t.evaluations,
                 "nontrivial": t.nontrivial_hashes, "labels": t.labels,
                 "samples": t.samples, "truncated": True}, f)
        os._exit(0)

    signal.signal(signal.SIGALRM, on_alarm)

    seen = set()

    def explore(case):
        """What Hypothesis calls: spends the budget of n on different cases (the simplest
        case, which every shard draws first, is left to the first shard)."""
        if state["first_fail"] is None:
            h = hashlib.sha1(pickle.dumps(case, protocol=4)).digest()
            skip = h in seen or (not seen and not first and n < 200)
            seen.add(h)
            if skip:
                return
            if state["ran"] >= n:
                raise _Abort()
            state["ran"] += 1
        body(case)

    def body(case):
        if state["first_fail"] is not None:
            if time.time() - state["first_fail"] > SHRINK_LIMIT_S:
                raise _Abort()
        elif time.time() - t0 > max_s:
            state["truncated"] = True
            raise _Abort()
        current["case"] = case
        signal.alarm(CASE_LIMIT_S)
        try:
            run_case(s, case, t)
        except Violation as e:
            record(case, e)
            raise
        finally:
            signal.alarm(0)
            t.end(case)

    harness_error = None
    with _silence():
        try:
            if first:
                for ex in s.examples:
                    body(ex)
            if n > 0:
                test = given(s.strategy)(explore)
                test = settings(
                    max_examples=3 * n + 20,
                    deadline=None,
                    database=None,
                    report_multiple_bugs=False,
                    print_blob=False,
                    suppress_health_check=list(HealthCheck),
                    phases=[Phase.generate, Phase.shrink],
                )(test)
                test = hypothesis.seed(seed)(test)
                test()
        except _Abort:
            pass
        except Violation:
            pass
        except BaseException as e:  # harness error, Flaky, ...
            if state["best"] is None:
                harness_error = "".join(
                    traceback.format_exception(type(e), e, e.__traceback__)
                )
    res.update(
        evaluations=t.evaluations,
        nontrivial=t.nontrivial_hashes,
        labels=t.labels,
        samples=t.samples,
        truncated=state["truncated"],
        error=harness_error,
        wall=time.time() - t0,
    )
    if state["best"] is not None:
        case, msg, tb = state["best"]
        res["violation"] = msg
        res["replay"] = write_replay(s, case, msg, tb)
    with open(out, "wb") as f:
        pickle.dump(res, f)


def run_property(prop, tier, seed, only=None):
    t0 = time.time()
    subs = [s for s in REGISTRY[prop] if only is None or s.name in only]
    jobs = []
    procs = int(os.environ.get("PBT_PROCS", "8"))
    scale = float(os.environ.get("PBT_SCALE", "1"))
    for idx, s in enumerate(subs):
        n = int((s.quick if tier == "quick" else s.thorough) * scale)
        shards = s.shards or max(1, min(8 if tier == "quick" else 16, n // 300))
        max_s = s.max_s if tier == "quick" else max(600, s.max_s * 6)
        for k in range(shards):
            cnt = n // shards + (1 if k < n % shards else 0)
            name_h = int(hashlib.sha1(s.name.encode()).hexdigest()[:6], 16)
            jobs.append((s, cnt, seed * 1000003 + name_h * 64 + k, k == 0, max_s))
    tmp = Path(tempfile.mkdtemp(prefix="pbt_jobs_"))
    os.environ["PBT_TMP"] = str(tmp)
    jobs.sort(key=lambda j: -j[0].max_s)
    running = {}
    results = []
    violation = None
    pending = list(enumerate(jobs))
    try:
        while pending or running:
            while pending and len(running) < procs and violation is None:
                i, (s, cnt, sd, first, max_s) = pending.pop(0)
                out = tmp / ("r%d" % i)
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.setpgid(0, 0)
                        _worker(s, cnt, sd, first, max_s, out)
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        os._exit(0)
                running[pid] = (s, out)
            if violation is not None:
                # do not start more work, let the other shards go
                for pid in list(running):
                    with contextlib.suppress(ProcessLookupError, PermissionError):
                        os.killpg(pid, signal.SIGKILL)
                    with contextlib.suppress(ProcessLookupError):
                        os.kill(pid, signal.SIGKILL)
                pending = []
                if not running:
                    break
            pid, status = os.wait()
            if pid not in running:
                continue
            s, out = running.pop(pid)
            if out.exists():
                try:
                    r = pickle.loads(out.read_bytes())
                except Exception:
                    r = {"sub": s.name, "error": "unreadable worker result"}
            elif violation is not None:
                continue
            else:
                r = {"sub": s.name, "error": "worker died (status %d)" % status}
            results.append(r)
            if r.get("violation") and violation is None:
                violation = r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return subs, results, violation, time.time() - t0


def write_evidence(prop, tier, seed, subs, results, violation, wall, known):
    nt = 0
    per = {}
    for s in subs:
        rs = [r for r in results if r["sub"] == s.name]
        hashes = set()
        for r in rs:
            hashes |= r.get("nontrivial", set())
        labels = {}
        for r in rs:
            for k, v in r.get("labels", {}).items():
                labels[k] = labels.get(k, 0) + v
        per[s.name] = {
            "evaluations": sum(r.get("evaluations", 0) for r in rs),
            "distinct_nontrivial": len(hashes),
            "classes": labels,
            "rule": s.rule,
            "time_budget_hit": any(r.get("truncated") for r in rs),
            "wall_s": round(max([r.get("wall", 0) for r in rs] or [0]), 2),
        }
        nt += len(hashes)
    samples = []
    for s in subs:
        k = 0
        for r in results:
            if r["sub"] == s.name:
                for x in r.get("samples", []):
                    if k < 2:
                        samples.append({"check": s.name, "case": x})
                        k += 1
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(p["evaluations"] for p in per.values()),
            "distinct_nontrivial": nt,
            "rule": "Cases are drawn by Hypothesis strategies seeded from VERIF_SEED; "
            "distinct = different pickled case. Non-trivial, per sub-check: "
            + " | ".join("%s: %s" % (s.name, s.rule) for s in subs),
            "samples": samples,
            "sub_checks": per,
        },
        "assumptions": [],
        "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
    }
    if known:
        ev["coverage"]["known_findings"] = known
    d = ROOT / "evidence"
    d.mkdir(exist_ok=True)
    (d / ("%s.json" % prop)).write_text(json.dumps(ev, indent=1) + "\n")
    return ev
