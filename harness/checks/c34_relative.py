"""C34: relative poses and their uncertainties (SLAM++ edges, `auv_nav process -r`)."""
import copy
import json
import random
import threading
import time
from pathlib import Path
from unittest import mock

import numpy as np
from hypothesis import strategies as st

import cli
import navgen
from checks.c10_dead_reckoning import num, table
from gen import nice
from navgen import dive, reference, series
from pbt import angdiff, fail, require, require_close, sub

from auv_nav.sensors import Camera
from auv_nav.tools.csv_tools import spp_csv

SEED = st.integers(0, 2 ** 32 - 1)
AX = ["x", "y", "z", "roll", "pitch", "yaw"]
ORDER = [0, 1, 2, 5, 4, 3]  # of SLAM++: x, y, z, yaw, pitch, roll
POSE = ["northing [m]", "easting [m]", "depth [m]", "roll [deg]", "pitch [deg]", "heading [deg]"]


def edges(path):
    out = []
    for line in Path(path).read_text().splitlines():
        w = line.split()
        require(w and w[0] == "EDGE3" and len(w) == 30, "%s: an edge is EDGE3, two ids, 6 differences and 21 "
                "information values (%d words): %r" % (path.name, len(w), line))
        require(w[1].lstrip("-").isdigit() and w[2].lstrip("-").isdigit(), "%s: ids %r" % (path.name, w[1:3]))
        J = np.zeros((6, 6))
        J[np.triu_indices(6)] = [float(x) for x in w[9:]]
        J = J + J.T - np.diag(np.diag(J))
        K = np.zeros((6, 6))
        K[np.ix_(ORDER, ORDER)] = J
        d = [float(x) for x in w[3:9]]
        out.append((int(w[1]), int(w[2]), d[:3] + d[5:2:-1], K))
    return out


def spd(g, n=12):
    a = g.normal(size=(n, n)) * 0.3 + np.eye(n)
    s = 10 ** g.uniform(-2, 1, n)
    return (a @ a.T) * s[:, None] * s[None, :]


@sub("C34", "edges_file", SEED, quick=150, thorough=4000, rule="at least three edges with numbered images")
def edges_file(c, t):
    """an edge per pose: consecutive ids from zero, the pose in the order of SLAM++, the upper triangle of its information"""
    r = random.Random(c)
    g = np.random.default_rng(c)
    n, first = r.randint(2, 9), r.choice([0, 1, r.randint(0, 10 ** 6)])
    kind = r.choice(["number", "number", "short", "name"])
    cams = []
    for i in range(n):
        m = Camera()
        m.filename = "image/LC/" + {"number": "x_%07d.tif" % (first + i), "short": "%05d.png" % (first % 10000 + i),
                                    "name": "20200101_%s.png" % "abcdefghij"[i]}[kind]
        m.northings, m.eastings, m.depth, m.roll, m.pitch, m.yaw = g.uniform(-50, 50, 6)
        if r.random() < 0.3:
            m.northings = np.array([m.northings])
        m.covariance = np.matrix(spd(g))
        m.get_info()
        cams.append(m)
    want = [([float(np.sum(v)) for v in (m.northings, m.eastings, m.depth, m.roll, m.pitch, m.yaw)],
             np.linalg.inv(np.asarray(m.covariance))[:6, :6]) for m in cams]
    d = t.scratch()
    out = d / "a" if r.random() < 0.5 else d
    if r.random() < 0.3:
        out.mkdir(exist_ok=True)
        (out / "cam.txt").write_text("EDGE3 an older result\n" * 40)
    spp_csv(cams, "cam", out, True)
    spp_csv(cams, "off", out, False)
    require(not (out / "off.txt").exists(), "disabled edges were written")
    got = edges(out / "cam.txt")
    require([e[:2] for e in got] == [(i, i + 1) for i in range(n)], "ids %r of %d images in sequence, first %s"
            % ([e[:2] for e in got], n, cams[0].filename))
    for e, (p, J) in zip(got, want):
        require_close(e[2], p, "pose of edge %d" % e[0], 1e-12, 1e-12)
        s = np.sqrt(np.diag(J))
        require(float((np.abs(e[3] - J) / s[:, None] / s[None, :]).max()) < 1e-9, "information of edge %d" % e[0])
    t.nontrivial(kind == "number" and n >= 3, kind)


# ------------------------------------------------------------------- whole dives
@st.composite
def laser_dive(draw):
    c = draw(dive(cams=draw(st.sampled_from([2, 3])), span=(15, 40)))
    c["laser"] = series(draw, c["t0"], c["t1"], 0.5, 3.0, 2.0)
    c["digits"] = draw(st.sampled_from([6, 7]))
    c["first"] = draw(st.sampled_from([0, 5]))
    c["smoother"] = draw(st.booleans())
    c["seed"] = draw(st.integers(0, 10 ** 6))
    return c


def localisation(c, spp=False):
    loc = navgen.localisation(c, ekf=True, smoother=c["smoother"])
    r = random.Random(c["seed"])
    loc["ekf"]["initial_estimate_covariance"] = np.diag([r.choice([1e-6, 0.04, 0.5])] * 6 + [1e-4] * 6).flatten().tolist()
    loc["spp_output"]["activate"] = spp
    return loc


def usable(c):
    ps = [p["epoch_timestamp"] for p in navgen.packets(c)]
    ref = reference(c, ps[1], ps[-1], 1)
    return ref is not None and all(x["depth"] is not None and x["altitude"] is not None for x in ref)


def poses(path):
    rows = table(path, path.name)
    return [(r["relative_path"], num(r["timestamp [s]"]), [num(r[k]) for k in POSE]) for r in rows]


def covariances(path):
    return {r["relative_path"]: np.array([[num(r["cov_%s_%s" % (a, b)]) for b in AX] for a in AX])
            for r in table(path, path.name)}


def snapshot(root):
    return {str(p.relative_to(root)): p.read_bytes() for p in sorted(root.rglob("*"))
            if p.is_file() and "log" not in p.parts and p.suffix not in (".log", ".yaml")}


def diff_pose(a, b):
    return [x - y for x, y in zip(a[:3], b[:3])] + [angdiff(x, y) for x, y in zip(a[3:], b[3:])]


@sub("C34", "edges_of_dive", laser_dive(), quick=30, thorough=700, max_s=90, shards=8,
     rule="edges of two cameras are written and checked")
def edges_of_dive(c, t):
    """the edges of a dive are the differences of its poses, and making them leaves everything else alone"""
    import auv_nav.process as process

    if not usable(c):
        return
    r = random.Random(c["seed"])
    on = [r.random() < 0.85 for _ in range(3)]
    results, seen = [], {}
    top = t.scratch()
    write = getattr(process, "write_csv", None)

    def slow(*a, **k):  # other threads may go first
        for v in list(a) + list(k.values()):
            if isinstance(v, list) and v and isinstance(v[0], Camera):
                for m in v:
                    if getattr(m, "covariance", None) is not None and np.shape(m.covariance) == (12, 12):
                        seen[m.filename] = np.array(m.covariance)
        time.sleep(0.25)
        return write(*a, **k)

    exists = Path.exists

    def late(self, **k):    # a writing thread makes the folder of its file just after the main thread has looked
        there = exists(self, **k)
        if not there and self.name == "csv" and exists(self.parent) and threading.current_thread() is threading.main_thread():
            self.mkdir()
        return there

    for spp in (False, True):
        loc = localisation(c, spp)
        for i in range(3):
            loc["spp_output"]["ekf"]["camera_%d" % (i + 1)] = on[i]
        root = top / ("spp" if spp else "plain")
        raw, pro, cfg = navgen.write_dive(root, c, loc)
        if spp and write is not None:
            with mock.patch.object(process, "write_csv", slow), mock.patch.object(Path, "exists", late):
                cli.nav_process(raw)
        else:
            cli.nav_process(raw)
        results.append(snapshot(pro))
    plain, full = results
    extra = sorted(set(full) - set(plain))
    require(not set(plain) - set(full), "no longer written with SLAM++ edges: %r" % sorted(set(plain) - set(full)))
    for k in plain:
        require(plain[k] == full[k], "%s changes when SLAM++ edges are written" % k)
    out, = [p for p in pro.iterdir() if p.name.startswith("json_renav")]
    ekf = out / "csv" / "ekf"
    names = ["auv_ekf_LC", "auv_ekf_RC", "auv_ekf_%s_laser" % ("RC", "LM")[c["cams"] - 2]]
    want = []
    n = 0
    for name, use in zip(names, on):
        if not (ekf / (name + ".csv")).exists():
            continue
        P = poses(ekf / (name + ".csv"))
        cov = covariances(ekf / (name + "_cov.csv"))
        if not use:
            continue
        if len(P) < 3:
            if len(P) == 2 and (ekf / (name + ".txt")).exists():
                want.append(name + ".txt")
            continue
        want.append(name + ".txt")
        require((ekf / (name + ".txt")).exists(), "no edges of %s, which has %d poses" % (name, len(P)))
        E = edges(ekf / (name + ".txt"))
        require([e[:2] for e in E] == [(i, i + 1) for i in range(len(P) - 1)], "%s: ids %r for %d poses" % (
            name, [e[:2] for e in E], len(P)))
        for e, a, b in zip(E, P, P[1:]):
            what = "%s: edge of %s and %s" % (name, a[0], b[0])
            w = diff_pose(a[2], b[2])
            require_close(e[2][:3], w[:3], what, 1e-9, 1e-9)
            require(all(abs(angdiff(x, y)) < 1e-9 for x, y in zip(e[2][3:], w[3:])), "%s: turns by %r, poses by %r"
                    % (what, e[2][3:], w[3:]))
            s = np.sqrt(np.diag(cov[b[0]]))
            require(bool(np.all(np.isfinite(e[3]))) and float(np.linalg.eigvalsh(e[3] * s[:, None] * s).min()) > 0,
                    what + ": information is not positive")
            D = (cov[b[0]] - np.linalg.inv(e[3])) / s[:, None] / s[None, :]
            require(float(np.linalg.eigvalsh((D + D.T) / 2).min()) > -1e-3, what + ": knows less than the pose does")
            if b[0] in seen:
                J = np.linalg.inv(seen[b[0]])[:6, :6]
                d = np.sqrt(np.diag(J))
                require(float((np.abs(e[3] - J) / d[:, None] / d[None, :]).max()) < 1e-6, what + ": information is "
                        "not that of the second pose")
                t.label("exact information")
        n += 1
        t.label(name)
    require(sorted(extra) == sorted(str((ekf / w).relative_to(pro)) for w in want),
            "written with SLAM++ edges: %r, expected %r" % (extra, want))
    t.label("%d cameras" % c["cams"])
    t.nontrivial(n >= 2)


@sub("C34", "relative", laser_dive(), quick=90, thorough=1500, max_s=90, shards=8,
     rule="a range of at least three laser images inside the dive, with lever arms")
def relative(c, t):
    """uncertainties relative to the first image of a range: by subtraction and by propagating from a certain start"""
    if not usable(c):
        return
    r = random.Random(c["seed"])
    root = t.scratch()
    raw, pro, cfg = navgen.write_dive(root, c, localisation(c))
    cli.nav_process(raw)
    out, = [p for p in pro.iterdir() if p.name.startswith("json_renav")]
    ekf = out / "csv" / "ekf"
    cam = ("RC", "LM")[c["cams"] - 2]
    src = "auv_ekf_%s_laser_at_dvl" % cam
    if not (ekf / (src + ".csv")).exists():
        return
    P, cov = poses(ekf / (src + ".csv")), covariances(ekf / (src + "_cov.csv"))
    if len(P) < 3:
        return
    a = r.randint(0, max(0, len(P) - 3))
    b = r.randint(a + 1, len(P) - 1) if r.random() < 0.3 else r.randint(min(a + 2, len(P) - 1), len(P) - 1)
    fault = r.choice([None] * 12 + ["start", "end", "only start", "only end"])
    start, end = P[a][0], P[b][0]
    if fault == "start":
        start = "image/LM/none.png"
    if fault == "end":
        end, b = "image/LM/none.png", len(P) - 1
    opts = [(("-r", "--relative_pose_uncertainty"), None)]
    if fault != "only end":
        opts.append((("--start_image_identifier",), start))
    if fault != "only start":
        opts.append((("--end_image_identifier",), end))
    before = snapshot(pro)
    try:
        cli.auv_nav(cli.argv(["process"], [raw], opts))
    except SystemExit:
        pass
    for th in threading.enumerate():  # what is being written is finished before the program ends
        if th is not threading.current_thread() and not th.daemon:
            th.join(20)
    after = snapshot(pro)
    for k in before:
        require(before[k] == after.get(k), "%s changes when relative uncertainties are computed" % k)
    new = {Path(k).name for k in set(after) - set(before) if k.endswith(".csv")}
    sub_, prop = "auv_ekf_cov_based_on_%s_%s_laser_at_dvl", "ekf_propagation"
    files = {(sub_ % (k, cam)) + x for k in ("subtraction", prop) for x in (".csv", "_cov.csv")}
    if fault in ("start", "only start", "only end"):
        require(not new, "relative uncertainties of an unknown range: %r" % sorted(new))
        t.label("refused")
        return
    require(new == files, "written: %r, expected %r" % (sorted(new), sorted(files)))
    want = P[a:b + 1]
    for kind in ("subtraction", prop):
        name = sub_ % (kind, cam)
        G, C = poses(ekf / (name + ".csv")), covariances(ekf / (name + "_cov.csv"))
        require([g[0] for g in G] == [w[0] for w in want] == list(C), "%s: images %r, expected %r"
                % (name, [g[0] for g in G], [w[0] for w in want]))
        for i, (g, w) in enumerate(zip(G, want)):
            what = "%s: %s" % (name, g[0])
            require(abs(g[1] - w[1]) < 2e-6, "%s at %r, was %r" % (what, g[1], w[1]))
            M = C[g[0]]
            if kind == "subtraction":
                require_close(g[2], w[2], what + " pose", 1e-9, 1e-9)
                ex = cov[w[0]] + cov[want[0][0]] if i else np.zeros((6, 6))
                require_close(M, ex, what + ": covariance is not the sum of those of the two poses", 1e-9, 1e-15)
                continue
            sd = np.sqrt(np.maximum(np.diag(M), 0)) + 1e-9
            N = M / sd[:, None] / sd[None, :]
            require(bool(np.all(np.isfinite(M))) and float(np.abs(N - N.T).max()) < 1e-6 and
                    float(np.linalg.eigvalsh((N + N.T) / 2).min()) > -1e-6, what + ": covariance is not positive")
            if i == 0:
                require(float(np.abs(diff_pose(g[2], w[2])[:3]).max()) < 1e-4 and
                        float(np.abs(diff_pose(g[2], w[2])[3:]).max()) < 1e-2, "%s: the first pose is %r, expected %r"
                        % (what, g[2], w[2]))
                require(float(np.abs(M).max()) < 1e-6, "%s: the first pose is not certain: %r" % (what, np.diag(M)))
            elif w[1] - want[0][1] > 0.4:
                require(float(np.diag(M).min()) > 1e-9, "%s: later poses are certain: %r" % (what, np.diag(M)))
    t.label("unknown end" if fault else "known range")
    t.label("%d cameras" % c["cams"])
    t.nontrivial(len(want) >= 3 and any(c["frames"]["dvl"]))
