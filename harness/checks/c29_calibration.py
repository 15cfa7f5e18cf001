"""C29: camera calibration recovers the camera that took the pictures."""
import json
import os
import random
import shutil
import time

import cv2
import joblib
import numpy as np
import yaml
from hypothesis import strategies as st

import cli
from checks.c18_cameras import rot
from checks.c28_geometry import distort
from checks.c30_laser import quiet
from pbt import fail, require, require_close, sub

from auv_cal.camera_calibrator import (
    ChessboardInfo,
    MonoCalibrator,
    Patterns,
    StereoCalibrator,
    find_common_filenames,
    resize_with_padding,
)
from oplab import MonoCamera, StereoCamera

SEED = st.integers(0, 2 ** 32 - 1)


def lens(r, w, h, mild=False):
    f = r.uniform(0.9, 1.4) * w
    K = np.array([[f, 0, w / 2 + r.uniform(-0.04, 0.04) * w], [0, f * r.uniform(0.97, 1.03),
                  h / 2 + r.uniform(-0.04, 0.04) * h], [0, 0, 1]])
    k = 0.3 if mild else 1.0
    return K, [k * r.uniform(-0.2, 0.2), k * r.uniform(-0.05, 0.05), r.uniform(-0.002, 0.002), r.uniform(-0.002, 0.002), 0.0]


def board_points(cols, rows, dim, acircles=False):
    return np.array([[((2 * j + i % 2) if acircles else j) * dim, i * dim, 0.0]
                     for i in range(rows) for j in range(cols)])


def project(K, d, X):
    x, y = X[:, 0] / X[:, 2], X[:, 1] / X[:, 2]
    u, v = distort(x, y, d)
    return np.stack([u * K[0, 0] + K[0, 2], v * K[1, 1] + K[1, 2]], 1)


def views(r, n, pts, K, d, w, h, other=None):
    """poses (R, t) whose boards are inside the image (and inside the image of the other camera)"""
    c = pts.mean(0)
    size = np.ptp(pts[:, 0])
    out, tries = [], 0
    while len(out) < n:
        tries += 1
        if tries > 4000:
            return None
        R = rot(r, 0.55)
        z = size * K[0, 0] / w * r.uniform(1.3, 3.0)
        t = np.array([r.uniform(-0.5, 0.5) * z * w / K[0, 0], r.uniform(-0.5, 0.5) * z * h / K[1, 1], z]) - R @ c
        X = pts @ R.T + t
        if X[:, 2].min() < 0.1 * size:
            continue
        p = project(K, d, X)
        ok = p.min() > 9 and p[:, 0].max() < w - 9 and p[:, 1].max() < h - 9
        if ok and other is not None:
            Ro, to, Ko, do = other
            Y = X @ Ro.T + to
            if Y[:, 2].min() < 0.1 * size:
                continue
            q = project(Ko, do, Y)
            ok = q.min() > 9 and q[:, 0].max() < w - 9 and q[:, 1].max() < h - 9
        if ok:
            out.append((R, t))
    return out


def rays_agree(K1, d1, K2, d2, w, h, tol, what):
    """two lenses map the same rays to the same pixels"""
    g = np.array([[u, v] for u in np.linspace(0.2 * w, 0.8 * w, 5) for v in np.linspace(0.2 * h, 0.8 * h, 5)])
    rays = np.c_[(g - K1[:2, 2]) / [K1[0, 0], K1[1, 1]], np.ones(len(g))]
    a, b = project(K1, d1, rays), project(K2, d2, rays)
    off = np.linalg.norm(a - b, axis=1).max()
    require(off <= tol, lambda: "%s: pixels differ by up to %.3f (K %s d %s, expected %s %s)" % (
        what, off, K2, d2, K1, d1))


def entry(name, p, board, size):
    return {"file": str(name), "corners": p.reshape(-1, 1, 2).tolist(), "board": list(board), "size": list(size)}


@sub("C29", "mono", SEED, quick=40, thorough=1500, shards=4, max_s=30,
     rule="one view is wrong or the board is asymmetric")
def mono(seed, t):
    r = random.Random(seed)
    s = t.scratch()
    w, h = r.choice([(640, 480), (800, 600), (600, 600)])
    K, d = lens(r, w, h)
    ac = r.random() < 0.3
    cols, rows = (4, 9) if ac else r.choice([(8, 6), (9, 7), (7, 7)])
    dim = r.uniform(0.02, 0.1)
    pts = board_points(cols, rows, dim, ac)
    pattern = Patterns.ACircles if ac else r.choice([Patterns.Chessboard, Patterns.Circles])
    cal = MonoCalibrator(boards=[ChessboardInfo(cols, rows, dim)], pattern=pattern, name="cam0")
    op = cal.mk_object_points([ChessboardInfo(cols, rows, dim)])[0]
    require_close(op.reshape(-1, 3), pts, "points of the board", 1e-6, 1e-6)
    poses = views(r, 22, pts, K, d, w, h)
    img = s / "a.png"
    cv2.imwrite(str(img), np.zeros((h, w, 3), np.uint8))
    noise = r.choice([0.0, 0.05])
    data = []
    for R, tt in poses:
        p = project(K, d, pts @ R.T + tt)
        p = p + np.array([[r.gauss(0, noise), r.gauss(0, noise)] for _ in p]) if noise else p
        data.append(entry(img, p, (cols, rows, dim), (w, h)))
    wrong = r.choice([0, 0, 1])
    if wrong:
        k = r.randrange(5, len(data))
        c = np.array(data[k]["corners"])
        # the corners of this view are badly off, but it still is a board somewhere else
        c = c + np.array([[[r.gauss(0, 6), r.gauss(0, 6)]] for _ in c])
        data[k]["corners"] = c.tolist()
    f = s / "mono.json"
    f.write_text(json.dumps(data))
    with quiet():
        cal.cal_from_json(f, [img])
    n = cal.num_images
    (s / "mono_cam0.yaml").write_text(cal.yaml())
    cam = MonoCamera(s / "mono_cam0.yaml")
    require(cam.name == "cam0" and cam.size == (w, h), "name or size of the camera")
    require_close(cam.K, cal.intrinsics, "camera matrix in the file", 0, 1e-5)
    require_close(np.ravel(cam.d), np.ravel(cal.distortion)[:5], "distortion in the file", 0, 1e-5)
    require_close(cam.R, np.eye(3), "rectification of a single camera", 0, 1e-9)
    y = yaml.safe_load((s / "mono_cam0.yaml").read_text().replace("%YAML:1.0", "").replace("!!opencv-matrix", ""))
    require(y["number_of_images"] == n and abs(y["avg_reprojection_error"] - cal.avg_reprojection_error) < 1e-6,
            "number of images or error in the file")
    require(n >= 6, "only %d of %d views used" % (n, len(data)))
    require(cal.avg_reprojection_error < 0.05 + 3 * noise,
            "reprojection error %.3f with%s a wrong view" % (cal.avg_reprojection_error, "" if wrong else "out"))
    if n >= 9:
        rays_agree(K, d, cam.K, np.ravel(cam.d), w, h, 0.6 + 40 * noise, "calibrated lens")
        t.label("compared to the true lens")
    t.nontrivial(bool(wrong) or ac, ("wrong view" if wrong else "clean") + (", noisy" if noise else ""))


def names(r, fmt, n):
    """n pairs of file names and their times, then names without a partner"""
    out, extra = [], []
    for i in range(n + 2):
        sec, us = 1530000000 + i * r.choice([1, 7]) + 10 * i, r.randint(50000, 900000)
        js = []
        for c in (0, 1):
            j = us + (r.randint(-45000, 45000) if c else 0)
            tt = time.strftime("%Y%m%d_%H%M%S", time.gmtime(sec))
            if fmt == "acfr":
                j = us + (r.randint(-40, 40) * 1000 if c else 0)
                nm = "PR_%s_%03d_%sC16" % (tt, j // 1000, "LR"[c])
            elif fmt == "biocam":
                nm = "%s_%06d_%s_%06d_pcoc" % (tt, j, tt, us)
            else:
                nm = ("image" if c == 0 and r.seed_image else "") + str(1234500 + i).zfill(r.width)
            js.append(nm)
        (out if i < n else extra).append(js)
    return out, extra


class Rnd(random.Random):
    seed_image = False
    width = 7


@sub("C29", "pairs", SEED, quick=200, thorough=8000, shards=2, max_s=10,
     rule="some images have no partner")
def pairs(seed, t):
    r = Rnd(seed)
    r.seed_image = r.random() < 0.5
    r.width = r.choice([7, 7, 8, 10, 12])
    fmt = r.choice(["acfr", "biocam", "seaxerocks"])
    ns, extra = names(r, fmt, r.randint(1, 6))
    if fmt != "seaxerocks" and r.random() < 0.5:
        # a lone image shortly after one of the other camera that is lone too
        sec, us = 1530900000, r.randint(100, 300) * 1000
        tt = time.strftime("%Y%m%d_%H%M%S", time.gmtime(sec))
        late = us + r.choice([60, 80, 200, 450]) * 1000
        extra = [["PR_%s_%03d_%sC16" % (tt, q // 1000, s) if fmt == "acfr" else "%s_%06d_%s_%06d_pcoc" % (tt, q, tt, us)
                  for s, q in (("L", us), ("R", late))]] * 2
    left = [{"file": "/x/l/%s.png" % a, "k": i} for i, (a, _) in enumerate(ns)]
    right = [{"file": "/x/r/%s.png" % b, "k": i} for i, (_, b) in enumerate(ns)]
    lone = r.choice([0, 1, 2, 3])
    if lone & 1:
        left.insert(r.randint(1, len(left)), {"file": "/x/l/%s.png" % extra[0][0], "k": "lone"})
    if lone & 2:
        right.insert(r.randint(1, len(right)), {"file": "/x/r/%s.png" % extra[1][1], "k": "lone"})
    if r.random() < 0.3:
        head = right[0]
        rest = right[1:]
        r.shuffle(rest)
        right = [head] + rest
    got = find_common_filenames(left, right)
    require([(a["k"], b["k"]) for a, b in got] == [(i, i) for i in range(len(ns))],
            "%s: %s paired, expected %d pairs" % (fmt, [(a["k"], b["k"]) for a, b in got], len(ns)))
    t.nontrivial(lone > 0, fmt)


@sub("C29", "stereo", SEED, quick=24, thorough=800, shards=4, max_s=40,
     rule="every case: corners of a board seen by two cameras")
def stereo(seed, t):
    r = Rnd(seed)
    r.seed_image = r.random() < 0.5
    s = t.scratch()
    w, h = r.choice([(640, 480), (800, 600)])
    K1, d1 = lens(r, w, h)
    K2, d2 = lens(r, w, h)
    f = K1[0, 0] * r.uniform(0.95, 1.05)
    K2 = np.array([[f, 0, K2[0, 2]], [0, f, K2[1, 2]], [0, 0, 1]])
    axis = r.choice([0, 1])
    dim = r.uniform(0.05, 0.1)
    cols, rows = 8, 6
    pts = board_points(cols, rows, dim)
    T = np.array([r.uniform(-0.01, 0.01) for _ in range(3)])
    T[axis] = -r.uniform(0.1, 0.3) * 8 * dim
    R = rot(r, 0.04)
    poses = views(r, 14, pts, K1, d1, w, h, (R, T, K2, d2))
    if poses is None:
        return
    fmt = r.choice(["acfr", "biocam", "seaxerocks"])
    ns, _ = names(r, fmt, len(poses))
    L, Rr, X0 = [], [], []
    (s / "l").mkdir()
    (s / "r").mkdir()
    blank = np.zeros((h, w, 3), np.uint8)
    for (a, b), (Rp, tp) in zip(ns, poses):
        X = pts @ Rp.T + tp
        pl, pr = project(K1, d1, X), project(K2, d2, X @ R.T + T)
        fl, fr = s / "l" / (a + ".png"), s / "r" / (b + ".png")
        cv2.imwrite(str(fl), blank)
        cv2.imwrite(str(fr), blank)
        L.append(entry(fl, pl, (cols, rows, dim), (w, h)))
        Rr.append(entry(fr, pr, (cols, rows, dim), (w, h)))
        X0.append((X, pl, pr))
    from checks.c18_cameras import mono_text
    for nm, K, d in (("l", K1, d1), ("r", K2, d2)):
        (s / (nm + ".yaml")).write_text("%YAML:1.0\n" + mono_text(
            {"w": w, "h": h, "name": "cam_" + nm, "K": K, "d": d, "R": np.eye(3), "P": np.c_[K, np.zeros(3)]}))
    model = StereoCamera(left=s / "l.yaml", right=s / "r.yaml")
    cal = StereoCalibrator(name="x", stereo_camera_model=model, boards=[ChessboardInfo(cols, rows, dim)],
                           pattern=Patterns.Chessboard, invert=False)
    try:
        with quiet():
            cal.cal_from_json(left_json=L, right_json=Rr)
    except SystemExit:
        t.label("too few different views")
        return
    (s / "stereo.yaml").write_text(cal.yaml())
    c = StereoCamera(s / "stereo.yaml")
    require((c.left.name, c.right.name, c.left.size, c.right.size) == ("cam_l", "cam_r", (w, h), (w, h)),
            "names or sizes in the file")
    require_close(c.R, R, "rotation between the cameras", 0, 2e-3)
    require_close(np.ravel(c.t), T, "translation between the cameras", 0, 0.01 * abs(T[axis]) + 1e-4)
    for cam, K, d, what in ((c.left, K1, d1, "left"), (c.right, K2, d2, "right")):
        require_close(cam.K, K, what + " camera matrix", 0, 1e-4)
        require_close(np.ravel(cam.d), d, what + " distortion", 0, 1e-5)
    # the matrices of the epipolar geometry
    tx = np.array([[0, -T[2], T[1]], [T[2], 0, -T[0]], [-T[1], T[0], 0]])
    E = tx @ R
    require_close(c.E, E, "essential matrix", 0, 0.02 * np.abs(E).max())
    F = np.linalg.inv(K2).T @ E @ np.linalg.inv(K1)
    for X, _, _ in X0[:6]:
        a, b = X @ K1.T, (X @ R.T + T) @ K2.T
        a, b = a / a[:, 2:], b / b[:, 2:]
        lines = a @ np.asarray(c.F).T
        off = np.abs((lines * b).sum(1)) / np.linalg.norm(lines[:, :2], axis=1)
        require(off.max() < 2, "a point is %.2f pixels from its epipolar line" % off.max())
    g = np.asarray(c.F) / np.linalg.norm(c.F) * np.sign(np.sum(c.F * F))
    require(np.linalg.norm(g - F / np.linalg.norm(F)) < 0.02, "fundamental matrix %s, expected %s" % (
        g, F / np.linalg.norm(F)))
    # corners of the board are triangulated where they are
    X, pl, pr = X0[r.randrange(len(X0))]
    for k in (0, cols * rows - 1, r.randrange(cols * rows)):
        a = c.left.undistort_and_rectify_point(pl[k])
        b = c.right.undistort_and_rectify_point(pr[k])
        if a is None or b is None:
            continue
        a, b = np.ravel(a), np.ravel(b)
        require(abs(a[1 - axis] - b[1 - axis]) < 1.0, "rectified points are not on one line: %s %s" % (a, b))
        x = c.left.R.T @ c.triangulate_point(a, b)
        require(np.linalg.norm(x - X[k]) < 0.03 * np.linalg.norm(X[k]), lambda: "corner at %s triangulated at %s" % (
            X[k], x))
    t.nontrivial(True, "%s, %s" % (fmt, "vertical" if axis else "horizontal"))


@sub("C29", "resize", SEED, quick=200, thorough=5000, shards=2, max_s=10,
     rule="the aspect ratios differ")
def resize(seed, t):
    r = random.Random(seed)
    w, h = 4 * r.randint(10, 40), 4 * r.randint(10, 40)
    ow, oh = 4 * r.randint(5, 60), 4 * r.randint(5, 60)
    img = np.full((oh, ow, 3), 200, np.uint8)
    got = resize_with_padding(img, (w, h))
    require(got.shape[:2] == (h, w), "size %s, expected %s" % (
        got.shape, (h, w)))
    k = min(w / ow, h / oh)
    area = (got[..., 0] > 100).sum()
    rim = 2.2 * (ow + oh) * k * max(1, k) + 16  # padding is in whole pixels of the original
    require(abs(area - ow * k * oh * k) <= rim, "the image covers %d pixels, expected %d" % (area, ow * k * oh * k))
    cy, cx = np.argwhere(got[..., 0] > 100).mean(0)
    require(abs(cx - (w - 1) / 2) <= 2 and abs(cy - (h - 1) / 2) <= 2, "the image is not centred")
    t.nontrivial(w * oh != ow * h)


def picture(K, d, R, tt, cols, rows, dim, w, h):
    """photograph of a chessboard with cols x rows inner corners"""
    ss = 3
    v, u = np.mgrid[0:h * ss, 0:w * ss]
    p = np.stack([(u.ravel() + 0.5) / ss - 0.5, (v.ravel() + 0.5) / ss - 0.5], 1).astype(np.float64)
    n = cv2.undistortPoints(p.reshape(-1, 1, 2), K, np.array(d)).reshape(-1, 2)
    # intersection of the ray with the board plane
    nrm = R[:, 2]
    den = n @ nrm[:2] + nrm[2]
    k = (nrm @ tt) / den
    X = np.c_[n, np.ones(len(n))] * k[:, None]
    b = (X - tt) @ R
    i, j = np.floor(b[:, 0] / dim), np.floor(b[:, 1] / dim)
    inside = (i >= -1) & (i < cols) & (j >= -1) & (j < rows) & (k > 0)
    col = np.where(inside, np.where((i + j) % 2 == 0, 20, 220), 220)
    g = col.reshape(h, ss, w, ss).mean((1, 3))
    return cv2.cvtColor(g.astype(np.uint8), cv2.COLOR_GRAY2BGR)


def tool(command, path, force=False, suffix="", again=False):
    """run auv_cal; False if it refused"""
    opts = [(("-F",) if command == ["mono"] else ("-F", "--Force"), None)] * force
    opts += [(("-FF",), None)] * again + [(("-s", "--suffix"), suffix)] * bool(suffix)
    try:
        cli.auv_cal(cli.argv(command, [path], opts))
    except SystemExit as e:
        require(e.code != 2, "the command line was not understood")
        return False
    return True


def few(out, a, b, board):
    """the calibrator does not find enough different views for this pair"""
    js = [json.loads((out / (n + ".json")).read_text()) for n in (a, b)]
    cal = StereoCalibrator(name="x", stereo_camera_model=StereoCamera(
        left=out / (a + ".yaml"), right=out / (b + ".yaml")), boards=[ChessboardInfo(*board)],
        pattern=Patterns.Chessboard, invert=False)
    try:
        with quiet():
            cal.cal_from_json(left_json=js[0], right_json=js[1])
    except SystemExit:
        return True
    return False


def state(d):
    return {p.name: p.stat().st_mtime_ns for p in d.iterdir() if p.suffix == ".yaml"}


@sub("C29", "commands", SEED, quick=32, thorough=300, shards=4, max_s=40,
     rule="a refused command, or a calibration written with a suffix or by force")
def commands(seed, t):
    """each command writes its own calibrations, and those that exist only by force"""
    r = Rnd(seed)
    s = t.scratch()
    w, h = 320, 240
    ncam = r.choice([2, 2, 3])
    f0 = r.uniform(0.9, 1.4) * w
    lenses, poses3 = [], []
    for k in range(ncam):
        K, d = lens(r, w, h)
        K[0, 0] = K[1, 1] = f0 * r.uniform(0.97, 1.03)
        lenses.append((K, d))
    dim, cols, rows = r.uniform(0.05, 0.1), 8, 6
    pts = board_points(cols, rows, dim)
    rel = [(np.eye(3), np.zeros(3))]
    for k in range(1, ncam):
        rel.append((rot(r, 0.04), np.array([(-1) ** k * r.uniform(0.1, 0.3) * 8 * dim, r.uniform(-.01, .01),
                                            r.uniform(-.01, .01)])))
    poses = views(r, 26, pts, *lenses[0], w, h, (rel[1][0], rel[1][1], *lenses[1]))
    if poses is None:
        return t.label("too few views")
    root = s / "data"
    raw = root / "raw" / "cruise" / "auv" / "dive"
    cfg = root / "configuration" / "cruise" / "auv" / "calibration"
    pro = root / "processed" / "cruise" / "auv" / "dive"
    out = root / "processed" / "cruise" / "auv" / "calibration"
    nm = ["cam%s%08x" % (x, seed & 0xffffffff) for x in "ABC"[:ncam]]
    for d in (cfg, pro, out):
        d.mkdir(parents=True)
    suffix = r.choice(["", "v2", "_v2"])
    suf = suffix and "_v2"
    png = cv2.imencode(".png", np.zeros((h, w, 3), np.uint8))[1].tobytes()
    data = [[] for _ in nm]
    where = [r.choice([raw, raw, pro]) / n for n in nm]  # images as they are or developed ones
    split = [r.random() < 0.25 for n in nm]  # the pictures are in two folders
    for d in [d / x for d, two in zip(where, split) for x in (("1", "2") if two else ("",))]:
        d.mkdir(parents=True)
    for i, (Rp, tp) in enumerate(poses):
        X = pts @ Rp.T + tp
        for k in range(ncam):
            p = project(*lenses[k], X @ rel[k][0].T + rel[k][1])
            if p.min() < 4 or p[:, 0].max() > w - 4 or p[:, 1].max() > h - 4:
                continue
            f = where[k] / (split[k] and str(1 + i % 2) or "") / ("image%07d.png" % i)
            f.write_bytes(png)
            data[k].append(entry(f, p, (cols, rows, dim), (w, h)))
    if any(len(d) < 15 for d in data):
        return t.label("too few views")
    for n, d in zip(nm, data):
        for x in {"", suf}:
            (out / ("mono_%s%s.json" % (n, x))).write_text(json.dumps(d[2:] if x else d))
    conf = {"cameras": [{"name": n, "camera_calibration": {"path": [n + "/1", n + "/2"] if two else n,
                                                           "glob_pattern": "*.png"}} for n, two in zip(nm, split)],
            "camera_calibration": {"pattern": "Chessboard", "cols": rows, "rows": cols, "size": dim, "invert": False}}
    (cfg / "calibration.yaml").write_text(yaml.safe_dump(conf))
    path = r.choice([raw, pro])
    pairs = [(0, 1)] + [(0, 2), (2, 0)] * (ncam == 3)
    have, special = {}, False
    for step in range(r.choice([3, 4])):
        what, force = r.choice(["mono", "stereo", "stereo"]), r.random() < 0.4
        x, given = r.choice([("", ""), (suf, suffix)])
        want, refused = set(), False

        def mono_model(x):
            return {"mono_%s%s.yaml" % (n, x) for n in nm if force or "mono_%s%s.yaml" % (n, x) not in have}
        if what == "mono":
            want = mono_model(x)
        else:
            for a, b in pairs:
                f = "stereo_%s_%s%s.yaml" % (nm[a], nm[b], x)
                if (a, b) == (2, 0):
                    want.add(f)
                    continue
                need = {"mono_%s.yaml" % nm[a], "mono_%s.yaml" % nm[b]}
                refused = f in have and not force
                if not refused and not need <= (set(have) | want):
                    refused = bool(x)
                    want |= set() if refused else mono_model("")
                if refused:
                    break
                want.add(f)
        before = state(out)
        ok = tool([what], path, force, given)
        after = state(out)
        done = {k for k in after if after[k] != before.get(k)}
        msg = "%s%s with suffix %r, step %d" % (what, " -F" if force else "", given, step)
        if len(done) < len(want) and not ok and not refused:
            require(any(few(out, "mono_" + nm[a], "mono_" + nm[b], (cols, rows, dim)) for a, b in pairs),
                    "%s failed although there are enough views" % msg)
            return t.label("too few different views")
        require(ok == (not refused), "%s was %s" % (msg, "refused" if refused is False else "not refused"))
        require(done == want, "%s wrote %s, expected %s" % (msg, sorted(done), sorted(want)))
        require(set(before) <= set(after), "%s removed files" % msg)
        have = after
        special |= refused or bool(want and (force or x))
    for k, n in enumerate(nm):
        for x in {"", suf}:
            f = out / ("mono_%s%s.yaml" % (n, x))
            if not f.exists():
                continue
            m = MonoCamera(f)
            require(m.name == n and m.size == (w, h), "name or size in " + f.name)
            y = f.read_text()
            if int(y.split("number_of_images:")[1].split()[0]) >= 12:
                rays_agree(*lenses[k], m.K, np.ravel(m.d), w, h, 1.0, f.name)
    for a, b in pairs:
        for x in {"", suf}:
            f = out / ("stereo_%s_%s%s.yaml" % (nm[a], nm[b], x))
            if not f.exists():
                continue
            c = StereoCamera(f)
            require((c.left.name, c.right.name) == (nm[a], nm[b]), "names in " + f.name)
            if f.stat().st_mtime_ns > max((out / ("mono_%s.yaml" % nm[k])).stat().st_mtime_ns for k in (a, b)):
                for m, k in ((c.left, a), (c.right, b)):
                    one = MonoCamera(out / ("mono_%s.yaml" % nm[k]))
                    require_close(m.K, one.K, "%s: camera matrix of %s" % (f.name, nm[k]), 0, 1e-4)
                    require_close(np.ravel(m.d), np.ravel(one.d), "%s: distortion of %s" % (f.name, nm[k]), 0, 1e-5)
            R = rel[b][0] @ rel[a][0].T
            T = rel[b][1] - R @ rel[a][1]
            require_close(c.R, R, "rotation in " + f.name, 0, 0.03)
            require(np.linalg.norm(np.ravel(c.t) - T) < 0.1 * np.linalg.norm(T), "translation %s in %s, expected %s" % (
                np.ravel(c.t), f.name, T))
    t.nontrivial(special, "%d cameras" % ncam)


@sub("C29", "no_configuration", SEED, quick=8, thorough=50, rule="every case: a dive without calibration.yaml")
def no_configuration(seed, t):
    """without calibration.yaml the default one is put in place, to be edited before the next run"""
    r = random.Random(seed)
    root = t.scratch() / "data"
    (root / "raw" / "cruise" / "auv" / "dive").mkdir(parents=True)
    (root / "configuration").mkdir()
    (root / "processed").mkdir()
    path = root / r.choice(["raw", "processed"]) / "cruise" / "auv" / "dive"
    what = r.choice(["mono", "stereo", "laser"])
    require(not tool([what], path), "%s ran without calibration.yaml" % what)
    f = root / "configuration" / "cruise" / "auv" / "calibration" / "calibration.yaml"
    require(f.exists(), "no default calibration.yaml was written")
    conf = yaml.safe_load(f.read_text())
    require(len(conf["cameras"]) >= 2 and all("name" in c and "glob_pattern" in c["camera_calibration"]
                                              for c in conf["cameras"]), "default calibration.yaml lacks cameras")
    require({"pattern", "cols", "rows", "size", "invert"} <= set(conf["camera_calibration"]),
            "default calibration.yaml lacks a board")
    mine = f.read_text() + "# edited\n"
    f.write_text(mine)
    tool([what], path)
    require(f.read_text() == mine, "an edited calibration.yaml was replaced")
    t.nontrivial(True, what)


def clean(nm):
    """debug files are written to /tmp/<camera name>"""
    for p in list(os.listdir("/tmp")):
        if any(n in p for n in nm):
            q = "/tmp/" + p
            shutil.rmtree(q) if os.path.isdir(q) else os.remove(q)


def dive(s):
    root = s / "data"
    raw = root / "raw" / "cruise" / "auv" / "dive"
    cfg = root / "configuration" / "cruise" / "auv" / "calibration"
    pro = root / "processed" / "cruise" / "auv" / "dive"
    for d in (raw, cfg, pro):
        d.mkdir(parents=True)
    return raw, cfg, root / "processed" / "cruise" / "auv" / "calibration"


def contents(d):
    return {p.name: (p.read_bytes(), p.stat().st_mtime_ns) for p in d.iterdir() if p.is_file()}


@sub("C29", "images", SEED, quick=3, thorough=36, shards=3, max_s=300,
     rule="every case: photographs of a chessboard by two cameras")
def images(seed, t):
    r = random.Random(seed)
    s = t.scratch()
    w, h = 320, 240
    K1, d1 = lens(r, w, h, True)
    d1[2:] = [0, 0, 0]
    K2, d2 = K1.copy(), [x * 0.8 for x in d1]
    K2[0, 0] *= 1.02
    K2[1, 1] = K2[0, 0]
    # pictures of the second camera, and where those of the first one's size would show the same
    k, left, top = r.choice([(1, 0, 0), (0.9, 0, 0), (1.1, 0, 0), (1, 0, 24), (1, 32, 0)])
    w2, h2 = round(w * k) - 2 * left, round(h * k) - 2 * top
    Kb = K2.copy()  # of the pictures as they are
    Kb[:2] *= k
    Kb[:2, 2] += (k - 1) / 2 - np.array([left, top])
    cols, rows, dim = 7, 5, 0.05
    pts = board_points(cols, rows, dim)
    R, T = rot(r, 0.03), np.array([-0.08, r.uniform(-0.01, 0.01), r.uniform(-0.01, 0.01)])
    # the quiet zone around the board must be inside both images
    outer = np.array([[x, y, 0] for x in (-1.2 * dim, 1.03 * cols * dim) for y in (-1.2 * dim, 1.03 * rows * dim)])
    rim = np.array([[0, 0, left], [0, 0, top], [0, 0, 0]])
    keep = views(r, 22, np.r_[pts, outer], K1 - rim, d1, w - 2 * left, h - 2 * top, (R, T, K2 - rim, d2))
    if keep is None:
        t.label("too few views")
        return
    raw, cfg, out = dive(s)
    (raw / "camA").mkdir()
    (raw / "camB").mkdir()
    swap = None
    if r.random() < 0.5:  # one picture of the second camera shows the board elsewhere
        c = [project(K1, d1, (pts @ Rp.T + tp).mean(0)[None])[0] for Rp, tp in keep]
        a = r.randrange(4, len(keep))
        gap, b = max((np.abs(c[a] - c[j]).min(), j) for j in range(len(keep)))
        swap = (a, b) if gap > 20 else None
    for i, (Rp, tp) in enumerate(keep):
        cv2.imwrite(str(raw / "camA" / ("%05d.png" % i)), picture(K1, d1, Rp, tp, cols, rows, dim, w, h))
        Rq, tq = keep[swap[1]] if swap and i == swap[0] else (Rp, tp)
        cv2.imwrite(str(raw / "camB" / ("%05d.png" % i)),
                    picture(Kb, d2, R @ Rq, R @ tq + T, cols, rows, dim, w2, h2))
    nm = ["calA%08x" % (seed & 0xffffffff), "calB%08x" % (seed & 0xffffffff)]
    (cfg / "calibration.yaml").write_text(yaml.safe_dump({
        "cameras": [{"name": n, "camera_calibration": {"path": "camA" if k == 0 else "camB", "glob_pattern": "*.png"}}
                    for k, n in enumerate(nm)],
        "camera_calibration": {"pattern": "Chessboard", "cols": rows, "rows": cols, "size": dim, "invert": False}}))
    try:
        with quiet(), joblib.parallel_backend("sequential"):
            tool(["mono"], raw)
            tool(["stereo"], raw)
        files = contents(out)
        pair = ["mono_" + nm[0], ("" if (w, h) == (w2, h2) else "resized_") + "mono_" + nm[1]]
        if {p + x for p in pair for x in (".yaml", ".json")} <= set(files) and few(out, *pair, (cols, rows, dim)):
            return t.label("too few different views")
        require({"mono_%s.yaml" % n for n in nm} | {"stereo_%s_%s.yaml" % tuple(nm)} <= set(files),
                "calibration files missing: %s" % sorted(files))
        error = float(files["stereo_%s_%s.yaml" % tuple(nm)][0].split(b"avg_reprojection_error:")[1].split()[0])
        for n, K, size in zip(nm, (K1, Kb), ((w, h), (w2, h2))):
            m = MonoCamera(out / ("mono_%s.yaml" % n))
            require(m.size == size and m.name == n, "size or name of %s" % n)
            rel = abs(m.K[0, 0] / K[0, 0] - 1)
            require(rel < 0.06, "focal length %.1f, expected %.1f" % (m.K[0, 0], K[0, 0]))
        sc = StereoCamera(out / ("stereo_%s_%s.yaml" % tuple(nm)))
        require(sc.left.size == (w, h) and sc.right.size == (w, h), "sizes %s and %s of the stereo cameras" % (
            sc.left.size, sc.right.size))
        require(abs(sc.right.K[0, 0] / K2[0, 0] - 1) < 0.06, "focal length %.1f of the right camera, expected %.1f" % (
            sc.right.K[0, 0], K2[0, 0]))
        require(np.abs(sc.right.K[:2, 2] - K2[:2, 2]).max() < 0.06 * w, "centre %s of the right camera, expected %s" % (
            sc.right.K[:2, 2], K2[:2, 2]))
        if error < 0.5:
            require(np.linalg.norm(np.ravel(sc.t) - T) < 0.25 * np.linalg.norm(T), "translation %s, expected %s" % (
                np.ravel(sc.t), T))
            require_close(sc.R, R, "rotation between the cameras", 0, 0.08)
        else:
            require(swap is not None, "reprojection error %.2f without a wrong pair" % error)
            t.label("wrong pair kept")
        # again, without force: nothing is touched
        with quiet(), joblib.parallel_backend("sequential"):
            tool(["mono"], raw)
            require(not tool(["stereo"], raw), "an existing stereo calibration was not refused")
        now = contents(out)
        require(now == files, "a second run changed %s" % sorted(k for k in set(now) | set(files)
                                                               if now.get(k) != files.get(k)))
        # by force from the corners found before, or with new ones
        f, y = out / ("mono_%s.json" % nm[0]), out / ("mono_%s.yaml" % nm[0])
        was = json.loads(f.read_text())
        f.write_text(json.dumps([dict(e, corners=(np.array(e["corners"]) * 0.8).tolist()) for e in was]))
        with quiet(), joblib.parallel_backend("sequential"):
            for again, zoom in ((False, 0.8), (True, 1)):
                conf = yaml.safe_load((cfg / "calibration.yaml").read_text())
                (cfg / "calibration.yaml").write_text(yaml.safe_dump(dict(conf, cameras=conf["cameras"][:1])))
                require(tool(["mono"], raw, not again, again=again), "the calibration was refused")
                m = MonoCamera(y)
                require(abs(m.K[0, 0] / K1[0, 0] / zoom - 1) < 0.06, "focal length %.1f with %s corners, expected %.1f"
                        % (m.K[0, 0], "new" if again else "old", K1[0, 0] * zoom))
        now = json.loads(f.read_text())
        require([e["file"] for e in now] == [e["file"] for e in was], "other pictures used with new corners")
        for a, b in zip(now, was):
            require_close(a["corners"], b["corners"], "corners found again in " + a["file"], 0, 1e-3)
    finally:
        clean(nm)
    t.nontrivial(True, "%s%s" % ("same size" if (w, h) == (w2, h2) else "other size", ", a wrong pair" if swap else ""))


@sub("C29", "no_board", SEED, quick=8, thorough=80, shards=2, max_s=30,
     rule="every case: a camera without the board in its pictures")
def no_board(seed, t):
    """a camera that never saw the board is not calibrated, the others are"""
    r = random.Random(seed)
    raw, cfg, out = dive(t.scratch())
    nm = ["nob%s%08x" % (c, seed & 0xffffffff) for c in "ABC"[:r.randint(1, 3)]]
    w, h = r.choice([(64, 48), (80, 80)])
    blind = set(r.sample(range(len(nm)), r.randint(1, len(nm))))
    K, d = lens(r, 640, 480)
    cols, rows, dim = 8, 6, 0.05
    pts = board_points(cols, rows, dim)
    png = [cv2.imencode(".png", np.full((h, w, 3), v, np.uint8))[1].tobytes() for v in (0, r.randint(0, 255))]
    out.mkdir()
    for i, n in enumerate(nm):
        (raw / n).mkdir()
        for k in range(8):
            (raw / n / ("%05d.png" % k)).write_bytes(r.choice(png))
        if i not in blind:
            (out / ("mono_%s.json" % n)).write_text(json.dumps([
                entry(raw / n / "00000.png", project(K, d, pts @ Rp.T + tp), (cols, rows, dim), (640, 480))
                for Rp, tp in views(r, 16, pts, K, d, 640, 480)]))
    (cfg / "calibration.yaml").write_text(yaml.safe_dump({
        "cameras": [{"name": n, "camera_calibration": {"path": n, "glob_pattern": "*.png"}} for n in nm],
        "camera_calibration": {"pattern": r.choice(["Chessboard", "Circles"]), "cols": rows, "rows": cols, "size": dim,
                               "invert": r.random() < 0.5}}))
    try:
        with quiet(), joblib.parallel_backend("sequential"):
            require(tool(["mono"], raw), "the calibration ended early")
    finally:
        clean(nm)
    want = {"mono_%s.yaml" % n for i, n in enumerate(nm) if i not in blind}
    have = {p.name for p in out.iterdir() if p.suffix == ".yaml"}
    require(have == want, "wrote %s, expected %s" % (sorted(have), sorted(want)))
    t.nontrivial(True, "%d of %d" % (len(blind), len(nm)))
