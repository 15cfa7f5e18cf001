"""C30: laser calibration: planes, laser detection, triangulation, plane fit and its uncertainty."""
import os
import random
import time

import cv2
import joblib
import numpy as np
import yaml
from hypothesis import strategies as st

import cli
from checks.c18_cameras import rot
from pbt import require, require_close, sub

import auv_cal.laser_calibrator as lc
from auv_cal.plane_fitting import Plane
from auv_cal.ransac import plane_fitting_ransac
from oplab import StereoCamera

SEED = st.integers(0, 2 ** 32 - 1)
if hasattr(lc, "plot_pointcloud_and_planes"):
    lc.plot_pointcloud_and_planes = lambda *a, **k: None  # interactive html plots, slow


class quiet:
    def __enter__(self):
        self.null = open(os.devnull, "w")
        self.fd = os.dup(1)
        os.dup2(self.null.fileno(), 1)

    def __exit__(self, *a):
        import sys
        sys.stdout.flush()
        os.dup2(self.fd, 1)
        os.close(self.fd)
        self.null.close()


def plane(r, tilt=0.6, dist=3.0):
    """unit-normal plane a x + b y + c z + d = 0 with a > 0, crossing x between -dist and dist at the axis"""
    n = np.array([1.0, r.uniform(-tilt, tilt), r.uniform(-tilt, tilt)])
    n /= np.linalg.norm(n)
    d = -n[0] * r.uniform(-dist, dist)
    return np.r_[n, d]


def on_plane(p, y, z):
    return np.array([-(p[1] * y + p[2] * z + p[3]) / p[0], y, z])


def same_plane(got, want, what, tol):
    got = np.asarray(got, float)
    require(got.shape == (4,) and bool(np.all(np.isfinite(got))), "%s: not a plane: %s" % (what, got))
    got = got / np.linalg.norm(got[:3])
    want = np.asarray(want, float) / np.linalg.norm(want[:3])
    if got[0] * want[0] < 0:
        got = -got
    require(np.linalg.norm(got - want) <= tol, lambda: "%s: %s, expected %s" % (what, got, want))


@sub("C30", "planes", SEED, quick=150, thorough=6000, shards=4, max_s=20,
     rule="the plane is tilted about two axes and its coefficients are not normalised")
def planes(seed, t):
    r = random.Random(seed)
    p = plane(r)
    k = r.choice([1.0, 0.2, 3.0, -2.0, 10 ** r.uniform(-2, 2)])
    pl = Plane(list(k * p))
    same_plane(pl.coeffs, p, "coefficients", 1e-9)
    require_close(np.linalg.norm(pl.normal), 1, "length of the normal", 0, 1e-9)
    require_close(np.linalg.norm(np.cross(pl.normal, p[:3])), 0, "direction of the normal", 0, 1e-9)
    require_close(pl.distance(pl.point), 0, "distance of the plane's own point", 0, 1e-9)
    for _ in range(3):
        q = on_plane(p, r.uniform(-5, 5), r.uniform(0, 15))
        h = r.uniform(-4, 4)
        require_close(pl.distance(q + h * p[:3]), abs(h), "distance to the plane", 1e-9, 1e-9)
        o = q + h * p[:3]
        v = np.array([r.uniform(-1, 1) for _ in range(3)])
        if abs(np.dot(v, p[:3])) > 0.05:
            x = pl.ray_intersection(o, v.copy())
            require_close(pl.distance(x), 0, "distance of the intersection of a ray", 0, 1e-6)
            require_close(np.linalg.norm(np.cross(x - o, v / np.linalg.norm(v))), 0, "distance from the ray",
                          0, 1e-6)
        # a ray that rises slowly from the plane still has one intersection
        u = np.cross(p[:3], v)
        u = u / np.linalg.norm(u) + r.choice([-1, 1]) * 10 ** r.uniform(-4, -1) * p[:3]
        x = pl.ray_intersection(o, u.copy())
        require(x is not None, "a ray at %.2e rad to the plane does not meet it" % np.dot(u, p[:3]))
        require_close(pl.distance(x) / (1 + np.linalg.norm(x - o)), 0, "distance of the intersection of a slow ray", 0, 1e-9)
    require(Plane([2, 0, 0, -1]).ray_intersection(np.zeros(3), np.array([0., 0., 3.])) is None,
            "a parallel ray meets the plane")
    # angles
    b, c = p[1] / p[0], p[2] / p[0]
    pitch, yaw = np.degrees(np.arctan(c)), np.degrees(np.arctan(b))
    q = on_plane(p, r.uniform(-5, 5), r.uniform(0, 15))
    bp, bn, _ = lc.build_plane(pitch, yaw, q)
    same_plane(bp, p, "plane through a point at pitch and yaw", 1e-6)
    require_close(bn, p[:3], "normal at pitch and yaw", 0, 1e-9)
    ang = lc.get_angles(list(k * p[:3]))
    require_close(ang, (np.degrees(np.arccos(min(1, p[0]))), pitch, yaw), "angles of a normal", 1e-5, 1e-4)
    # through three points
    while True:
        pts = [on_plane(p, r.uniform(-5, 5), r.uniform(0, 15)) for _ in range(3)]
        cr = np.linalg.norm(np.cross(pts[1] - pts[0], pts[2] - pts[0]))
        if cr > 1:
            break
    same_plane(lc.plane_through_3_points(pts), p, "plane through three points", 1e-6)
    require_close(abs(np.dot(Plane().fit_non_robust(pts), p)), np.dot(p, p), "plain fit of three points", 1e-6)
    # fits
    n = r.randint(8, 40)
    cloud = np.array([on_plane(p, r.uniform(-5, 5), r.uniform(0, 15)) for _ in range(n)])
    same_plane(Plane().fit_non_robust(list(cloud)), p, "plain fit", 1e-6)
    eps = 0.05
    out = r.randint(0, n // 5)
    bad = np.array([q + r.choice([-1, 1]) * r.uniform(0.5, 2) * p[:3] for q in cloud[:out]]).reshape(-1, 3)
    noisy = np.array([q + r.uniform(-0.002, 0.002) * p[:3] for q in cloud])
    order = list(range(n + out))
    r.shuffle(order)
    mix = np.concatenate([noisy, bad])[order]
    random.seed(seed)
    with quiet():
        got, inl = Plane([1, 0, 0, 1.5]).fit(mix, eps)
        rmodel, rinl = plane_fitting_ransac(mix, 0.05, 3, n * 0.99 - 1e-9, 40)
    rms = np.sqrt(np.mean([(np.dot(p[:3], q) + p[3]) ** 2 for q in mix]))
    if out == 0:
        require(np.max(np.abs(cloud @ (np.asarray(got) / np.linalg.norm(got[:3]))[:3] +
                              got[3] / np.linalg.norm(got[:3]))) < 0.02, "the fit misses the points")
        require(len(inl) == n, "%d of %d points of the plane are inliers" % (len(inl), n))
    g = np.asarray(got) / np.linalg.norm(got[:3])
    mine = [q for q in mix if abs(np.dot(g[:3], q) + g[3]) < eps]
    require(len(mine) == len(inl) and bool(np.all(np.asarray(inl) == np.asarray(mine))),
            "the inliers are not the points close to the fitted plane")
    require(np.mean(np.abs(mix @ g[:3] + g[3])) <= rms + 0.3, "the fitted plane is far from the points")
    # random sample consensus: its inliers are of its best model, and the model is fitted to them
    m = np.asarray(rmodel)
    require(len(rinl) >= 3, "no inliers")
    ref = np.linalg.svd(np.c_[np.asarray(rinl), np.ones(len(rinl))])[-1][-1]
    require(min(np.linalg.norm(m - ref), np.linalg.norm(m + ref)) < 1e-6,
            lambda: "the plane %s is not fitted to its %d inliers" % (m, len(rinl)))
    require(len(rinl) >= n, "consensus of %d points although %d lie on a plane" % (len(rinl), n))
    t.nontrivial(abs(p[1]) > 0.05 and abs(p[2]) > 0.05 and k != 1.0, "%s outliers" % ("with" if out else "no"))


def draw_line(img, rows, amp, sigma, peak):
    """bright line through row rows[u] of column u (None: not visible)"""
    v = np.arange(img.shape[0])[:, None]
    for u, q in rows.items():
        img[:, u] += amp * peak * np.exp(-((v[:, 0] - q) / sigma) ** 2 / 2)


@sub("C30", "detection", SEED, quick=60, thorough=1500, shards=4, max_s=20,
     rule="the laser is visible in some of the searched columns")
def detection(seed, t):
    r = random.Random(seed)
    h, w = r.randint(40, 70), r.randint(180, 240)
    dtype, peak = r.choice([(np.uint8, 255), (np.uint16, 65535), (np.float32, 1.0), (np.float64, 1.0)])
    k = r.choice([3, 5, 7])
    start, end = r.choice([(0, -1), (0, -1), (r.randint(0, 10), -1), (r.randint(0, 10), r.randint(30, 38))])
    last = h if end == -1 else end
    a, b, c = r.uniform(start + 8, last - 10), r.uniform(-0.02, 0.02), r.uniform(-0.05, 0.05)
    rows = {}
    gap = sorted(r.sample(range(80, w - 80), 2)) if r.random() < 0.5 else (0, 0)
    for u in range(w):
        q = a + b * (u - w / 2) + c * np.sin(u / 9)
        q = min(max(q, start + k), last - k - 2)
        if not gap[0] <= u < gap[1]:
            rows[u] = q
    img = np.zeros((h, w))
    dim = {}
    if r.random() < 0.5:  # too dim to be the laser
        dim = {u: rows.pop(u) for u in r.sample(sorted(rows), r.randint(1, len(rows) - 20))}
        draw_line(img, dim, 0.035, 0.8, peak)
    draw_line(img, rows, r.uniform(0.3, 0.9), r.uniform(0.5, 0.9), peak)
    if last < h - 8 and r.random() < 0.7:  # a second line outside the searched rows
        draw_line(img, {u: h - 3 for u in range(w)}, 0.9, 0.7, peak)
        t.label("line outside the searched rows")
    img = np.clip(img, 0, peak).astype(dtype)
    ncol = r.choice([0, 0, 5, 10, 1024])
    cols = list(range(80, w - 80))
    if ncol:
        cols = cols[::max(1, len(cols) // ncol - 1)]
    prior = None
    if r.random() < 0.2:
        cols = sorted(r.sample(range(w), 12))
        prior = [[0, u] for u in cols]
    got = lc.findLaserInImage(img, 0.1, k, ncol, start_row=start, end_row=end, prior=prior)
    want = [u for u in cols if u in rows]
    require([int(x[1]) for x in got] == want, lambda: "laser found in columns %s, expected %s" % (
        [int(x[1]) for x in got], want))
    for q, u in got:
        require(abs(q - rows[int(u)]) <= 0.35, lambda: "laser at row %s of column %s, expected %s" % (
            q, u, rows[int(u)]))
    require(len(lc.findLaserInImage(np.zeros_like(img), 0.1, k, ncol)) == 0, "a laser in a black image")
    t.nontrivial(len(want) > 0, np.dtype(dtype).name)


def load_rig(r, w, h, rect, d, name="rig", names=("cam_l", "cam_r")):
    from checks.c18_cameras import write_stereo
    f = r.uniform(0.75, 1.0) * w
    N = np.array([[f, 0, w / 2 + r.uniform(-3, 3)], [0, f, h / 2 + r.uniform(-3, 3)], [0, 0, 1]])
    base = r.uniform(0.8, 1.5)
    R, R2 = (rot(r, 0.04), rot(r, 0.04)) if rect else (np.eye(3), np.eye(3))
    a = {"w": w, "h": h, "name": names[0], "K": N, "d": [0] * 5, "R": R, "P": np.c_[N, np.zeros(3)]}
    b = {"w": w, "h": h, "name": names[1], "K": N, "d": [0] * 5, "R": R2, "P": np.c_[N, [0, -f * base, 0]]}
    f = d / (name + ".yaml")
    write_stereo(f, a, b, R2.T @ R, R2.T @ [0, -base, 0], np.eye(3), np.eye(3))
    return StereoCamera(f), N, base, (R, R2)


@sub("C30", "triangulation", SEED, quick=200, thorough=6000, shards=4, max_s=20,
     rule="some columns are seen by one camera only or a pair is inverted")
def triangulation(seed, t):
    r = random.Random(seed)
    s = t.scratch()
    remap = r.random() < 0.7
    sc, N, base, (R, _) = load_rig(r, 320, 240, True, s)
    cal = lc.LaserCalibrator(sc, {"detection": {"remap": remap}}, 0)
    p1, p2, want, bad = [], [], [], 0
    odd = False
    for u in range(100, 220, r.choice([1, 3, 7])):
        z = r.uniform(1.5, 9)
        X = np.array([(u - N[0, 2]) / N[0, 0] * z, r.uniform(-0.5, 0.5) * z, z])
        a, b = N @ X, N @ (X - [0, base, 0])
        a, b = a[:2] / a[2], b[:2] / b[2]
        kind = r.choice(["both"] * 6 + ["left", "right", "behind"])
        if kind == "behind":
            a, b = b, a
            bad += 1
        if kind != "right":
            p1.append([a[1], u])
        if kind != "left":
            p2.append([b[1], u])
        if kind == "both":
            want.append(R.T @ X if remap else X)
            for fn in (lc.triangulate_lst, lc.triangulate_dlt):
                require_close(fn([a[1], u], [b[1], u], sc.left.P, sc.right.P), X, fn.__name__, 1e-5, 1e-5)
        odd = odd or kind != "both"
    cloud, good, inv = cal.pointcloud_from_peaks(np.array(p1), np.array(p2))
    require((len(cloud), good, inv) == (len(want), len(want), bad), "%d points, %d good, %d inverted, expected "
            "%d and %d" % (len(cloud), good, inv, len(want), bad))
    for g, q in zip(cloud, want):
        require_close(g, q, "triangulated point", 1e-5, 1e-5)
        require_close(np.ravel(lc.opencv_to_ned(g)), [-g[1], g[0], g[2]], "north-east-down", 1e-6, 1e-5)
    ply = s / "c.ply"
    with quiet():
        lc.save_cloud(ply, [np.reshape(g, (3, 1)) for g in cloud])
    lines = [x.strip() for x in ply.read_text().splitlines()]
    require("element vertex %d" % len(cloud) in lines and lines[0] == "ply", "header of the cloud file")
    body = lines[lines.index("end_header") + 1:]
    require(len(body) == len(cloud), "%d lines for %d points" % (len(body), len(cloud)))
    for ln, q in zip(body, cloud):
        require_close([float(v) for v in ln.split()], q, "point in the cloud file", 0, 1.1e-5)
    t.nontrivial(odd, "remapped" if remap else "raw")


@sub("C30", "fit", SEED, quick=24, thorough=400, shards=4, max_s=20,
     rule="uncertainty planes are requested and there are outliers")
def fit(seed, t):
    r = random.Random(seed)
    s = t.scratch()
    sc, *_ = load_rig(r, 320, 240, False, s)
    n_unc = r.randint(0, 6)
    cal = lc.LaserCalibrator(sc, {"ransac": {"min_distance_threshold": 0.05}}, n_unc)
    random.seed(seed)
    odd = False
    for _ in range(r.choice([1, 2])):  # two lasers are fitted one after the other
        p = plane(r, 0.4, 2)
        centre = [0, 8]
        pts = []
        for _ in range(90):
            pts.append(on_plane(p, centre[0] + r.gauss(0, 0.3), centre[1] + r.gauss(0, 0.3)))
        for ang in (0.3, 0.3 + 2 * np.pi / 3, 0.3 + 4 * np.pi / 3):
            for _ in range(8):
                pts.append(on_plane(p, 4 * np.cos(ang) + r.uniform(-.2, .2), 8 + 4 * np.sin(ang) + r.uniform(-.2, .2)))
        pts = [q + r.uniform(-0.003, 0.003) * p[:3] for q in pts]
        out = r.choice([0, 2])
        pts += [on_plane(p, r.uniform(-1, 1), r.uniform(7, 9)) + r.choice([-1, 1]) * 0.4 * p[:3] for _ in range(out)]
        r.shuffle(pts)
        cloud = np.array(pts)
        with quiet():
            d = yaml.safe_load(cal.fit_and_save(cloud.copy(), s))
        true = np.array([on_plane(p, y, z) for y, z in ((0, 8), (3, 8), (-3, 8), (0, 5), (0, 11))])

        def close(q, what, tol):
            q = np.asarray(q, float) / np.linalg.norm(q[:3])
            far = np.abs(true @ q[:3] + q[3]).max()
            require(far <= tol, lambda: "%s %s is %.3f m off the plane %s" % (what, q, far, p))
        close(d["mean_plane"], "mean plane", 0.04)
        require_close(d["mean_plane"][0], 1, "mean plane is not scaled to x", 0, 1e-9)
        g = np.asarray(d["mean_plane"]) / np.linalg.norm(d["mean_plane"][:3])
        inl = cloud[np.abs(cloud @ g[:3] + g[3]) < 0.05]
        require_close(d["mean_xyz_m"], inl.mean(0), "centre of the inliers", 0, 1e-6)
        unc = d.get("uncertainty_planes", [])
        require(len(unc) == n_unc, "%d uncertainty planes, expected %d" % (len(unc), n_unc))
        for q in unc:
            q = np.asarray(q) / np.linalg.norm(q[:3])
            near = np.sort(np.abs(inl @ q[:3] + q[3]))
            require(near[2] < 1e-7, "an uncertainty plane passes through no three inliers (%s)" % near[:3])
            close(q, "uncertainty plane", 0.02)
        for k in ("date", "user", "host", "version"):
            require(k in d, "%s missing in the result" % k)
        odd = odd or out > 0
    t.nontrivial(odd and n_unc > 0)


@sub("C30", "stratify", SEED, quick=200, thorough=5000, shards=2, max_s=10,
     rule="some bins are full and some points lie outside the range")
def stratify(seed, t):
    r = random.Random(seed)
    s = t.scratch()
    sc, *_ = load_rig(r, 320, 240, False, s)
    lo, bins = r.choice([0, 1, 2.5]), r.randint(1, 7)
    hi = lo + r.choice([1, 3, 7, 19])
    cap = r.randint(1, 6)
    cal = lc.LaserCalibrator(sc, {"stratify": {"min_z_m": lo, "max_z_m": hi, "number_of_bins": bins,
                                               "max_points_per_bin": cap}}, 0)
    pts = []
    for k in range(r.randint(0, 40)):
        z = r.choice([r.uniform(lo - 1, hi + 1), r.uniform(lo, hi), lo, hi] + [hi - 1e-6] * (seed % 3 == 0))
        pts.append(np.array([[k], [-k], [z]], dtype=np.float32))
    random.seed(seed)
    with quiet():
        out = cal.z_stratified_sampling(list(pts))
    ids = [int(q[0, 0]) for q in out]
    require(len(set(ids)) == len(ids), "a point is used twice")
    for q in out:
        require(bool(np.array_equal(q, pts[int(q[0, 0])])), "a point was changed")

    def bin_of(q):
        x = (float(q[2, 0]) - lo) / (hi - lo) * bins
        return None if not lo <= float(q[2, 0]) < hi else x
    full = outside = False
    edges = [bin_of(q) for q in pts]
    if any(e is not None and abs(e - round(e)) < 1e-4 and e > 1e-4 for e in edges):
        # a point on the edge of two bins: only bounds hold
        require(all(bin_of(q) is not None for q in out), "a point outside the range is used")
        t.label("on an edge")
    else:
        for b in range(bins):
            have = sum(1 for e in edges if e is not None and int(e) == b)
            got = sum(1 for q in out if bin_of(q) is not None and int(bin_of(q)) == b)
            require(got == min(have, cap), "bin %d has %d of %d points, at most %d" % (b, got, have, cap))
            full = full or have > cap
        outside = any(e is None for e in edges)
        require(len(out) == sum(1 for q in out if bin_of(q) is not None), "a point outside the range is used")
    t.nontrivial(full and outside, "%d bins" % bins)


def shoot(r, w, h, N, base, Rs, lasers, plan, folders, only, sides):
    """pictures of the laser lines by both cameras, and where the lines are (left camera, north-east-down)"""
    long_names = r.random() < 0.5
    prefix = r.choice(["", "image"])
    names, truth = [[], []], [[] for _ in lasers]
    back = [R.T for R in Rs]  # rectified frame -> camera frame
    for i, (kind, z0) in enumerate(plan):
        sl = (r.uniform(-0.03, 0.03), r.uniform(-0.03, 0.03))
        imgs = [np.zeros((h, w)), np.zeros((h, w))]
        for li, p in enumerate(lasers):
            # rectified frame: Y = p3 + p1 X + p2 Z on the laser plane, Z = z0 + sl0 X + sl1 Y on the floor
            ks = (np.arange(-60, w + 60, 0.5) - N[0, 2]) / N[0, 0]
            Z = (z0 + sl[1] * p[3]) / (1 - sl[0] * ks - sl[1] * (p[1] * ks + p[2]))
            q = np.stack([ks * Z, p[3] + p[1] * ks * Z + p[2] * Z, Z])
            lo, hi = (0, w) if r.random() < sides else sorted((r.randint(0, w), r.randint(0, w)))
            for c in (0, 1):
                qc = back[c] @ (q - np.array([[0], [c * base], [0]]))
                uv = N @ qc
                uv = uv[:2] / uv[2]
                if kind != "black":
                    line = np.interp(np.arange(w), uv[0], uv[1])
                    draw_line(imgs[c], {u: line[u] for u in range(lo, hi)}, 0.8, 0.8, 255)
            if kind == "pair":
                sel = (ks * N[0, 0] + N[0, 2] > 80) & (ks * N[0, 0] + N[0, 2] < w - 80)
                x, y, z = back[0] @ q[:, sel]
                truth[li] += list(np.stack([-y, x, z], 1))
        sec, us = 1600000000 + 10 * i, r.randint(30000, 900000)
        for c in (0, 1):
            if kind == "single" and c != only:
                continue
            if long_names:
                tt = time.strftime("%Y%m%d_%H%M%S", time.gmtime(sec))
                nm = "%s_%06d_%s_%06d_x" % (tt, us + (r.randint(-20000, 20000) if c else 0), tt, us)
            else:
                nm = (prefix if c == 0 else "") + "%06d" % i
            fn = folders[c] / (nm + ".png")
            cv2.imwrite(str(fn), np.clip(imgs[c], 0, 255).astype(np.uint8))
            names[c].append(fn)
    return names, truth


def setup(r, two):
    """laser planes at a rig with a base line of 1, and the settings that find them"""
    lasers = [np.array([1.0, r.uniform(-0.02, 0.02), r.uniform(-0.01, 0.01), y])
              for y in ((-0.45, 1.45) if two else (r.choice([-0.45, 1.45, 0.5]),))]
    return lasers, {"detection": {"window_size": 5, "min_greenness_ratio": 0.1, "num_columns": 18, "two_lasers": two},
                    "stratify": {"min_z_m": 0.5, "max_z_m": 30, "number_of_bins": 4, "max_points_per_bin": 300},
                    "ransac": {"min_distance_threshold": 0.3}}


def on_laser(d, truth, what):
    g = np.asarray(d["mean_plane"], float)
    g = g / np.linalg.norm(g[:3])
    dist = np.abs(np.array(truth) @ g[:3] + g[3])
    require(dist.max() < 0.12, lambda: "%s: plane %s is up to %.3f m from the laser line" % (
        what, d["mean_plane"], dist.max()))


@sub("C30", "calibrate", SEED, quick=8, thorough=200, shards=4, max_s=120,
     rule="an image has no partner or shows no laser")
def calibrate(seed, t):
    r = random.Random(seed)
    s = t.scratch()
    w, h = 250, 170
    two, rect = r.random() < 0.5, r.random() < 0.5
    sc, N, base, Rs = load_rig(r, w, h, rect, s)
    near = 1.5 * base * N[1, 1] / (h / 2 - 12)  # closest floor at which both lines are in both images
    lasers, cfg = setup(r, two)
    for p in lasers:
        p[3] *= base
    raw = [s / "raw" / "cal" / n for n in ("l", "r")]
    for d in raw:
        d.mkdir(parents=True)
    floors = [near * k for k in (1.1, 1.25, 1.45, 1.7)]
    plan = [("pair", z) for z in floors]
    if r.random() < 0.4:
        plan.append(("black", near * 1.2))
    only = r.choice([None, 0, 0, 1, 1])
    r.shuffle(plan)
    if only is not None:
        plan.insert(r.randint(0, len(plan) - 1), ("single", near * 1.3))
    names, truth = shoot(r, w, h, N, base, Rs, lasers, plan, raw, only, r.choice([1, 0.8]))
    cfg["detection"]["remap"] = rect or r.random() < 0.5
    if two:
        cfg["detection"].update(start_row=0, end_row=int(N[1, 2]), start_row_b=int(N[1, 2]), end_row_b=-1)
    out = s / "processed"
    out.mkdir()
    results = []
    for again in (False, True):
        random.seed(seed)
        cal = lc.LaserCalibrator(sc, cfg, 0)
        with quiet(), joblib.parallel_backend("sequential"):
            cal.cal(list(names[0]), list(names[1]), out)
        res = [yaml.safe_load(cal.yaml())] + ([yaml.safe_load(cal.yaml_b())] if two else [])
        for li, d in enumerate(res):
            on_laser(d, truth[li], "laser %d" % li)
        results.append([d["mean_plane"] for d in res])
        found = sorted((s / "processed" / "cal").rglob("*.txt"))
        stamp = [(x, x.stat().st_mtime_ns) for x in found]
        require(len(found) == 2 * sum(k != "single" for k, _ in plan), "%d detection files" % len(found))
        if again:
            require(stamp == before, "detections were computed again")
        before = stamp
    for a, b in zip(*results):
        require_close(a, b, "plane from stored detections", 0, 1e-3)
    t.nontrivial(len(plan) > len(floors), ("two lasers" if two else "one laser") +
                 (", rectified" if rect else ""))


@sub("C30", "command", SEED, quick=6, thorough=100, shards=3, max_s=120,
     rule="a calibration is refused, forced, or has a suffix")
def command(seed, t):
    """auv_cal laser: its own files, once, from the pictures and the stereo calibration of the first two cameras"""
    r = random.Random(seed)
    s = t.scratch() / "data"
    w, h = 250, 170
    two, rect = r.random() < 0.5, r.random() < 0.5
    raw, pro = (s / x / "cruise" / "auv" / "dive" for x in ("raw", "processed"))
    cfg, out = (s / x / "cruise" / "auv" / "calibration" for x in ("configuration", "processed"))
    for d in (raw, pro, cfg, out):
        d.mkdir(parents=True)
    nm = r.sample(["LC", "RC", "Cam51707923", "LM165"], 2)
    sc, N, base, Rs = load_rig(r, w, h, rect, out, "stereo_%s_%s" % tuple(nm), nm)
    near = 1.5 * base * N[1, 1] / (h / 2 - 12)
    lasers, laser = setup(r, two)
    for p in lasers:
        p[3] *= base
    if two:
        laser["detection"].update(start_row=0, end_row=int(N[1, 2]), start_row_b=int(N[1, 2]), end_row_b=-1)
    elif r.random() < 0.5:
        del laser["detection"]["two_lasers"]
    laser["detection"]["remap"] = rect or r.random() < 0.5
    where = r.choice([raw, raw, pro])
    folders = [where / "image" / n for n in nm]
    for d in folders:
        d.mkdir(parents=True)
    skip = r.choice([None, 0, 1, 2])
    plan = [("black", near * 1.2)] * (skip or 0) + [("pair", near * (1.1 + 0.08 * k)) for k in range(8)]
    names, truth = shoot(r, w, h, N, base, Rs, lasers, plan, folders, None, 1)
    if skip:
        # pictures of something else before the first ones that count
        for n in [x[:skip] for x in names]:
            for f in n:
                img = np.zeros((h, w), np.uint8)
                img[r.randint(5, 9) + (r.random() < 0.5) * (h // 2)] = 255
                cv2.imwrite(str(f), img)
    conf = {"cameras": [{"name": n, "laser_calibration": {"path": "image/" + n, "glob_pattern": "*.png"}} for n in nm],
            "laser_calibration": laser}
    if skip is not None:
        conf["skip_first"] = skip
    (cfg / "calibration.yaml").write_text(yaml.safe_dump(conf))
    suffix = r.choice(["", "v2", "_v2"])
    stereo = (out / ("stereo_%s_%s.yaml" % tuple(nm))).read_bytes()
    have, odd = {}, False

    def stamps(d, suf):
        return {x: x.stat().st_mtime_ns for x in d.rglob("*" + suf)}
    for step in range(3):
        force, x = (r.choice(["", "F", "FF"]), r.choice(["", suffix])) if step else ("", suffix)
        opts = [(("-F", "--Force"), None)] * (force == "F") + [(("-FF",), None)] * (force == "FF")
        n_unc = r.choice([0, 2])
        opts += [(("-s", "--suffix"), x)] * bool(x) + [(("-u", "--num_uncertainty_planes"), n_unc)]
        suf = x and "_v2"
        mine = ["laser_calibration_%s_%s%s.yaml" % (k, nm[0], suf) for k in ("top", "bottom")[:1 + two]]
        refused = mine[0] in have and not force
        before, found = stamps(out, "yaml"), stamps(pro, ".txt")
        random.seed(seed + step)
        with joblib.parallel_backend("sequential"):
            try:
                cli.auv_cal(cli.argv(["laser"], [r.choice([raw, pro])], opts))
                ok = True
            except SystemExit as e:
                require(e.code != 2, "the command line was not understood")
                ok = False
        msg = "laser%s with suffix %r, step %d" % (force and " -" + force, x, step)
        require(ok == (not refused), "%s was %srefused" % (msg, "not " if ok else ""))
        after, now = stamps(out, "yaml"), stamps(pro, ".txt")
        done = {k.name for k in after if after[k] != before.get(k)}
        want = set() if refused else set(mine)
        require(done == want, "%s wrote %s, expected %s" % (msg, sorted(done), sorted(want)))
        require((out / ("stereo_%s_%s.yaml" % tuple(nm))).read_bytes() == stereo, "the stereo calibration was changed")
        if not refused:
            for li, n in enumerate(mine):
                d = yaml.safe_load((out / n).read_text())
                on_laser(d, truth[li], "%s, %s" % (msg, n))
                require(len(d.get("uncertainty_planes") or []) == n_unc, "%s: uncertainty planes in %s" % (msg, n))
            require(len(now) == 16, "%d detection files for 8 pairs" % len(now))
            if found:
                same = [k for k in now if now[k] == found.get(k)]
                require(len(same) == (0 if force == "FF" else 16), "%s: %d of 16 detections kept" % (msg, len(same)))
        have = {k.name: 0 for k in after}
        odd |= refused or bool(force or x)
    t.nontrivial(odd, ("two lasers" if two else "one laser") + (", in processed" if where == pro else ""))
