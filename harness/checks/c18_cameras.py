"""C18: camera models: distortion, rectification, projection, triangulation and calibration files."""
import random

import cv2
import numpy as np
from hypothesis import strategies as st

from checks.c28_geometry import distort as distort5
from pbt import require, require_close, sub

from oplab import MonoCamera, StereoCamera

SEED = st.integers(0, 2 ** 32 - 1)


def distort(x, y, d):
    """five coefficients, or eight of the rational model"""
    if len(d) == 5:
        return distort5(x, y, d)
    k1, k2, p1, p2, k3, k4, k5, k6 = d
    r2 = x * x + y * y
    s = (1 + k1 * r2 + k2 * r2 ** 2 + k3 * r2 ** 3) / (1 + k4 * r2 + k5 * r2 ** 2 + k6 * r2 ** 3)
    return (x * s + 2 * p1 * x * y + p2 * (r2 + 2 * x * x), y * s + p1 * (r2 + 2 * y * y) + 2 * p2 * x * y)


def rot(r, amp):
    v = np.array([r.uniform(-amp, amp) for _ in range(3)])
    return cv2.Rodrigues(v)[0]


def mat(x, ind, tag=True):
    x = np.atleast_2d(np.asarray(x, float))
    return "!!opencv-matrix\n%s  rows: %d\n%s  cols: %d\n%s  dt: d\n%s  data: [%s]\n" % (
        ind, x.shape[0], ind, x.shape[1], ind, ind, ", ".join("%.12g" % v for v in x.ravel()))


def mono_text(m, ind=""):
    return ("{i}image_width: {w}\n{i}image_height: {h}\n{i}camera_name: {n}\n{i}camera_matrix: {K}"
            "{i}distortion_model: {model}\n{i}distortion_coefficients: {d}{i}rectification_matrix: {R}"
            "{i}projection_matrix: {P}").format(i=ind, w=m["w"], h=m["h"], n=m["name"], model="rational_polynomial" if len(m["d"]) > 5 else "plumb_bob",
                                               K=mat(m["K"], ind),
                                               d=mat([m["d"]], ind), R=mat(m["R"], ind), P=mat(m["P"], ind))


def mono(r, name="LC"):
    w, h = r.choice([(640, 480), (1280, 1024), (800, 800)])
    f = r.uniform(0.9, 1.6) * w
    K = np.array([[f, 0, w / 2 + r.uniform(-30, 30)], [0, f * r.uniform(0.95, 1.05), h / 2 + r.uniform(-30, 30)],
                  [0, 0, 1]])
    d = [r.uniform(-0.2, 0.2), r.uniform(-0.1, 0.1), r.uniform(-0.003, 0.003), r.uniform(-0.003, 0.003),
         r.uniform(-0.05, 0.05)]
    if r.random() < 0.2:
        d += [r.uniform(-0.05, 0.05), r.uniform(-0.02, 0.02), r.uniform(-0.01, 0.01)]
    return {"w": w, "h": h, "name": name, "K": K, "d": d, "R": np.eye(3), "P": np.c_[K, np.zeros(3)]}


def stereo(r):
    """a rectified rig: both cameras see the common frame through R_l, R_r; P has the baseline"""
    a, b = mono(r, "LC"), mono(r, "RC")
    b["w"], b["h"] = a["w"], a["h"]
    b["K"] = a["K"] * np.array([[r.uniform(0.98, 1.02)], [r.uniform(0.98, 1.02)], [1]])
    f = a["K"][1, 1] * r.uniform(0.9, 1.1)
    base = r.uniform(0.05, 1.0)
    N = np.array([[f, 0, a["w"] / 2], [0, f, a["h"] / 2], [0, 0, 1]])
    a["R"], b["R"] = rot(r, 0.03), rot(r, 0.03)
    a["P"] = np.c_[N, np.zeros(3)]
    axis = r.choice([0, 1])  # side by side or above each other
    tr = np.zeros(3)
    tr[axis] = -f * base
    b["P"] = np.c_[N, tr]
    return a, b, base, axis, N


def write_stereo(path, a, b, R, t, F, E):
    path.write_text("%YAML:1.0\nleft:\n" + mono_text(a, "  ") + "right:\n" + mono_text(b, "  ") +
                    "extrinsics:\n  rotation_matrix: " + mat(R, "  ") + "  translation_vector: " +
                    mat(np.reshape(t, (3, 1)), "  ") + "  fundamental_matrix: " + mat(F, "  ") +
                    "  essential_matrix: " + mat(E, "  "))


def same_mono(c, m, what, tol=1e-9):
    require(c.name == m["name"] and (c.image_width, c.image_height) == (m["w"], m["h"]) and
            c.size == (m["w"], m["h"]), "%s: name or size differs" % what)
    for k in ("K", "R", "P"):
        require_close(getattr(c, k), m[k], "%s: %s" % (what, k), 1e-9, tol)
    require_close(np.ravel(c.d), m["d"], "%s: distortion" % what, 1e-9, tol)
    require_close(c.aspect_ratio, m["w"] / m["h"], "%s: aspect ratio" % what, 1e-12, 0)


@sub("C18", "mono", SEED, quick=300, thorough=20000, shards=4, max_s=20,
     rule="the lens distorts and the point is inside the image")
def mono_check(seed, t):
    r = random.Random(seed)
    m = mono(r)
    m["R"] = rot(r, 0.05)
    base = r.choice([0.0, 0.0, r.uniform(-500, 500)])  # of the second camera of a rig
    m["P"][r.choice([0, 1]), 3] = base
    s = t.scratch()
    f = s / "mono_LC.yaml"
    f.write_text("%YAML:1.0\n" + mono_text(m))
    c = MonoCamera(f)
    same_mono(c, m, "loaded camera")
    # write and read again
    g = s / "again.yaml"
    g.write_text(c.to_str(num_images=12, error=0.25))
    same_mono(MonoCamera(g), m, "written and reloaded camera", 1e-6)
    require(("rational_polynomial" in g.read_text()) == (len(m["d"]) > 5), "wrong name of the distortion model")
    t.label("%d coefficients" % len(m["d"]))
    fs = cv2.FileStorage(str(g), cv2.FILE_STORAGE_READ)
    require_close(fs.getNode("number_of_images").real(), 12, "number of images", 0, 0)
    require_close(fs.getNode("avg_reprojection_error").real(), 0.25, "reprojection error", 0, 1e-9)
    # distortion of points
    K, d = m["K"], m["d"]
    n = 0
    for _ in range(5):
        p = np.array([r.uniform(0.15, 0.85) * m["w"], r.uniform(0.15, 0.85) * m["h"]])
        x, y = (p[0] - K[0, 2]) / K[0, 0], (p[1] - K[1, 2]) / K[1, 1]
        xd, yd = distort(x, y, d)
        want = np.array([xd * K[0, 0] + K[0, 2], yd * K[1, 1] + K[1, 2]])
        got = c.distort_point(p)
        inside = 0 < want[0] < m["w"] and 0 < want[1] < m["h"]
        if not inside:
            require(got is None, "a point outside the image is not refused")
            continue
        require_close(got, want, "distorted point", 1e-6, 1e-4)
        back = c.undistort_point(want)
        require_close(back, p, "undistorted point", 0, 0.05)
        n += 1
        # rectification: ray rotated by R, seen by P
        ray = m["R"] @ np.array([x, y, 1])
        rec = (m["P"][:, :3] @ ray)
        rec = rec[:2] / rec[2]
        if 0 < rec[0] < m["w"] and 0 < rec[1] < m["h"]:
            require_close(c.undistort_and_rectify_point(want), rec, "rectified point", 0, 0.05)
            require_close(c.unrectify_and_distort_point(rec), want, "point in the raw image", 0, 0.01)
    # a smaller image of the same camera sees everything at scaled coordinates
    k = r.choice([0.5, 0.25, 0.3])
    q = MonoCamera(f, downsize_ratio=k)
    require(q.size == (int(np.floor(m["w"] * k)), int(np.floor(m["h"] * k))), "downsized size %s" % (q.size,))
    X = np.array([r.uniform(-0.3, 0.3), r.uniform(-0.3, 0.3), 1.0, 1.0])
    for a, b in ((c.P @ X, q.P @ X), (c.K @ X[:3], q.K @ X[:3])):
        require_close(b[:2] / b[2], k * a[:2] / a[2], "projection of the downsized camera", 1e-9, 1e-9)
    mx, my = c.rectification_maps
    require(mx.shape == (m["h"], m["w"]) and my.shape == mx.shape, "maps of shape %s" % (mx.shape,))
    t.nontrivial(n > 0, "%d x %d" % (m["w"], m["h"]))


@sub("C18", "stereo", SEED, quick=300, thorough=20000, shards=4, max_s=20,
     rule="the point is seen by both cameras")
def stereo_check(seed, t):
    r = random.Random(seed)
    a, b, base, axis, N = stereo(r)
    R, tt = rot(r, 0.05), [r.uniform(-1, 1) for _ in range(3)]
    F = np.array([r.uniform(-1, 1) for _ in range(9)]).reshape(3, 3)
    E = np.array([r.uniform(-1, 1) for _ in range(9)]).reshape(3, 3)
    s = t.scratch()
    f = s / "stereo.yaml"
    write_stereo(f, a, b, R, tt, F, E)
    c = StereoCamera(f)
    g = s / "again.yaml"
    g.write_text(c.to_str())
    for cam, tol, what in ((c, 1e-9, "loaded"), (StereoCamera(g), 1e-6, "written and reloaded")):
        same_mono(cam.left, a, what + " left camera", tol)
        same_mono(cam.right, b, what + " right camera", tol)
        for k, v in (("R", R), ("t", np.reshape(tt, (3, 1))), ("F", F), ("E", E)):
            require_close(np.reshape(getattr(cam, k), np.shape(v)), v, what + " " + k, 1e-9, tol)
        require(cam.different_resolution is False and cam.different_aspect_ratio is False,
                "equal cameras reported as different")
    (s / "l.yaml").write_text("%YAML:1.0\n" + mono_text(a))
    b2 = dict(b, w=b["w"] // 2, h=b["h"] // r.choice([2, 4]))
    (s / "r.yaml").write_text("%YAML:1.0\n" + mono_text(b2))
    two = StereoCamera(left=s / "l.yaml", right=s / "r.yaml")
    same_mono(two.left, a, "left file")
    same_mono(two.right, b2, "right file")
    require(two.different_resolution is True, "different resolutions not noticed")
    require(two.different_aspect_ratio is (a["w"] * b2["h"] != b2["w"] * a["h"]), "aspect ratio not noticed")
    seen = 0
    for _ in range(5):
        z = r.uniform(0.5, 12)
        X = np.array([r.uniform(-0.45, 0.45) * z, r.uniform(-0.45, 0.45) * z, z])
        if r.random() < 0.3:
            X[axis] += base
        Y = X.copy()
        Y[axis] -= base
        uv = []
        for P, q in ((N, X), (N, Y)):
            p = P @ q
            p = p[:2] / p[2]
            uv.append(p if 0 < p[0] < a["w"] and 0 < p[1] < a["h"] else None)
        got = c.project_point(list(X))
        for k in (0, 1):
            require((got[k] is None) == (uv[k] is None), "visibility of %s in camera %d" % (X, k))
            if uv[k] is not None:
                require_close(got[k], uv[k], "projection in camera %d" % k, 1e-9, 1e-6)
        if uv[0] is None or uv[1] is None:
            require(tuple(c.project_point_undistorted(list(X))) == (None, None), "a hidden point is seen")
            t.label("seen by one camera or none")
            continue
        seen += 1
        require_close(c.triangulate_point(uv[0], uv[1]), X, "triangulated point", 1e-6, 1e-6)
        raw, ok = [], True
        for cam, q in ((a, X), (b, Y)):
            ray = cam["R"].T @ q
            xd, yd = distort(ray[0] / ray[2], ray[1] / ray[2], cam["d"])
            p = np.array([xd * cam["K"][0, 0] + cam["K"][0, 2], yd * cam["K"][1, 1] + cam["K"][1, 2]])
            ok = ok and 0 < p[0] < cam["w"] and 0 < p[1] < cam["h"]
            raw.append(p)
        if ok:
            got = c.project_point_undistorted(list(X))
            for k in (0, 1):
                require_close(got[k], raw[k], "raw pixel in camera %d" % k, 0, 0.01)
            back = c.triangulate_point_undistorted(raw[0], raw[1])
            require(np.linalg.norm(back - X) <= 0.05 * z * z / base * 0.02 + 0.05 * z,
                    lambda: "triangulation from raw pixels gives %s, expected %s" % (back, X))
            t.label("raw pixels")
    t.nontrivial(seen > 0, "vertical pair" if axis else "horizontal pair")
