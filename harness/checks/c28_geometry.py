"""C28: undistortion straightens images; rescaling gives the requested pixel size."""
import io
import random
from pathlib import Path

import imageio.v2 as iio
import numpy as np
from PIL import Image
from hypothesis import strategies as st

import cigen
import cli
from gen import nice
from pbt import require, require_close, sub

from correct_images import corrections

SEED = st.integers(0, 2 ** 32 - 1)
METHODS = ["bicubic", "bilinear", "nearest_neighbour", "lanczos"]
PIL_METHOD = dict(zip(METHODS, (Image.BICUBIC, Image.BILINEAR, Image.NEAREST, Image.LANCZOS)))


def between(v, x, what):
    """v must be x rounded down, whichever way floating-point rounding falls"""
    require(np.floor(x - 1e-6) <= v <= np.floor(x + 1e-6), "%s is %r, expected %g" % (what, v, x))


@st.composite
def rescale_case(draw):
    return {"h": draw(st.integers(4, 40)), "w": draw(st.integers(4, 40)), "alt": draw(nice(1, 12, 2)),
            "sx": draw(nice(0.3, 3, 2)), "sy": draw(nice(0.3, 3, 2)), "px": draw(nice(0.5, 20, 1)),
            "same": draw(st.booleans()), "method": draw(st.sampled_from(METHODS)),
            "keep": draw(st.booleans()), "seed": draw(SEED)}


def ramp(h, w):
    """red grows to the right, green downwards, blue is constant"""
    v, u = np.mgrid[0:h, 0:w]
    return np.stack([40 + 3 * u, 30 + 4 * v, np.full((h, w), 77)], -1).astype(np.uint8)


@sub("C28", "rescale", rescale_case(), quick=600, thorough=20000, shards=4, max_s=20,
     rule="the scale is not one")
def rescale(c, t):
    sx = c["sx"]
    sy = sx if c["same"] else c["sy"]
    if c["keep"] and abs(sy - 1) < 1e-6:
        sy = sx
    if c["keep"] and abs(sx - 1) < 1e-6:  # rounding decides between the two branches
        sx = sy = 1.05
    m = c["px"] / 100
    fx, fy = c["alt"] / (sx * m), c["alt"] / (sy * m)  # one pixel covers sx (sy) target pixels
    h, w = c["h"], c["w"]
    src = ramp(h, w)
    out = corrections.rescale(src.copy(), c["method"], m, c["alt"], fx, fy, c["keep"])
    require(out.dtype == np.uint8 and out.ndim == 3, "not an 8-bit colour image")
    flat = corrections.rescale(np.full_like(src, 123), c["method"], m, c["alt"], fx, fy, c["keep"])
    require(bool(np.all(flat == 123)), "a uniform image does not stay uniform")
    if c["keep"]:
        require(out.shape == src.shape, "maintain_pixels changed the size to %s" % (out.shape,))
        if sx < 1 or sy < 1:
            # same field of view, coarser detail
            lo_w, lo_h = int(w * sx + 1e-6), int(h * sy + 1e-6)
            ex, ey = (np.arange(w) + 0.5) / w * w - 0.5, (np.arange(h) + 0.5) / h * h - 0.5
            tol_x, tol_y, cut = 1.5 * w / max(lo_w, 1) + 1, 1.5 * h / max(lo_h, 1) + 1, 0.34
        else:
            # the central part, enlarged
            cw, ch = int(w / sx + 1e-6), int(h / sy + 1e-6)
            bw, bh = w - 2 * int((w - cw) / 2), h - 2 * int((h - ch) / 2)
            ex = (w - bw) / 2 + (np.arange(w) + 0.5) / w * bw - 0.5
            ey = (h - bh) / 2 + (np.arange(h) + 0.5) / h * bh - 0.5
            # a crop on the edge of a pixel may fall to either side by rounding
            tol_x, tol_y = (2.1 if abs(q - round(q)) < 1e-6 else 1.1 for q in (w / sx, h / sy))
            cut = 0.3
    else:
        between(out.shape[1], w * sx, "width")
        between(out.shape[0], h * sy, "height")
        ow, oh = out.shape[1], out.shape[0]
        ex, ey = (np.arange(ow) + 0.5) * w / ow - 0.5, (np.arange(oh) + 0.5) * h / oh - 0.5
        tol_x, tol_y, cut = 0.7 + 0.6 * w / ow, 0.7 + 0.6 * h / oh, 0.2
        # the interpolation is the one asked for
        noise = np.random.default_rng(c["seed"]).integers(0, 256, (h, w, 3)).astype(np.uint8)
        got = corrections.rescale(noise.copy(), c["method"], m, c["alt"], fx, fy, False)
        ref = np.asarray(Image.fromarray(noise).resize((ow, oh), resample=PIL_METHOD[c["method"]]))
        require(bool(np.all(np.abs(got.astype(float) - ref) <= 1)), "not interpolated by " + c["method"])
    oh, ow = out.shape[:2]
    iu = slice(int(ow * cut), ow - int(ow * cut))
    iv = slice(int(oh * cut), oh - int(oh * cut))
    got = out[iv, iu].astype(float)
    require(bool(np.all(np.abs((got[..., 0] - 40) / 3 - ex[iu][None, :]) <= tol_x)),
            lambda: "columns are %s, expected %s" % ((got[0, :, 0] - 40) / 3, ex[iu]))
    require(bool(np.all(np.abs((got[..., 1] - 30) / 4 - ey[iv][:, None]) <= tol_y)),
            lambda: "rows are %s, expected %s" % ((got[:, 0, 1] - 30) / 4, ey[iv]))
    require(bool(np.all(np.abs(got[..., 2] - 77) <= 1)), "a constant channel changed")
    t.nontrivial(abs(sx - 1) > 0.02, ("maintain pixels " if c["keep"] else "") + (
        "coarser" if sx < 1 else "finer"))


def calib_yaml(K, d, w, h, name="LC"):
    def m(x, r, k):
        return "!!opencv-matrix\n  rows: %d\n  cols: %d\n  dt: d\n  data: [%s]\n" % (
            r, k, ", ".join("%.9f" % v for v in np.asarray(x, float).ravel()))
    P = np.zeros((3, 4))
    P[:, :3] = K
    return ("%%YAML:1.0\nimage_width: %d\nimage_height: %d\ncamera_name: %s\ncamera_matrix: %s"
            "distortion_model: plumb_bob\ndistortion_coefficients: %srectification_matrix: %s"
            "projection_matrix: %s" % (w, h, name, m(K, 3, 3), m(d, 1, 5), m(np.eye(3), 3, 3), m(P, 3, 4)))


def distort(x, y, d):
    k1, k2, p1, p2, k3 = d
    r2 = x * x + y * y
    s = 1 + k1 * r2 + k2 * r2 ** 2 + k3 * r2 ** 3
    return (x * s + 2 * p1 * x * y + p2 * (r2 + 2 * x * x),
            y * s + p1 * (r2 + 2 * y * y) + 2 * p2 * x * y)


def undistort(xd, yd, d):
    x, y = xd.copy(), yd.copy()
    for _ in range(60):
        ex, ey = distort(x, y, d)
        x, y = x - (ex - xd), y - (ey - yd)
    return x, y


def camera(r):
    w, h = r.choice([(64, 48), (60, 60), (48, 72)])
    f = r.uniform(1.1, 1.6) * max(w, h)
    K = np.array([[f * r.uniform(0.9, 1.1), 0, w / 2 + r.uniform(-4, 4)],
                  [0, f, h / 2 + r.uniform(-4, 4)], [0, 0, 1]])
    d = [r.uniform(-0.3, 0.3), r.uniform(-0.1, 0.1), r.uniform(-0.005, 0.005), r.uniform(-0.005, 0.005),
         r.uniform(-0.05, 0.05)] if r.random() < 0.9 else [0.0] * 5
    return w, h, K, d


def scene(K, d, w, h, g):
    """what the distorting camera sees of a plane whose brightness is linear in the ray"""
    v, u = np.mgrid[0:h, 0:w].astype(float)
    x, y = undistort((u - K[0, 2]) / K[0, 0], (v - K[1, 2]) / K[1, 1], d)
    return np.stack([120 + 100 * (a * x + b * y) for a, b in g], -1)


def straight(img, g, K, tol, what):
    """every channel must be linear in the pixel coordinates, with the slopes of the scene"""
    img = img[3:-3, 3:-3]  # the outermost pixels may lie outside the source image
    h, w = img.shape[:2]
    v, u = np.mgrid[0:h, 0:w].astype(float)
    A = np.stack([u.ravel(), v.ravel(), np.ones(h * w)], -1)
    for k, (a, b) in enumerate(g):
        y = img[..., k].astype(float).ravel()
        s, *_ = np.linalg.lstsq(A, y, rcond=None)
        err = np.abs(A @ s - y).max()
        require(err <= tol, "%s: a straight edge is bent by %.3g grey values (channel %d)" % (what, err, k))
        for got, want in ((s[0], 100 * a / K[0, 0]), (s[1], 100 * b / K[1, 1])):
            require(abs(got - want) <= 0.3 * abs(want) + 0.08,
                    "%s: slope %.3g of channel %d, expected about %.3g" % (what, got, k, want))


@sub("C28", "undistort", SEED, quick=200, thorough=6000, shards=4, max_s=20,
     rule="the lens distorts")
def undistort_check(seed, t):
    r = random.Random(seed)
    w, h, K, d = camera(r)
    g = [(r.uniform(-1, 1), r.uniform(-1, 1)) for _ in range(3)]
    f = t.scratch() / "mono_LC.yaml"
    f.write_text(calib_yaml(K, d, w, h))
    src = scene(K, d, w, h, g).astype(np.float32)
    out = corrections.distortion_correct(f, src.copy())
    require(out.shape == src.shape, "undistortion changed the shape to %s" % (out.shape,))
    straight(out, g, K, 0.6, "undistorted image")
    if not any(d):
        require_close(out[1:-1, 1:-1], src[1:-1, 1:-1], "a lens without distortion", 0, 0.6)
    t.nontrivial(any(d), "%dx%d" % (w, h))


@sub("C28", "undistort_dive", SEED, quick=20, thorough=300, shards=4, max_s=30,
     rule="the lens distorts and undistortion is configured")
def undistort_dive(seed, t):
    r = random.Random(seed)
    w, h, K, d = camera(r)
    g = [(r.uniform(-1, 1), r.uniform(-1, 1)) for _ in range(3)]
    if r.random() < 0.7:
        d[0] = r.choice([-1, 1]) * r.uniform(0.25, 0.4)
    on = r.random() < 0.7
    root = t.scratch()
    rows = [(cigen.stem(i, "LC"), scene(K, d, w, h, g).round().clip(0, 255).astype(np.uint8), "5.0")
            for i in range(2)]
    conf = cigen.config(method="manual_balance", cams=("LC",), undistort=on)
    raw, pro, cfg = cigen.write_dive(root, rows, ctype="rgb", bits=8, conf=conf, ext="png")
    cal = pro.parent / "calibration"
    cal.mkdir()
    (cal / "mono_LC.yaml").write_text(calib_yaml(K, d, w, h))
    other = calib_yaml(K * np.array([[1.3], [1.2], [1]]), [0.9 * -x for x in d], w, h, "RC")
    (cal / "mono_RC.yaml").write_text(other)
    with cigen.quiet(root):
        cigen.process(raw)
    outs = sorted(pro.rglob("*LC16.png"))
    require(len(outs) == 2, "%d images developed of 2" % len(outs))
    for p in outs:
        got = iio.imread(p)
        if on:
            straight(got, g, K, 2.6, p.name)
        else:
            require(bool(np.all(np.abs(got.astype(float) - rows[0][1]) <= 1.6)), "image changed")
    t.nontrivial(on and any(d), "undistort " + ("on" if on else "off"))


def rescale_dive_case(seed):
    r = random.Random(seed)
    n = r.randint(1, 5)
    names = r.sample(["img_1", "img_11", "img_111", "b_img_1", "IMG_0001", "IMG_00010", "20200101_1", "x"], n)
    return {"names": names, "alts": [round(r.uniform(2, 8), 3) for _ in names],
            "nav": [r.random() < 0.8 for _ in names], "keep": r.random() < 0.4,
            "px": r.choice([1.0, 2.0, 0.5]), "fx": r.uniform(60, 140), "fy": r.uniform(60, 140),
            "h": r.randint(6, 20), "w": r.randint(6, 20), "method": r.choice(METHODS), "seed": seed,
            "ext": r.choice(["png", "png", "tif", "jpg"])}


@sub("C28", "rescale_dive", SEED.map(rescale_dive_case), quick=60, thorough=2000, shards=4, max_s=20,
     rule="at least two images with different altitudes in the navigation")
def rescale_dive(c, t):
    from unittest import mock

    import imageio
    import imageio.v2
    import yaml

    import correct_images.correct_images as ci
    from correct_images.corrections import rescale as _f  # noqa: F401
    import sys

    mod = sys.modules["correct_images.corrections.rescale"]
    root = t.scratch()
    conf = cigen.config(cams=("LC",))
    raw, pro, cfg = cigen.dirs(root)
    conf["rescale"] = [{"camera_name": "LC", "path": "image/LC/dev", "distance_path": "json_renav_a",
                        "interpolate_method": c["method"], "target_pixel_size": c["px"],
                        "maintain_pixels": c["keep"], "output_folder": "image/LC/rescaled"}]
    cigen.write_dive(root, [("q_LC", np.zeros((c["h"], c["w"]), np.uint16), "5")], conf=conf)
    src = pro / "image" / "LC" / "dev"
    src.mkdir(parents=True)
    (src / "filelist.csv").write_text("not an image\n")
    K = np.array([[c["fx"], 0, c["w"] / 2], [0, c["fy"], c["h"] / 2], [0, 0, 1]])
    for d in (pro, pro.parent):
        (d / "calibration").mkdir()
        (d / "calibration" / "mono_LC.yaml").write_text(calib_yaml(K, [0] * 5, c["w"], c["h"]))
    lines = ["relative_path,altitude [m]"]
    rng = np.random.default_rng(c["seed"])
    pics = {}
    for n, a, nav in zip(c["names"], c["alts"], c["nav"]):
        pics[n] = rng.integers(0, 256, (c["h"], c["w"], 3), dtype=np.uint8)
        iio.imwrite(src / (n + "." + c["ext"]), pics[n])
        pics[n] = iio.imread(src / (n + "." + c["ext"]))
        if nav:
            lines.append("image/LC/%s.tif,%r" % (n, a))
    (pro / "json_renav_a" / "csv" / "ekf" / "auv_ekf_LC.csv").write_text("\n".join(lines) + "\n")
    before = cigen.tree(src)
    # the FreeImage library is not installed here: images are written with the default PNG writer
    def write(path, image, format=None, **kw):
        require(format in (None, "PNG-FI", "png", "PNG"), "written as %r" % format)
        b = io.BytesIO()
        iio_write(b, image, format="PNG-PIL")
        Path(path).write_bytes(b.getvalue())
    iio_write = imageio.v2.imwrite
    patches = [mock.patch("imageio.plugins.freeimage.download", lambda *a, **k: None),
               mock.patch.object(imageio.v2, "imwrite", write), mock.patch.object(imageio, "imwrite", write)]
    if hasattr(mod, "imwrite"):
        patches.append(mock.patch.object(mod, "imwrite", write))
    for p in patches:
        p.start()
    try:
        with cigen.quiet(root):
            cli.correct_images(["rescale", str(raw)])
    finally:
        for p in patches:
            p.stop()
    require(cigen.tree(src) == before, "the source images were changed")
    out = pro / "image" / "LC" / "rescaled"
    want = sorted(n for n, nav in zip(c["names"], c["nav"]) if nav)
    got = sorted(p.stem for p in out.iterdir())
    require(got == want, "rescaled %s, expected %s" % (got, want))
    for n, a in zip(c["names"], c["alts"]):
        if n not in want:
            continue
        im = np.asarray(Image.open(out / (n + "." + c["ext"])))
        ref = corrections.rescale(pics[n], c["method"], c["px"] / 100, a, c["fx"], c["fy"], c["keep"])
        if not c["keep"]:
            between(im.shape[1], c["w"] * a / c["fx"] / (c["px"] / 100), "width of " + n)
            between(im.shape[0], c["h"] * a / c["fy"] / (c["px"] / 100), "height of " + n)
        require(im.shape == ref.shape and bool(np.all(im == ref)),
                "%s is not rescaled with its own altitude" % n)
    t.nontrivial(len(want) >= 2, "maintain pixels" if c["keep"] else "new size")
