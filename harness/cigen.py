"""Image dives for the correct_images checks."""
import contextlib
import os
from pathlib import Path

import cv2
import imageio.v2 as iio
import joblib
import numpy as np
import yaml

import cli
from pbt import require

CAMS = ("LC", "RC")
BAYER = {"rggb": cv2.COLOR_BAYER_BG2RGB_EA, "grbg": cv2.COLOR_BAYER_GB2RGB_EA,
         "bggr": cv2.COLOR_BAYER_RG2RGB_EA, "gbrg": cv2.COLOR_BAYER_GR2RGB_EA}


def unit(px, bits):
    box = 8 * px.dtype.itemsize
    return (px.astype(np.int64) >> (box - bits)) / 2.0 ** bits


def demosaic(x, ctype):
    if ctype == "bgr":
        return x[..., ::-1]
    if ctype not in BAYER:
        return x
    y = np.clip(x.astype(np.float32) * 65535, 0, 65535).astype(np.uint16)
    return cv2.cvtColor(y, BAYER[ctype]).astype(float) / 65536


def finish(x):
    g = 12.92 * x if x.max() < 0.0031308 else 1.055 * x ** (1 / 1.5) - 0.055
    return np.clip(255 * g, 0, 255)


def same_image(path, want, what):
    got = iio.imread(path)
    require(got.shape == want.shape, "%s: shape %s, expected %s" % (what, got.shape, want.shape))
    bad = np.abs(got.astype(float) - want) > 1.6
    require(not bad.any(), lambda: "%s: %d of %d values differ, e.g. %s instead of %s" % (
        what, bad.sum(), bad.size, got[bad][:4], want[bad][:4]))


def stem(i, cam):
    return "PR_20180811_%02d%02d%02d_%03d_%s16" % (10 + i // 3600, (i // 60) % 60, i % 60, (i * 37) % 1000, cam)


def mission():
    s = {"format": "phins", "filepath": "nav/", "filename": "20200302_phins.txt", "timezone": "utc",
         "timeoffset": 0.0}
    return {"version": 1, "origin": {"latitude": 10.0, "longitude": 20.0, "date": "2018/08/11",
                                     "coordinate_reference_system": "wgs84"},
            "velocity": dict(s), "orientation": dict(s), "depth": dict(s), "altitude": dict(s),
            "image": {"format": "acfr_standard", "timezone": 0, "timeoffset": 0.0,
                      "cameras": [{"name": c, "path": "image"} for c in CAMS]}}


def config(method="colour_correction", metric="altitude", parse=(2, 12), process=(2, 12), smoothing="median",
           cams=CAMS, lists=("none", "none"), brightness=30, contrast=3, gain=None, sub=None,
           undistort=False, fmt="png", nav="json_renav_*", other=None):
    """other: where the settings of a camera without images are listed (first or last), or None"""
    cc = []
    for c in cams:
        cc.append({"camera_name": c, "image_file_list": {"parse": lists[0], "process": lists[1]},
                   "colour_correction": {"brightness": brightness, "contrast": contrast},
                   "manual_balance": {"subtractors_rgb": sub or [0, 0, 0], "colour_gain_matrix_rgb":
                                      gain or [[1, 0, 0], [0, 1, 0], [0, 0, 1]]}})
    if other:
        cc.insert(0 if other == "first" else len(cc), {
            "camera_name": "XC", "image_file_list": {"parse": "xp.txt", "process": "xq.txt"},
            "colour_correction": {"brightness": 7, "contrast": 1},
            "manual_balance": {"subtractors_rgb": [0.2, 0.1, 0.2], "colour_gain_matrix_rgb":
                               [[3, 0, 1], [0, 3, 0], [0, 1, 3]]}})
    return {"version": 2, "method": method,
            "colour_correction": {"distance_metric": metric, "metric_path": nav, "altitude_filter": {
                "parse": {"min_m": parse[0], "max_m": parse[1]},
                "process": {"min_m": process[0], "max_m": process[1]}},
                "smoothing": smoothing, "window_size": 3},
            "cameras": cc, "output_settings": {"undistort": undistort, "compression_parameter": fmt}}


def dirs(root, dive="dive"):
    return [root / k / "y" / "p" / dive for k in ("raw", "processed", "configuration")]


def write_dive(root, images, cam="LC", ctype="rggb", bits=16, conf=None, suffix="", nav="json_renav_a",
               kind="ekf", dive="dive", rows=None, ext="tif"):
    """images: list of (stem, array or None for a missing file, altitude text)."""
    raw, pro, cfg = dirs(root, dive)
    for d in (raw / "image" / "i1", pro / nav / "csv" / kind, cfg):
        d.mkdir(parents=True, exist_ok=True)
    frames = ("origin", "usbl", "dvl", "ins", "depth", "LC", "RC")
    (raw / "mission.yaml").write_text(yaml.safe_dump(mission()))
    (raw / "vehicle.yaml").write_text(yaml.safe_dump({k: {
        "surge_m": 0, "sway_m": 0, "heave_m": 0, "roll_deg": 0, "pitch_deg": 0, "yaw_deg": 0}
        for k in frames}))
    (raw / "camera.yaml").write_text(yaml.safe_dump({"camera_system": "acfr_standard", "cameras": [
        {"name": cam, "type": ctype, "bit_depth": bits, "path": "image/i*/*%s*" % cam, "extension": ext,
         "filename_to_date": "xxxYYYYMMDDxhhmmssxfffxxxxx.xxx"}]}))
    name = "correct_images.yaml" if not suffix else "correct_images_%s.yaml" % suffix
    (cfg / name).write_text(yaml.safe_dump(conf))
    lines = ["relative_path, northing [m], altitude [m], timestamp [s]".replace(", ", ",")]
    for i, (s, px, alt) in enumerate(images):
        rel = "image/i1/%s.%s" % (s, ext)
        if px is not None:
            iio.imwrite(raw / rel, px)
        lines.append("%s,%r,%s,%r" % (rel, 1.5 * i, alt, 1.5e9 + i))
    tag = "dr" if kind == "dead_reckoning" else kind
    (pro / nav / "csv" / kind / ("auv_%s_%s.csv" % (tag, cam))).write_text("\n".join(lines) + "\n")
    return raw, pro, cfg


@contextlib.contextmanager
def quiet(cwd):
    """run the tool in a scratch directory, sequentially and without drawing figures"""
    import logging

    import matplotlib.pyplot as plt
    import oplab.console as console

    real, here = plt.savefig, os.getcwd()
    plt.savefig = lambda *a, **k: None
    os.chdir(cwd)
    try:
        with joblib.parallel_backend("sequential"):
            yield
    finally:
        plt.savefig = real
        plt.close("all")
        os.chdir(here)
        lg = console.logger
        console.logger = None
        if lg is not None:
            for h in list(lg.handlers):
                h.close()
                lg.removeHandler(h)


def parse(paths, force=False, suffix="", mm="."):
    cli.correct_images(cli.argv(["parse"], paths, cli.suffixed(force, suffix) + [
        (("--memmap-location",), mm), (("--memmap-size-gb",), 1)]))


def process(path, force=False, suffix=""):
    cli.correct_images(cli.argv(["process"], [path], cli.suffixed(force, suffix)))


def tree(d):
    return {str(p.relative_to(d)): p.read_bytes() for p in sorted(Path(d).rglob("*")) if p.is_file()}
